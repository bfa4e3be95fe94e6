From ce3c313cf3091860bede0d66131c3e1fec728d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 01/33] fix: mean axial velocity and no NaN for points on the
 cylinder radius within rounding

---
 wiz/VortexCylinder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..28eea62 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -121,22 +121,22 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
         epsilon2[z<0]=0 # No regularization when z<0 # TODO
         k_2  = 4 * r * R / ((R + r)**2 + z**2 + epsilon2)
         k0_2 = 4 * r * R/  ((R + r)**2        + epsilon2)
+    k_2 [k_2>1]=1 # Safety purely for numerical precision
     k = np.sqrt(k_2)
     EE = ellipe(k_2)
     KK = ellipk(k_2)
     #     PI = ellippi(k0_2,k_2)
-    k_2 [k_2>1]=1 # Safety purely for numerical precision
     PI = ellipticPiCarlson(k0_2,k_2)
     # --- Special values
-    PI[PI==np.inf]=0
-    PI[r==R]=0 ; # when r==R, PI=0 TODO, check
+    bR = np.logical_or(np.abs(r-R)/R<1e-8, PI==np.inf) # On the cylinder, within numerical precision
+    PI[bR]=0 ; # when r==R, PI=0 TODO, check
     KK[KK==np.inf]=0 ; # when r==R, K=0  TODO, check
     # ---
     ur[bnIz] = -gamma_t/(2*np.pi) * np.sqrt(R/r) *( (2-k_2)/k * KK - 2.0/k* EE)
     # Term 1 has a singularity at r=R, # T1 = (R-r + np.abs(R-r))/(2*np.abs(R-r))
     T1=np.zeros(r.shape) 
-    T1[r==R] = 1/2
     T1[r<R]  = 1
+    T1[bR]   = 1/2
     if (epsilon!=0):
         # TODO, more work needed on regularization
         epsilon2= r*0+epsilon**2
-- 
2.43.0


From c808c201cbf2ca4475c9ccdbaa7e3ad45e380fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/33] fix: finite cylinder velocity is finite on the axis and
 at the radius, and uses epsilon

---
 wiz/VortexCylinder.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 28eea62..db89b86 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -296,8 +296,6 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
       z1,z2: extent of the cylinder
       epsilon : Regularization parameter, e.g. epsilon=0.0001*R
     Reference: [1]"""
-    EPSILON_AXIS=1e-7; # relative threshold for using axis formula
-
     # --- Main corpus
     Xcp=np.asarray(Xcp)
     Ycp=np.asarray(Ycp)
@@ -308,30 +306,11 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
         else:
             return np.array([]),np.array([]),np.array([]),
 
-    r = np.sqrt(Xcp ** 2 + Ycp ** 2)
-    ur = np.full(r.shape,np.nan)
-    uz = np.full(r.shape,np.nan)
-    ## Vectorialization
-    zz1 = Zcp - z1
-    zz2 = Zcp - z2
-    
-    # Eliptic integrals
-    k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)
-    k2_2 = 4 * r * R / ((R + r) ** 2 + zz2 ** 2)
-    k1 = np.sqrt(k1_2)
-    k2 = np.sqrt(k2_2)
-    k0_2 = 4 * r * R / ((R + r) ** 2)
-
-    EE1 = ellipe(k1_2)
-    KK1 = ellipk(k1_2)
-    EE2 = ellipe(k2_2)
-    KK2 = ellipk(k2_2)
-    PI1 = ellipticPiCarlson(k0_2,k1_2)
-    PI2 = ellipticPiCarlson(k0_2,k2_2)
-    # ur
-    ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
-    # uz
-    uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # Difference of two semi-infinite cylinders (takes care of the special values at r=0 and r=R)
+    ur1,uz1 = vc_tang_u(Xcp,Ycp,Zcp-z1,gamma_t=gamma_t,R=R,polar_out=True,epsilon=epsilon)
+    ur2,uz2 = vc_tang_u(Xcp,Ycp,Zcp-z2,gamma_t=gamma_t,R=R,polar_out=True,epsilon=epsilon)
+    ur = ur1-ur2
+    uz = uz1-uz2
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From ddf4158e97368b30a76013ec74eafe96810b5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/33] fix: longitudinal vorticity cylinder is finite on the
 axis and at the radius

---
 wiz/VortexCylinder.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index db89b86..f9edfdd 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -168,11 +168,19 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     shape_in=vr.shape
     m     = 4*vr*R/((vr+R)**2+vz**2)
     m0    = 4*vr*R/((vr+R)**2)
-    K     = ellipk(m)
-    PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
+    m     = np.minimum(m,1) # Safety purely for numerical precision
+    K     = np.asarray(ellipk(m))
+    PI    = np.asarray(ellipticPiCarlson(m0,m))
+    Ar    = np.asarray(np.where(vr>R, 1., 0.))
+    # --- Special values: on the cylinder (within numerical precision) and on the axis
+    bR    = np.logical_or(np.abs(vr-R)/R<1e-8, PI==np.inf)
+    bAxis = vr < (EPSILON_AXIS * R)
+    PI[bR]         = 0
+    Ar[bR]         = 1/2
+    K [K==np.inf]  = 0
+    vr    = np.where(bAxis, R, vr) # dummy value to avoid division by 0, replaced below
     Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
-    u_psi = gamma_l/2*R/vr*(Ar +Az)
+    u_psi = np.where(bAxis, 0, gamma_l/2*R/vr*(Ar +Az))
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
-- 
2.43.0


From c2219ec307c587d8183dad3f2e2aea93e1984a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/33] fix: fKxit uses the elliptic parameter b1 instead of
 the radius mask for m!=0

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..8e4d543 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -433,9 +433,9 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
+        bn = (vr) > (EPSILON_AXIS) # NOTE: do not overwrite b1, needed below
+        b0 = np.logical_not(bn)
+        Kxit[bn] = np.multiply(2*(1+m**2)*vr[bn]/(m**2*np.pi),kr2[bn]) - np.multiply(np.multiply(vr[bn],(vr[bn] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bn]**2)),(np.multiply((b1[bn]+j2[bn]),Pi1[bn]) + np.multiply((b2[bn]-j2[bn]),Pi2[bn])))
         Kxit[b0] = 0
     # See yaw article
     chi = np.arctan(m)
-- 
2.43.0


From edff3fbbe943e662cdf3f72adee4b6b64ca21fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 05/33] fix: fKzt defines chi for the fourth alternative
 integral

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8e4d543..12033fd 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -487,6 +487,7 @@ def fKzt(r,m,nout=2):
         for ir,r in enumerate(vr):
             Kztnum3[ir] = 2 * r * np.sqrt(1 + m ** 2) * m / np.pi * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2 + m ** 2 * np.sin(2 * vtheta) ** 2))),vtheta)
         # My formula Alternative form4
+        chi = np.arctan(m)
         vtheta = np.linspace(0,np.pi / 2,1000)
         for ir,r in enumerate(vr):
             Kztnum4[ir] = 2 * r / np.pi * 1 * np.sin(chi) * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((r - np.cos(2 * vtheta)) ** 2 * np.cos(chi) ** 2 + np.sin(2 * vtheta) ** 2))),vtheta)
-- 
2.43.0


From f4d2c5716838d97216e900e4d36a537d5faec936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 06/33] fix: svc_longi_u_polar returns the radial velocity as
 u_r in polar output

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 12033fd..f543a76 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in)   
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 037fe15c165e466239da92aa96de45f4b0eddacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 07/33] fix: svc_root_u_polar polar output keeps the shape of
 the control points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index f543a76..148b9a7 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From dfc98ae6e6e41ed39347ca65ec656576295848a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 08/33] fix: svc_u_polar honours polar_out

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 148b9a7..c82e132 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -237,12 +237,12 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
        - longitudinal vorticity gamma_l
        - a root vortex, Gamma_r
     """
-    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=False)
-    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=False)
+    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
+    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)
+    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-- 
2.43.0


From fffe7de38acb563deff6096bed2d1e9730db9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 09/33] fix: straight root vortex velocity is finite on the
 axis

---
 wiz/VortexCylinderSkewed.py | 4 +++-
 wiz/VortexLine.py           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index c82e132..1c9af38 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -195,7 +195,9 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        bAxis = vr==0 # On the axis: limit upstream, self-induction set to 0 on the line
+        vr    = np.where(bAxis, 1, vr)
+        u_psi = np.where(bAxis, 0, np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2))))
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..699ba15 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -78,7 +78,9 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    bAxis = vr==0 # On the axis: limit upstream, self-induction set to 0 on the line
+    vr    = np.where(bAxis, 1, vr)
+    u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ))
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From 07d6602a195a6b3d4f9bbebe164fba8fc2eb16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 10/33] fix: viscous models 1 to 4 and singular return shape of
 the semi-infinite vortex line

---
 wiz/VortexLine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 699ba15..b9d98b3 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -23,7 +23,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
     crossprod   = np.array([ye*za - ze*ya, ze*xa - xe*za, xe*ya - ye*xa])
     # check for singularity */
     if (denominator < 1e-12 or norm_a < 1e-05):
-        return np.array([[0],[0],[0]])
+        return np.array([0.,0.,0.])
     # viscous model */
     Kv = 1.0
     if visc_model==0:
@@ -31,7 +31,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         if (h < t):
             Kv = h * h / t / t
@@ -39,17 +39,17 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         denominator = denominator + t * norm_r0
         Kv = 1.0
     elif visc_model==5:
-- 
2.43.0


From 43fc9b4b7a36cd90e5aa03c373676f2f498729b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 11/33] fix: ring core models scale with the circulation and
 radius of the ring

---
 wiz/VortexRing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..270d1c0 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -71,7 +71,7 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
 
     # Value on the neighborhood of the ring itself..
     if epsilon==0:
-        Ir = np.logical_and(np.abs(r-r0)<(EPSILON*r0), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-r0)<(EPSILON*r0), np.abs(z)<(EPSILON*r0))
         ur[Ir]=0
         uz[Ir]=Gamma/(4*r0) # NOTE: this is arbitrary
     else:
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
@@ -133,11 +133,11 @@ def ring_u(Xcp,Ycp,Zcp,Gamma=-1,R=1,polar_out=True,epsilon=0):
 
     # Value on the neighborhood of the ring itself..
     if epsilon==0:
-        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<(EPSILON*R))
         ur[Ir]=0
         uz[Ir]=Gamma/(4*R) # NOTE: this is arbitrary
     else:
-        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<(EPSILON*R))
         ur[Ir]=0
         uz[Ir]=Gamma/(4*np.pi*R)*(np.log(8*R/epsilon)-1/4) # Eq 35.36 from [1]
 
-- 
2.43.0


From bacf7365e158af39453d3c7def829162cb53e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 12/33] fix: orth_vect finds an orthogonal vector for equal
 components despite rounding

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..4c019ce 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,12 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    cmin=(1-1e-10)/np.sqrt(3) # At least one component is above this value, even with rounding
+    if abs(u[0])>=cmin:
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=cmin:
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=cmin:
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From 8703e35ea53e48942f2cfd52628afc22972801a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 13/33] fix: make_colormap works for RGB tuples without alpha

---
 wiz/plotting_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/plotting_functions.py b/wiz/plotting_functions.py
index b277f3e..48a072a 100644
--- a/wiz/plotting_functions.py
+++ b/wiz/plotting_functions.py
@@ -31,7 +31,9 @@ def make_colormap(seq,values=None):
     doubled     = list(itertools.chain.from_iterable(itertools.repeat(s, 2) for s in seq))
     doubled[0]  = (None,)* nComp
     doubled[-1] = (None,)* nComp
-    cdict = {'red': [], 'green': [], 'blue': [], 'alpha':[]}
+    cdict = {'red': [], 'green': [], 'blue': []}
+    if hasAlpha:
+        cdict['alpha'] = []
     for i,v in enumerate(values):
         if hasAlpha:
             r1, g1, b1, a1 = doubled[2*i]
-- 
2.43.0


From 515476d8ecd646b3bc9c2d76cb674fd34b416415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 14/33] fix: vps_u rejects control points of another dimension
 than the vortices

---
 wiz/VortexPoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index 556081f..e36ea4c 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -39,7 +39,7 @@ def vps_u(CP,XV,Gammas,SmoothModel=0,KernelOrder=2,SmoothParam=None):
     ncp    = CP.shape[0]
     nv     = XV.shape[0]
     ndim   = XV.shape[1]
-    ndimCP = XV.shape[1]
+    ndimCP = CP.shape[1]
     if ndim != ndimCP:
         raise Exception('Your control points and vortex point do not have the same dimension.')
 
-- 
2.43.0


From 94b8472bbf39938db8c05e33436f3859b6217d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 15/33] fix: vc_tang_u_doublet accepts any array-like lateral
 coordinate

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index f9edfdd..71f7938 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -32,7 +32,7 @@ def vc_tang_u_doublet(Xcp,Ycp,Zcp,gamma_t=-1,R=1,r_bar_Cut=6, polar_out=True):
     Xcp=np.asarray(Xcp)
     shape_in=Xcp.shape
     Xcp=Xcp.ravel()
-    Ycp=Ycp.ravel()
+    Ycp=np.asarray(Ycp).ravel()
     Zcp=np.asarray(Zcp).ravel()
     Rcp  = np.sqrt(Xcp ** 2 + Ycp **2)
     Rsph = np.sqrt(Rcp ** 2 + Zcp **2)
-- 
2.43.0


From 000a80b45898853bc96887a416d20a335d7debb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 16/33] fix: ss_u accepts scalar control points

---
 wiz/SelfSimilar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/SelfSimilar.py b/wiz/SelfSimilar.py
index 4a77ca7..ee0c3c3 100644
--- a/wiz/SelfSimilar.py
+++ b/wiz/SelfSimilar.py
@@ -26,7 +26,8 @@ def ss_u(Xcp, Ycp, Zcp, gamma_t, R=1, lambda_= 0.587, eta=1.32):
 
     ui0_x = ui0*(1 + z/np.sqrt(z**2 + R**2))          # Eq. (7) from [1]
     uz    = ui0_x * FEPS
-    bWake=Zcp>0
+    uz    = np.asarray(uz)
+    bWake=z>0
     uz[bWake]=0
     return uz
 
-- 
2.43.0


From 5b5ee80001ede7c6c1160813590026495a73df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 17/33] fix: continuous solver functions do not modify the
 arrays of the caller

---
 wiz/Solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..488bf5e 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -78,6 +78,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     misc={}
     # Safety
     if lambda_r[0]==0:
+        lambda_r = np.array(lambda_r,dtype=float) # NOTE: copy, do not modify the array of the caller
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
     if method.lower()=='analytical':
@@ -120,7 +121,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
+    r_cp     = np.array(r_cp,dtype=float).ravel() # NOTE: copy, first element may be modified
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp[0]=r_cp[1]*0.5;
-- 
2.43.0


From 6db948eb19261db2d491afbee2abe3bbc345188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 18/33] fix: tangential convection velocity of the cylinders
 follows Eq. (26), dimensionally consistent

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 488bf5e..58974ff 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -197,8 +197,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From a2e6277eb516193e135c6eb4b0ddd76d2912995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 19/33] fix: discrete wake strength without swirl follows the
 local effective thrust

---
 wiz/Solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 58974ff..2535885 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -231,10 +231,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
                 Cti[i]   = k_r[i]*(1+k_r[i]/(4*lambda_R[i]**2)) # Eq.(32)
             Cteff[i] = Cti[i] - Ctrot[i] #Eq.(38)
             Sbis[i] = 1 - Cteff[i]
-            if bSwirl :
-                gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28)
-            else:
-                gamma_t_bar[i] = - b[i] + np.sqrt(S[i]) 
+            gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28), using Cteff since S does not hold inboard of a high-thrust correction
 #             print('b',b,'S',S)
             if bHighThrustCorr:
                 if (Cteff[i] > Ct_c):
-- 
2.43.0


From 41412a5f7e0be86f2745c7e1a5a482b5e69bb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 20/33] fix: no swirl for infinite tip-speed ratio whatever the
 radius and wind speed

---
 wiz/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 2535885..32f5256 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -288,20 +288,20 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
 # --------------------------------------------------------------------------------{
 def WakeVorticityFromCt(r,Ct,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given Ct"""
-    if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
+    if Omega==np.inf:
+        Omega=800 # TODO, implement infinite lambd formulae directly
     vk=CirculationFromPrescribedCt(r/R,Ct,Lambda,bSwirl)
     Gamma = vk*np.pi*U0**2/Omega
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
 
 def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given circulation """
-    if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
+    if Omega==np.inf:
+        Omega=800 # TODO, implement infinite lambd formulae directly
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
 
 
-- 
2.43.0


From 174378ae368218187a4e2e2b2f8668d9658ef9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 21/33] fix: yaw_wind and yaw_error are not NaN for aligned
 winds, and yaw_error is pi for opposed winds

---
 wiz/WindTurbine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 4c019ce..d72e0f6 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -198,9 +198,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1)) # NOTE: clip for numerical precision
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         return yaw_wind.ravel()[0]
 
     @property
@@ -210,7 +210,10 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        if yaw_sign==0:
+            yaw_error=np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1)) # 0 or pi, NOTE: clip for numerical precision
+        else:
+            yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 9831c21bfa63f7d4a1b1ed1f7a8f7a7a4cd4634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 22/33] fix: the wake skew angle does not depend on full turns
 of the yaw position

---
 wiz/WindTurbine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index d72e0f6..4bebf35 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -277,7 +277,9 @@ class WindTurbine:
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
         if self.chi is None:
             # TODO TODO chi needs induction effect!
-            self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+            dyaw    = self.yaw_wind-self.yaw_pos
+            dyaw    = dyaw - 2*np.pi*np.round(dyaw/(2*np.pi)) # between -pi and pi
+            self.chi= np.sign(e_vert_c.ravel()[1])* dyaw
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
-- 
2.43.0


From 2632afcd437f4d2ad2ac80e4bee6ac29fd49c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 23/33] fix: the wake skew angle follows later changes of yaw
 position and wind

---
 wiz/WindTurbine.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 4bebf35..b74d2d7 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -75,6 +75,8 @@ class WindTurbine:
                    'SS': Self similar model of Troldborg et al.  (not good close to rotor)
                    'VD': Self similar model of Troldborg et al.  (not good close to rotor)
         """
+        self.chi=None
+        self.chi_prescribed=False # True if `chi` was provided by the user with `set_chi`
         self.set_yaw0_coord(e_shaft_yaw0,e_vert)
         self.update_position(r_hub)
         self.update_wind(U0)
@@ -86,7 +88,6 @@ class WindTurbine:
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-        self.chi=None
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -114,12 +115,19 @@ class WindTurbine:
         self.T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw)
         # Rotating the shaft vector so that its coordinate follow the new yaw position
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
+        self._reset_chi()
 
     def update_position(self,r_hub):
         self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
         self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self._reset_chi()
+
+    def _reset_chi(self):
+        """ Skew angle will be recomputed at the next evaluation, unless it was prescribed """
+        if not self.chi_prescribed:
+            self.chi=None
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -246,6 +254,7 @@ class WindTurbine:
 
     def set_chi(self,chi):
         self.chi=chi
+        self.chi_prescribed = chi is not None
     
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
-- 
2.43.0


From 980623f479d4946320f2a0cf26c3e2af4f648dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 24/33] fix: turbine state is independent of later changes to
 the arrays of the caller

---
 wiz/WindTurbine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index b74d2d7..7367e42 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -91,9 +91,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -118,10 +118,10 @@ class WindTurbine:
         self._reset_chi()
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1) # NOTE: copy, independent of the array of the caller
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1) # NOTE: copy, independent of the array of the caller
         self._reset_chi()
 
     def _reset_chi(self):
@@ -194,7 +194,7 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
+        self.r=None if r is None else np.array(r) # NOTE: copy, independent of the array of the caller
         self.Ct=Ct
 
     @property
-- 
2.43.0


From abc2f643040b1fe0b71b6869b5cbefd4f6b0af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 25/33] fix: thrust coefficient given to the WindTurbine
 constructor is used

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 7367e42..e304d28 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -89,6 +89,8 @@ class WindTurbine:
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.Model=Model
+        if Ct is not None:
+            self.update_loading(Ct=Ct)
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
         self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
-- 
2.43.0


From 9401dc74825d7b35aca616a1ea1defa87b012e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 26/33] fix: svcs_longi_u evaluates the ground image at the
 mirrored control points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 1c9af38..36f727c 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -361,7 +361,7 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
-- 
2.43.0


From 705146656632c81b1146eb6ac549619d01ef2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 27/33] fix: primitive of I50 for doublet lines of finite
 length

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..3b95f2f 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 32872328de05eee11eda298228295634ae1074e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 28/33] fix: doublet_line_polar_u lost all digits close to the
 axis (cancellation)

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 3b95f2f..71a074e 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -133,7 +133,7 @@ def doublet_line_polar_u(rcp,zcp,dmz_dz, bSelfInd=False):
     ur=np.zeros(r.shape)
 
     norm2 = r**2+z**2
-    uz[bOK]  = dmz_dz/(4*np.pi) * 1/r[bOK]**2 * ( z[bOK]**3/(norm2[bOK])**(3/2) - z[bOK]/(norm2[bOK])**(1/2) )
+    uz[bOK]  =-dmz_dz/(4*np.pi) * z[bOK]          *  1/(norm2[bOK]  )**(3/2) # NOTE: = 1/r^2 (z^3/n^3-z/n), without cancellation for small r
     uz[bZ0Rp] = 0
     uz[bR0Zm] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zm]
     #uz[bR0Zp] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zp] #<<< No singularity there, but we force it to 0
-- 
2.43.0


From 7e838f27eefeb77fda7602d64a1d9bfb8e7ee101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 29/33] fix: angle between wind and shaft accurate when they
 are nearly aligned (arccos noise above the aligned threshold)

---
 wiz/WindTurbine.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index e304d28..0b6bf2d 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -43,6 +43,10 @@ def orth_vect(u):
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
     return v/np.linalg.norm(v)
 
+def angle(u,v):
+    """ Returns the (unsigned) angle between two 3x1 vectors, also accurate when they are nearly aligned, unlike arccos"""
+    return np.arctan2(np.linalg.norm(np.cross(u.T,v.T)), np.dot(u.T,v))
+
 def transform_T(T_a2b,Xb,Yb,Zb):
     Xa=T_a2b[0,0]*Xb+T_a2b[1,0]*Yb+T_a2b[2,0]*Zb
     Ya=T_a2b[0,1]*Xb+T_a2b[1,1]*Yb+T_a2b[2,1]*Zb
@@ -208,9 +212,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1)) # NOTE: clip for numerical precision
+            yaw_wind = angle(e_w,self.e_horz_g)
         else:
-            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
+            yaw_wind = sign * angle(e_w,self.e_horz_g)
         return yaw_wind.ravel()[0]
 
     @property
@@ -221,9 +225,9 @@ class WindTurbine:
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
         if yaw_sign==0:
-            yaw_error=np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1)) # 0 or pi, NOTE: clip for numerical precision
+            yaw_error=angle(e_w,self.e_shaft_g) # 0 or pi
         else:
-            yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
+            yaw_error=yaw_sign * angle(e_w,self.e_shaft_g)
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From a5cc123bc5b3615591598f6377dc48dffae7f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 30/33] fix: finite doublet line on and close to its
 prolongation (thresholds relative, not absolute)

---
 wiz/VortexDoublet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 71a074e..fccbc90 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -358,7 +358,11 @@ def _integrals_DL_finite(a,b,c,L):
         return ( -2*a**4*b + 6*a**2*b**2*x - 3*b*(b**2 +  a**2*c**2)*x**2 + c**2*(b**2  + a**2*c**2)*x**3 )/ ( (b**2 - a**2*c**2)**2 *(a**2 - 2*b*x + c**2*x**2)**(3/2) )
 
     a=np.asarray(a); b=np.asarray(b);
-    S = np.abs((b**2 - a**2*c**2))<1e-8 # a== b/c
+    # Singular formulae close to the prolongation of the line (a c~=|b|), where their truncation error, D/(c d)^2, is
+    # smaller than the rounding error of the regular ones, eps (a c)^4/D^2 (with d: distance to the closest extremity)
+    d = np.minimum(a, np.sqrt(np.abs(a**2 - 2*b*L + c**2*L**2)))
+    S = np.abs(b**2 - a**2*c**2)**3<=np.finfo(float).eps * (a*c)**4 * (c*d)**2
+    S = np.logical_and(S, np.logical_or(b<=0, b>=c**2*L))
     N = np.logical_not(S)
     aS=a[S]; bS=b[S];
     aN=a[N]; bN=b[N];
-- 
2.43.0


From 6364b3e6dc950d7bd62ac109335b39970f699bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 31/33] fix: plotPlane takes the colour limits from the points
 with a velocity and keeps a given upper limit

---
 coupling_examples/helper_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coupling_examples/helper_functions.py b/coupling_examples/helper_functions.py
index 76d2ae2..d2b2e63 100644
--- a/coupling_examples/helper_functions.py
+++ b/coupling_examples/helper_functions.py
@@ -61,8 +61,9 @@ def plotPlane(x,y,u,v,ax,minSpeed=None,maxSpeed=None, cmap='coolwarm', colors='w
     else:
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+    if maxSpeed is None:
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
-- 
2.43.0


From 5b6e25154b4e96daede6c9194de2617202410e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 32/33] fix: blockage planes are looked up by the rounded
 thrust coefficient

The file name truncated CT*100, so that the planes of CT=0.29, 0.57 and
0.58 were looked for under 28, 56 and 57 (the volumes of the same study are
already looked up by the rounded value).
---
 wiz/article_blockage/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index 9107f7e..e9d8525 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -473,7 +473,7 @@ def loadPlane(CT,HH,Lambda,Horizontal,Yaw):
     if HH>9:
         HH=9.9
 
-    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(CT*100),int(HH*10),Lambda,-Yaw)
+    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(round(CT*100)),int(round(HH*10)),Lambda,-Yaw)
 
     if HH>9:
         # Handling unavailable data
-- 
2.43.0


From e1c1680938a8aee1eca7d329c9917efcda93217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 33/33] fix: colour limits of the blockage planes

A given maxSpeed was discarded when minSpeed was left out (and no maximum
was set when only minSpeed was given), and the limits were nan as soon as
one point had no velocity.
---
 wiz/article_blockage/helper_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index e9d8525..b22ffe0 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -673,8 +673,9 @@ def plotPlane(data,X=None,Y=None,Z=None,ax=None,minSpeed=None,maxSpeed=None, cma
     else:
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+    if maxSpeed is None:
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
@@ -728,8 +729,9 @@ def plotPlaneVert(Y,Z,V,W,ax=None,minSpeed=None,maxSpeed=None, cmap='coolwarm',
     else:
         Speed=np.sqrt(V**2+W**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+    if maxSpeed is None:
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
-- 
2.43.0

