"""C14 far-field approximations"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, turb
from wiz import VortexCylinder as VC, VortexRing as VR, VortexDoublet as VD, SelfSimilar as SS

PI = np.pi
RULE = 'cases draw radius, strength, cut-off and points by class, part of them placed on both sides of the cut-off sphere; a case counts when the strength is not zero'
ASSUMPTIONS = ['convergence bound from the multipole expansion of a uniform disk of sinks (tube) and of a loop (ring): the error is at most 0.76 (R/s)^2 of the leading term, for s >= 1.5 R outside the tube',
               'points within a relative 1e-9 of the cut-off distance are left out', 'far-field acceleration through the turbine: single tube, wind along the shaft (otherwise refused: C19)']


def sphere(pts, R, cut):
    """ points; those flagged are moved to a multiple of the cut-off distance """
    P = gen.XYZ(pts, R)
    for i, p in enumerate(pts):
        f = p['f']
        n = np.sqrt((P[:, i]**2).sum())
        if f is not None and n > 0 and np.isfinite(cut) and cut > 0:
            P[:, i] *= f*cut*R/n
    n = np.sqrt((P**2).sum(0))/R
    ok = np.abs(n-cut) > 1e-9*max(cut, 1e-3)
    if not np.any(ok):
        raise Skip()
    return P[:, ok]


def piecewise(P, g, R, cut, polar, f=VC):
    """ exact inside the cut-off, doublet line beyond, from the separate routines """
    far = np.sqrt((P**2).sum(0)) > cut*R
    ex = vec(VC.vc_tang_u, 2, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, polar_out=True)
    r = np.hypot(P[0], P[1])
    dl = vec(VD.doublet_line_polar_u, 2, r.shape, r, P[2].copy(), g*PI*R**2)
    u = np.where(far, dl, ex)
    if polar:
        return u, far
    psi = np.arctan2(P[1], P[0])
    return np.array([u[0]*np.cos(psi), u[0]*np.sin(psi), u[1]]), far


def chk_piecewise(case):
    R, g, cut = case['R'], case['g'], case['cut']
    P = sphere(case['pts'], R, cut)
    if cut == 1e-3:      # the doublet line is singular near the line
        P = P[:, np.hypot(P[0], P[1]) > 1e-3*R]
    polar = case['polar']
    if case['two_d']:
        P = np.stack((P, P[:, ::-1]), 1)
    want, far = piecewise(P, g, R, cut, polar)
    kw = {} if cut == 6 and case['default'] else dict(r_bar_Cut=cut)
    if not (polar and case['default']):
        kw['polar_out'] = polar
    got = vec(VC.vc_tang_u_doublet, 2 if polar else 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, **kw)
    n = np.sqrt((P**2).sum(0))/R; r = np.hypot(P[0], P[1])/R
    mag = np.abs(want).max(0)
    d = np.minimum(1, np.maximum(np.abs(r-1), 1e-7))
    tol = mag*1e-9+abs(g)*(1e-13*np.where(far, 0, 1)/d**2+1e-13*np.where(far, 0, 1)*(1+n)/np.maximum(r, 1e-6))
    close(got, want, tol, 'far-field accelerated tube (cut-off %g)', cut)
    # and the velocity itself
    ok = far & ((P[2] <= 0) | (r > 1.02))
    if case['two_d']:
        return
    if np.any(ok):
        e = ref.doublet_line(P[:, ok], g*PI*R**2)
        if not polar:
            close(got[:, ok], e, abs(g)/4/n[ok]**2*1e-9+abs(g)*1e-11/r[ok].clip(0.1)**2+abs(g)*4e-8/min(1, R)/n[ok]**3, 'far-field accelerated tube beyond the cut-off')


def tube_error(P, g, R):
    s = np.sqrt((P**2).sum(0))/R
    r = np.hypot(P[0], P[1])/R
    return abs(g)/4/s**2*0.76/s**2+abs(g)*(2e-9+1e-13*s/np.where(r > 0, np.maximum(r, 1e-4), 1))


def chk_converges(case):
    """ tube vs doublet line """
    R, g = case['R'], case['g']
    P = gen.XYZ(case['pts'], R)
    s = np.sqrt((P**2).sum(0))/R
    P = P/np.maximum(s, 1e-3)*np.maximum(s, 1.5+1e-9)     # at least 1.5 radii from the rotor centre
    r = np.hypot(P[0], P[1])/R
    ok = ((r > 1.02) | (P[2] <= 0)) & ((r == 0) | (r > 1e-4)) & (np.sqrt((P**2).sum(0))/R > 1.49)
    if not np.any(ok):
        raise Skip()
    P, r = P[:, ok], r[ok]
    a = (P[0].copy(), P[1].copy(), P[2].copy())
    u = vec(VC.vc_tang_u, 3, P[0].shape, *a, gamma_t=g, R=R, polar_out=False)
    dm = g*PI*R**2
    t = tube_error(P, g, R)
    s = np.sqrt((P**2).sum(0))/R
    w = vec(VD.doublet_line_polar_u, 2, P[0].shape, np.hypot(a[0], a[1]), a[2].copy(), dm)
    psi = np.arctan2(P[1], P[0])
    t0 = abs(g)*4e-8/s**2/np.minimum(1, R)
    close(np.array([w[0]*np.cos(psi), w[0]*np.sin(psi), w[1]]), u, t+t0, 'doublet line (polar) against the tube')
    k = (r > 0.03*s) | (P[2] < 0)
    if np.any(k):
        v = vec(VD.doublet_line_u, 3, P[0].shape, *a, dm)
        close(v[:, k], u[:, k], (t+t0+abs(g)*1e-13*(s/np.maximum(r, 0.03*s*0+1e-2))**4*(P[2] > 0))[k], 'doublet line against the tube')
    ff = vec(VC.vc_tang_u_doublet, 3, P[0].shape, *a, gamma_t=g, R=R, r_bar_Cut=case['cut'], polar_out=False)
    close(ff, u, t+t0, 'far-field accelerated tube against the tube (cut-off %g)', case['cut'])


def chk_order(case):
    """ the error falls at least like distance**-4 along a ray: error(s)*s^4 stays bounded by the leading coefficient, and decreases from one distance to the next """
    R, g = case['R'], case['g']
    n = np.array([np.sqrt(1-case['mu']**2)*np.cos(case['psi']), np.sqrt(1-case['mu']**2)*np.sin(case['psi']), case['mu']])
    s = np.array([3.0, 6.0, 12.0, 24.0])*case['s0']
    if np.hypot(n[0], n[1])*s[0] < 1.02 and n[2] > 0:
        raise Skip()
    P = n.reshape(3, 1)*s*R
    u = vec(VC.vc_tang_u, 3, s.shape, *[P[k].copy() for k in range(3)], gamma_t=g, R=R, polar_out=False)
    v = vec(VD.doublet_line_u, 3, s.shape, *[P[k].copy() for k in range(3)], g*PI*R**2)
    e = np.sqrt(((u-v)**2).sum(0))/abs(g)*4*s**4
    require(np.all(e <= 0.76+3e-9*s**4+1e-13*s**4/max(0.1, np.hypot(n[0], n[1]))**4), 'error of the doublet line times (distance/R)^4 is %s', e.tolist())
    G = case['G']
    w = vec(VR.ring_u, 3, s.shape, *[P[k].copy() for k in range(3)], Gamma=G, R=R, polar_out=False)
    d = vec(VD.doublet_u, 3, s.shape, *[P[k].copy() for k in range(3)], [0, 0, G*PI*R**2])
    e = np.sqrt(((w-d)**2).sum(0))/abs(G)*R*s**5
    require(np.all(e <= 0.76+3e-10*s**5), 'error of the point doublet times (distance/R)^5 is %s', e.tolist())


def chk_ring(case):
    R, G = case['R'], case['g']
    P = gen.XYZ(case['pts'], R)
    s = np.sqrt((P**2).sum(0))/R
    ok = s > 0.02
    if not np.any(ok):
        raise Skip()
    P, s = P[:, ok], s[ok]
    P = P/s*np.maximum(s, 1.5+1e-9); s = np.maximum(s, 1.5+1e-9)
    r = np.hypot(P[0], P[1])/R
    u = vec(VR.ring_u, 3, s.shape, *[P[k].copy() for k in range(3)], Gamma=G, R=R, polar_out=False)
    t = abs(G)/R*(0.76/s**5+1e-10+1e-7*(r < 1e-4))
    d = vec(VD.doublet_u, 3, s.shape, *[P[k].copy() for k in range(3)], [0, 0, G*PI*R**2])
    close(d, u, t, 'point doublet against the ring')
    a = vec(VR.ring_u_polar, 2, s.shape, r*R, P[2].copy(), Gamma=G, r0=R)
    b = vec(VD.doublet_u_polar, 2, s.shape, r*R, P[2].copy(), G*PI*R**2)
    close(b, a, t, 'point doublet against the ring (polar)')


def chk_turbine(case):
    """ models VCFF and VD of an aligned single-tube turbine """
    s = dict(case['s'])
    s['dw'] = 0.0
    cut = case['cut']
    R = s['R']
    P = sphere(case['pts'], R, cut)
    r = np.hypot(P[0], P[1])/R; n = np.sqrt((P**2).sum(0))/R
    ok = (np.abs(r-1) > 1e-3) & ((r > 1e-6) | (P[2]/R < -1e-6)) & (n > 1e-3)
    if not np.any(ok):
        raise Skip()
    P, r, n = P[:, ok], r[ok], n[ok]
    radii, gt, gl, Gr = turb.tubes_of(s)
    g = float(gt[0])
    WT = turb.make(s, case['via'])
    T = turb.geom(s)[3]
    X = turb.to_global(s, P/R)
    L = 1+np.abs(X).max()/R
    kw = {} if (cut == 6 and case['default']) else dict(R_far_field=cut)
    if case['attr']:
        WT.Model = 'VCFF'
    else:
        kw['Model'] = 'VCFF'
    u = turb.velocity(WT, X, only_ind=True, **kw)
    want, far = piecewise(P, g, R, cut, False)
    rr = np.where(far, np.minimum(r, 1), 1)
    tol = abs(g)*(1e-9+1e-11*L/np.minimum(1, np.abs(r-1))**2+1e-12*L*(1+n)/np.maximum(r, 1e-3)+np.where(far, (1e-11*L+4e-8/min(1, R))/n**3+1e-14*L/n**2/np.maximum(rr, 1e-6), 0))+np.abs(want).max(0)*1e-9
    # the cut-off distance itself is subject to the rounding of the translation
    k = np.abs(n-cut) > 1e-12*L*max(cut, 1)
    close(u[:, k], (T @ want)[:, k], tol[k], 'turbine with far-field acceleration (cut-off %g)', cut)
    if case['attr']:
        WT.Model = 'VC'
    ex = turb.velocity(WT, X, only_ind=True)
    j = k & ~far
    close(u[:, j], ex[:, j], 1e-12*abs(g)+1e-12*np.abs(ex[:, j]), 'far-field accelerated turbine within the cut-off (%g)', cut)
    k = (r > 0.05*n) | (P[2] < 0)
    if np.any(k):
        v = turb.velocity(WT, X[:, k], only_ind=True, Model='VD')
        w = vec(VD.doublet_line_u, 3, (int(k.sum()),), *[P[i][k] for i in range(3)], g*PI*R**2)
        w2 = ref.doublet_line(P[:, k], g*PI*R**2)
        rk, nk = r[k], n[k]
        tk = abs(g)*(1e-9/nk**2+1e-9/np.maximum(rk, 0.05*nk)**2*L*1e-2+3e-12*(nk/np.maximum(rk, 1e-2*nk))**4*(P[2][k] > 0)/np.clip(rk, 1e-2, 1)**2+4e-8/min(1, R)/nk**3)
        close(v, T @ w2, tk, 'doublet-line turbine')
        close(T @ w, v, tk, 'doublet-line turbine against the routine')


def ptsf(*cl, lo=1, hi=4):
    f = gen.pick(None, None, 1+1e-6, 1-1e-6, other=gen.uni(0.5, 1.5), p=0.5)
    return st.lists(st.tuples(gen.point(*cl), f).map(lambda t: dict(t[0], f=t[1])), min_size=lo, max_size=hi)


ALL = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'nearR', 'far', 'deep', 'up', 'grid')
cuts = gen.pick(6, 6, 2.0, 1.0, 10, other=st.one_of(gen.logu(-1, 2.3), st.sampled_from([1e-3, 1e6])), p=0.5)
fx = st.fixed_dictionaries
nz = dict(nontrivial=lambda c: c['g'] != 0, classify=gen.classes_of)
LAWS = [
    Law('piecewise', fx(dict(R=gen.radius, g=gen.strength, cut=cuts, polar=st.booleans(), default=st.booleans(), two_d=st.sampled_from([False, False, True]), pts=ptsf(*ALL))), chk_piecewise, 1800, 25000, **nz),
    Law('doublet_line_convergence', fx(dict(R=gen.pick(1.0, 63.5, other=gen.logu(-0.3, 2.5), p=0.4), g=gen.strength, cut=gen.pick(6, other=gen.logu(-0.5, 2)), pts=gen.points('outside', 'generic', 'plane', 'nearplane', 'far', 'up', 'deep', 'axis'))), chk_converges, 1500, 20000, **nz),
    Law('order', fx(dict(R=gen.pick(1.0, 63.5, other=gen.logu(-0.3, 2), p=0.4), g=gen.strength, G=gen.strength, mu=gen.uni0(1), psi=gen.angle, s0=gen.uni(0.5, 2))), chk_order, 400, 5000, nontrivial=lambda c: True),
    Law('ring_to_point_doublet', fx(dict(R=gen.radius, g=gen.strength, pts=gen.points('outside', 'generic', 'plane', 'far', 'up', 'axis', 'deep'))), chk_ring, 800, 10000, **nz),
    Law('turbine_models', fx(dict(s=turb.states(turb.load_single), cut=cuts.filter(lambda c: c > 1e-2), via=st.sampled_from(['ctor', 'update', 'setcoord']), default=st.booleans(), attr=st.booleans(), pts=ptsf(*ALL))), chk_turbine, 900, 12000,
        nontrivial=lambda c: any(x != 0 for x in c['s']['load']['c']), classify=lambda c: [c['s']['load']['k']]),
]
