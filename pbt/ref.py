"""Reference velocities computed from the Biot-Savart law, independently of wiz.

The vorticity sheets are integrated in closed form along the (straight) axial direction and by composite Gauss-Legendre
quadrature along the azimuth, on panels graded dyadically around the angles where the integrand is nearly singular.
Doublet lines are integrated with a sinh substitution.  Everything is in plain numpy.
"""
import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def graded_nodes(centers, ds, n=20):
    """ Nodes/weights on [0,2pi) with panels graded around each center down to a panel size ~ d/2 """
    bp = [0.0, 2*np.pi]
    bp += list(np.linspace(0, 2*np.pi, 7)[1:-1])
    for c, d in zip(centers, ds):
        d = min(max(float(d), 1e-13), 1.0)
        nlev = int(np.ceil(np.log2(2*np.pi/d)))+1
        k = np.pi*0.5**np.arange(0, nlev+1)
        bp += list(np.mod(np.concatenate(([c], c+k, c-k)), 2*np.pi))
    bp = np.unique(np.array(bp))
    h = np.diff(bp)
    keep = h > 1e-15
    a, h = bp[:-1][keep], h[keep]
    x, w = gl(n)
    th = (a[:, None]+h[:, None]*(x[None, :]+1)/2).ravel()
    wt = (h[:, None]*w[None, :]/2).ravel()
    return th, wt


def _centers(P, R, m):
    """ nearly singular azimuths of a (skewed) tube for the control point P, with (relative) distances """
    x, y, z = P/R
    r = np.hypot(x, y)
    c = [np.arctan2(y, x)]
    d = [np.hypot(r-1, z)]
    # nearest sheet line, seen along the direction q=(m,0,1)
    if z > 0:
        xa = x-m*z
        ra = np.hypot(xa, y)
        c.append(np.arctan2(y, xa))
        d.append(max(abs(ra-1)/np.sqrt(1+m*m), 1e-13))
    if abs(m) > 1:
        # strong skew: generatrices of the far side pass close to the point, on either side of the starting plane
        c1 = np.sqrt(1+m*m); xs = x-m*z
        for s in (1, -1):
            for w in np.roots([1-s*c1, -2*(xs-s*1j*c1*y), 1+s*c1]):
                e = abs(np.log(abs(w))) if w != 0 else 9
                if e < 0.5:
                    c.append(np.angle(w)); d.append(max(e, 1e-13))
    return c, d


def tang_tube_1(P, gamma_t, R, m=0.0, n=20):
    """ Semi-infinite tube of tangential vorticity gamma_t (per unit length of the axial coordinate measured along the skewed generatrix),
        starting on the circle z=0 of radius R, generatrix direction (m,0,1).
        Its vortex rings stay parallel to z=0: du = gamma_t sqrt(1+m^2) dz' * ring
    """
    P = np.asarray(P, float)
    cs, ds = _centers(P, R, m)
    th, w = graded_nodes(cs, ds, n)
    ct, st = np.cos(th), np.sin(th)
    # vector from the sheet generatrix start to P, the radial part written to limit cancellation
    p = np.stack((P[0]-R*ct, P[1]-R*st, np.full(th.shape, P[2])))
    q = np.array([m, 0.0, 1.0])
    c2 = 1+m*m; c = np.sqrt(c2)
    a2 = (p**2).sum(0); a = np.sqrt(a2)
    b = m*p[0]+p[2]
    cr = np.stack((p[1]*q[2]-p[2]*q[1], p[2]*q[0]-p[0]*q[2], p[0]*q[1]-p[1]*q[0]))
    cr2 = (cr**2).sum(0)
    den = np.where(b > 0, cr2/(a*c+np.abs(b)), a*c-b)
    I0 = 1/(a*den)                       # int_0^inf ds/|p-q s|^3
    I1 = 1/(c*den)                       # int_0^inf s ds/|p-q s|^3
    V = p*I0-q[:, None]*I1               # int (p-q s)/|p-qs|^3 ds
    dl = np.stack((-R*st, R*ct, 0*th))
    u = np.cross(dl.T, V.T).T            # dl x r
    return gamma_t*c/(4*np.pi)*(u*w).sum(1)


def longi_tube_1(P, gamma_l, R, m=0.0, n=20):
    """ Semi-infinite tube of longitudinal vorticity: filaments gamma_l R dtheta along the generatrices """
    P = np.asarray(P, float)
    cs, ds = _centers(P, R, m)
    th, w = graded_nodes(cs, ds, n)
    p = np.stack((P[0]-R*np.cos(th), P[1]-R*np.sin(th), np.full(th.shape, P[2])))
    c = np.sqrt(1+m*m)
    u = _lines(p, np.array([m, 0, 1.0])/c)
    return gamma_l*R/(4*np.pi)*(u*w).sum(1)


def _lines(p, e):
    """ e x p/(|p|(|p|-e.p)) for columns p, in a form that does not cancel """
    cr = np.stack((e[1]*p[2]-e[2]*p[1], e[2]*p[0]-e[0]*p[2], e[0]*p[1]-e[1]*p[0]))
    a = np.sqrt((p**2).sum(0)); b = e[0]*p[0]+e[1]*p[1]+e[2]*p[2]
    cr2 = (cr**2).sum(0)
    with np.errstate(all='ignore'):
        den = np.where(b > 0, cr2/(a+np.abs(b)), a-b)*a
        u = cr/den
    return u


def line_semiinf(P, Gamma, e):
    """ P (3,n): semi-infinite filament from the origin along the unit vector e """
    P = np.asarray(P, float)
    return Gamma/(4*np.pi)*_lines(P, np.asarray(e, float))


def ring_1(P, Gamma, R, n=20):
    P = np.asarray(P, float)
    x, y, z = P
    d = np.hypot(np.hypot(x, y)-R, z)/R
    th, w = graded_nodes([np.arctan2(y, x)], [d], n)
    p = np.stack((x-R*np.cos(th), y-R*np.sin(th), np.full(th.shape, z)))
    a3 = ((p**2).sum(0))**1.5
    dl = np.stack((-R*np.sin(th), R*np.cos(th), 0*th))
    return Gamma/(4*np.pi)*(np.cross(dl.T, p.T).T/a3*w).sum(1)


def each(f, P, *a, **k):
    P = np.asarray(P, float)
    return np.stack([f(P[:, i], *a, **k) for i in range(P.shape[1])], 1)


def tang_tube(P, *a, **k):
    return each(tang_tube_1, P, *a, **k)


def longi_tube(P, *a, **k):
    return each(longi_tube_1, P, *a, **k)


def ring(P, *a, **k):
    return each(ring_1, P, *a, **k)


def tang_tube_finite(P, gamma_t, R, z1, z2):
    P = np.asarray(P, float)
    return tang_tube(P-np.array([[0], [0], [z1]]), gamma_t, R)-tang_tube(P-np.array([[0], [0], [z2]]), gamma_t, R)


def doublet(P, mv, x0=(0, 0, 0)):
    r = np.asarray(P, float)-np.asarray(x0, float).reshape(3, 1)
    mv = np.asarray(mv, float).reshape(3, 1)
    n = np.sqrt((r**2).sum(0))
    return (3*r*(mv*r).sum(0)/n**5-mv/n**3)/(4*np.pi)


def doublet_line_1(P, dm, m=0.0, L=np.inf, n=16):
    """ doublets of moment (0,0,dm) per unit z' on the line (m z',0,z'), 0<z'<L """
    P = np.asarray(P, float)
    c2 = 1+m*m
    sc = np.clip((m*P[0]+P[2])/c2, 0, L)
    d = np.sqrt((P[0]-m*sc)**2+P[1]**2+(P[2]-sc)**2)/np.sqrt(c2)
    x, w = gl(n)
    u = np.zeros(3)
    for sgn, lim in ((1, (L-sc)), (-1, sc)):
        if lim <= 0:
            continue
        T = min(45.0, np.arcsinh(lim/d)) if np.isfinite(lim) else 45.0
        npan = max(1, int(np.ceil(T/0.5)))
        e = np.linspace(0, T, npan+1)
        t = (e[:-1, None]+np.diff(e)[:, None]*(x[None, :]+1)/2).ravel()
        wt = (np.diff(e)[:, None]*w[None, :]/2).ravel()
        s = d*np.sinh(t); ws = wt*d*np.cosh(t)
        # r = P - q (sc + sgn s)
        p0 = np.array([P[0]-m*sc, P[1], P[2]-sc])
        r = p0[:, None]-np.array([[m], [0], [1.0]])*sgn*s
        rn = np.sqrt((r**2).sum(0))
        mr = dm*r[2]
        du = (3*r*mr/rn**5-np.array([[0], [0], [dm]])/rn**3)/(4*np.pi)
        u += (du*ws).sum(1)
    return u


def doublet_line(P, *a, **k):
    return each(doublet_line_1, P, *a, **k)


def vortex_points(CP, XV, G, kern=None):
    """ 2D point vortices; kern(iv, r2) core function """
    out = np.zeros((len(CP), 2))
    for i, c in enumerate(CP):
        for j, v in enumerate(XV):
            dx, dy = c[0]-v[0], c[1]-v[1]
            r2 = dx*dx+dy*dy
            if r2 < 1e-15:
                continue
            f = 1.0 if kern is None else kern(j, r2)
            out[i] += G[j]/(2*np.pi)*f*np.array([-dy, dx])/r2
    return out


# ---------------------------------------------------------------------------------------- geometry helpers
def rot(axis, ang):
    """ rotation matrix from the quaternion form """
    a = np.asarray(axis, float); a = a/np.linalg.norm(a)
    w, (x, y, z) = np.cos(ang/2), a*np.sin(ang/2)
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
                     [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
                     [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])


def sphere_nodes(nt=14, nphi=24):
    """ nodes (3,N) on the unit sphere and weights summing to 4 pi """
    x, w = gl(nt)
    ph = np.arange(nphi)*2*np.pi/nphi
    s = np.sqrt(1-x**2)
    N = np.stack(((s[:, None]*np.cos(ph)).ravel(), (s[:, None]*np.sin(ph)).ravel(), (x[:, None]+0*ph).ravel()))
    W = (w[:, None]+0*ph).ravel()*2*np.pi/nphi
    return N, W


def circle_nodes(n=48):
    t = np.arange(n)*2*np.pi/n
    return t, np.full(n, 2*np.pi/n)
