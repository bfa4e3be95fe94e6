"""C13 multi-element routines are the sum of their elements"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexRing as VR, VortexPoint as VP

EPS = 2.3e-16
RULE = 'cases draw tables of elements (positions, radii, strengths, skews) and points around them; a case counts when at least two elements have different non-zero strengths, radii or positions'
ASSUMPTIONS = ['the single elements are the single-element routines of the code (checked against Biot-Savart by C01..C06)',
               'points closer than 1e-5 radii to a sheet or filament are left out, except exactly on a radius', 'rings: polar components only for coaxial rings']

def order(p, n):
    return np.argsort([p[i % len(p)]*((i*7) % 11+1) for i in range(n)], kind='stable')


KINDS = ('tang', 'longi', 'stang', 'slongi')


def grow(l, n):
    """ a list of n values: the drawn ones, then the same ones slightly changed """
    return [l[i % len(l)] if i < len(l) else (np.array(l[i % len(l)])*(1+0.03*(i//len(l)))).tolist() for i in range(n)]


def growpos(l, n):
    return np.array([np.array(l[i % len(l)], float)+i//len(l)*np.array([0.37, -0.21, 0.53]) for i in range(n)])


def table(case):
    nc, nr = case['nc'], case['nr']
    A = lambda k: np.array(grow(case[k], nc*nr), float).reshape(nc, nr)
    pos = growpos(case['pos'], nc)
    return A('R'), A('g')*case.get('gs', 1.0), A('m'), pos


def place(case, pos, R, M=None):
    """ control points near the elements they refer to """
    P = []
    nc = len(pos)
    for p, i in zip(case['pts'], case['near']):
        i %= nc
        Rm = R[i].max() if np.ndim(R) == 2 else R[i]
        P.append(pos[i]+np.array(p['p'])*Rm)
    return np.array(P).T


def keep(P, pos, R, M, skewed):
    ok = np.ones(P.shape[1], bool)
    dd = np.full(P.shape[1], np.inf)
    for i in range(R.shape[0]):
        Q = P-pos[i].reshape(3, 1)
        for j in range(R.shape[1]):
            d = gen.d_sheet(Q, R[i, j], M[i, j] if skewed else 0.0)
            dt = gen.d_tube(Q, R[i, j], 0.0)[1] if not skewed else d
            dt = np.where(Q[2] < -1e-2*R[i, j], 1, dt)
            e = np.minimum(d, np.maximum(dt, 0))
            dd = np.minimum(dd, e)
            ok &= e > 1e-5
    return ok, dd


def single(kind, Q, g, R, m, N, eps):
    a = (Q[0].copy(), Q[1].copy(), Q[2].copy())
    if kind == 'tang':
        return vec(VC.vc_tang_u, 3, Q[0].shape, *a, gamma_t=g, R=R, polar_out=False, epsilon=eps)
    if kind == 'longi':
        return vec(VC.vc_longi_u, 3, Q[0].shape, *a, gamma_l=g, R=R, polar_out=False)
    if kind == 'stang':
        return vec(VS.svc_tang_u, 3, Q[0].shape, *a, gamma_t=g, R=R, m=m, ntheta=N, polar_out=False)
    return vec(VS.svc_longi_u, 3, Q[0].shape, *a, gamma_l=g, R=R, m=m, ntheta=N, polar_out=False)


def multi(kind, P, g, R, M, pos, N, eps, aslist=False, ground=False):
    a = (P[0].copy(), P[1].copy(), P[2].copy())
    X = [pos[:, k].tolist() if aslist else pos[:, k].copy() for k in range(3)]
    if kind == 'tang':
        kw = dict(epsilon=eps) if eps else {}
        if ground:
            kw['Ground'] = True
        return vec(VC.vcs_tang_u, 3, P[0].shape, *a, g, R, *X, **kw)
    if kind == 'longi':
        return vec(VC.vcs_longi_u, 3, P[0].shape, *a, g, R, *X)
    kw = dict(ntheta=N) if N else {}
    if ground:
        kw['Ground'] = True
    f = VS.svcs_tang_u if kind == 'stang' else VS.svcs_longi_u
    return vec(f, 3, P[0].shape, *a, g, R, M, *X, **kw)


def chk_tubes(case):
    kind = case['kind']
    R, g, M, pos = table(case)
    eps = case['eps'] if kind == 'tang' else 0
    P = place(case, pos, R)
    gr = bool(case.get('ground')) and kind.endswith('tang')
    Rf, gf, Mf, pf = R, g, M, pos
    if gr:                      # every wake and its mirror image in y=0
        Rf, gf, Mf, pf = np.concatenate((R, R)), np.concatenate((g, g)), np.concatenate((M, M)), np.concatenate((pos, pos*np.array([1, -1, 1])))
    sk = kind[0] == 's'
    if not eps:
        ok, dd = keep(P, pf, Rf, Mf, sk)
        if not np.any(ok):
            raise Skip()
        P, dd = P[:, ok], dd[ok]
    else:
        dd = np.full(P.shape[1], 1e-3)
    if case['two_d']:
        n = P.shape[1]
        P = np.concatenate((P, P[:, ::-1]), 1).reshape(3, 2, n); dd = np.concatenate((dd, dd[::-1])).reshape(2, n)
    N = case['N']
    want = np.zeros(P.shape); mag = np.zeros(P.shape[1:]); cond = np.zeros(P.shape[1:])
    for i in range(Rf.shape[0]):
        for j in range(Rf.shape[1]):
            if kind == 'longi':            # digits lost by the closed form close to its axis (C04)
                Q = P-pf[i].reshape((3,)+(1,)*(P.ndim-1)); zz = 1+np.abs(Q[2])/Rf[i, j]
                cond += abs(gf[i, j])*200*EPS*zz**2/np.minimum(1, np.maximum(1e-9, np.hypot(Q[0], Q[1])/Rf[i, j]))
            u = single(kind, P-pf[i].reshape((3,)+(1,)*(P.ndim-1)), float(gf[i, j]), float(Rf[i, j]), float(Mf[i, j]), N or 180, eps)
            want += u; mag += np.abs(u).max(0)
    got = multi(kind, P, g.copy(), R.copy(), M.copy(), pos, N, eps, case['aslist'], gr)
    L = 1+np.abs(P).max()+np.abs(pos).max()
    tol = 1e-11*mag+cond+np.abs(g).sum()*(1e-12+EPS*1e3*L/np.minimum(1, dd)/R.min())
    close(got, want, tol, 'velocity of %d wakes of %d tubes (%s%s)', R.shape[0], R.shape[1], kind, ' and ground' if gr else '')
    # order of wakes and tubes
    pi = order(case['perm'], R.shape[0]); pj = order(case['perm2'], R.shape[1])
    s = np.ix_(pi, pj)
    got2 = multi(kind, P, g[s], R[s], M[s], pos[pi], N, eps, case['aslist'], gr)
    close(got2, got, tol, 'velocity of %d wakes of %d tubes (%s) in another order', R.shape[0], R.shape[1], kind)
    # a wake split in two sets
    if R.shape[0] > 1:
        k = 1+case['perm'][0] % (R.shape[0]-1)
        a = multi(kind, P, g[:k], R[:k], M[:k], pos[:k], N, eps, False, gr)+multi(kind, P, g[k:], R[k:], M[k:], pos[k:], N, eps, False, gr)
        close(a, got, tol, 'velocity of the first %d and the other wakes (%s)', k, kind)


def chk_rings(case):
    n = case['n']
    R = np.array(grow(case['R'], n), float); G = np.array(grow(case['g'], n), float)*case.get('gs', 1.0)
    pos = growpos(case['pos'], n)
    polar = case['polar']
    if polar:
        pos[:, :2] = pos[0, :2]
    P = place(case, pos, R)
    eps = case['eps']
    d = np.min([np.hypot(np.hypot(P[0]-pos[i, 0], P[1]-pos[i, 1])-R[i], P[2]-pos[i, 2])/R[i] for i in range(n)], 0)
    P = P[:, d > 1e-3]
    if P.shape[1] == 0:
        raise Skip()
    nc = 2 if polar else 3
    kw = dict(epsilon=eps) if eps else {}
    def f(idx):
        X = [pos[idx, k] for k in range(3)]
        a = [R[idx], *X]
        if case['aslist']:
            a = [np.asarray(v).tolist() for v in a]
        return vec(VR.rings_u, nc, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), G[idx].tolist() if case['aslist'] else G[idx], *a, polar_out=polar, **kw)
    got = f(np.arange(n))
    want = np.zeros(got.shape); mag = np.zeros(got.shape[1:])
    for i in range(n):
        Q = P-pos[i].reshape(3, 1)
        u = vec(VR.ring_u, nc, Q[0].shape, Q[0].copy(), Q[1].copy(), Q[2].copy(), Gamma=float(G[i]), R=float(R[i]), polar_out=polar, **kw)
        want += u; mag += np.abs(u).max(0)
    tol = 1e-10*mag+1e-12*np.abs(G/R).sum()*(1+np.abs(P).max()/R.min())+1e-300
    close(got, want, tol, 'velocity of %d rings', n)
    p = order(case['perm'], n)
    close(f(p), want, tol, 'velocity of %d rings in another order', n)
    if not polar and not eps:
        # and the Biot-Savart velocity itself
        u = np.zeros(P.shape)
        for i in range(n):
            if G[i] != 0:
                u += ref.ring(P-pos[i].reshape(3, 1), G[i], R[i])
        Lr = (1+np.abs(P).max()+np.abs(pos).max())/R.min()
        close(got, u, np.abs(G/R).sum()*(2e-7+1e-12*Lr+3e-13*Lr/np.minimum(1, d[d > 1e-3])**2), 'velocity of %d rings against Biot-Savart', n)


def chk_points(case):
    n, nd = case['n'], case['nd']
    X = np.zeros((n, nd)); X[:, :2] = growpos(case['pos'], n)[:, :2]
    G = np.array(grow(case['g'], n), float)*case.get('gs', 1.0); core = np.array(grow(case['core'], n), float)
    C = np.zeros((len(case['pts']), nd)); C[:, :2] = [p['p'][:2] for p in case['pts']]
    mo = case['mo']
    def f(idx):
        kw = dict(SmoothModel=mo[0], KernelOrder=mo[1], SmoothParam=core[idx]) if mo[0] else {}
        u = np.asarray(call(VP.vps_u, C.copy(), X[idx], G[idx], **kw), float)
        require(u.shape == (len(C), nd), 'vps_u returned shape %s', u.shape)
        return u
    got = f(np.arange(n))
    parts = [f(np.array([i])) for i in range(n)]
    mag = np.sum([np.abs(p).max() for p in parts])
    tol = 1e-11*mag+1e-300
    close(got, np.sum(parts, 0), tol, 'velocity of %d vortex points', n)
    p = order(case['perm'], n)
    close(f(p), got, tol, 'velocity of %d vortex points in another order', n)
    if mo[0] == 0 and np.min(np.hypot(C[:, None, 0]-X[None, :, 0], C[:, None, 1]-X[None, :, 1])) > 1e-3:
        v = np.zeros((len(C), 2))
        for i in range(n):
            for k in range(len(C)):
                v[k] += np.array(call(VP.vp_u, C[k, :2], X[i, :2], G[i])).ravel()
        close(got[:, :2], v, tol*10+1e-11*np.abs(v), 'velocity of %d vortex points against one at a time', n)


def chk_finite(case):
    R, g = case['R1'], case['g1']
    z = np.cumsum([case['z1']]+case['dz'])*R
    P = gen.XYZ(case['pts'], R)
    if case['end']:
        P[2] += z[len(z)//2]
    polar = case['polar']; nc = 2 if polar else 3
    eps = case['eps']*R
    r = np.hypot(P[0], P[1])/R
    d = np.abs(r-1)
    if np.any(d < 1e-4):
        raise Skip()
    a = lambda Q: (Q[0].copy(), Q[1].copy(), Q[2].copy())
    fin = lambda za, zb, gg: vec(VC.cylinder_tang_u, nc, P[0].shape, *a(P), gamma_t=gg, R=R, z1=za, z2=zb, polar_out=polar, epsilon=eps)
    semi = lambda za, gg: vec(VC.vc_tang_u, nc, P[0].shape, *a(P-np.array([[0], [0], [za]])), gamma_t=gg, R=R, polar_out=polar, epsilon=eps)
    whole = fin(z[0], z[-1], g)
    tol = abs(g)*(1e-9+2e-12/d.min()+1e-13*np.abs(z/R).max()+1e-13*np.abs(P/R).max()+(1e-13*np.abs(P/R).max()/np.maximum(r, 1e-4)).max())
    close(whole, semi(z[0], g)-semi(z[-1], g), tol, 'finite tube against two semi-infinite ones')
    parts = sum(fin(z[i], z[i+1], g) for i in range(len(z)-1))
    close(parts, whole, tol*len(z), 'tube cut into %d parts', len(z)-1)
    w = case['w']
    close(fin(z[0], z[-1], g*w)+fin(z[0], z[-1], g*(1-w)), whole, tol*(1+2*abs(w)), 'tube with its strength split')
    close(fin(z[0], z[-1], g)+semi(z[-1], g), semi(z[0], g), tol, 'finite tube and the rest of the semi-infinite one')


def L(f, n):
    return st.lists(f, min_size=n, max_size=n)


coord = st.one_of(gen.uni0(6), st.integers(-4, 4).map(float))
posn = L(L(coord, 3), 4)
Rr = gen.pick(1.0, 2.0, 0.5, other=gen.uni(0.2, 3), p=0.3)
gg = gen.pick(0.0, 1.0, -1.0, other=st.one_of(gen.slogu(-1.5, 1), gen.slogu(-1.5, 1), gen.slogu(-9, -3)), p=0.35)     # also one element much weaker than the others
PT = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearR', 'far', 'deep', 'up', 'grid')
gs = gen.pick(1.0, 1.0, other=gen.logu(-8, 3), p=0.6)      # common factor: weak and strong sets
mm = gen.pick(0.0, 0.5, -0.5, other=gen.uni0(2), p=0.3)
fx = st.fixed_dictionaries
many = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([6, 9, 9, 17, 40]))


def distinct(c):
    n = c.get('n') or c['nc']*c['nr']
    return sum(1 for v in grow(c['g'], n) if v != 0) > 1


def tubes(kinds):
    return fx(dict(kind=st.sampled_from(kinds), ground=st.sampled_from([False, False, True]), nc=st.sampled_from([2, 1, 3, 4, 2, 3, 4, 2, 7, 13]), nr=st.sampled_from([2, 1, 3, 2, 3, 2, 3, 9]), R=L(Rr, 12), g=L(gg, 12), gs=gs, m=L(mm, 12), pos=posn, pts=gen.points(*PT, lo=1, hi=5), near=L(st.integers(0, 3), 5),
                   eps=gen.pick(0, 0, 0, other=gen.logu(-3, -0.5), p=0.8), N=st.sampled_from([None, 24, 61, 180]), aslist=st.booleans(), two_d=st.booleans(),
                   perm=L(st.integers(0, 9), 4), perm2=L(st.integers(0, 9), 3)))


LAWS = [
    Law('straight_wakes', tubes(['tang', 'longi']), chk_tubes, 1000, 15000, nontrivial=distinct, classify=lambda c: [c['kind'], '%dx%d' % (c['nc'], c['nr'])]),
    Law('skewed_wakes', tubes(['stang', 'slongi']), chk_tubes, 800, 12000, nontrivial=distinct, classify=lambda c: [c['kind'], '%dx%d' % (c['nc'], c['nr'])]),
    Law('rings', fx(dict(n=many, R=L(Rr, 4), g=L(gg, 4), gs=gs, pos=posn, pts=gen.points(*PT, lo=1, hi=4), near=L(st.integers(0, 3), 4), polar=st.sampled_from([False, False, True]), eps=gen.pick(0, 0, 0.1, other=gen.logu(-3, -0.5), p=0.8),
                         aslist=st.booleans(), perm=L(st.integers(0, 9), 4))), chk_rings, 700, 10000, nontrivial=distinct, classify=lambda c: ['n%d' % c['n']]),
    Law('vortex_points', fx(dict(n=many, nd=st.sampled_from([2, 3]), g=L(gg, 4), gs=gs, pos=posn, core=L(gen.uni(0.1, 2), 4), pts=gen.points(*PT, lo=1, hi=4), perm=L(st.integers(0, 9), 4),
                                 mo=st.sampled_from([[0, 2], [0, 2], [1, 2], [1, 4], [1, 6], [1, 8], [2, 2], [2, 4], [2, 6], [2, 8], [2, 10]]))), chk_points, 600, 8000, nontrivial=distinct, classify=lambda c: ['model%d' % c['mo'][0]]),
    Law('finite_tubes', fx(dict(R1=gen.radius, g1=gen.strength, z1=gen.pick(0.0, -1.0, other=gen.uni(-5, 5)), dz=st.lists(gen.pick(1.0, 0.5, other=gen.logu(-2, 1)), min_size=2, max_size=4), w=gen.uni0(2), polar=st.booleans(), end=st.booleans(),
                                eps=gen.pick(0, 0, 0, other=gen.logu(-3, -0.5), p=0.8), pts=gen.points(*PT, lo=1, hi=4))), chk_finite, 700, 10000, nontrivial=lambda c: c['g1'] != 0),
]
