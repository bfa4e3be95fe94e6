"""C11 pointwise evaluation, shapes, untouched inputs"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, turb
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexLine as VL, VortexRing as VR, VortexDoublet as VD, VortexPoint as VP, SelfSimilar as SS, elliptic
from wiz.WindFarm import WindFarm, windfarm_gridlayout_CTconst
from fields import sknz

EPS = 2.3e-16
core.LAYOUT['on'] = False           # this check lays the points out itself
RULE = ('cases draw a function with its parameters, a set of points mixing ordinary, axis, plane, rim and radius points, and a way of laying the points out (alone, permuted, reshaped, split, repeated, strided, '
        'Fortran order, integers, scalars, twice); a case counts when there are at least two different points')
ASSUMPTIONS = ['the same point evaluated in two layouts agrees to 1e-9 relative to the local velocity and strength (SIMD rounding differs between layouts)',
               'points between 0 and 1e-3 radii of the vorticity are left out (rounding is amplified there), exact singular points are kept for the closed forms']

two = st.lists(gen.strength, min_size=2, max_size=2)
g, G = gen.strength, gen.strength
R_ = gen.pick(1.0, 2.0, other=gen.logu(-0.3, 1), p=0.6)
fx = st.fixed_dictionaries
NTH = 60


def tables(p):
    X0 = np.array(p['X0'], float).reshape(3, 2)*p['R']
    gt = np.array(p['tab'], float).reshape(2, 2); R = p['R']*np.array([[1.0, 0.6], [0.8, 1.2]])
    m = np.array([[p['m'], -p['m']], [0.3, p['m']]])
    return X0, gt, R, m


PTAB = fx(dict(R=R_, X0=st.lists(gen.uni0(4), min_size=6, max_size=6), tab=st.lists(gen.pick(0.0, other=gen.strength, p=0.2), min_size=4, max_size=4), m=sknz, gr=st.booleans()))
PG = fx(dict(R=R_, g=g, eps=gen.pick(0.0, other=gen.logu(-3, -1), p=0.5)))
PM = fx(dict(R=R_, g=g, gl=g, G=G, m=st.one_of(sknz, st.just(0.0))))


def multi(f, key):
    def build(p):
        X0, gt, R, m = tables(p)
        kw = dict(ntheta=NTH) if 'svcs' in key else {}
        args = [gt, R] + ([m] if 'svcs' in key else []) + [X0[0], X0[1], X0[2]]
        return f, args, dict(kw, Ground=p['gr'])
    return build


# name -> (params, builder(p)->(f, trailing args, kwargs), kind of coordinates, number of outputs, kind of near-singular handling)
# coords: 'xyz' Cartesian; 'rpz' polar; 'rz'; 'r' in (0,1); 'nm'
C = {}


def add(name, params, build, coords='xyz', nout=3, sing='closed'):
    C[name] = (params, build, coords, nout, sing)


add('vc_tang_u', PG, lambda p: (VC.vc_tang_u, [p['g'], p['R'], False, p['eps']*p['R']], {}))
add('vc_tang_u polar', PG, lambda p: (VC.vc_tang_u, [p['g'], p['R'], True, p['eps']*p['R']], {}), nout=2)
add('cylinder_tang_u', PG, lambda p: (VC.cylinder_tang_u, [p['g'], p['R'], -p['R'], 2*p['R'], False, p['eps']*p['R']], {}))
add('cylinder_tang_u polar', PG, lambda p: (VC.cylinder_tang_u, [p['g'], p['R'], -p['R'], 2*p['R'], True], {}), nout=2)
add('vc_tang_u_doublet', PG, lambda p: (VC.vc_tang_u_doublet, [p['g'], p['R'], 2.0, False], {}), sing='line')
add('vc_tang_u_doublet polar', PG, lambda p: (VC.vc_tang_u_doublet, [p['g'], p['R'], 1.5, True], {}), nout=2, sing='line')
add('vc_longi_u', PG, lambda p: (VC.vc_longi_u, [p['g'], p['R'], False], {}))
add('vc_longi_u polar', PG, lambda p: (VC.vc_longi_u, [p['g'], p['R'], True], {}))
add('vc_longi_u_polar', PG, lambda p: (VC.vc_longi_u_polar, [p['g'], p['R'], False], {}), 'rpz')
add('vc_root_u', PG, lambda p: (VC.vc_root_u, [p['g'], False], {}), sing='line')
add('vc_root_u polar', PG, lambda p: (VC.vc_root_u, [p['g'], True], {}), sing='line')
add('vl_semiinf_straight_u_polar', PG, lambda p: (VL.vl_semiinf_straight_u_polar, [p['g'], True], {}), 'rpz', sing='line')
add('svc_tang_u', PM, lambda p: (VS.svc_tang_u, [p['g'], p['R'], p['m'], NTH, False], {}), sing='skew')
add('svc_tang_u polar', PM, lambda p: (VS.svc_tang_u, [p['g'], p['R'], p['m'], NTH, True], {}), sing='skew')
add('svc_tang_u_polar', PM, lambda p: (VS.svc_tang_u_polar, [p['g'], p['R'], p['m'], NTH, True], {}), 'rpz', sing='skew')
add('svc_longi_u', PM, lambda p: (VS.svc_longi_u, [p['g'], p['R'], p['m'], NTH, False], {}), sing='skew')
add('svc_longi_u polar', PM, lambda p: (VS.svc_longi_u, [p['g'], p['R'], p['m'], NTH, True], {}), sing='skew')
add('svc_longi_u_polar', PM, lambda p: (VS.svc_longi_u_polar, [p['g'], p['R'], p['m'], NTH, False], {}), 'rpz', sing='skew')
add('svc_root_u', PM, lambda p: (VS.svc_root_u, [p['g'], p['m'], False], {}), sing='skew')
add('svc_root_u polar', PM, lambda p: (VS.svc_root_u, [p['g'], p['m'], True], {}), sing='skew')
add('svc_root_u_polar', PM, lambda p: (VS.svc_root_u_polar, [p['g'], p['m'], False], {}), 'rpz', sing='skew')
add('svc_u_polar', PM, lambda p: (VS.svc_u_polar, [p['g'], p['gl'], p['G'], p['R'], p['m'], NTH, False], {}), 'rpz', sing='skew')
add('svc_u_polar polar', PM, lambda p: (VS.svc_u_polar, [p['g'], p['gl'], p['G'], p['R'], p['m'], NTH, True], {}), 'rpz', sing='skew')
add('fV_Trailed', PM, lambda p: (VS.fV_Trailed, [p['m'], p['g'], NTH, 7], {}), 'rpz1', 7, sing='skew')
add('fV_Tangential', PM, lambda p: (VS.fV_Tangential, [p['m'], p['g'], NTH, 7], {}), 'rpz1', 7, sing='skew')
add('fV_Root', PM, lambda p: (VS.fV_Root, [p['m'], p['g'], 7], {}), 'rpz1', 7, sing='skew')
add('vcs_tang_u', PTAB, multi(VC.vcs_tang_u, 'vcs'), sing='multi')
add('vcs_longi_u', PTAB, multi(VC.vcs_longi_u, 'vcs'), sing='multi')
add('svcs_tang_u', PTAB, multi(VS.svcs_tang_u, 'svcs'), sing='multi')
add('svcs_longi_u', PTAB, multi(VS.svcs_longi_u, 'svcs'), sing='multi')
add('ring_u', PG, lambda p: (VR.ring_u, [p['g'], p['R'], False, p['eps']*p['R']], {}))
add('ring_u polar', PG, lambda p: (VR.ring_u, [p['g'], p['R'], True, p['eps']*p['R']], {}), nout=2)
add('ring_u_polar Saffman', PG, lambda p: (VR.ring_u_polar, [p['g'], p['R'], 0.3*p['R'], p['eps']*p['R'], 'Saffman'], {}), 'rz', 2)
add('ring_u_polar linear', PG, lambda p: (VR.ring_u_polar, [p['g'], p['R'], 0.0, p['eps']*p['R'], 'linear'], {}), 'rz', 2)
add('ring_u_polar_singular', PG, lambda p: (VR.ring_u_polar_singular, [p['g'], p['R']], {}), 'rz', 2, sing='open')
add('ring_u_polar_singularb', PG, lambda p: (VR.ring_u_polar_singularb, [p['g'], p['R']], {}), 'rz', 2, sing='open')
add('rings_u', PTAB, lambda p: (VR.rings_u, [tables(p)[1].ravel()[:2], np.array([1.0, 0.7])*p['R'], *tables(p)[0]], dict(polar_out=False)), sing='multi')
add('rings_u polar', PTAB, lambda p: (VR.rings_u, [tables(p)[1].ravel()[:2], np.array([1.0, 0.7])*p['R'], *tables(p)[0]], dict(polar_out=True)), nout=2, sing='multi')
add('doublet_u', PTAB, lambda p: (VD.doublet_u, [np.array(p['tab'][:3]), tables(p)[0].ravel()[:3]], {}), sing='multi')
add('doublet_u_polar', PG, lambda p: (VD.doublet_u_polar, [p['g'], 0.5*p['R']], {}), 'rz', 2, sing='open')
add('doublet_line_polar_u', PG, lambda p: (VD.doublet_line_polar_u, [p['g']], {}), 'rz', 2, sing='line')
add('doublet_line_polar_u_num', PG, lambda p: (VD.doublet_line_polar_u_num, [p['g']], dict(zmax=10*p['R'], nQuad=50)), 'rz', 2, sing='line')
add('doublet_line_u', PM, lambda p: (VD.doublet_line_u, [p['g'], p['m']], {}), sing='skew')
add('doublet_line_u finite', PM, lambda p: (VD.doublet_line_u, [p['g'], p['m'], 2*p['R']], {}), sing='skew')
add('doublet_line_u_num', PM, lambda p: (VD.doublet_line_u_num, [p['g'], p['m']], dict(zmax=10*p['R'], nQuad=50)), sing='skew')
add('ss_u', PG, lambda p: (SS.ss_u, [p['g'], p['R']], {}), nout=1)
add('windfarm_gridlayout_CTconst', PG, lambda p: (windfarm_gridlayout_CTconst, [p['R'], 0.6, 10.0, 2, 4.0*p['R'], 2, 5.0*p['R']], dict(hub_height=1.5*p['R'], mirror=True)), sing='multi')
add('ellipticPiCarlson', PG, lambda p: (elliptic.ellipticPiCarlson, [], {}), 'nm', 1)
add('fKxit', PM, lambda p: (VS.fKxit, [p['m'] or 0.4], {}), 'r', 3)
add('fKzt', PM, lambda p: (VS.fKzt, [p['m'] or 0.4, 5], {}), 'r', 5)
DOUBLET_LIKE = ('vc_tang_u_doublet', 'doublet_line')

OFF = ('generic', 'inside', 'outside', 'plane', 'far', 'deep', 'up', 'grid', 'axis', 'nearaxis')
SING = ('rim', 'exactR', 'axis')


def coords_of(case):
    name = case['f']
    params, build, coords, nout, sing = C[name]
    p = case['p']
    R = p['R']
    P = gen.XYZ(case['pts'], R)
    r = np.hypot(P[0], P[1])
    ok = np.ones(P.shape[1], bool)
    m = p.get('m', 0.0) or 0.0
    exact = np.array([q['c'] in SING for q in case['pts']])
    if sing == 'closed':
        ok = (np.abs(r-R) > 1e-3*R) | exact
    elif sing == 'open':
        ok = (np.hypot(r-R, P[2]) > 1e-3*R) & (np.hypot(r, P[2]-0.5*R) > 1e-2*R) & (r > 1e-3*R)
    elif sing == 'line':
        ok = ((r > 2e-2*np.sqrt((P**2).sum(0))) & ((np.abs(r-R) > 1e-3*R) | exact)) | (r == 0)
    elif sing == 'skew':
        for mm in (m, -m):
            r1 = np.hypot(P[0]-mm*P[2], P[1])
            ok &= (np.abs(r1-R) > 1e-3*R) & ((r1 > 2e-2*np.sqrt((P**2).sum(0)))) & (r1 > 1e-2*R)
    elif sing == 'multi':
        pass
    if not np.any(ok):
        raise Skip()
    P = P[:, ok]
    if coords == 'xyz':
        A = P
    elif coords in ('rpz', 'rpz1'):
        A = np.array([np.hypot(P[0], P[1]), np.arctan2(P[1], P[0]), P[2]])
        if coords == 'rpz1':
            A[0] /= R; A[2] /= R
    elif coords == 'rz':
        A = np.array([np.hypot(P[0], P[1]), P[2]])
    elif coords == 'r':
        A = (np.hypot(P[0], P[1])/R % 1.0)[None, :]
        A = A[:, (A[0] > 0.01) & (A[0] < 0.99)]
    elif coords == 'nm':
        n, mm = np.tanh(P[0]/R)*0.99, np.abs(np.tanh(P[2]/R))*0.99
        A = np.array([n, mm])
    if A.shape[1] == 0:
        raise Skip()
    return A


def evaluate(case, A, check_shape=True, form=None):
    """ f(A[0], A[1], ...) with all array arguments checked for changes """
    name = case['f']
    _, build, coords, nout, sing = C[name]
    f, args, kw = build(case['p'])
    sh = np.shape(A[0])
    A = [a if form == 'asis' else np.array(a) for a in A]
    args = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
    watch = [(a, a.copy()) for a in list(A)+args if isinstance(a, np.ndarray)]
    if nout == 1:
        u = call(f, *A, *args, **kw)
        u = np.asarray(u)
        require(u.dtype.kind in 'fiu', '%s returned values of type %s', name, u.dtype)
        require(u.shape == tuple(sh), '%s returned shape %s for arguments of shape %s', name, u.shape, sh)
        u = u.astype(float)[None]
    else:
        u = vec(f, nout, sh, *A, *args, **kw)
    for a, b in watch:
        require(np.array_equal(a, b, equal_nan=True), '%s modified an array of its caller', name)
    return u


def layouts(A, kind, perm):
    """ yields (arrays, function mapping the result (k,)+shape back to (k,n)) """
    n = A.shape[1]
    if kind == 'alone':
        return [([a[i:i+1] for a in A], None, [i]) for i in range(n)]
    if kind == 'scalars':
        return [([np.float64(a[i]) for a in A], None, [i]) for i in range(n)]
    if kind == 'zerod':
        return [([np.array(a[i]) for a in A], None, [i]) for i in range(n)]
    if kind == 'permuted':
        o = sorted(range(n), key=lambda i: perm[i % len(perm)]*7919 % 104729 + i*1e-3)
        return [([a[o] for a in A], None, o)]
    if kind == 'split':
        h = max(1, n//2)
        return [([a[:h] for a in A], None, list(range(h)))]+([([a[h:] for a in A], None, list(range(h, n)))] if n > h else [])
    if kind == 'tiled':
        return [([np.tile(a, 3) for a in A], None, list(range(n))*3)]
    if kind == 'column':
        return [([a.reshape(n, 1) for a in A], 'r', list(range(n)))]
    if kind == 'threed':
        return [([np.tile(a, 2).reshape(2, 1, n) for a in A], 'r', list(range(n))*2)]
    if kind == 'twod_T':       # transposed view (Fortran order)
        return [([np.stack((a, a), 1).T.copy().T for a in A], 'r', np.repeat(np.arange(n), 2).tolist())]
    if kind == 'strided':
        out = []
        for a in A:
            b = np.full(3*n, 7.77); b[::3] = a
            out.append(b[::3])
        return [(out, 'asis', list(range(n)))]
    if kind == 'reversed':
        return [([np.ascontiguousarray(a[::-1])[::-1] for a in A], 'asis', list(range(n)))]
    if kind == 'readonly':
        out = []
        for a in A:
            b = a.copy(); b.setflags(write=False); out.append(b)
        return [(out, 'asis', list(range(n)))]
    if kind in ('big', 'big2d'):          # many points: a pseudo-random mixture of the points of the case
        L = BIG[perm[0] % len(BIG)]
        idx = np.random.RandomState(perm[1]).randint(0, n, L)
        idx[:n] = np.arange(n); idx[-n:] = np.arange(n)
        if kind == 'big2d':
            L -= L % 4; idx = idx[:L]
        return [([a[idx].reshape((4, L//4) if kind == 'big2d' else (L,)) for a in A], 'r', idx.tolist())]
    if kind == 'twice':
        return [(list(A), None, list(range(n))), (list(A), None, list(range(n)))]
    raise ValueError(kind)


KINDS = ['alone', 'scalars', 'zerod', 'permuted', 'split', 'tiled', 'column', 'threed', 'twod_T', 'strided', 'reversed', 'readonly', 'twice', 'big', 'big2d', 'big', 'big2d']
BIG = [70, 150, 300, 700, 1300, 2600]


def chk_pointwise(case):
    A = coords_of(case)
    name = case['f']
    if C[name][2] == 'r' and case['kind'] in ('scalars', 'zerod', 'column', 'threed', 'twod_T', 'big2d'):
        raise Skip()                                # these take vectors
    u0 = evaluate(case, list(A))
    s = max([abs(v) for v in case['p'].get('tab', [])]+[abs(case['p'].get(k, 0)) for k in ('g', 'gl', 'G')]+[1.0])
    mag = np.abs(u0).max(0)
    for arr, mode, idx in layouts(A, case['kind'], case['perm']):
        u = evaluate(case, arr, form='asis' if mode == 'asis' else None)
        u = u.reshape(u.shape[0], -1)
        w = u0[:, idx]
        nan = np.isnan(w)
        require(np.array_equal(nan, np.isnan(u)), '%s: values that are NaN depend on the layout of the points (%s)', name, case['kind'])
        inf = np.isinf(w)
        require(np.array_equal(w[inf], u[inf]), '%s: infinite values depend on the layout of the points (%s)', name, case['kind'])
        k = ~(nan | inf)
        M = np.broadcast_to(np.where(np.isfinite(mag[idx]), mag[idx], 0), w.shape)
        close(u[k], w[k], 1e-9*M[k]+(3e-8 if C[name][4] == 'multi' or 'longi' in name else 1e-9)*s+1e-300, '%s: value at a point in the layout "%s" instead of a plain array', name, case['kind'])


def chk_ints(case):
    """ integer and list-like storage of the coordinates """
    name = case['f']
    params, build, coords, nout, sing = C[name]
    p = case['p']
    A = np.array(case['ip']).reshape(-1, 3).T
    if coords == 'rz':
        A = np.array([np.abs(A[0])+1, A[2]])
    elif coords in ('rpz', 'rpz1'):
        A = np.array([np.abs(A[0])+1, A[1], A[2]])
    elif coords in ('r', 'nm'):
        raise Skip()
    R = p['R']
    # exclude integer points near the vorticity
    if coords == 'xyz':
        P = A.astype(float)
    elif coords == 'rz':
        P = np.array([A[0], 0*A[0], A[1]], float)
    else:
        P = np.array([A[0]*np.cos(A[1]), A[0]*np.sin(A[1]), A[2]])*(R if coords == 'rpz1' else 1)
    m = p.get('m', 0.0) or 0.0
    ok = np.ones(P.shape[1], bool)
    if sing != 'multi':
        for mm in {0.0, m, -m}:
            r = np.hypot(P[0]-mm*P[2], P[1])
            ok &= (np.abs(r-R) > 1e-3*R) & (r > 1e-2)
    if not np.any(ok):
        raise Skip()
    A = A[:, ok]
    if A.shape[0] == 2:
        A = [A[0], A[1]]
    B = [np.array(a, dtype=case['dt']) for a in A]
    ui = evaluate(case, B)
    uf = evaluate(case, [b.astype(float) for b in B])
    close(np.nan_to_num(ui), np.nan_to_num(uf), 1e-9*np.abs(np.nan_to_num(uf))+1e-10*max(1.0, np.abs(np.nan_to_num(uf)).max()), '%s with coordinates of type %s', name, case['dt'])


def chk_turbine(case):
    s = case['s']
    Q = turb.wake_points(s, case['pts'])
    k = turb.good(s, Q, nmax=1e9, line=True, dmin=5e-3)
    if len(k) == 0:
        raise Skip()
    P = turb.to_global(s, Q[:, k]/s['R'])
    model = case['model']
    if model != 'VC':
        s = dict(s, dw=0.0)
        Q = turb.to_local(s, P)
        k = turb.good(s, Q, nmax=1e9, line=True, dmin=5e-3)
        if len(k) == 0 or s['load'].get('n', 1) != 1:
            raise Skip()
        P = P[:, k]
    kw = dict(only_ind=case['ind'], no_wake=case['no_wake'])
    if model == 'VC':
        kw.update(longi=case['longi'], root=case['root'])
        if not case['longi'] and not case['root'] and case['farm']:
            kw.pop('longi'); kw.pop('root')
    if model != 'VC':
        kw['Model'] = model
    WT = turb.make(s, 'ctor')
    if case['farm']:
        s2 = dict(s, hub=[v+3.3 for v in s['hub']], U=s['U'])
        WF = WindFarm([WT, turb.make(s2, 'ctor')])
        Q2 = turb.to_local(s2, P)
        k = turb.good(s2, Q2, nmax=1e9, dmin=5e-3)
        if len(k) == 0:
            raise Skip()
        P = P[:, k]
        kw.pop('only_ind')
        kw['U0'] = turb.wind(s).tolist()
        f = WF.velocity_field
    else:
        f = WT.compute_u

    def ev(*A):
        A = [np.array(a) for a in A]
        B = [a.copy() for a in A]
        u = vec(f, 3, A[0].shape, *A, **kw)
        require(all(np.array_equal(a, b) for a, b in zip(A, B)), 'the evaluation modified the coordinates of the caller')
        return u
    u0 = ev(*P)
    sc = s['U']+turb.scale_of(s)
    mag = np.abs(u0).max(0)
    kind = case['kind'] if case['kind'] not in ('scalars', 'zerod') else 'alone'      # turbines and farms take arrays
    for arr, mode, idx in layouts(P, kind, case['perm']):
        u = vec(f, 3, np.shape(arr[0]), *arr, **kw).reshape(3, -1)
        close(u, u0[:, idx], 1e-9*mag[idx]+3e-9*sc, 'velocity at a point in the layout "%s" (model %s, farm %s)', kind, model, case['farm'])
    # points stored as integers
    I = np.rint(P).astype(case.get('dt', 'int64'))
    QI = turb.to_local(s, I.astype(float))
    ki = turb.good(s, QI, nmax=1e9, line=True, dmin=5e-3)
    if case['farm'] and len(ki):
        ki = ki[turb.good(s2, turb.to_local(s2, I[:, ki].astype(float)), nmax=1e9, dmin=5e-3)]
    if len(ki):
        I = I[:, ki]
        wi = ev(*I.astype(float))
        close(ev(*I), wi, 1e-9*np.abs(wi).max(0)+3e-9*sc, 'velocity at points stored as %s (model %s, farm %s)', I.dtype, model, case['farm'])
    # results belong to the caller: changing them changes nothing
    a = f(*[x.copy() for x in P], **kw)
    for c in a:
        c += 1e3
    close(vec(f, 3, P[0].shape, *P, **kw), u0, 1e-12*mag+1e-12*sc, 'velocity after the caller changed an earlier result')


def chk_points2d(case):
    CP = np.array(case['cp'], float).reshape(-1, case['nd'])
    XV = np.array(case['xv'], float).reshape(-1, case['nd'])
    n = len(CP)
    Gs = np.array((case['gs']*5)[:len(XV)], float)
    core = np.full(len(XV), case['core'])
    for c in CP:
        for v in XV:
            if 0 < np.hypot(*(c-v)[:2]) < 1e-3:
                raise Skip()
    kw = dict(SmoothModel=case['mo'][0], KernelOrder=case['mo'][1], SmoothParam=core)
    sn = [a.copy() for a in (CP, XV, Gs, core)]
    u0 = np.asarray(call(VP.vps_u, CP, XV, Gs, **kw), float)
    require(all(np.array_equal(a, b) for a, b in zip(sn, (CP, XV, Gs, core))), 'vps_u modified an array of its caller')
    require(u0.shape == CP.shape, 'vps_u returned shape %s', u0.shape)
    sc = np.abs(u0).max()+1e-3*np.abs(Gs).sum()
    for i in range(n):
        close(np.asarray(call(VP.vps_u, CP[i:i+1], XV, Gs, **kw)), u0[i:i+1], 1e-10*sc, 'vps_u of one point alone')
    o = list(range(n))[::-1]
    close(np.asarray(call(VP.vps_u, CP[o], XV, Gs, **kw)), u0[o], 1e-10*sc, 'vps_u of permuted points')
    close(np.asarray(call(VP.vps_u, np.asfortranarray(CP), np.asfortranarray(XV), Gs, **kw)), u0, 1e-10*sc, 'vps_u of Fortran-ordered points')
    # integer and mixed storage
    CI, XI = np.rint(CP).astype(case.get('dt', 'int64')), np.rint(XV).astype(case.get('dt2', 'float64'))
    wi = np.asarray(call(VP.vps_u, CI.astype(float), XI.astype(float), Gs, **kw), float)
    close(np.asarray(call(VP.vps_u, CI, XI, Gs, **kw)), wi, 1e-10*(np.abs(wi).max()+sc), 'vps_u of points stored as %s and vortices as %s', CI.dtype, XI.dtype)
    idx = np.random.RandomState(case['big']).randint(0, n, 40+case['big'] % 160)
    close(np.asarray(call(VP.vps_u, CP[idx], XV, Gs, **kw)), u0[idx], 1e-10*sc, 'vps_u of %d points', len(idx))
    e = np.asarray(call(VP.vps_u, np.zeros((0, case['nd'])), XV, Gs, **kw))
    require(e.shape == (0, case['nd']), 'vps_u of no points returned shape %s', e.shape)
    z = np.asarray(call(VP.vps_u, CP, np.zeros((0, case['nd'])), np.zeros(0), **dict(kw, SmoothParam=np.zeros(0))))
    require(z.shape == CP.shape and np.all(z == 0), 'vps_u without vortices is not zero')


EMPTY = [n for n in sorted(C) if not n.startswith(('svc_root', 'fV_Root', 'svc_u_polar', 'fKxit', 'fKzt'))]     # those take no empty arrays


def chk_empty(case):
    A = [np.zeros(0)]*(2 if C[case['f']][2] in ('rz', 'nm') else 3)
    u = evaluate(case, A)
    require(u.shape[1:] == (0,), '%s of no points returned shape %s', case['f'], u.shape)


def cs(names, **kw):
    return st.sampled_from(names).flatmap(lambda n: fx(dict(f=st.just(n), p=C[n][0], **kw)))


coarse = gen.uni0(3).map(lambda v: round(v, 2))
perm = st.lists(st.integers(0, 100000), min_size=6, max_size=6)
mixed = gen.points(*OFF, *SING, lo=2, hi=6)
K = dict(nontrivial=lambda c: len({tuple(p['p']) for p in c['pts']}) > 1, classify=lambda c: [c['f'], 'layout:'+c['kind']])
LAWS = [
    Law('pointwise', cs(sorted(C), pts=mixed, kind=st.sampled_from(KINDS), perm=perm), chk_pointwise, 4500, 60000, **K),
    Law('integer_coordinates', cs(sorted(C), ip=st.lists(st.integers(-6, 6), min_size=12, max_size=12), dt=st.sampled_from(['int64', 'int32'])), chk_ints, 1200, 12000, classify=lambda c: [c['f']]),
    Law('turbine_and_farm', fx(dict(s=turb.states(), pts=gen.points(*turb.PTS, lo=2, hi=6), kind=st.sampled_from(KINDS), perm=perm, model=st.sampled_from(['VC', 'VC', 'VC', 'VCFF', 'VD', 'SS']), ind=st.booleans(), no_wake=st.booleans(), longi=st.booleans(), root=st.booleans(), farm=st.booleans(), dt=st.sampled_from(['int64', 'int32']))),
        chk_turbine, 700, 10000, nontrivial=lambda c: True, classify=lambda c: [c['model'], 'farm' if c['farm'] else 'turbine', 'layout:'+c['kind']]),
    Law('vortex_points', fx(dict(nd=st.sampled_from([2, 3]), cp=st.lists(coarse, min_size=12, max_size=12), xv=st.lists(coarse, min_size=6, max_size=6), gs=st.lists(gen.strength, min_size=3, max_size=3), core=gen.logu(-1, 0), big=st.integers(0, 99999), dt=st.sampled_from(['int64', 'int32']), dt2=st.sampled_from(['int64', 'float64']),
                                 mo=st.sampled_from([[0, 2], [1, 2], [1, 4], [1, 6], [2, 2], [2, 4], [2, 6], [2, 8], [2, 10]]))), chk_points2d, 500, 6000),
    Law('no_points', cs(EMPTY), chk_empty, 200, 1000, classify=lambda c: [c['f']]),
]
