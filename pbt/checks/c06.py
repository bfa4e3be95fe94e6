"""C06 two-dimensional vortex points"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, vec, require, refuses, call
import gen
from wiz import VortexPoint as VP

EPS = 2.3e-16
RULE = ('cases draw sets of vortices and control points (some coincident), 2 or 3 columns, circulations, smoothing model, order and one core length per vortex; '
        'a case counts when there are at least one vortex of non-zero strength and one control point that does not coincide with it')
ASSUMPTIONS = ['oracle: direct sum; the kernels are the Laguerre polynomials of the Majda and Gaussian families, evaluated by recurrence',
               'two points coincide below 3e-8 length units (the threshold of the code); generated separations are larger than 1e-6 or zero']


def laguerre(k, x):
    a, b = 1.0, 1.0-x
    if k == 0:
        return a
    for i in range(1, k):
        a, b = b, ((2*i+1-x)*b-i*a)/(i+1)
    return b


def kernel(model, order, rho2):
    if model == 0:
        return 1.0
    k = order//2-1
    if model == 1 or k == 0:
        return 1-laguerre(k, rho2)*np.exp(-rho2)
    return 1-laguerre(k, rho2/2)*np.exp(-rho2/2)


def setup(case):
    S = case['S']; nd = case['nd']
    CP = np.array(case['cp'], float).reshape(-1, 3)*S
    XV = np.array([v['x'] for v in case['vx']], float).reshape(-1, 3)*S
    G = np.array([v['g'] for v in case['vx']], float)
    C = np.array([v['c'] for v in case['vx']], float)*S
    k = case.get('rep', 0)                # more vortices, at other places
    if len(XV) and k:
        XV = np.concatenate([XV]+[XV[:, [1, 0, 2]]*(1+0.1*i)+0.3*S*i for i in range(1, k+1)]); G = np.concatenate([G]+[G*(1-0.05*i) for i in range(1, k+1)]); C = np.concatenate([C]+[C]*k)
    if case.get('same'):                  # one core length for all, some vortices switched off
        C = np.full(len(C), C[0] if len(C) else 1.0)
        G = np.where(np.arange(len(G)) % 3 == case['same']-1, 0.0, G)
    q = case.get('repcp', 0)              # more control points
    if len(CP) and q:
        CP = np.concatenate([CP]+[CP[:, [1, 0, 2]]*(1-0.07*i)-0.2*S*i for i in range(1, q+1)])
    for i, j in case['coin']:
        if len(CP) and len(XV):
            CP[i % len(CP), :2] = XV[j % len(XV), :2]
    if len(CP) and len(XV):
        d = np.hypot(CP[:, None, 0]-XV[None, :, 0], CP[:, None, 1]-XV[None, :, 1])
        if np.any((d > 0) & (d < 1e-6)):
            raise Skip()
    CP, XV = CP[:, :nd].copy(), XV[:, :nd].copy()
    if case.get('lay') == 1:
        CP, XV = np.asfortranarray(CP), np.asfortranarray(XV)
    elif case.get('lay') == 2:
        CP, XV, G, C = [np.repeat(a, 2, axis=0)[::2] for a in (CP, XV, G, C)]
    return CP, XV, G, C


def oracle(CP, XV, G, C, model, order):
    U = np.zeros(CP.shape); T = np.zeros(len(CP))+1e-300
    if len(CP) == 0 or len(XV) == 0:
        return U, T
    dx, dy = CP[:, None, 0]-XV[None, :, 0], CP[:, None, 1]-XV[None, :, 1]
    r2 = dx*dx+dy*dy
    on = r2 > 0
    r2 = np.where(on, r2, 1.0)
    f = np.where(on, kernel(model, order, r2/C**2), 0.0)
    U[:, 0] = (-G*dy/(2*np.pi*r2)*f).sum(1)
    U[:, 1] = (G*dx/(2*np.pi*r2)*f).sum(1)
    x = np.abs(CP[:, :2]).max(1)[:, None]+np.abs(XV[:, :2]).max(1)[None, :]
    r = np.sqrt(r2)
    T += np.where(on, np.abs(G)/(2*np.pi*r)*(1e-12*np.maximum(1, np.abs(f))+100*EPS*x/r), 0).sum(1)
    return U, T


def chk_set(case):
    CP, XV, G, C = setup(case)
    mo, od = case['mo']
    a = [CP.copy(), XV.copy(), G.copy(), C.copy()]
    kw = dict(SmoothModel=mo, KernelOrder=od, SmoothParam=(C if case['arr'] else C.tolist()) if mo else None)
    if mo == 0 and case['dflt']:
        kw = {}
    U = call(VP.vps_u, CP, XV, G if case['arr'] else G.tolist(), **kw)
    want, T = oracle(*a, mo, od)
    close(U, want, np.repeat(T[:, None], CP.shape[1], 1), 'vps_u (model %d order %d)', mo, od)
    if CP.shape[1] == 3:
        require(np.all(np.asarray(U)[:, 2] == 0), 'third component is not zero')
    for x, y in zip((CP, XV, G, C), a):
        require(np.array_equal(x, y), 'vps_u modified an argument')
    # order of the vortices does not matter
    k = list(range(len(G)))[::-1]
    if len(k) > 1 and kw:
        U2 = call(VP.vps_u, CP, XV[k], G[k], **dict(kw, SmoothParam=C[k] if mo else None))
        close(U2, want, np.repeat(T[:, None], CP.shape[1], 1), 'vps_u with the vortices in another order')


def chk_far(case):
    """ many core lengths away the smoothed field is the singular one """
    CP, XV, G, C = setup(case)
    mo, od = case['mo']
    if mo == 0:
        raise Skip()
    d = np.array([[np.hypot(p[0]-v[0], p[1]-v[1]) for v in XV] for p in CP])
    c = min(C.max(), d[d > 0].min()/14) if np.any(d > 0) else 1.0
    Cs = C/C.max()*c
    U = call(VP.vps_u, CP, XV, G, SmoothModel=mo, KernelOrder=od, SmoothParam=Cs)
    U0 = call(VP.vps_u, CP, XV, G, SmoothModel=0)
    T = oracle(CP, XV, G, Cs, 0, 2)[1]
    close(U, U0, np.repeat(T[:, None], CP.shape[1], 1), 'far field of model %d order %d', mo, od)


def chk_one(case):
    """ single vortex: with and without the Gaussian core """
    CP, XV, G, C = setup(case)
    p, v = CP[0, :2], XV[0, :2]
    r2 = ((p-v)**2).sum()
    if r2 == 0:
        raise Skip()
    r = np.sqrt(r2)
    t = abs(G[0])/(2*np.pi*r)*(1e-12+100*EPS*(np.abs(p).max()+np.abs(v).max())/r)+1e-300
    for visc in (False, True):
        f = 1-np.exp(-r2/C[0]**2) if visc else 1.0
        got = vec(VP.vp_u, 2, (), p.copy(), v.copy(), G[0], **(dict(rcore=C[0], bViscous=True) if visc else {}))
        close(got, G[0]/(2*np.pi*r2)*f*np.array([-(p-v)[1], (p-v)[0]]), t, 'vp_u (viscous=%s)', visc)
    got = vec(VP.vp_u, 2, (), p.copy(), v.copy(), G[0])
    close(call(VP.vps_u, p[None, :], v[None, :], G[:1])[0], got, 3*t, 'vps_u and vp_u for one vortex')


def chk_refuse(case):
    CP, XV, G, C = setup(case)
    k = case['bad']
    if k == 0:
        nd = CP.shape[1]
        X = np.zeros((len(XV), 5-nd)); X[:, :2] = XV[:, :2]
        require(refuses(VP.vps_u, CP, X, G), 'control points of dimension %d with vortices of dimension %d accepted', nd, 5-nd)
    elif k == 1:
        for o in (case['order'],):
            for mo in (1, 2):
                if (mo == 1 and o in (2, 4, 6, 8)) or (mo == 2 and o in (2, 4, 6, 8, 10)):
                    continue
                require(refuses(VP.vps_u, CP, XV, G, SmoothModel=mo, KernelOrder=o, SmoothParam=C), 'kernel order %d of model %d accepted', o, mo)
    else:
        require(refuses(VP.vps_u, CP, XV, G, SmoothModel=case['model'], KernelOrder=2, SmoothParam=C), 'smoothing model %d accepted', case['model'])


coord = st.one_of(st.integers(-8, 8).map(lambda k: k/4), gen.uni0(3), gen.slogu(-3, 2))
pt = st.lists(coord, min_size=3, max_size=3)
MODELS = [(1, 2), (1, 4), (1, 6), (1, 8), (2, 2), (2, 4), (2, 6), (2, 8), (2, 10), (0, 2), (0, 7), (0, 0)]


def case_st(lo=1, **extra):
    return st.fixed_dictionaries(dict(S=gen.pick(1.0, other=gen.logu(-1, 2)), nd=st.sampled_from([2, 3]), cp=st.lists(pt, min_size=lo, max_size=5),
                                      vx=st.lists(st.fixed_dictionaries(dict(x=pt, g=gen.strength, c=gen.pick(1.0, 0.1, other=gen.logu(-2.5, 1)))), min_size=lo, max_size=5),
                                      rep=st.sampled_from([0, 0, 0, 0, 0, 2, 7, 40]), repcp=st.sampled_from([0, 0, 0, 0, 3, 25]), same=st.sampled_from([0, 0, 0, 0, 1, 2, 3]), lay=st.integers(0, 2), mo=st.sampled_from(MODELS), arr=st.booleans(), dflt=st.booleans(),
                                      coin=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), max_size=2), **extra))


K = dict(nontrivial=lambda c: len(c['cp']) > 0 and len(c['vx']) > 0, classify=lambda c: ['model%d-%d' % tuple(c['mo']), '%dD' % c['nd']]+(['coincident'] if c['coin'] else []))
LAWS = [
    Law('sum_of_regularised_vortices', case_st(), chk_set, 4000, 60000, **K),
    Law('possibly_empty_sets', case_st(0), chk_set, 400, 4000, **K),
    Law('singular_far_field', case_st(1), chk_far, 1500, 20000, **K),
    Law('single_vortex', case_st(1), chk_one, 1500, 20000, **K),
    Law('refusals', case_st(1, bad=st.integers(0, 2), order=st.sampled_from([1, 3, 5, 7, 10, 12, 14, -2, 20]), model=st.sampled_from([3, -1, 4, 10])), chk_refuse, 600, 3000, **K),
]
