"""Registry of the elementary velocity fields of wiz, in one Cartesian form, for the metamorphic laws (C09..C12).

Field.params  : Hypothesis strategy of the parameters (plain dict; lengths are absolute)
Field.ev      : (params, P(3,n), **opt) -> velocity (3,n)
Field.dist    : distance of the points to the support of the vorticity (same length unit as P)
Field.closed  : True if the vortex lines are closed (field irrotational off the support)
Field.pw      : velocity scales like length**pw at constant strength
Field.lengths : parameter keys that are lengths;  Field.strengths: keys the field is linear in (all scaled together)
"""
import numpy as np
from hypothesis import strategies as st
from core import vec, call
import gen
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexLine as VL, VortexRing as VR, VortexDoublet as VD, VortexPoint as VP, SelfSimilar as SS

NMAX = 1200


class Field:
    def __init__(self, name, params, ev, dist, closed, pw, lengths, strengths, size, polar=None, skewed=False, raw=None, quad=False, noise=None):
        self.name, self.params, self.ev, self.dist, self.closed, self.pw = name, params, ev, dist, closed, pw
        self.lengths, self.strengths, self.size, self.polar, self.skewed, self.quad = lengths, strengths, size, polar, skewed, quad
        self.noise = noise

    def scale(self, p, s):
        q = dict(p)
        for k in self.lengths:
            q[k] = [v*s for v in p[k]] if isinstance(p[k], list) else p[k]*s
        return q

    def times(self, p, k):
        q = dict(p)
        for n in self.strengths:
            q[n] = [v*k for v in p[n]] if isinstance(p[n], list) else p[n]*k
        return q


def c3(f, P, *a, **k):
    return vec(f, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), *a, **k)


# ---------------------------------------------------------------- geometry
def d_rim(P, R, z0=0.0):
    return np.hypot(np.hypot(P[0], P[1])-R, P[2]-z0)


def d_semi(P, R, m=0.0):
    return gen.d_sheet(P, R, m)*R


def d_fin(P, R, z1, z2):
    r = np.hypot(P[0], P[1])
    dz = np.maximum(0, np.maximum(z1-P[2], P[2]-z2))
    return np.hypot(r-R, dz)


def d_line(P, e, L=np.inf):
    e = np.asarray(e, float).reshape(3, 1); e = e/np.linalg.norm(e)
    s = np.clip((P*e).sum(0), 0, L)
    return np.sqrt(((P-e*s)**2).sum(0))


def skew_dir(m):
    return [m, 0, 1.0]


def nth(p, P, N=None):
    return N if N is not None else min(NMAX, gen.ntheta_for(P, p['R'], p['m']))


def resolved(p, P):
    """ can the trapezoidal rule resolve these points with at most NMAX azimuths? """
    return gen.ntheta_for(P, p['R'], p['m']) <= NMAX


def cart_from_polar(u, P):
    r = np.hypot(P[0], P[1])
    c, s = np.where(r > 0, P[0]/np.where(r > 0, r, 1), 1.0), np.where(r > 0, P[1]/np.where(r > 0, r, 1), 0.0)
    if len(u) == 2:
        return np.array([u[0]*c, u[0]*s, u[1]])
    return np.array([u[0]*c-u[1]*s, u[0]*s+u[1]*c, u[2]])


def ev_line(p, P, **k):
    e = np.array(p['e'])
    out = np.zeros(P.shape)
    for i in range(P.shape[1]):
        out[:, i] = vec(VL.vl_semiinf_u, 3, (), *[float(v) for v in P[:, i]], *[float(v) for v in e], p['G'], 0, 0)
    return out


def ev_points(p, P, **k):
    U = call(VP.vps_u, np.ascontiguousarray(P.T), np.array(p['X'], float).reshape(-1, 3), np.array(p['Gs'], float))
    return np.asarray(U, float).T


def ev_point_core(p, P, **k):
    X = np.array(p['X'], float).reshape(-1, 3)
    U = call(VP.vps_u, np.ascontiguousarray(P.T), X, np.array(p['Gs'], float), SmoothModel=p['mo'][0], KernelOrder=p['mo'][1], SmoothParam=np.array([p['core']]*len(X)))
    return np.asarray(U, float).T


def d_points(p, P):
    X = np.array(p['X'], float).reshape(-1, 3)
    return np.min([np.hypot(P[0]-x[0], P[1]-x[1]) for x in X], 0)


R_ = gen.pick(1.0, 2.0, 63.5, other=gen.logu(-0.3, 2), p=0.5)
fx = st.fixed_dictionaries
skw = gen.skew.map(lambda m: max(-2.5, min(2.5, m)))
sknz = skw.map(lambda m: m if abs(m) > 1e-3 else 0.4)


def withR(**kw):
    """ parameters given in radii, multiplied by the radius """
    rel = [k for k in kw if k.endswith('_R')]

    def f(p):
        for k in rel:
            v = p.pop(k)
            p[k[:-2]] = [x*p['R'] for x in v] if isinstance(v, list) else v*p['R']
        return p
    return fx(dict(R=R_, **kw)).map(f)


zz = st.tuples(gen.uni(-3, 2), gen.uni(0.3, 5)).map(lambda t: [t[0], t[0]+t[1]])


def fin(p):
    p['z1'], p['z2'] = p.pop('zz')
    return p


vec3 = st.lists(gen.uni0(2), min_size=3, max_size=3)
FIELDS = [
    Field('vc_tang', withR(g=gen.strength), lambda p, P, **k: c3(VC.vc_tang_u, P, p['g'], p['R'], False), lambda p, P: d_semi(P, p['R']), True, 0, ['R'], ['g'], lambda p: p['R'],
          polar=lambda p, P: cart_from_polar(vec(VC.vc_tang_u, 2, P[0].shape, *P, p['g'], p['R'], True), P)),
    Field('vc_tang_eps', withR(g=gen.strength, eps_R=gen.logu(-3, 0)), lambda p, P, **k: c3(VC.vc_tang_u, P, p['g'], p['R'], False, p['eps']), lambda p, P: d_semi(P, p['R']), None, 0, ['R', 'eps'], ['g'], lambda p: p['R'],
          polar=lambda p, P: cart_from_polar(vec(VC.vc_tang_u, 2, P[0].shape, *P, p['g'], p['R'], True, p['eps']), P)),
    Field('cylinder_tang', withR(g=gen.strength, zz_R=zz).map(fin), lambda p, P, **k: c3(VC.cylinder_tang_u, P, p['g'], p['R'], p['z1'], p['z2'], False), lambda p, P: d_fin(P, p['R'], p['z1'], p['z2']), True, 0,
          ['R', 'z1', 'z2'], ['g'], lambda p: p['R'], polar=lambda p, P: cart_from_polar(vec(VC.cylinder_tang_u, 2, P[0].shape, *P, p['g'], p['R'], p['z1'], p['z2'], True), P)),
    Field('vc_tang_doublet', withR(g=gen.strength, cut=gen.uni(1.2, 10)), lambda p, P, **k: c3(VC.vc_tang_u_doublet, P, p['g'], p['R'], p['cut'], False), lambda p, P: np.minimum(d_semi(P, p['R']), d_line(P, [0, 0, 1.0])), None, 0, ['R'], ['g'], lambda p: p['R'],
          noise='dl', polar=lambda p, P: cart_from_polar(vec(VC.vc_tang_u_doublet, 2, P[0].shape, *P, p['g'], p['R'], p['cut'], True), P)),
    Field('vc_longi', withR(g=gen.strength), lambda p, P, **k: c3(VC.vc_longi_u, P, p['g'], p['R']), lambda p, P: d_semi(P, p['R']), False, 0, ['R'], ['g'], lambda p: p['R'],
          polar=lambda p, P: cart_from_polar(vec(VC.vc_longi_u, 3, P[0].shape, *P, p['g'], p['R'], True), P)),
    Field('svc_tang', withR(g=gen.strength, m=skw), lambda p, P, N=None, **k: c3(VS.svc_tang_u, P, p['g'], p['R'], p['m'], nth(p, P, N)), lambda p, P: d_semi(P, p['R'], p['m']), True, 0, ['R'], ['g'], lambda p: p['R'], skewed=True, quad=True,
          polar=lambda p, P, N=None: cart_from_polar(vec(VS.svc_tang_u, 3, P[0].shape, *P, p['g'], p['R'], p['m'], nth(p, P, N), True), P)),
    Field('svc_longi', withR(g=gen.strength, m=skw), lambda p, P, N=None, **k: c3(VS.svc_longi_u, P, p['g'], p['R'], p['m'], nth(p, P, N)), lambda p, P: d_semi(P, p['R'], p['m']), False, 0, ['R'], ['g'], lambda p: p['R'], skewed=True, quad=True,
          polar=lambda p, P, N=None: cart_from_polar(vec(VS.svc_longi_u, 3, P[0].shape, *P, p['g'], p['R'], p['m'], nth(p, P, N), True), P)),
    Field('vc_root', withR(G=gen.strength), lambda p, P, **k: c3(VC.vc_root_u, P, p['G']), lambda p, P: d_line(P, [0, 0, 1.0]), False, -1, ['R'], ['G'], lambda p: p['R'],
          polar=lambda p, P: cart_from_polar(vec(VC.vc_root_u, 3, P[0].shape, *P, p['G'], True), P)),
    Field('svc_root', withR(G=gen.strength, m=sknz), lambda p, P, **k: c3(VS.svc_root_u, P, p['G'], p['m']), lambda p, P: d_line(P, skew_dir(p['m'])), False, -1, ['R'], ['G'], lambda p: p['R'], skewed=True,
          polar=lambda p, P: cart_from_polar(vec(VS.svc_root_u, 3, P[0].shape, *P, p['G'], p['m'], True), P)),
    Field('svc_all', withR(g=gen.strength, gl=gen.strength, m=skw), lambda p, P, N=None, **k: _svc_all(p, P, N), lambda p, P: np.minimum(d_semi(P, p['R'], p['m']), d_line(P, skew_dir(p['m']))), False, 0, ['R'], ['g', 'gl'], lambda p: p['R'], skewed=True, quad=True),
    Field('vortex_line', withR(G=gen.strength, e=gen.unitvec), ev_line, lambda p, P: d_line(P, p['e']), False, -1, ['R'], ['G'], lambda p: p['R']),
    Field('ring', withR(G=gen.strength), lambda p, P, **k: c3(VR.ring_u, P, p['G'], p['R'], False), lambda p, P: d_rim(P, p['R']), True, -1, ['R'], ['G'], lambda p: p['R'],
          polar=lambda p, P: cart_from_polar(vec(VR.ring_u, 2, P[0].shape, *P, p['G'], p['R'], True), P)),
    Field('ring_polar', withR(G=gen.strength, z0_R=gen.uni0(3)), lambda p, P, **k: cart_from_polar(vec(VR.ring_u_polar, 2, P[0].shape, np.hypot(P[0], P[1]), P[2].copy(), p['G'], p['R'], p['z0']), P), lambda p, P: d_rim(P, p['R'], p['z0']), True, -1,
          ['R', 'z0'], ['G'], lambda p: p['R']),
    Field('ring_core', withR(G=gen.strength, z0_R=gen.uni0(1), eps_R=gen.logu(-2, -0.3), meth=st.sampled_from(['Saffman', 'linear'])),
          lambda p, P, **k: cart_from_polar(vec(VR.ring_u_polar, 2, P[0].shape, np.hypot(P[0], P[1]), P[2].copy(), p['G'], p['R'], p['z0'], p['eps'], p['meth']), P), lambda p, P: d_rim(P, p['R'], p['z0']), None, -1,
          ['R', 'z0', 'eps'], ['G'], lambda p: p['R']),
    Field('doublet', withR(mv=vec3, x0_R=vec3), lambda p, P, **k: c3(VD.doublet_u, P, list(p['mv']), list(p['x0'])), lambda p, P: np.sqrt(((P-np.array(p['x0']).reshape(3, 1))**2).sum(0)), True, -3, ['R', 'x0'], ['mv'], lambda p: p['R']),
    Field('doublet_polar', withR(mz=gen.strength, z0_R=gen.uni0(2)), lambda p, P, **k: cart_from_polar(vec(VD.doublet_u_polar, 2, P[0].shape, np.hypot(P[0], P[1]), P[2].copy(), p['mz'], p['z0']), P),
          lambda p, P: np.sqrt(P[0]**2+P[1]**2+(P[2]-p['z0'])**2), True, -3, ['R', 'z0'], ['mz'], lambda p: p['R']),
    Field('doublet_line', withR(dm=gen.strength, m=skw), lambda p, P, **k: c3(VD.doublet_line_u, P, p['dm'], p['m']), lambda p, P: d_line(P, skew_dir(p['m'])), True, -2, ['R'], ['dm'], lambda p: p['R'], skewed=True, noise='dl'),
    Field('doublet_line_finite', withR(dm=gen.strength, m=skw, L_R=gen.uni(0.5, 4)), lambda p, P, **k: c3(VD.doublet_line_u, P, p['dm'], p['m'], p['L']), lambda p, P: d_line(P, skew_dir(p['m']), p['L']*np.sqrt(1+p['m']**2)), True, -2,
          ['R', 'L'], ['dm'], lambda p: p['R'], skewed=True, noise='dl'),
    Field('doublet_line_polar', withR(dm=gen.strength), lambda p, P, **k: cart_from_polar(vec(VD.doublet_line_polar_u, 2, P[0].shape, np.hypot(P[0], P[1]), P[2].copy(), p['dm']), P), lambda p, P: d_line(P, [0, 0, 1.0]), True, -2, ['R'], ['dm'], lambda p: p['R'], noise='dl'),
    Field('vortex_points', withR(X_R=st.lists(gen.uni0(2), min_size=6, max_size=6), Gs=st.lists(gen.strength, min_size=2, max_size=2)), ev_points, d_points, True, -1, ['R', 'X'], ['Gs'], lambda p: p['R']),
    Field('vortex_points_core', withR(X_R=st.lists(gen.uni0(2), min_size=6, max_size=6), Gs=st.lists(gen.strength, min_size=2, max_size=2), core_R=gen.logu(-1, 0.5), mo=st.sampled_from([[1, 2], [1, 4], [1, 6], [1, 8], [2, 2], [2, 4], [2, 6], [2, 8], [2, 10]])),
          ev_point_core, d_points, None, -1, ['R', 'X', 'core'], ['Gs'], lambda p: p['R']),
    Field('self_similar', withR(g=gen.strength), lambda p, P, **k: _ss(p, P), lambda p, P: np.where(P[2] >= 0, np.inf, np.inf), None, 0, ['R'], ['g'], lambda p: p['R']),
]


def _ss(p, P):
    u = np.asarray(call(SS.ss_u, P[0].copy(), P[1].copy(), P[2].copy(), p['g'], p['R']), float)
    return np.array([0*u, 0*u, u])


def _svc_all(p, P, N=None):
    r, psi = np.hypot(P[0], P[1]), np.arctan2(P[1], P[0])
    # root strength chosen proportional to the sheet strengths so that the three scale together
    return vec(VS.svc_u_polar, 3, P[0].shape, r, psi, P[2].copy(), p['g'], p['gl'], -p['gl']*2*np.pi*p['R'], R=p['R'], m=p['m'], ntheta=nth(p, P, N))


BY = {f.name: f for f in FIELDS}


def condition(F, p, P):
    """ relative error to expect from rounding (of the result relative to the local size of the field) """
    R = F.size(p)
    L = np.sqrt((P**2).sum(0))+R*(1+abs(p.get('z1', 0)/R)+abs(p.get('z0', 0)/R))
    m = p.get('m', 0.0)
    d = np.maximum(F.dist(p, P), 1e-9*R)
    d = np.minimum(d, L)
    if F.name in ('vc_tang', 'vc_tang_eps', 'cylinder_tang', 'vc_tang_doublet', 'vc_longi'):   # closed forms lose eps/|r-R|^2, also upstream
        d = np.minimum(d, np.maximum(np.abs(np.hypot(P[0], P[1])-R), 1e-9*R))
    c = 300*2.3e-16*(1+m*m)*(L/d)**2
    if F.noise == 'dl':
        h = np.sqrt(np.maximum(P[1]**2+(P[0]-m*P[2])**2/(1+m*m), 0))      # distance to the whole line, prolongation included
        h = np.maximum(h, 1e-9*R)
        cd = 100*2.3e-16*(1+(L+p.get('L', 0)*np.sqrt(1+m*m))/h)**4
        if 'L' in p:                                                       # difference of two semi-infinite lines
            cd = cd*(1+L/p['L'])
        if 'cut' in p:
            cd = np.where(np.sqrt((P**2).sum(0)) > 0.999*p['cut']*R, cd, 0)
        c = c+cd
    return c


def case_st(F, *classes, lo=1, hi=4, **extra):
    """ cases of one field """
    return st.fixed_dictionaries(dict(f=st.just(F.name), p=F.params, pts=gen.points(*classes, lo=lo, hi=hi), sh=st.booleans(), **extra))


def any_field(fields, *classes, lo=1, hi=4, **extra):
    return st.sampled_from([F.name for F in fields]).flatmap(lambda n: case_st(BY[n], *classes, lo=lo, hi=hi, **extra))


def get(case):
    F = BY[case['f']]; p = case['p']
    P = gen.XYZ(case['pts'], F.size(p))
    if F.skewed and case['sh']:           # move the points with the skewed wake so that its inside is sampled
        P[0] = P[0]+p['m']*np.where(P[2] > 0, P[2], 0)
    return F, p, P
