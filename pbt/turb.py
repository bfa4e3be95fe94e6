"""Turbines from plain dict states, and their velocity field from first principles (used by C10, C15..C20, C22).

state: R; hub (in radii); fr (rotation that brings the default vertical (0,1,0) / shaft (0,0,1) to e_vert / e_shaft_yaw0);
       yaw (rad); dw: angle from the yawed shaft to the wind about the vertical; U: wind speed; load: loading dict
"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Skip, call, vec, close, require
import gen, ref
from wiz.WindTurbine import WindTurbine
from wiz import Solver

PI = math.pi
RAD = PI/180


# ------------------------------------------------------------------------------------------ geometry from first principles
def axes0(s):
    M = ref.rot(s['fr']['axis'], s['fr']['ang'])
    v = M @ np.array([0, 1.0, 0]); sh = M @ np.array([0, 0, 1.0])
    if s.get('snap'):
        v, sh = np.round(v, 15)+0.0, np.round(sh, 15)+0.0
    return v, sh


def geom(s):
    """ vertical, shaft0, shaft, T (columns x,y,z of the wake frame), wind vector, chi """
    v, s0 = axes0(s)
    sh = ref.rot(v, s['yaw']) @ s0
    w = ref.rot(v, s['dw']) @ sh
    T = np.stack((np.cross(v, sh), v, sh), 1)
    return v, s0, sh, T, w*s['U'], s['dw']


def hub(s):
    return np.array(s['hub'], float)*s['R']


def wind(s):
    return geom(s)[4]


def to_global(s, Q):
    """ wake-frame coordinates relative to the hub (in radii) -> global """
    T = geom(s)[3]
    return T @ (Q*s['R'])+hub(s).reshape(3, 1)


def to_local(s, P):
    return geom(s)[3].T @ (P-hub(s).reshape(3, 1))


# ------------------------------------------------------------------------------------------ loadings
def expected_loading(load, R, U, Lambda0=np.inf):
    """ radii, gamma_t, gamma_l (or None), Gamma_r (or None) """
    k = load['k']
    lam = load.get('lam')
    lam = Lambda0 if lam is None else (np.inf if lam == 'inf' else lam)
    c = np.array(load['c'], float)
    r = np.array(load['r'], float)*R if 'r' in load else None
    n = load.get('n', 1)
    if n == 1:
        r, c = np.array([0.995*R]), np.array([np.mean(c)])
    elif n is not None:
        rr = np.linspace(0.005, 0.995, n)*R
        c = np.interp(rr, r, c); r = rr
    if k == 'fun':
        gt, gl, Gr = -load['f']*U*c-load.get('f2', 0)*U*c**2, None, None
    else:
        Om = lam*U/R
        f = Solver.WakeVorticityFromCt if k == 'ct' else Solver.WakeVorticityFromGamma
        a = c if k == 'ct' else c*U*R
        gt, gl, Gr, _ = f(r, a, R, U, Om)
    radii = np.array([R]) if len(np.atleast_1d(gt)) == 1 else r
    return radii, np.atleast_1d(gt), gl, Gr


def apply_loading(WT, load, R, U, how='array'):
    k = load['k']
    kw = {}
    n = load.get('n', 1)
    if n != 1 or load.get('pass_n'):
        kw['nCyl'] = n
    if 'r' in load:
        kw['r'] = np.array(load['r'], float)*R
    lam = load.get('lam')
    if lam is not None:
        kw['Lambda'] = np.inf if lam == 'inf' else lam
    c = np.array(load['c'], float)
    if len(c) == 1 and n == 1 and load.get('scalar', True):
        c = float(c[0])
    if k == 'gam':
        kw['Gamma'] = c*U*R
    else:
        kw['Ct'] = c
    if k == 'fun':
        f, f2 = load['f'], load.get('f2', 0)
        kw['gamma_t_Ct'] = lambda C: -f*U*np.asarray(C)-f2*U*np.asarray(C)**2
    call(WT.update_loading, **kw)


def make(s, via='ctor', chi=None, **kw):
    v, s0, sh, T, w, _ = geom(s)
    if via == 'ctor':
        WT = call(WindTurbine, s['R'], r_hub=hub(s).tolist(), e_shaft_yaw0=s0.tolist(), e_vert=v.tolist(), U0=w.tolist(), **kw)
    else:
        WT = call(WindTurbine, s['R'], e_shaft_yaw0=s0, e_vert=v, **kw)
        call(WT.update_position, hub(s))
        call(WT.update_wind, w)
    if via == 'setcoord':
        call(WT.set_yaw0_coord, s0.tolist(), v.tolist())
    if s['yaw'] != 0 or via != 'ctor':
        call(WT.update_yaw_pos, s['yaw'])
    if chi is not None:
        call(WT.set_chi, chi)
    if s.get('load') is not None:
        apply_loading(WT, s['load'], s['R'], s['U'])
    return WT


# ------------------------------------------------------------------------------------------ reference field
def tubes_of(s, Lambda0=np.inf):
    return expected_loading(s['load'], s['R'], s['U'], Lambda0)


def sheet_dist(s, Q, chi=None):
    """ min distance (in R) of local points Q (in units of length) to any tube, the root line, and azimuthal resolution needed """
    m = math.tan(geom(s)[5] if chi is None else chi)
    if abs(m) < 1e-7:
        m = 0.0
    radii = tubes_of(s)[0]
    d = np.full(Q.shape[1], np.inf); N = np.zeros(Q.shape[1])
    for r in radii:
        d = np.minimum(d, gen.d_sheet(Q, r, m)*r/s['R'])
        if m:
            N = np.maximum(N, 26/np.maximum(gen.eta_tang(Q, r, m), 1e-6))
    e = np.array([[m], [0], [1.0]])/math.sqrt(1+m*m)
    t = np.maximum(0, (Q*e).sum(0))
    dl = np.sqrt(((Q-e*t)**2).sum(0))/s['R']
    return d, dl, N


def ref_local(s, Q, chi=None, tang=True, longi=False, root=False, strengths=None):
    """ induced velocity in the wake frame at local points (lengths) """
    m = math.tan(geom(s)[5] if chi is None else chi)
    radii, gt, gl, Gr = strengths or tubes_of(s)
    u = np.zeros(Q.shape)
    for j, r in enumerate(radii):
        if tang and gt[j] != 0:
            u += ref.tang_tube(Q, gt[j], r, m)
        if longi and gl is not None and np.atleast_1d(gl)[j] != 0:
            u += ref.longi_tube(Q, np.atleast_1d(gl)[j], r, m)
    if root and Gr is not None and float(np.ravel(Gr)[0]) != 0:
        u += ref.line_semiinf(Q, float(np.ravel(Gr)[0]), np.array([m, 0, 1.0])/math.sqrt(1+m*m))
    return u


def scale_of(s, strengths=None):
    """ velocity scale: sum of the sheet strengths """
    radii, gt, gl, Gr = strengths or tubes_of(s)
    t = np.abs(gt).sum()
    if gl is not None:
        t += np.abs(gl).sum()
    if Gr is not None:
        t += abs(float(np.ravel(Gr)[0]))/s['R']
    return t


def good(s, Q, dmin=0.02, nmax=180, line=True, chi=None):
    """ indices of the points that are off the vorticity and resolved by the 180 azimuths of the turbine """
    d, dl, N = sheet_dist(s, Q, chi)
    ok = (d > dmin) & (N <= nmax)
    if line:
        ok &= dl > dmin
    return np.where(ok & clean(s, Q))[0]


def clean(s, Q):
    """ points where the closed forms keep their digits: not within rounding of the axis or of the radius of a tube, also upstream (C01) """
    r = np.hypot(Q[0], Q[1])
    radii = tubes_of(s)[0]
    ok = (r == 0) | (r > 1e-3*min(radii))
    for R in radii:
        ok &= np.abs(r-R) > 1e-4*R
    return ok


def velocity(WT, P, **kw):
    return vec(WT.compute_u, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **kw)


# ------------------------------------------------------------------------------------------ strategies
yaw = gen.pick(0.0, 0.3, -0.3, PI/2, -PI/2, PI, 2*PI, -2*PI, 7.0, -20.0, other=st.one_of(gen.uni0(PI), gen.uni0(40)), p=0.4)
dw = gen.pick(0.0, 0.0, 30*RAD, -30*RAD, 10*RAD, other=st.one_of(gen.uni0(40*RAD), gen.uni0(75*RAD), gen.slogu(-6, -1)), p=0.4)
hubs = st.one_of(st.just([0, 0, 0]), st.lists(gen.uni0(8), min_size=3, max_size=3), st.lists(st.integers(-5, 5), min_size=3, max_size=3))
Us = gen.pick(1.0, 10, 8.0, other=gen.logu(-0.5, 1.5), p=0.5)
Rs = gen.pick(1, 1.0, 63.5, 100.0, other=gen.logu(-0.3, 2.2), p=0.5)
def radii(lo, hi, small=False):
    """ increasing radii as fractions of the rotor radius; the last one need not be the tip, the first may be tiny """
    def build(t):
        x = np.cumsum(t[0])/sum(t[0])*t[1]
        if small and len(x) > 1:
            x[0] *= t[2]
        return x.tolist()
    return st.tuples(st.lists(gen.uni(0.03, 1), min_size=lo, max_size=hi), st.sampled_from([1, 1, 1, 0.995, 0.9, 0.6]), st.sampled_from([1, 1, 1, 1e-2, 1e-4])).map(build)


fractions = radii(2, 5)


def _cs(n, f):
    return st.lists(f, min_size=n, max_size=n)


ctv = gen.pick(0.8, 0.4, 0.0, other=gen.uni(0.02, 0.95), p=0.3)
load_fun1 = st.fixed_dictionaries(dict(k=st.just('fun'), c=st.one_of(_cs(1, gen.uni(0.1, 1)), _cs(3, gen.uni(0.1, 1))), f=gen.slogu(-1, 0.3), f2=gen.pick(0.0, other=gen.uni(0, 0.5), p=0.6)))
load_funN = fractions.flatmap(lambda r: st.fixed_dictionaries(dict(k=st.just('fun'), r=st.just(r), n=st.none(), c=_cs(len(r), gen.pick(0.0, other=gen.uni0(1), p=0.15)), f=gen.slogu(-1, 0.3))))
ncyl = st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(2, 6), st.integers(7, 24))
load_funI = fractions.flatmap(lambda r: st.fixed_dictionaries(dict(k=st.just('fun'), r=st.just(r), n=ncyl, c=_cs(len(r), gen.uni0(1)), f=gen.slogu(-1, 0.3))))
load_ct1 = st.fixed_dictionaries(dict(k=st.just('ct'), c=_cs(1, ctv), lam=st.sampled_from([None, 'inf', 'inf', 6, 3.0, 12])))
load_ctN = fractions.flatmap(lambda r: st.fixed_dictionaries(dict(k=st.just('ct'), r=st.just(r), n=st.one_of(st.none(), st.integers(2, 5)), c=_cs(len(r), ctv), lam=st.sampled_from([None, 'inf', 6, 4.0, 10]))))
load_gam1 = st.one_of(_cs(1, gen.uni(0.02, 0.3)), _cs(1, gen.uni(0.02, 0.3)), _cs(4, gen.uni(0.02, 0.3))).flatmap(lambda c: st.fixed_dictionaries(dict(k=st.just('gam'), c=st.just(c), lam=st.sampled_from([6, 4.0, 10, 30.0]))))
load_gamN = fractions.flatmap(lambda r: st.fixed_dictionaries(dict(k=st.just('gam'), r=st.just(r), n=st.one_of(st.none(), st.integers(2, 5)), c=_cs(len(r), gen.uni(0.02, 0.25)), lam=st.sampled_from([6, 4.0, 8]))))
load_any = st.one_of(load_fun1, load_fun1, load_funN, load_funI, load_ct1, load_ctN, load_gam1, load_gamN)
load_single = st.one_of(load_fun1, load_fun1, load_ct1, load_gam1)
load_swirl = st.one_of(load_ct1.map(lambda l: dict(l, lam=6 if l['lam'] in (None, 'inf') else l['lam'])), load_gam1, load_gamN, load_ctN.map(lambda l: dict(l, lam=5.0 if l['lam'] in (None, 'inf') else l['lam'])))


def states(load=load_any, dwx=dw, hub=hubs, **kw):
    return st.fixed_dictionaries(dict(R=Rs, hub=hub, fr=gen.rotation, yaw=yaw, dw=dwx, U=Us, load=load, snap=st.booleans(), **kw))


PTS = ('generic', 'inside', 'outside', 'axis', 'plane', 'deep', 'far', 'up', 'grid')


def wake_points(s, pts, chi=None):
    """ local points (lengths) in the wake frame, half of them moved with the skewed wake """
    Q = gen.XYZ(pts, s['R'])
    m = math.tan(geom(s)[5] if chi is None else chi)
    for i, p in enumerate(pts):
        if p['c'] in ('inside', 'outside', 'deep', 'axis') and Q[2, i] > 0:
            Q[0, i] += m*Q[2, i]
    return Q


def tol_field(s, Q, sc, chi=None):
    """ error bound of the code relative to the reference: azimuthal quadrature, closed forms, and the angle """
    m = math.tan(geom(s)[5] if chi is None else chi)
    d, dl, N = sheet_dist(s, Q, chi)
    L = 1+np.sqrt((Q**2).sum(0))/s['R']
    dd = np.clip(np.minimum(d, dl), 0.01, 1)
    ang = 1.5e-7 if 0 < abs(m) < 1.2e-7 else 3e-9        # skews below 1e-7 are treated as aligned by the code
    return sc*(2e-9+ang*np.minimum(L, 1e3)*(1+m*m)/dd**2)
