"""C27 arguments may be given by position, by name or left out with their documented meaning"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexRing as VR, VortexDoublet as VD, VortexLine as VL, VortexPoint as VP, SelfSimilar as SS, Solver as SO
from wiz import plotting_functions as PF, WindTurbine as WT, WindFarm as WF, elliptic as EL

RULE = ('cases draw a routine, values of all its arguments, and for each argument whether it is given by position, by name or left out (then the documented default is its value); '
        'a case counts when at least one argument is left out or named')
ASSUMPTIONS = ['the documented default of an argument is the one of the published signature (unit element of negative strength at the origin, semi-infinite, unskewed, unregularised, no ground, ...), written out in the tables of this check',
               'the reference call passes every argument by position in the published order']
REQ = '<required>'


# ---- kinds: name -> f(u, n): value made of the uniform numbers served by u()
def pts(lo, hi, s=0.0):
    return lambda u, n: np.array([lo+(hi-lo)*u() for _ in range(n)])


def sc(lo, hi):
    return lambda u, n: lo+(hi-lo)*u()


def it(lo, hi):
    return lambda u, n: int(lo+math.floor((hi+1-lo)*u()*0.999999))


def ch(*v):
    return lambda u, n: v[int(len(v)*u()*0.999999)]


def ls(k, lo, hi):
    return lambda u, n: [lo+(hi-lo)*u() for _ in range(k)]


def arr(k, lo, hi):
    return lambda u, n: np.array([lo+(hi-lo)*u() for _ in range(k)])


def mat(k, l, lo, hi):
    return lambda u, n: np.array([[lo+(hi-lo)*u() for _ in range(l)] for _ in range(k)])


def inc(k, lo, hi):
    """ k increasing values """
    def f(u, n):
        d = np.cumsum([0.2+u() for _ in range(k+1)])
        return lo+(hi-lo)*d[:-1]/d[-1]
    return f


X = [('Xcp', pts(-9, 9), REQ), ('Ycp', pts(-9, 9), REQ), ('Zcp', pts(-9, 9), REQ)]
X3 = [('Xcp', pts(-3, 3), REQ), ('Ycp', pts(-3, 3), REQ), ('Zcp', pts(-3, 3), REQ)]
V = [('vr', pts(0.05, 3), REQ), ('vpsi', pts(-3.1, 3.1), REQ), ('vz', pts(-3, 3), REQ)]
RZ = [('r', pts(0.05, 3), REQ), ('z', pts(-3, 3), REQ)]
CZ = [('rcp', pts(0.05, 3), REQ), ('zcp', pts(-3, 3), REQ)]
S = lambda n: (n, sc(0.3, 3), -1)
Rd = lambda n='R': (n, sc(0.4, 2), 1)
M = ('m', sc(-1.2, 1.2), 0)
NT = ('ntheta', it(60, 240), 180)
B = lambda n, d: (n, ch(True, False), d)
E = ('epsilon', sc(0.02, 0.5), 0)
G21, P2 = mat(2, 2, -2, 2), arr(2, -3, 3)
MULTI = [('Xcyl', P2, REQ), ('Ycyl', P2, REQ), ('Zcyl', P2, REQ)]
R22 = ('R', mat(2, 2, 0.4, 2), REQ)
SO_C = [('R', sc(0.8, 90), REQ), ('U0', sc(3, 15), REQ)]
NUM = [('nQuad', it(40, 300), 100)]

FUNCS = {
    'vc_tang_u_doublet': (VC.vc_tang_u_doublet, X+[S('gamma_t'), Rd(), ('r_bar_Cut', sc(1.5, 9), 6), B('polar_out', True)]),
    'vc_tang_u': (VC.vc_tang_u, X3+[S('gamma_t'), Rd(), B('polar_out', True), E]),
    'vc_longi_u_polar': (VC.vc_longi_u_polar, V+[S('gamma_l'), Rd(), B('polar_out', False)]),
    'vc_longi_u': (VC.vc_longi_u, X3+[S('gamma_l'), Rd(), B('polar_out', False)]),
    'vc_root_u': (VC.vc_root_u, X3+[S('Gamma_r'), B('polar_out', False)]),
    'cylinder_tang_semi_inf_u_raw': (VC.cylinder_tang_semi_inf_u_raw, X3+[S('gamma_t'), Rd()]),
    'vcs_tang_u': (VC.vcs_tang_u, X3+[('gamma_t', G21, REQ), R22]+MULTI+[E, B('Ground', False)]),
    'vcs_longi_u': (VC.vcs_longi_u, X3+[('gamma_l', G21, REQ), R22]+MULTI+[B('Ground', False)]),
    'cylinder_tang_u': (VC.cylinder_tang_u, X3+[S('gamma_t'), Rd(), ('z1', sc(-4, -1), -2), ('z2', sc(0, 4), 2), B('polar_out', True), E]),
    'svc_tang_u_polar': (VS.svc_tang_u_polar, V+[S('gamma_t'), Rd(), M, NT, B('polar_out', False)]),
    'svc_longi_u_polar': (VS.svc_longi_u_polar, V+[S('gamma_l'), Rd(), M, NT, B('polar_out', False)]),
    'svc_root_u_polar': (VS.svc_root_u_polar, V+[S('Gamma_r'), M, B('polar_out', False)]),
    'svc_u_polar': (VS.svc_u_polar, V+[('gamma_t', sc(-2, 2), REQ), ('gamma_l', sc(-2, 2), REQ), ('Gamma_r', sc(-2, 2), REQ), Rd(), M, NT, B('polar_out', False)]),
    'svc_longi_u': (VS.svc_longi_u, X3+[S('gamma_l'), Rd(), M, NT, B('polar_out', False)]),
    'svc_tang_u': (VS.svc_tang_u, X3+[S('gamma_t'), Rd(), M, NT, B('polar_out', False)]),
    'svc_root_u': (VS.svc_root_u, X3+[S('Gamma_r'), M, B('polar_out', False)]),
    'svcs_tang_u': (VS.svcs_tang_u, X3+[('gamma_t', G21, REQ), R22, ('m', mat(2, 2, -1, 1), REQ)]+MULTI+[NT, B('Ground', False)]),
    'svcs_longi_u': (VS.svcs_longi_u, X3+[('gamma_l', G21, REQ), R22, ('m', mat(2, 2, -1, 1), REQ)]+MULTI+[NT, B('Ground', False)]),
    'fV_Trailed': (VS.fV_Trailed, V+[('m', sc(-1.2, 1.2), REQ), ('gamma_longi', sc(-2, 2), REQ), ('ntheta', it(60, 240), REQ), ('nout', it(1, 7), 7)]),
    'fV_Tangential': (VS.fV_Tangential, V+[('m', sc(-1.2, 1.2), REQ), ('gamma_t', sc(-2, 2), REQ), ('ntheta', it(60, 240), REQ), ('nout', it(1, 7), 7)]),
    'fV_Root': (VS.fV_Root, V+[M, S('Gamma_r'), ('nout', it(1, 7), 1)]),
    'fKzt': (VS.fKzt, [('r', pts(0.05, 0.95), REQ), ('m', sc(0.1, 1.2), REQ), ('nout', it(1, 3), 2)]),
    'ring_u_polar_singular': (VR.ring_u_polar_singular, RZ+[S('Gamma'), Rd('r0')]),
    'ring_u_polar_singularb': (VR.ring_u_polar_singularb, RZ+[S('Gamma'), Rd('r0')]),
    'ring_u_polar': (VR.ring_u_polar, [('r', sc(0.05, 3), REQ), ('z', sc(-1, 1), REQ), S('Gamma'), Rd('r0'), ('z0', sc(-2, 2), 0), ('epsilon', sc(0.1, 0.7), 0), ('reg_method', ch('Saffman'), 'Saffman')]),
    'ring_u': (VR.ring_u, X3+[S('Gamma'), Rd(), B('polar_out', True), ('epsilon', sc(0.1, 0.7), 0)]),
    'rings_u': (VR.rings_u, X3+[('Gamma_r', P2, REQ), ('Rr', arr(2, 0.4, 2), REQ), ('Xr', arr(2, 0, 0), REQ), ('Yr', arr(2, 0, 0), REQ), ('Zr', P2, REQ), B('polar_out', True), ('epsilon', sc(0.1, 0.7), 0)]),
    'doublet_u': (VD.doublet_u, X3+[('m', ls(3, -2, 2), REQ), ('x0', ls(3, -2, 2), [0, 0, 0])]),
    'doublet_u_polar': (VD.doublet_u_polar, CZ+[('m_z', sc(-2, 2), REQ), ('z0', sc(-2, 2), 0)]),
    'doublet_line_polar_u_num': (VD.doublet_line_polar_u_num, CZ+[('dmz_dz', sc(-2, 2), REQ), ('z0', sc(-2, 2), 0), ('zmax', sc(5, 2000), 1000)]+NUM),
    'doublet_line_polar_u': (VD.doublet_line_polar_u, CZ+[('dmz_dz', sc(-2, 2), REQ), B('bSelfInd', False)]),
    'doublet_line_u': (VD.doublet_line_u, X3+[('dmz_dz', sc(-2, 2), REQ), M, ('L', sc(0.3, 8), np.inf)]),
    'doublet_line_u_num': (VD.doublet_line_u_num, X3+[('dmz_dz', sc(-2, 2), REQ), M, ('zmax', sc(5, 2000), 1000)]+NUM),
    'vl_semiinf_straight_u_polar': (VL.vl_semiinf_straight_u_polar, V+[S('Gamma_r'), B('polar_out', False)]),
    'vl_semiinf_straight_u': (VL.vl_semiinf_straight_u, X3+[S('Gamma_r'), B('polar_out', False)]),
    'vl_semiinf_u': (VL.vl_semiinf_u, [(n, sc(-2, 2), REQ) for n in ('xa', 'ya', 'za', 'xe', 'ye', 'ze', 'Gamma')]+[('visc_model', it(0, 5), REQ), ('t', sc(0.1, 1), REQ)]),
    'vp_u': (VP.vp_u, [('CP', arr(2, -2, 2), REQ), ('Pv', arr(2, -2, 2), REQ), ('Gamma', sc(-2, 3), 1), ('rcore', sc(0.3, 2), 0), B('bViscous', False)]),
    'vps_u': (VP.vps_u, [('CP', mat(3, 2, -2, 2), REQ), ('XV', mat(2, 2, -2, 2), REQ), ('Gammas', arr(2, -2, 2), REQ), ('SmoothModel', it(0, 2), 0), ('KernelOrder', ch(2, 4, 6, 8), 2), ('SmoothParam', arr(2, 0.3, 2), None)]),
    'ss_u': (SS.ss_u, X3+[('gamma_t', sc(-2, 2), REQ), Rd(), ('lambda_', sc(0.3, 0.9), 0.587), ('eta', sc(0.8, 2), 1.32)]),
    'Ct_const_cutoff': (SO.Ct_const_cutoff, [('CT0', sc(0, 1), REQ), ('r_bar_cut', sc(0.1, 0.4), REQ), ('vr_bar', inc(5, 0, 1.0), REQ), ('r_bar_tip', sc(0.6, 0.95), None)]),
    'InductionsFromPrescribedCtCq_ST': (SO.InductionsFromPrescribedCtCq_ST, [('vr_bar', inc(4, 0.1, 1.0), REQ), ('Ct', arr(4, 0, 0.9), REQ), ('Cq', arr(4, 0, 0.2), REQ), ('Lambda', sc(2, 12), REQ), ('bSwirl', ch(True, False), REQ)]),
    'CirculationFromPrescribedCt': (SO.CirculationFromPrescribedCt, [('vr_bar', inc(4, 0.1, 1.0), REQ), ('vCt', arr(4, 0.1, 0.9), REQ), ('Lambda', sc(2, 12), REQ), ('bSwirl', ch(True, False), REQ)]),
    'InductionsFromCirculation_VC_Cont': (SO.InductionsFromCirculation_VC_Cont, [('vr_bar', inc(4, 0.3, 1.0), REQ), ('lambda_r', inc(4, 3, 9), REQ), ('k', arr(4, 0.3, 0.99), REQ), ('bSwirl', ch(True, False), REQ), ('method', ch('analytical', 'ANALYTICAL'), 'analytical'), B('bHighThrustCorr', True), ('Cq', arr(4, 0.02, 0.2), None)]),
    'WakeVorticityFromCirculation_Cont': (SO.WakeVorticityFromCirculation_Cont, [('r_cp', inc(4, 0.3, 0.79), REQ), ('Gamma_cp', arr(4, 8, 24), REQ), ('R', sc(0.8, 1), REQ), ('U0', sc(8, 9), REQ), ('Omega', sc(8, 9), REQ), ('bSwirl', ch(True, False), REQ), ('method', ch('analytical'), 'analytical'), B('bHighThrustCorr', True)]),
    'WakeVorticityFromCirculation_Discr': (SO.WakeVorticityFromCirculation_Discr, [('r_cp', inc(4, 0.3, 0.79), REQ), ('Gamma_cp', arr(4, 4, 13), REQ), ('R', sc(0.8, 1), REQ), ('U0', sc(8, 9), REQ), ('Omega', sc(8, 9), REQ), ('nB', it(1, 2), REQ), ('bSwirl', ch(True, False), REQ), ('method', ch('analytical'), 'analytical'), B('bTanInd_k', True), B('bHighThrustCorr', True), ('r_cyl', inc(4, 0.8, 1.2), None)]),
    'WakeVorticityFromCt': (SO.WakeVorticityFromCt, [('r', inc(4, 0.3, 0.79), REQ), ('Ct', arr(4, 0.1, 0.9), REQ), ('R', sc(0.8, 1), REQ), ('U0', sc(8, 9), REQ), ('Omega', sc(20, 60), REQ)]),
    'WakeVorticityFromGamma': (SO.WakeVorticityFromGamma, [('r', inc(4, 0.3, 0.79), REQ), ('Gamma', arr(4, 2, 5), REQ), ('R', sc(0.8, 1), REQ), ('U0', sc(8, 9), REQ), ('Omega', sc(20, 60), REQ)]),
    'ellipticPiCarlson': (EL.ellipticPiCarlson, [('n', arr(3, -2, 0.9), REQ), ('m', arr(3, -2, 0.9), REQ)]),
    'gridLayout': (WF.gridLayout, [('nx', it(1, 4), REQ), ('xSpacing', sc(1, 300), REQ), ('nz', it(1, 3), REQ), ('zSpacing', sc(1, 300), REQ), ('hub_height', sc(20, 120), 0), B('mirror', False)]),
    'windfarm_gridlayout_CTconst': (WF.windfarm_gridlayout_CTconst, [(n, pts(-9, 9), REQ) for n in ('Xcp', 'Ycp', 'Zcp')]+[('R', sc(0.5, 1.5), REQ), ('CT', sc(0.1, 0.9), REQ), ('U0', sc(3, 12), REQ), ('nxWT', it(1, 2), REQ), ('xWTSpacing', sc(3, 7), REQ), ('nzWT', it(1, 2), REQ), ('zWTSpacing', sc(3, 7), REQ), ('hub_height', sc(1, 3), 0), B('mirror', False)]),
    'get_cmap': (lambda *a, **k: (lambda r: (r[0](np.linspace(0, 1, 7)), r[1]))(PF.get_cmap(*a, **k)), [('minSpeed', sc(0.3, 0.85), REQ), ('maxSpeed', sc(1.02, 1.2), REQ), ('alpha', sc(0.1, 0.9), 1)]),
    'make_colormap': (lambda *a, **k: PF.make_colormap(*a, **k)(np.linspace(0, 1, 9)), [('seq', lambda u, n: [(u(), u(), u()) for _ in range(4)], REQ), ('values', lambda u, n: np.array([0, 0.2+0.2*u(), 0.5+0.3*u(), 1.0]), None)]),
}
NAMES = sorted(FUNCS)


SPECIAL = [(1, 0, 0), (0, 0, 0), (0, 0, 0.7), (0, 0, -0.7), (1, 0, 0.7), (0, -1, -0.7), (1.002, 0, 0), (0, 0.9996, 0), (0.9, 0, 0.05), (1e-4, 0, 1)]


def flat(r):
    if r is None:
        return [('none', None)]
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in [('key', k)]+flat(r[k])]
    if isinstance(r, (tuple, list)) and not all(np.isscalar(v) for v in r):
        return [('n', len(r))]+[x for v in r for x in flat(v)]
    return [('a', np.asarray(r))]


def outcome(f, a, k):
    try:
        return flat(f(*a, **k)), None
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return None, e


def same(r1, r0, what):
    require([x[0] for x in r1] == [x[0] for x in r0], '%s: another number or kind of results', what)
    for (t, x), (_, y) in zip(r1, r0):
        if t != 'a':
            require(x == y, '%s: %s instead of %s', what, x, y)
        elif y.dtype.kind in 'fiu':
            require(x.shape == y.shape, '%s: shape %s instead of %s', what, x.shape, y.shape)
            g = np.isfinite(y.astype(float))
            require(np.array_equal(np.isfinite(x.astype(float)), g), '%s: finite elsewhere', what)
            if g.any():
                sc_ = np.abs(y[g]).max()
                close(x[g], y[g], 1e-9*sc_+1e-300, what)


def arrange(spec, modes, vals):
    """ -> (args, kwargs, full positional args, names left out) : arguments up to the first one not given by position are positional """
    a, k, full, out = [], {}, [], []
    pos = True
    for i, (n, kind, d) in enumerate(spec):
        m = modes[i % len(modes)]
        if d is not REQ and m == 'omit':
            full.append(d if not isinstance(d, list) else list(d)); out.append(n); pos = False
            continue
        full.append(vals[n])
        if m == 'name':
            pos = False
        if pos:
            a.append(vals[n])
        else:
            k[n] = vals[n]
    return a, k, full, out


def serve(us):
    i = [0]

    def u():
        i[0] += 1
        return us[(i[0]*7+i[0]//len(us)*3) % len(us)] if i[0] > len(us) else us[i[0]-1]
    return u


def copies(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    return list(x) if isinstance(x, list) else x


def chk_functions(case):
    name = NAMES[case['fn'] % len(NAMES)]
    f, spec = FUNCS[name]
    u = serve(case['us']); n = 1+case['n']
    vals = {s[0]: s[1](u, n) for s in spec}
    if case['sp'] is not None:                    # one of the points on an element of unit radius at the origin, or close to it
        q = SPECIAL[case['sp'] % len(SPECIAL)]; pz = np.hypot(q[0], q[1])
        for t in (('Xcp', 'Ycp', 'Zcp'), ('vr', 'vpsi', 'vz'), ('r', 'z'), ('rcp', 'zcp')):
            if t[0] in vals and t[-1] in vals and t[-1] != t[0]:
                w = q if len(t) == 3 and t[0] != 'vr' else (pz, 0.0, q[2]) if len(t) == 3 else (pz, q[2])
                for nm, x in zip(t, w):
                    if isinstance(vals[nm], np.ndarray):
                        vals[nm][-1] = x
                    else:
                        vals[nm] = x
    a, k, full, out = arrange(spec, case['modes'], vals)
    what = '%s(%s)' % (name, ', '.join(['.']*len(a)+['%s=' % q for q in k])+(', without '+', '.join(out) if out else ''))
    r0, e0 = outcome(f, [copies(x) for x in full], {})
    r1, e1 = outcome(f, [copies(x) for x in a], {q: copies(v) for q, v in k.items()})
    if e0 is not None and e1 is not None:
        raise Skip()
    require(e1 is None, '%s raised %r although the call with all arguments by position answers', what, e1)
    require(e0 is None, '%s answers although the call with all arguments by position raised %r', what, e0)
    same(r1, r0, what)


# ---- turbines and farms
INIT = [('R', sc(0.5, 2), REQ), ('r_hub', ls(3, -3, 3), [0, 0, 0]), ('axes', it(1, 5), 0), ('U0', lambda u, n: u, [0, 0, 10]), ('Ct', sc(0.2, 0.85), None), ('Lambda', sc(4, 12), np.inf), ('name', ch('T1', 'x'), ''), ('Ground', ch(True, False), False), ('Model', ch('VC'), 'VC')]
AXES = [([0, 0, 1], [0, 1, 0]), ([1, 0, 0], [0, 0, 1]), ([0, 0, 1], [1, 0, 0]), ([0, 1, 0], [0, 0, 1]), ([-1, 0, 0], [0, 0, 1]), ([0, 0, 1], [0, -1, 0])]
EVAL = [('only_ind', ch(True, False), False), ('longi', ch(True, False), False), ('tang', ch(True, False), True), ('root', ch(True, False), False), ('no_wake', ch(True, False), False), ('ground', ch(True, False), None), ('Model', ch('VC', 'VCFF', 'VD', 'SS'), None), ('R_far_field', sc(0.5, 8), 6)]
XYZ = ['Xg', 'Yg', 'Zg']


def build(case, explicit, log):
    u = serve(case['us'])
    R = 0.5+1.5*u(); ax = AXES[1+int(5*u()*0.9999)] if 'axes' not in case['omit'] else AXES[0]
    al = (u()-0.5)*1.2 if case['yawed'] else 0.0
    es, ev = np.array(ax[0], float), np.array(ax[1], float)
    U = (3+9*u())*(math.cos(al)*es+math.sin(al)*np.cross(ev, es))
    v = dict(R=R, r_hub=[6*u()-3 for _ in range(3)], e_shaft_yaw0=list(ax[0]), e_vert=list(ax[1]), U0=U.tolist(), Ct=0.2+0.6*u(), Lambda=4+8*u(), name='T1', Ground=u() < 0.5, Model=['VC', 'VC', 'VC', 'VCFF', 'VD', 'SS'][int(6*u()*0.9999)])
    order = ['R', 'r_hub', 'e_shaft_yaw0', 'e_vert', 'U0', 'Ct', 'Lambda', 'name', 'Ground', 'Model']
    dflt = dict(r_hub=[0, 0, 0], e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], U0=[0, 0, 10], Ct=None, Lambda=np.inf, name='', Ground=False, Model='VC')
    out = set(case['omit'])
    if 'axes' in out:
        out |= {'e_shaft_yaw0', 'e_vert'}
    full = [dflt[n] if n in out else v[n] for n in order]
    if explicit:
        w = call(WT.WindTurbine, *[copies(x) for x in full])
    else:
        a, k, pos = [], {}, True
        for n in order:
            if n in out or n in case['named']:
                pos = False
            if n in out:
                continue
            if pos:
                a.append(copies(v[n]))
            else:
                k[n] = copies(v[n])
        w = call(WT.WindTurbine, *a, **k)
    # loading
    if case['load'] is not None:
        L = case['load']
        n = 2+int(3*u()*0.9999)
        r = (np.arange(n)+0.5)/n*R
        val = dict(r=r, Ct=np.array([0.1+0.7*u() for _ in range(n)]), Gamma=None, Lambda=3+10*u(), nCyl=L['nCyl'], gamma_t_Ct=None)
        if L['kind'] == 'Gamma':
            val['Gamma'] = np.array([0.5+u() for _ in range(n)]); val['Ct'] = None
        elif L['kind'] == 'f':
            val['gamma_t_Ct'] = lambda Ct: -3*Ct
        order = ['r', 'Ct', 'Gamma', 'Lambda', 'nCyl', 'gamma_t_Ct']
        dl = dict(r=None, Ct=None, Gamma=None, Lambda=None, nCyl=1, gamma_t_Ct=None)
        out = set(L['omit'])-{'Ct' if L['kind'] != 'Gamma' else 'Gamma'}
        if 'r' in out and 'nCyl' not in out and val['nCyl'] != 1:
            out.remove('r')
        if explicit:
            call(w.update_loading, *[dl[q] if q in out else copies(val[q]) for q in order])
        else:
            a, k, pos = [], {}, True
            for q in order:
                if q in out or q in L['named']:
                    pos = False
                if q in out:
                    continue
                if pos:
                    a.append(copies(val[q]))
                else:
                    k[q] = copies(val[q])
            call(w.update_loading, *a, **k)
    return w, u


def chk_turbines(case):
    w1, u = build(case, False, None)
    w0, _ = build(case, True, None)
    for n in ('r_hub', 'U0_g', 'e_shaft_g', 'e_vert_g', 'R', 'yaw_wind', 'yaw_error', 'gamma_t', 'gamma_l', 'Gamma_r'):
        same(flat(getattr(w1, n)), flat(getattr(w0, n)), 'attribute '+n)
    require(w1.name == w0.name and w1.Model == w0.Model and bool(w1.Ground) == bool(w0.Ground), 'name, model or ground of the turbine: %r instead of %r', (w1.name, w1.Model, w1.Ground), (w0.name, w0.Model, w0.Ground))
    P = [np.array([(2*u()-1)*7 for _ in range(1+case['n'])]) for _ in range(3)]
    val = {}
    for n, kind, d in EVAL:
        val[n] = kind(u, 1)
    order = [e[0] for e in EVAL]; dl = {e[0]: e[2] for e in EVAL}
    out = set(case['eomit'])
    full = [dl[n] if n in out else val[n] for n in order]
    farm = case['farm']
    a, k, pos = [copies(p) for p in P], {}, True
    for n in order:
        if farm or n in out or n in case['enamed']:
            pos = False
        if n in out:
            continue
        if pos:
            a.append(val[n])
        else:
            k[n] = val[n]
    r0, e0 = outcome(w0.compute_u, [copies(p) for p in P]+full, {})
    if farm:
        k.pop('only_ind', None)
        full[0] = True
        r0, e0 = outcome(w0.compute_u, [copies(p) for p in P]+full, {})
        F = call(WF.WindFarm) if case['fappend'] else call(WF.WindFarm, [w1])
        require(F.name == '', 'name of a farm without name: %r', F.name)
        if case['fappend']:
            require(len(F) == 0, 'a new farm is not empty')
            call(F.append, w1)
        if e0 is None and case['fU0'] is not None:
            k['U0'] = list(case['fU0'])
            r0 = [(t, x+case['fU0'][i-1] if t == 'a' else x) for i, (t, x) in enumerate(r0)]
        r1, e1 = outcome(F.velocity_field, a, k)
    else:
        r1, e1 = outcome(w1.compute_u, a, k)
    what = '%s(.., %s), without %s' % ('velocity_field' if farm else 'compute_u', ', '.join('%s=%s' % q for q in k.items()), sorted(out))
    if e0 is not None and e1 is not None:
        raise Skip()
    require(e1 is None, '%s raised %r although the call with all options by position answers', what, e1)
    require(e0 is None, '%s answers although the call with all options by position raised %r', what, e0)
    same(r1, r0, what)
    d1, d0 = call(w1.rotor_disk_points), call(w0.rotor_disk_points, 100)
    same(flat(d1), flat(d0), 'rotor disk without number of points')


sub = lambda names: st.lists(st.sampled_from(names), max_size=len(names), unique=True)
modes = st.lists(st.sampled_from(['pos', 'pos', 'name', 'omit', 'omit']), min_size=5, max_size=13)
us = st.lists(gen.uni(0, 1), min_size=12, max_size=30)
funcs = st.fixed_dictionaries(dict(fn=st.integers(0, len(NAMES)-1), us=us, n=st.integers(0, 3), modes=modes, sp=st.one_of(st.none(), st.integers(0, len(SPECIAL)-1))))
LN = ['r', 'Ct', 'Gamma', 'Lambda', 'nCyl', 'gamma_t_Ct']
load = st.fixed_dictionaries(dict(kind=st.sampled_from(['Ct', 'Ct', 'Gamma', 'f']), nCyl=st.sampled_from([1, 1, 2, 3, None]), omit=sub(LN), named=sub(LN)))
turb_ = st.fixed_dictionaries(dict(us=us, n=st.integers(0, 3), yawed=st.booleans(), omit=sub(['r_hub', 'axes', 'U0', 'Lambda', 'name', 'Ground', 'Model']), named=sub(['R', 'r_hub', 'e_shaft_yaw0', 'U0', 'Ct', 'Ground']),
                                   load=st.one_of(st.none(), load), eomit=sub([e[0] for e in EVAL]), enamed=sub(['only_ind', 'tang', 'root', 'ground']), farm=st.booleans(), fappend=st.booleans(), fU0=st.one_of(st.none(), st.lists(gen.uni(-9, 9), min_size=3, max_size=3))))
LAWS = [
    Law('functions', funcs, chk_functions, 6000, 60000, nontrivial=lambda c: any(m != 'pos' for m in c['modes']), classify=lambda c: [NAMES[c['fn'] % len(NAMES)]]),
    Law('turbines', turb_, chk_turbines, 1500, 15000, nontrivial=lambda c: bool(c['omit'] or c['eomit'] or c['named']), classify=lambda c: (['farm'] if c['farm'] else ['turbine'])+(['loading'] if c['load'] else [])+['without '+n for n in c['eomit']]),
]
