"""C15 the velocity field of a turbine, from its position, yaw, wind and loading"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, turb
from turb import PI, RAD

RULE = ('cases draw a complete turbine (radius, hub, frame, yaw position, wind direction and speed, loading, way of construction) and points around its wake; '
        'a case counts when the induction is not zero at one of its points')
ASSUMPTIONS = ['oracle: tubes of vorticity placed by an independent geometric model (Rodrigues rotation of the shaft about the vertical) and integrated by quadrature',
               'points closer than 0.02 radii to the vorticity, or that 180 azimuths cannot resolve, are left out', 'wind horizontal, within 75 degrees of the shaft',
               'strengths of loadings given by thrust or circulation are taken from the solver module (C20, C21), those given by a function from the function']


def prep(case, chi=None, line=False):
    s = case['s']
    Q = turb.wake_points(s, case['pts'], chi)
    k = turb.good(s, Q, line=line, chi=chi)
    if len(k) == 0:
        raise Skip()
    return s, Q[:, k]


def compare(s, WT, Q, chi=None, comps=(True, False, False), what='', only_ind=None, strengths=None, **kw):
    P = turb.to_global(s, Q/s['R'])
    T = turb.geom(s)[3]
    sc = turb.scale_of(s, strengths)
    tang, longi, root = comps
    u = T @ turb.ref_local(s, Q, chi, tang, longi, root, strengths)
    tol = turb.tol_field(s, Q, sc, chi)+1e-9*sc*(1+np.abs(P).max()/s['R'])**2*1e-3+1e-300
    if tang is not True or longi or root:
        kw.update(tang=tang, longi=longi, root=root)
    if only_ind is not True:
        got = turb.velocity(WT, P, **kw)
        w = turb.wind(s)
        close(got, u+w.reshape(3, 1), tol+1e-14*s['U'], 'velocity of the turbine %s', what)
    if only_ind is not False:
        got = turb.velocity(WT, P, only_ind=True, **kw)
        close(got, u, tol, 'induction of the turbine %s', what)


def chk_tang(case):
    s, Q = prep(case)
    WT = turb.make(s, case['via'])
    compare(s, WT, Q, what='(tangential vorticity, %s)' % s['load']['k'], only_ind=case['ind'])


def chk_components(case):
    s, Q = prep(case, line=True)
    WT = turb.make(s, case['via'])
    st_ = turb.tubes_of(s)
    compare(s, WT, Q, comps=tuple(case['comps']), what='(tang, longi, root = %s)' % case['comps'], only_ind=case['ind'])
    require(st_[3] is not None or not (s['load']['lam'] < 20), 'no swirl for a finite tip-speed ratio')


def chk_chi(case):
    """ prescribed skew, whatever the wind, before or after setting the wind and the yaw """
    chi = case['chi']
    s, Q = prep(case, chi=chi)
    s2 = dict(s, dw=case['dw2'])          # the wind is elsewhere
    if case['order'] == 0:
        WT = turb.make(s2, case['via'], chi=chi)
    else:
        WT = turb.make(s2, case['via'])
        if case['order'] == 2:            # evaluation before the prescription
            call(WT.compute_u, *[np.array([3.0*s['R']])]*3)
        call(WT.set_chi, chi)
    compare(s, WT, Q, chi=chi, what='(prescribed skew)', only_ind=True)
    P = turb.to_global(s, Q/s['R'])
    d = turb.velocity(WT, P)-turb.velocity(WT, P, only_ind=True)
    close(d, np.repeat(turb.wind(s2).reshape(3, 1), P.shape[1], 1), 1e-12*s['U']+1e-13*turb.scale_of(s)*100, 'free stream with a prescribed skew')


def chk_ctor(case):
    """ thrust and tip-speed ratio given to the constructor """
    s = dict(case['s'])
    lam, ct = case['lam'], case['ct']
    s['yaw'] = 0.0
    s['load'] = dict(k='ct', c=[ct], lam=None, n=1)
    Q = turb.wake_points(s, case['pts'])
    k = turb.good(s, Q, line=True)
    if len(k) == 0:
        raise Skip()
    Q = Q[:, k]
    lamv = np.inf if lam == 'inf' else lam
    t = turb.expected_loading(s['load'], s['R'], s['U'], lamv)
    nol = dict(s, load=None)
    kw = {} if lam == 'inf' and case['via'] == 'ctor' else dict(Lambda=lamv)
    if case['ground0']:
        kw['Ground'] = False; kw['Model'] = 'VC'; kw['name'] = 'wt'
    v, s0, sh, T, w, _ = turb.geom(s)
    from wiz.WindTurbine import WindTurbine
    WT = call(WindTurbine, s['R'], r_hub=turb.hub(s).tolist(), e_shaft_yaw0=s0.tolist(), e_vert=v.tolist(), U0=w.tolist(), Ct=ct, **kw)
    swirl = t[2] is not None
    compare(s, WT, Q, comps=(True, swirl, swirl), what='(thrust given to the constructor)', only_ind=False, strengths=t)


def chk_default(case):
    """ default axes and wind: shaft and wind along z, vertical y """
    from wiz.WindTurbine import WindTurbine
    s = dict(R=case['R'], hub=[0, 0, 0], fr=dict(axis=[0, 1.0, 0], ang=0.0), yaw=0.0, dw=0.0, U=10.0, load=case['load'])
    Q = turb.wake_points(s, case['pts'])
    k = turb.good(s, Q)
    if len(k) == 0:
        raise Skip()
    WT = call(WindTurbine, case['R'])
    turb.apply_loading(WT, case['load'], case['R'], 10.0)
    compare(s, WT, Q[:, k], what='(defaults of the constructor)', only_ind=False)


def chk_shapes(case):
    """ 0-d to 3-d control points; wake symmetric: the same turbine evaluated twice in different layouts """
    s, Q = prep(case)
    WT = turb.make(s, case['via'])
    P = turb.to_global(s, Q/s['R'])
    P = np.repeat(P, 2, 1)
    u = turb.velocity(WT, P)
    n = P.shape[1]
    for sh in ((n, 1), (1, n), (n//2, 2, 1)):
        A = P.reshape((3,)+sh)
        got = vec(WT.compute_u, 3, sh, A[0].copy(), A[1].copy(), A[2].copy())
        close(got.reshape(3, n), u, 1e-12*(s['U']+turb.scale_of(s)), 'velocity for control points of shape %s', sh)


nt = lambda c: any(x != 0 for x in c['s']['load']['c'])
cl = lambda c: [c['s']['load']['k']+('1' if c['s']['load'].get('n', 1) == 1 else 'N'), 'yawed' if abs(c['s']['dw']) > 1e-6 else 'aligned', 'via_'+c['via']]
K = dict(nontrivial=nt, classify=cl)
pts = gen.points(*turb.PTS, lo=1, hi=5)
via = st.sampled_from(['ctor', 'update', 'setcoord'])
ind = st.sampled_from([None, True, False])


def cs(load, **kw):
    return st.fixed_dictionaries(dict(s=turb.states(load), pts=pts, via=via, ind=ind, **kw))


COMPS = [[True, True, True], [False, True, False], [False, False, True], [True, False, True], [True, True, False], [False, True, True]]
chi = gen.pick(0.0, 20*RAD, -20*RAD, 0.5, other=gen.uni0(75*RAD), p=0.3)
LAWS = [
    Law('tangential_field', cs(turb.load_any), chk_tang, 900, 20000, **K),
    Law('all_components', cs(turb.load_swirl, comps=st.sampled_from(COMPS)), chk_components, 600, 12000, **K),
    Law('prescribed_skew', cs(st.one_of(turb.load_fun1, turb.load_funN), chi=chi, dw2=st.one_of(gen.uni0(3.1), turb.dw), order=st.integers(0, 2)), chk_chi, 500, 8000, **K),
    Law('constructor_thrust', st.fixed_dictionaries(dict(s=turb.states(turb.load_fun1), pts=pts, via=via, lam=st.sampled_from(['inf', 6, 9.5, 25.0]), ct=gen.uni(0.05, 0.98), ground0=st.booleans())), chk_ctor, 300, 5000, **K),
    Law('constructor_defaults', st.fixed_dictionaries(dict(R=turb.Rs, load=st.one_of(turb.load_fun1, turb.load_funN), pts=pts)), chk_default, 150, 2500,
        nontrivial=lambda c: any(x != 0 for x in c['load']['c'])),
    Law('control_point_shapes', cs(turb.load_any), chk_shapes, 200, 3000, **K),
]
