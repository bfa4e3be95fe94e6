"""C08 self-similar upstream model"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen
from wiz.SelfSimilar import ss_u
from wiz.VortexCylinder import vc_tang_u

RULE = 'cases draw strength, radius, shape parameters and upstream, rotor-plane and downstream points; a case counts when the strength is not zero and a point is upstream or in the rotor plane'
ASSUMPTIONS = ['oracle: published profile sech(sqrt(2) r/r_half)^(8/9) with r_half = R sqrt(lambda (eta + (z/R)^2)), lambda=0.587, eta=1.32 by default (Troldborg and Meyer Forsting)']


def kw(case):
    return {} if case['dflt'] else dict(lambda_=case['la'], eta=case['et'])


def params(case):
    return (0.587, 1.32) if case['dflt'] else (case['la'], case['et'])


def prof(x):
    x = np.minimum(np.sqrt(2)*x, 700)
    return (2*np.exp(-x)/(1+np.exp(-2*x)))**(8/9)


def axis(z, g, R):
    # 1+z/sqrt(z^2+R^2) without cancellation upstream
    s = np.sqrt(z*z+R*R)
    return g/2*np.where(z < 0, R*R/(s*(s-z)), 1+z/s)


def chk_value(case):
    R, g = case['R'], case['gt']
    P = gen.XYZ(case['pts'], R)
    la, et = params(case)
    u = np.asarray(call(ss_u, P[0].copy(), P[1].copy(), P[2].copy(), g, R, **kw(case)))
    r, z = np.hypot(P[0], P[1]), P[2]
    rh = R*np.sqrt(la*(et+(z/R)**2))
    want = np.where(z > 0, 0, axis(z, g, R)*prof(r/rh))
    require(u.shape == z.shape, 'shape %s', u.shape)
    require(np.all(u[z > 0] == 0), 'non-zero velocity downstream of the rotor plane')
    close(u, want, abs(g)*(2e-15*prof(r/rh)*(1+r/rh)+1e-250)+np.abs(want)*1e-10*(1+r/rh)+1e-300, 'self-similar velocity')
    up = z <= 0
    require(np.all(u[up]*np.sign(g) >= 0), 'sign of the velocity differs from that of the strength')


def chk_axis(case):
    R, g = case['R'], case['gt']
    z = -np.abs(gen.XYZ(case['pts'], R)[2])
    u = np.asarray(call(ss_u, 0*z, 0*z, z, g, R, **kw(case)))
    v = np.asarray(call(vc_tang_u, 0*z, 0*z, z, g, R)[-1])
    close(u, v, abs(g)*1e-12+1e-300, 'axis velocity of the self-similar model and of the tubular wake')


def chk_radial(case):
    """ monotone in the radius, half at about the half width, axisymmetric """
    R, g = case['R'], case['gt']
    if g == 0:
        raise Skip()
    la, et = params(case)
    z = -abs(case['z'])*R
    rh = R*np.sqrt(la*(et+(z/R)**2))
    r = np.sort(np.array(case['rr']))*rh
    psi = case['psi']
    u = np.asarray(call(ss_u, r*np.cos(psi), r*np.sin(psi), z+0*r, g, R, **kw(case)))/g
    u2 = np.asarray(call(ss_u, r, 0*r, z+0*r, g, R, **kw(case)))/g
    close(u, u2, 1e-9*np.abs(u2)+1e-300, 'axisymmetry')
    require(np.all(np.diff(u) <= 1e-12*np.abs(u[:-1])), 'not decreasing with the radius: %s', u.tolist())
    k = np.diff(r/rh) > 1e-3
    require(np.all(np.diff(u)[k] < 0), 'not strictly decreasing with the radius')
    u0 = float(np.asarray(call(ss_u, 0.0, 0.0, z, g, R, **kw(case))))/g
    uh = float(np.asarray(call(ss_u, rh*np.cos(psi), rh*np.sin(psi), z, g, R, **kw(case))))/g
    close(uh/u0, 0.5, 0.01, 'ratio at the half-width')


def chk_scale(case):
    R, g, s = case['R'], case['gt'], case['s']
    P = gen.XYZ(case['pts'], 1.0)
    u = np.asarray(call(ss_u, P[0], P[1], P[2], 1.0, 1.0, **kw(case)))
    v = np.asarray(call(ss_u, P[0]*s, P[1]*s, P[2]*s, g, s, **kw(case)))
    r = np.hypot(P[0], P[1])
    close(v, g*u, abs(g)*(1e-12*np.abs(u)*(1+r)+1e-14)+1e-300, 'proportionality to the strength and dependence on position over radius')
    if s == 1:
        v = np.asarray(call(ss_u, P[0], P[1], P[2], g))
        w = np.asarray(call(ss_u, P[0], P[1], P[2], g, 1, 0.587, 1.32))
        close(v, w, 1e-300, 'default radius and shape')


PT = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'far', 'up', 'grid', 'exactR')


def up(s):
    def f(t):
        c, b = t
        if b:
            for p in c['pts']:
                p['p'] = [p['p'][0], p['p'][1], -abs(p['p'][2])]
        return c
    return st.tuples(s, st.sampled_from([True, True, False])).map(f)


def case_st(**extra):
    return up(st.fixed_dictionaries(dict(R=gen.radius, gt=gen.pick(0.0, other=gen.strength, p=0.1), dflt=st.booleans(), la=gen.uni(0.2, 1.5), et=gen.uni(0.3, 3), s=gen.pick(1.0, other=gen.logu(-2, 3)),
                                         psi=gen.angle, z=st.one_of(st.just(0.0), gen.uni(0, 5), gen.logu(-6, 2)), rr=st.lists(st.one_of(gen.uni(0, 12), gen.uni(0, 12), gen.uni(0, 150)), min_size=2, max_size=8),
                                         pts=gen.points(*PT, hi=6), **extra)))


K = dict(nontrivial=lambda c: c['gt'] != 0 and any(p['p'][2] <= 0 for p in c['pts']), classify=gen.classes_of)
LAWS = [
    Law('published_profile', case_st(), chk_value, 2500, 40000, **K),
    Law('axis_is_tubular_wake', case_st(), chk_axis, 1000, 15000, **K),
    Law('bell_shape', case_st(), chk_radial, 1500, 20000, **K),
    Law('scaling', case_st(), chk_scale, 1000, 15000, **K),
]
