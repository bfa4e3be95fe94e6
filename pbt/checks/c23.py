"""C23 rotor-plane expansion functions agree with their integrals and with the wake"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call, refuses
import gen, ref
from wiz import VortexCylinderSkewed as VS

EPS = 2.3e-16
RULE = 'cases draw lists of radii (centre, near the axis, inside, towards the edge) and skews of either sign; a case counts when a radius is not zero'
ASSUMPTIONS = ['radii below 0.9999, |tan(skew)| up to 50 for the closed forms', 'numerical versions are compared where their 1000 points resolve the integrand (distance of the complex singularity above 0.03)',
               'velocities are compared on the diameter in the plane of skew, where the expansions are exact']


def eta(r, m):
    """ distance from the real axis of the nearest complex singularity of the integrand in theta over [0,2 pi] """
    if r == 0:
        return 20.0
    a = (1+r*r)/(2*r)
    b = (1+r*r+m*m)/(r+math.sqrt(r*r+m*m*(1+r*r+m*m)))
    return min(math.acosh(max(1, a)), math.acosh(max(1, b)))


def integral(r, m):
    """ Kxit = r (1+m^2)/pi int_0^pi sin^2 / ( sqrt(d) (d + m^2 sin^2) ), d = 1+r^2-2 r cos: trapezoidal rule, exponentially accurate """
    N = int(40/eta(r, m)+30)
    t = (np.arange(N)+0.5)*math.pi/N
    s2 = np.sin(t)**2; d = (1-r)**2+4*r*np.sin(t/2)**2
    return r*(1+m*m)*np.mean(s2/(np.sqrt(d)*(d+m*m*s2)))


def tol(r, m):
    """ relative to Kzt (times 1/|sin chi| for Kxit) """
    a = abs(m)
    return 3e-13+(3e-14/a if a else 0)/(1-r)**1.5+3e-14*a**3/(1-r)**1.5


def prep(case):
    r = np.array(case['r'], float); m = case['m']
    if np.any([eta(x, m) < 1e-4 for x in r]):
        raise Skip()
    return r, m


def outs(f, n, *args):
    o = call(f, *args)
    require(isinstance(o, (tuple, list)) and len(o) == n, '%s%s returned %d outputs instead of %d', f.__name__, args[1:], len(o), n)
    for a in o:
        require(np.asarray(a).shape == args[0].shape, '%s%s: output of shape %s for radii of shape %s', f.__name__, args[1:], np.asarray(a).shape, args[0].shape)
    return [np.asarray(a, float) for a in o]


def oye(r):
    return 0.5*(r+0.4*r**3+0.4*r**5)


def chk_x(case):
    r, m = prep(case)
    r0 = r.copy()
    K, num, F = outs(VS.fKxit, 3, r, m)
    require(np.array_equal(r, r0), 'fKxit modified the radii')
    want = np.array([integral(x, m) for x in r])
    t = tol(r, m)/max(abs(m)/math.sqrt(1+m*m), 1e-300)*3 if m else 1e-13/(1-r)**2+20*EPS/np.maximum(r, 1e-7)
    t = t+np.where(r <= 1.0001e-7, 2e-7*(1+abs(m)), 0)
    ok = t < 1e-3*(1+abs(want))
    close(K[ok], want[ok], t[ok], 'closed form of the in-plane expansion (skew %.17g, radii %s)', m, r[ok].tolist())
    res = np.array([eta(x, m) > 0.03 for x in r])
    close(num[res], want[res], 1e-11*(1+abs(m))*np.ones(res.sum()), 'numerical version of the in-plane expansion (skew %.17g, radii %s)', m, r[res].tolist())
    close(F, oye(r), 1e-14, 'engineering expansion')
    K2 = outs(VS.fKxit, 3, r, -m)[0]
    close(K2[ok], want[ok], t[ok], 'in-plane expansion for the opposed skew')


def chk_z(case):
    r, m = prep(case)
    if m == 0:
        for n in case['nouts']:
            require(refuses(VS.fKzt, r, m, n), 'fKzt accepts a zero skew')
        return
    sc = m/math.sqrt(1+m*m)
    want = np.array([integral(x, m) for x in r])*sc
    t = tol(r, m)
    ok = t < 1e-3*(1+abs(want))
    res = np.array([eta(x, m) > 0.03 for x in r])
    tn = 1e-11*(1+abs(m))+1e-13/abs(m)
    names = ('closed form', 'numerical integral', 'engineering expansion', 'first alternative form', 'third alternative form', 'fourth alternative form')
    for n in case['nouts']:
        r0 = r.copy()
        if n == 1:
            K = np.asarray(call(VS.fKzt, r, m, 1), float)
            require(K.shape == r.shape, 'fKzt with one output returns shape %s', K.shape)
            o = [K]
        elif n == 0:
            o = outs(VS.fKzt, 2, r, m)
        else:
            o = outs(VS.fKzt, n, r, m, n)
        require(np.array_equal(r, r0), 'fKzt modified the radii')
        close(o[0][ok], want[ok], t[ok], 'closed form of the axial expansion (skew %.17g, radii %s)', m, r[ok].tolist())
        for i in range(1, len(o)):
            if i == 2:
                close(o[2], oye(r), 1e-14, 'engineering expansion')
            else:
                close(o[i][res], want[res], tn*np.ones(res.sum()), '%s of the axial expansion (skew %.17g, radii %s, output %d of %d)', names[i], m, r[res].tolist(), i, n)


def chk_wake(case):
    """ velocities on the diameter along the skew, from the Biot-Savart law """
    r, m = prep(case)
    g = case['g']
    if m == 0 or abs(m) > 5:
        raise Skip()
    r = np.minimum(r, 0.97)
    chi = math.atan(m)
    Kz = np.asarray(call(VS.fKzt, r, m, 1), float)
    Kx = outs(VS.fKxit, 3, r, m)[0]
    t = tol(r, m)/abs(math.sin(chi))*4+np.where(r <= 1.0001e-7, 2e-7*(1+abs(m)), 0)
    for s in (1, -1):
        P = np.stack((s*r, 0*r, 0*r))
        u = ref.tang_tube(P, g, 1.0, m)/(g/2)
        close(1+Kz*s, u[2], tol(r, m)+1e-9*(1+m*m), 'axial velocity on the rotor from the expansion (skew %.17g, radii %s)', m, (s*r).tolist())
        close(math.tan(chi/2)-Kx*math.cos(chi)*s, u[0], t+1e-9*(1+m*m), 'in-plane velocity on the rotor from the expansion (skew %.17g, radii %s)', m, (s*r).tolist())
        N = max(90, min(4000, gen.ntheta_for(P, 1.0, m)), min(4000, gen.ntheta_for(P+1e-6, 1.0, m)))
        w = np.array(call(VS.svc_tang_u, P[0].copy(), P[1].copy(), P[2].copy(), g, 1.0, m, N), float)/(g/2)
        if N < 4000:
            close(1+Kz*s, w[2], tol(r, m)+1e-8*(1+m*m), 'axial velocity of the skewed cylinder against the expansion (skew %.17g, radii %s)', m, (s*r).tolist())
            uzeta, uxi = call(VS.skew_components, w[0], w[2], m)
            close(np.asarray(uxi, float), math.tan(chi/2)*math.cos(chi)-math.sin(chi)-Kx*s, t+1e-8*(1+m*m), 'velocity normal to the wake axis against the in-plane expansion (skew %.17g, radii %s)', m, (s*r).tolist())


rad = gen.pick(0.0, 0.5, 0.2, 0.9, 0.99, 1e-3, other=st.one_of(gen.uni(0, 1).map(lambda x: min(x, 0.9999)), gen.uni(0, 0.9), gen.logu(-8, -1), gen.logu(-4, -0.3).map(lambda d: 1-d)), p=0.2)
skw = gen.pick(0.5, -0.5, math.tan(math.pi/6), 1.0, -1, 2, 0.0, other=st.one_of(gen.uni0(3), gen.slogu(-5, 0), gen.slogu(0, 1.7)), p=0.3)
base = dict(r=st.lists(rad, min_size=1, max_size=6), m=skw)
K = dict(nontrivial=lambda c: any(c['r']) and c['m'] != 0, classify=lambda c: ['m<0' if c['m'] < 0 else 'm>0' if c['m'] > 0 else 'm=0', 'large' if abs(c['m']) > 3 else 'small' if abs(c['m']) < 0.01 else 'moderate', 'edge' if max(c['r']) > 0.97 else 'inner'])
fx = st.fixed_dictionaries
LAWS = [
    Law('in_plane', fx(dict(base, m=st.one_of(skw, skw, st.just(0.0)))), chk_x, 700, 12000, nontrivial=lambda c: any(c['r']), classify=K['classify']),
    Law('axial', fx(dict(base, nouts=st.lists(st.integers(0, 6), min_size=1, max_size=3))), chk_z, 900, 15000, **K),
    Law('wake', fx(dict(base, g=gen.strength)), chk_wake, 500, 8000, **K),
]
