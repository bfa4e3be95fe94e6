"""Generators. Every value is drawn by Hypothesis; lengths are in units of the rotor/ring radius unless said otherwise."""
import math
import numpy as np
from hypothesis import strategies as st

# Hypothesis draws integers uniformly only up to about 256 (wider ranges favour small numbers), hence a coarse and a fine digit
_coarse, _coarse0, _fine = st.integers(0, 255), st.integers(-256, 255), st.integers(0, 4095)


def uni(a, b):
    """ uniform float in [a,b), shrinking towards a """
    return st.tuples(_coarse, _fine).map(lambda k: a+(b-a)*((k[0]+k[1]/4096)/256))


def uni0(b):
    """ uniform float in (-b,b), shrinking towards 0 """
    return st.tuples(_coarse0, _fine).map(lambda k: b*((k[0]+k[1]/4096)/256 if k[0] >= 0 else (k[0]+1-k[1]/4096)/256))


def logu(a, b):
    """ 10**U(a,b) """
    return uni(a, b).map(lambda e: float('%.12g' % 10**e))


def sgn():
    return st.sampled_from([1, -1])


def slogu(a, b):
    return st.tuples(sgn(), logu(a, b)).map(lambda t: t[0]*t[1])


def pick(*nice, other=None, p=0.4):
    """ a nice value with probability ~p, otherwise from `other` """
    k = max(1, round(10*p))
    return st.integers(0, 9).flatmap(lambda i: st.sampled_from(nice) if i < k else other)


radius = pick(1, 1.0, 2.0, 0.5, 63.5, other=logu(-1.7, 2.5), p=0.4)
strength = pick(1.0, -1.0, -0.5, 2, other=slogu(-2, 2), p=0.4)
angle = pick(0.0, math.pi/2, math.pi, -math.pi/2, math.pi/4, other=uni(-math.pi, math.pi), p=0.3)
skew = pick(0.0, math.tan(math.pi/6), -math.tan(math.pi/6), 1.0, -1.0, 0.2, -0.2, other=st.one_of(uni0(1.0), uni0(1.0), uni0(3.7), uni0(3.7), slogu(-6, -1), slogu(-6, -1), slogu(0.5, 1.05)), p=0.25)
skew_nz = skew.map(lambda m: m if abs(m) > 1e-6 else 0.35)


def _cyl(r, t, z):
    """ quarter turns land exactly on the coordinate planes """
    c, s = math.cos(t), math.sin(t)
    c, s = (0.0 if abs(c) < 1e-15 else c), (0.0 if abs(s) < 1e-15 else s)
    return [float(r*c), float(r*s), float(z)]


zgen = st.one_of(uni0(3), pick(0.0, 1.0, -1.0, 0.5, other=uni(-4, 8), p=0.5))

POINT = {
    'generic': st.builds(_cyl, uni(0.02, 3), angle, zgen),
    'inside': st.builds(_cyl, uni(0, 0.95), angle, zgen),
    'outside': st.builds(_cyl, uni(1.05, 4), angle, zgen),
    'axis': zgen.map(lambda z: [0.0, 0.0, float(z)]),
    'nearaxis': st.builds(_cyl, logu(-9.5, -2), angle, zgen),
    'plane': st.builds(lambda r, t: _cyl(r, t, 0.0), uni(0, 3), angle),
    'nearplane': st.builds(_cyl, uni(0, 3), angle, slogu(-12, -3)),
    'nearR': st.builds(lambda d, t, z: _cyl(1+d, t, z), slogu(-5, -1), angle, zgen),
    'tinyR': st.builds(lambda d, t, z: _cyl(1+d, t, z), slogu(-12, -5), angle, zgen),
    'exactR': st.builds(lambda t, z: _cyl(1, t, z), angle, st.one_of(zgen, slogu(-7, -1))),
    'nearrim': st.builds(lambda d, a, t: _cyl(1+d*math.cos(a), t, d*math.sin(a)), logu(-5, -1), angle, angle),
    'rim': angle.map(lambda t: _cyl(1, t, 0.0)),
    'far': st.builds(lambda s, mu, t: _cyl(s*math.sqrt(max(0, 1-mu*mu)), t, s*mu), logu(0.8, 4), uni0(1), angle),
    'deep': st.builds(_cyl, uni(0, 3), angle, logu(0.8, 4)),
    'up': st.builds(_cyl, uni(0, 3), angle, logu(0.3, 3.5).map(lambda z: -z)),
    'grid': st.tuples(*[st.integers(-12, 12)]*3).map(lambda t: [v/4 for v in t]),
}


def point(*classes):
    return st.sampled_from(classes).flatmap(lambda c: POINT[c].map(lambda p: dict(c=c, p=p)))


def points(*classes, lo=1, hi=4):
    return st.lists(point(*classes), min_size=lo, max_size=hi)


def XYZ(pts, R=1.0):
    """ (3,n) array of the drawn points times R """
    return np.array([p['p'] for p in pts], float).reshape(-1, 3).T*R


def classes_of(case):
    return [p['c'] for p in case.get('pts', [])]


# ------------------------------------------------------------------------------------------------ distances (relative to R)
def d_tube(P, R=1.0, m=0.0):
    """ radius, relative distance to the radius, to the rim """
    x, y, z = P/R
    r = np.hypot(x-m*z, y)
    return r, np.abs(r-1), np.hypot(np.hypot(x, y)-1, z)


def d_sheet(P, R=1.0, m=0.0):
    """ lower bound of the distance to the (skewed) semi-infinite sheet, relative to R """
    x, y, z = P/R
    rim = np.hypot(np.hypot(x, y)-1, z)
    ds = np.abs(np.hypot(x-m*z, y)-1)/np.sqrt(1+m*m)
    return np.where(z > 0, np.minimum(rim, ds), rim)


# ------------------------------------------------------------------------------------------------ orientations
unitvec = st.one_of(st.sampled_from([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0],
                                     [0.6, 0.8, 0.0], [0.0, 0.6, -0.8], [3**-.5, 3**-.5, 3**-.5], [2**-.5, 0.0, 2**-.5]]),
                    st.tuples(uni0(1), uni(-math.pi, math.pi)).map(
                        lambda t: [math.sqrt(max(0, 1-t[0]**2))*math.cos(t[1]), math.sqrt(max(0, 1-t[0]**2))*math.sin(t[1]), t[0]]))
rotation = st.one_of(st.just(dict(axis=[0, 1.0, 0], ang=0.0)),
                     st.builds(lambda a, t: dict(axis=a, ang=t), unitvec, angle))


# ------------------------------------------------------------------------------------------------ azimuthal resolution of skewed sheets
def eta_tang(P, R=1.0, m=0.0):
    """ distance from the real axis of the nearest complex singularity of the azimuthal integrand of a skewed sheet, per point.
        The trapezoidal rule with N intervals converges like exp(-N*eta). """
    P = np.asarray(P, float)/R
    out = []
    c = math.sqrt(1+m*m)
    for x, y, z in P.T:
        r = math.hypot(x, y)
        eta = 5.0
        if r > 0:
            eta = min(eta, math.acosh(max(1.0, (1+r*r+z*z)/(2*r))))
        xs = x-m*z
        for s in (1, -1):
            A, B, C = (1-s*c), -2*(xs-s*1j*c*y), (1+s*c)
            roots = np.roots([A, B, C]) if A != 0 else (np.array([-C/B]) if B != 0 else np.array([]))
            for w in np.atleast_1d(roots):
                if w == 0:
                    continue
                beta = m*(x-(w+1/w)/2)+z
                if beta.real > -1e-9:
                    eta = min(eta, abs(math.log(abs(w))))
        out.append(eta)
    return np.array(out)


def ntheta_for(P, R=1.0, m=0.0, digits=30.0):
    e = eta_tang(P, R, m).min()
    return int(max(24, math.ceil(digits/max(e, 1e-6))+2))
