"""C12 polar/Cartesian agreement and symmetries"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, fields
from fields import FIELDS, BY
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexLine as VL, VortexRing as VR, VortexDoublet as VD

EPS = 2.3e-16
core.LAYOUT['per_case'] = True
RULE = 'cases draw a field with its parameters, points of all classes and an azimuth; a case counts when one of its points is off the axis'
ASSUMPTIONS = ['metamorphic: no reference value except for infinite tubes and lines (textbook values)',
               'points closer than 1e-5 sizes to the vorticity are left out; skewed sheets use an integration count that resolves the points']
TANG = [F for F in FIELDS if F.name in ('vc_tang', 'vc_tang_eps', 'cylinder_tang', 'vc_tang_doublet', 'ring', 'ring_polar', 'ring_core', 'doublet_polar', 'doublet_line_polar')]
AXIAL = [F for F in FIELDS if F.name in ('vc_longi', 'vc_root')]
SKT = [F for F in FIELDS if F.name in ('svc_tang', 'doublet_line', 'doublet_line_finite')]
SKL = [F for F in FIELDS if F.name in ('svc_longi', 'svc_root')]
STRAIGHT_OF_SKEW = [F for F in FIELDS if F.name in ('svc_tang', 'svc_longi', 'doublet_line', 'doublet_line_finite')]


def prep(case, dmin=1e-5, cmax=1e-5):
    F, p, P = fields.get(case)
    R = F.size(p)
    d = F.dist(p, P)
    c = fields.condition(F, p, P)
    ok = (d > dmin*R) & (c < cmax)
    if F.pw <= -1:
        ok &= d > 5e-3
        r = np.hypot(P[0], P[1])/R
        ok &= (r == 0) | (r > 1e-4) | (F.pw < -1)
    if not np.any(ok):
        raise Skip()
    P = P[:, ok]
    if F.quad and not fields.resolved(p, P):
        raise Skip()
    return F, p, P, d[ok], fields.condition(F, p, P)


def base(F, p):
    s = max(abs(v) for k in F.strengths for v in (p[k] if isinstance(p[k], list) else [p[k]]))
    return s*F.size(p)**F.pw


def tol(F, p, P, c, u):
    R = F.size(p)
    d = F.dist(p, P)
    L = np.sqrt((P**2).sum(0))/R+1
    r = np.maximum(np.hypot(P[0], P[1])/R, 1e-7)
    un = np.sqrt((u**2).sum(0))
    t = un*(2e-9+c)
    if F.pw == 0:
        t = t+base(F, p)*(5e-10+100*EPS*L/r+(EPS*(L/np.minimum(1, d/R))**2 if F.skewed else 0))
    else:
        t = t+base(F, p)*1e-14*L
    if F.noise == 'dl':                    # rotor plane within 1e-8 (absolute)
        t = t+un*4e-8/np.maximum(1e-9, np.sqrt((P**2).sum(0)))
    return t+1e-300


def chk_polar(case):
    """ polar output (or the polar twin) describes the Cartesian vector """
    F, p, P, d, c = prep(case)
    if F.polar is None:
        raise Skip()
    r = np.hypot(P[0], P[1])/F.size(p)
    k = r > 1e-7
    if not np.any(k):
        raise Skip()
    P, c = P[:, k], c[k]
    kw = dict(N=fields.nth(p, P)) if F.quad else {}
    u = F.ev(p, P, **kw)
    v = F.polar(p, P, **kw)
    close(v, u, tol(F, p, P, c, u), '%s: polar result converted to Cartesian', F.name)


def rotz(P, a):
    c, s = np.cos(a), np.sin(a)
    return np.array([c*P[0]-s*P[1], s*P[0]+c*P[1], P[2]])


def chk_azimuth(case):
    F, p, P, d, c = prep(case)
    a = case['a']
    u = F.ev(p, P)
    v = F.ev(p, rotz(P, a))
    t = tol(F, p, P, c, u)
    close(v, rotz(u, a), 3*t, '%s at an azimuth turned by %g', F.name, a)
    psi = np.arctan2(P[1], P[0])
    if F in TANG:
        close(-u[0]*np.sin(psi)+u[1]*np.cos(psi), 0.0*psi, t, '%s: swirl of a field of tangential vorticity', F.name)
    else:
        require(np.all(np.abs(u[2]) <= t), '%s: axial velocity of axial vorticity', F.name)
        close(u[0]*np.cos(psi)+u[1]*np.sin(psi), 0.0*psi, t, '%s: radial velocity of axial vorticity', F.name)


def chk_mirror(case):
    """ reflection across the plane of the skew (y -> -y), and skew reversal together with x -> -x """
    F, p, P, d, c = prep(case)
    s = 1 if F in SKT else -1
    kw = dict(N=fields.nth(p, P)) if F.quad else {}
    u = F.ev(p, P, **kw)
    t = tol(F, p, P, c, u)
    v = F.ev(p, P*np.array([[1], [-1], [1]]), **kw)
    close(v, s*u*np.array([[1], [-1], [1]]), 3*t, '%s mirrored across the plane of skew', F.name)
    v = F.ev(dict(p, m=-p['m']), P*np.array([[-1], [1], [1]]), **kw)
    close(v, s*u*np.array([[-1], [1], [1]]), 3*t, '%s with the skew and the lateral axis reversed', F.name)


def chk_infinite(case):
    """ wake plus the same wake extended upstream: infinite tube or line """
    F, p, P, d, c = prep(case, dmin=1e-3)
    R = F.size(p)
    m = p.get('m', 0.0)
    ok = F.dist(p, -P) > 1e-3*R
    rt = np.hypot(P[0]-m*P[2], P[1])/R
    if F.pw == 0:
        ok &= np.abs(rt-1) > 1e-3
    else:
        ok &= fields.d_line(P, p.get('e', fields.skew_dir(m)))/R > 1e-3
        ok &= fields.d_line(-P, p.get('e', fields.skew_dir(m)))/R > 1e-3
    if F.noise or not np.any(ok):
        raise Skip()
    P, c = P[:, ok], c[ok]
    rt = rt[ok]
    kw = {}
    if F.quad:
        N = max(fields.nth(p, P), fields.nth(p, -P))
        if not fields.resolved(p, -P):
            raise Skip()
        kw = dict(N=N)
    u, v = F.ev(p, P, **kw), F.ev(p, -P, **kw)
    t = tol(F, p, P, c, u)+tol(F, p, P, fields.condition(F, p, -P), v)
    e = np.array(p['e']) if 'e' in p else np.array([m, 0, 1.0])/np.sqrt(1+m*m)
    if F.name in ('vc_tang', 'svc_tang'):
        w = u+v
        close(e @ w, np.where(rt < 1, p['g'], 0.0), 3*t, '%s: velocity along an infinite tube', F.name)
        if m == 0:
            close(w[:2], 0*w[:2], 3*t, '%s: cross velocity of an infinite tube', F.name)
    elif F.name in ('vc_longi',):
        w = u-v
        psi = np.arctan2(P[1], P[0])
        up = np.where(rt > 1, p['g']/np.maximum(rt, 1e-9), 0.0)
        close(w, np.array([-up*np.sin(psi), up*np.cos(psi), 0*up]), 3*t, '%s: infinite tube of axial vorticity', F.name)
    elif F.name in ('vc_root', 'svc_root', 'vortex_line'):
        w = u-v
        e = e/np.linalg.norm(e)
        cr = np.cross(e, P.T).T
        want = p['G']/(2*np.pi)*cr/(cr**2).sum(0)
        L = np.sqrt((P**2).sum(0))
        h2 = (cr**2).sum(0)
        close(w, want, 3*t+np.sqrt((want**2).sum(0))*(1e-10+1e-14*L**2/h2), '%s: infinite line', F.name)


def chk_axial_symmetry(case):
    """ even/odd in the axial coordinate: rings, finite tubes about their middle, point doublets along the axis, tubes (radial velocity even) """
    F, p, P, d, c = prep(case)
    zc = 0.0
    if F.name in ('ring_polar', 'ring_core', 'doublet_polar'):
        zc = p['z0']
    elif F.name == 'cylinder_tang':
        zc = (p['z1']+p['z2'])/2
    M = P*np.array([[1], [1], [-1]])+np.array([[0], [0], [2*zc]])
    ok = (F.dist(p, M) > 1e-5*F.size(p)) & (np.abs(P[2]-zc) < 50*F.size(p)+0*P[2])
    if F.pw <= -1:
        ok &= F.dist(p, M) > 5e-3
    if not np.any(ok):
        raise Skip()
    P, M, c = P[:, ok], M[:, ok], c[ok]+fields.condition(F, p, M[:, ok])
    if np.any(c > 1e-5):
        raise Skip()
    u, v = F.ev(p, P), F.ev(p, M)
    t = 3*tol(F, p, P, c, u)+20*EPS*base(F, p)*(1+np.abs(P).max(0)/F.size(p))/np.minimum(1, d[ok]/F.size(p))**(1-F.pw)
    if F.name in ('vc_tang',):
        close(v[:2], u[:2], t, '%s: radial velocity at mirrored axial positions', F.name)
        r = np.hypot(P[0], P[1])/F.size(p)
        close(u[2]+v[2], np.where(r < 1, p['g'], 0.0), t, '%s: axial velocity at mirrored axial positions', F.name)
    elif F.name == 'vc_root':
        w = u+v
        r2 = P[0]**2+P[1]**2
        want = p['G']/(2*np.pi*r2)*np.array([-P[1], P[0], 0*r2])
        close(w, want, t+1e-10*np.abs(want).sum(0), '%s: sum at mirrored axial positions', F.name)
    elif F.name == 'vc_longi':
        w = u+v
        psi = np.arctan2(P[1], P[0]); r = np.hypot(P[0], P[1])/F.size(p)
        up = np.where(r > 1, p['g']/np.maximum(r, 1e-9), 0.0)
        close(w, np.array([-up*np.sin(psi), up*np.cos(psi), 0*up]), t, '%s: sum at mirrored axial positions', F.name)
    else:
        close(v, u*np.array([[-1], [-1], [1]]), t, '%s mirrored about its middle plane', F.name)


def chk_helpers(case):
    """ skew-aligned and polar component helpers """
    ux, uy, uz = [np.array(a) for a in case['u']]
    psi = np.array(case['psi'])
    m = case['m']
    c = np.sqrt(1+m*m)
    uzeta, uxi = call(VS.skew_components, ux, uz, m)
    s = 1e-14*(np.abs(ux)+np.abs(uz))+1e-300
    close(uzeta, (uz+m*ux)/c, s, 'component along the wake')
    close(uxi, (ux-m*uz)/c, s, 'component across the wake')
    ur, up = call(VS.polar_components, ux, uy, psi)
    s = 1e-14*(np.abs(ux)+np.abs(uy))+1e-300
    close(ur, ux*np.cos(psi)+uy*np.sin(psi), s, 'radial component')
    close(up, -ux*np.sin(psi)+uy*np.cos(psi), s, 'azimuthal component')


def chk_polar_inputs(case):
    """ functions of polar coordinates equal the functions of Cartesian ones at the same points, any azimuth representation """
    F, p, P, d, c = prep(case)
    R = F.size(p)
    r, psi = np.hypot(P[0], P[1]), np.arctan2(P[1], P[0])+2*np.pi*case['turns']
    k = r > 1e-7*R
    if not np.any(k):
        raise Skip()
    P, r, psi, c = P[:, k], r[k], psi[k], c[k]
    kw = dict(N=fields.nth(p, P)) if F.quad else {}
    u = F.ev(p, P, **kw)
    sh = r.shape
    n = F.name
    if n == 'vc_longi':
        v = vec(VC.vc_longi_u_polar, 3, sh, r, psi, P[2].copy(), p['g'], R)
    elif n == 'vc_root':
        v = vec(VL.vl_semiinf_straight_u_polar, 3, sh, r, psi, P[2].copy(), p['G'])
    elif n == 'svc_tang':
        v = vec(VS.svc_tang_u_polar, 3, sh, r, psi, P[2].copy(), p['g'], R, p['m'], kw['N'])
    elif n == 'svc_longi':
        v = vec(VS.svc_longi_u_polar, 3, sh, r, psi, P[2].copy(), p['g'], R, p['m'], kw['N'])
    elif n == 'svc_root':
        v = vec(VS.svc_root_u_polar, 3, sh, r, psi, P[2].copy(), p['G'], p['m'])
    else:
        raise Skip()
    close(v, u, tol(F, p, P, c, u)+np.sqrt((u**2).sum(0))*1e-12, '%s from polar coordinates', n)


def chk_twins(case):
    """ agreement of different routes to the same element """
    R, g = case['R'], case['g']
    P = gen.XYZ(case['pts'], R)
    r = np.hypot(P[0], P[1])
    sh = r.shape
    k = (np.hypot(r-R, P[2]) > 1e-3*R) & (r > 1e-2*R)
    if not np.any(k):
        raise Skip()
    P, r = P[:, k], r[k]; sh = r.shape
    rho = np.hypot(r-R, P[2])/R
    a = vec(VR.ring_u, 2, sh, P[0].copy(), P[1].copy(), P[2].copy(), g, R, True)
    t = abs(g)/R*(1e-9*np.minimum(1, 1)/np.minimum(1, rho)+1e-11/np.minimum(1, rho)**2)
    for nm, f in (('ring_u_polar', VR.ring_u_polar), ('ring_u_polar_singular', VR.ring_u_polar_singular), ('ring_u_polar_singularb', VR.ring_u_polar_singularb)):
        close(vec(f, 2, sh, r.copy(), P[2].copy(), g, R), a, t, '%s and ring_u', nm)
    # doublet line: polar and skewed forms
    k = (r > 2e-2*np.sqrt((P**2).sum(0))) & (np.abs(P[2]) > 1e-6)
    if np.any(k):
        Q = P[:, k]; rq = r[k]; sh = rq.shape
        a = fields.cart_from_polar(vec(VD.doublet_line_polar_u, 2, sh, rq, Q[2].copy(), g), Q)
        b = vec(VD.doublet_line_u, 3, sh, Q[0].copy(), Q[1].copy(), Q[2].copy(), g, 0)
        n = np.sqrt((a**2).sum(0))
        close(b, a, n*2e-7, 'doublet_line_u without skew and doublet_line_polar_u')
        a = fields.cart_from_polar(vec(VD.doublet_u_polar, 2, sh, rq, Q[2].copy(), g, 0.3*R), Q)
        b = vec(VD.doublet_u, 3, sh, Q[0].copy(), Q[1].copy(), Q[2].copy(), [0, 0, g], [0, 0, 0.3*R])
        dd = np.sqrt(rq**2+(Q[2]-0.3*R)**2)
        k2 = dd > 1e-2*R
        close(b[:, k2], a[:, k2], 1e-10*np.sqrt((a**2).sum(0))[k2]+1e-300, 'doublet_u and doublet_u_polar')


PT = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearR', 'far', 'deep', 'up', 'grid', 'nearplane', 'nearrim')
K = dict(nontrivial=lambda c: any(abs(q['p'][0])+abs(q['p'][1]) > 0 for q in c['pts']), classify=lambda c: [c['f']])
AXS = [BY[n] for n in ('ring', 'ring_polar', 'ring_core', 'cylinder_tang', 'doublet_polar', 'vc_tang', 'vc_root', 'vc_longi')]
LAWS = [
    Law('polar_and_cartesian', fields.any_field([F for F in FIELDS if F.polar], *PT), chk_polar, 2000, 25000, **K),
    Law('polar_coordinates', fields.any_field([BY[n] for n in ('vc_longi', 'vc_root', 'svc_tang', 'svc_longi', 'svc_root')], *PT, turns=st.integers(-2, 2)), chk_polar_inputs, 1000, 12000, **K),
    Law('azimuth', fields.any_field(TANG+AXIAL, *PT, a=gen.uni(-7, 7)), chk_azimuth, 1500, 20000, **K),
    Law('mirror_and_skew_reversal', fields.any_field(SKT+SKL, *PT), chk_mirror, 1500, 20000, **K),
    Law('infinite_tube', fields.any_field([BY[n] for n in ('vc_tang', 'svc_tang', 'vc_longi', 'vc_root', 'svc_root', 'vortex_line')], *PT), chk_infinite, 1200, 15000, **K),
    Law('axial_symmetry', fields.any_field(AXS, *PT), chk_axial_symmetry, 1200, 15000, **K),
    Law('component_helpers', st.fixed_dictionaries(dict(u=st.lists(st.lists(gen.uni0(3), min_size=3, max_size=3), min_size=3, max_size=3), psi=st.lists(gen.angle, min_size=3, max_size=3), m=gen.skew)), chk_helpers, 400, 3000, nontrivial=lambda c: c['m'] != 0),
    Law('twin_routines', st.fixed_dictionaries(dict(R=gen.pick(1.0, 2.0, other=gen.logu(-0.3, 1.5), p=0.5), g=gen.strength, pts=gen.points(*PT, lo=1, hi=5))), chk_twins, 800, 10000, nontrivial=lambda c: True),
]
