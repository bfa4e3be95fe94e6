"""C03 vortex rings"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, vec, require
import gen, ref
from wiz import VortexRing as VR

EPS = 2.3e-16
RULE = ('cases draw circulation, ring radius, axial position, output form and points by class (axis, near axis, ring plane, near the filament, far); a case counts when the '
        'circulation is not zero and one of its points is within 50 radii of the ring')
ASSUMPTIONS = ['oracle: graded quadrature of the circular filament', 'comparisons stop at 1e-6 radii from the filament (conditioning of the elliptic parameter)']
OFF = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'nearR', 'exactR', 'nearrim', 'far', 'up', 'grid')
POLAR = ('generic', 'inside', 'outside', 'plane', 'nearplane', 'nearR', 'exactR', 'nearrim', 'far', 'up', 'grid')


def tols(P, R, G):
    x, y, z = P/R
    r = np.hypot(x, y); rho = np.hypot(r-1, z); L = np.hypot(r+1, z)
    s = abs(G)/R
    base = 1e-10/np.maximum(rho, 1e-9)**1/np.maximum(L, 1)**2+100*EPS/np.maximum(rho, 1e-9)**3
    tz = s*(base+100*EPS/L)
    tr = s*(base+50*EPS/np.maximum(r, 1e-7)/L*np.maximum(1, np.abs(z)))
    return tr, tz


def keep(P, R, axis=True):
    d = np.hypot(np.hypot(P[0], P[1])/R-1, P[2]/R)
    ok = d > 1e-6
    if not axis:
        ok &= np.hypot(P[0], P[1])/R > 1e-4
    if not np.any(ok):
        raise Skip()
    return P[:, ok]


def polar_ref(P, u):
    psi = np.arctan2(P[1], P[0])
    return u[0]*np.cos(psi)+u[1]*np.sin(psi), u[2]


def chk_ring_u(case):
    R, G = case['R'], case['G']
    P = keep(gen.XYZ(case['pts'], R), R)
    u = ref.ring(P, G, R)
    tr, tz = tols(P, R, G)
    eps = case['eps']*R if case['reg'] else 0
    if case['polar']:
        got = vec(VR.ring_u, 2, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), G, R, polar_out=True, epsilon=eps)
        ur, uz = polar_ref(P, u)
        close(got[0], ur, tr, 'ring_u radial velocity'); close(got[1], uz, tz, 'ring_u axial velocity')
    else:
        got = vec(VR.ring_u, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), Gamma=G, R=R, polar_out=False, epsilon=eps)
        close(got, u, np.stack((tr, tr, tz)), 'ring_u velocity')


def chk_polar(case):
    R, G, z0 = case['R'], case['G'], case['z0']*case['R']
    P = keep(gen.XYZ(case['pts'], R), R)
    u = ref.ring(P, G, R)
    tr, tz = tols(P, R, G)
    # the axial position is subtracted by the code: rounding of z
    rho = np.hypot(np.hypot(P[0], P[1])/R-1, P[2]/R)
    e = abs(G)/R*10*EPS*(abs(case['z0'])+np.abs(P[2]/R))/np.maximum(rho, 1e-9)**2
    ur, uz = polar_ref(P, u)
    r = np.hypot(P[0], P[1])
    got = vec(VR.ring_u_polar, 2, r.shape, r.copy(), P[2]+z0, Gamma=G, r0=R, z0=z0)
    close(got[0], ur, tr+e, 'ring_u_polar radial velocity'); close(got[1], uz, tz+e, 'ring_u_polar axial velocity')


def chk_singular(case):
    R, G = case['R'], case['G']
    P = keep(gen.XYZ(case['pts'], R), R, axis=False)
    u = ref.ring(P, G, R)
    tr, tz = tols(P, R, G)
    ur, uz = polar_ref(P, u)
    r = np.hypot(P[0], P[1])
    for f in (VR.ring_u_polar_singular, VR.ring_u_polar_singularb):
        got = vec(f, 2, r.shape, r.copy(), P[2].copy(), G, R)
        close(got[0], ur, tr, '%s radial velocity', f.__name__); close(got[1], uz, tz, '%s axial velocity', f.__name__)


def chk_core(case):
    R, G, z0 = case['R'], case['G'], case['z0']*case['R']
    e = case['eps']*R
    meth = case['method']
    P = gen.XYZ(case['pts'], R)
    # half of the points are placed around the core: distance f*eps/2 from the filament
    for i, q in enumerate(case['pts']):
        f = case['f'][i % len(case['f'])]
        if f is not None:
            a = case['ang']
            P[0, i], P[1, i], P[2, i] = R+f*e/2*np.cos(a), 0, f*e/2*np.sin(a)
    r, z = np.hypot(P[0], P[1]), P[2]
    # evaluated with an axial offset only if that does not blur the distance to the filament
    got = vec(VR.ring_u_polar, 2, r.shape, r.copy(), z+z0, Gamma=G, r0=R, z0=z0, epsilon=e, reg_method=meth)
    require(np.all(np.isfinite(got)), 'ring_u_polar with core (%s) is not finite: %s', meth, got.tolist())
    rho = np.hypot(r-R, z)
    k = case['k']
    g2 = vec(VR.ring_u_polar, 2, r.shape, r.copy(), z+z0, Gamma=k*G, r0=R, z0=z0, epsilon=e, reg_method=meth)
    s = np.abs(got)+abs(G)/R*1e-13
    close(g2, k*got, abs(k)*s*1e-11, 'ring with core (%s) is not proportional to the circulation', meth)
    blur = 1e-12*(1+abs(case['z0']))*R
    out = (rho > e/2*(1+1e-9)+blur)
    if np.any(out):
        g0 = vec(VR.ring_u_polar, 2, r[out].shape, r[out].copy(), z[out]+z0, Gamma=G, r0=R, z0=z0)
        lim = rho[out] > 1e-6*R
        close(got[:, out][:, lim], g0[:, lim], np.abs(g0[:, lim])*1e-11+abs(G)/R*1e-14, 'core (%s) changes the velocity outside of the core', meth)
    ins = rho < e/2*(1-1e-9)-blur
    if np.any(ins) and meth == 'Saffman':
        ins &= r >= 2e-7*R
        close(got[0][ins], np.zeros(ins.sum()), abs(G)/R*1e-12, 'radial velocity in the core')
        close(got[1][ins], np.full(ins.sum(), G/(4*np.pi*R)*(np.log(16*R/e)-0.25)), abs(G)/R*1e-9, 'velocity in the core (Saffman)')
    # scaling of ring and core together
    c = case['c']
    g3 = vec(VR.ring_u_polar, 2, r.shape, r*c, (z+z0)*c, Gamma=G, r0=R*c, z0=z0*c, epsilon=e*c, reg_method=meth)
    edge = (np.abs(rho-e/2) < 1e-9*e+blur) | (r < 1e-6*R) | (rho < 1e-5*R)
    if not np.all(edge):
        close(g3[:, ~edge]*c, got[:, ~edge], s[:, ~edge]*1e-7+abs(G)/R*400*EPS/case['eps']**3, 'ring with core (%s) does not scale with its size', meth)


def chk_ring_u_core(case):
    """ ring_u with epsilon: finite everywhere, proportional to Gamma, filament value of Saffman """
    R, G = case['R'], case['G']
    e = case['eps']*R
    P = gen.XYZ(case['pts'], R)
    n = 2 if case['polar'] else 3
    for reg in (e, 0):
        got = vec(VR.ring_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), Gamma=G, R=R, polar_out=case['polar'], epsilon=reg)
        require(np.all(np.isfinite(got)), 'ring_u is not finite at %s: %s', (P/R).tolist(), got.tolist())
        g2 = vec(VR.ring_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), Gamma=case['k']*G, R=R, polar_out=case['polar'], epsilon=reg)
        close(g2, case['k']*got, abs(case['k'])*(np.abs(got)*1e-11+abs(G)/R*1e-13), 'ring_u (epsilon=%g) is not proportional to the circulation', reg)
    x, y, z = P/R
    on = np.hypot(np.hypot(x, y)-1, z) < 1e-9
    got = vec(VR.ring_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), Gamma=G, R=R, polar_out=case['polar'], epsilon=e)
    if np.any(on):
        close(got[-1][on], np.full(on.sum(), G/(4*np.pi*R)*(np.log(8*R/e)-0.25)), abs(G)/R*1e-9, 'ring_u: self-induced velocity with core radius epsilon')
        close(got[0][on], np.zeros(on.sum()), abs(G)/R*1e-9, 'ring_u: radial velocity on the filament')


def st_case(*classes, lo=1, hi=5, **extra):
    return st.fixed_dictionaries(dict(R=gen.radius, G=gen.strength, polar=st.booleans(), pts=gen.points(*classes, lo=lo, hi=hi), **extra))


K = dict(nontrivial=lambda c: c['G'] != 0 and any(abs(p['p'][2]) < 50 for p in c['pts']), classify=gen.classes_of)
z0 = gen.pick(0.0, 1.0, -2.0, other=gen.uni0(10))
LAWS = [
    Law('ring_u_vs_biot_savart', st_case(*OFF, reg=st.booleans(), eps=gen.logu(-5, -1)), chk_ring_u, 900, 25000, **K),
    Law('ring_u_polar_vs_biot_savart', st_case(*OFF, z0=z0), chk_polar, 900, 25000, **K),
    Law('singular_forms_vs_biot_savart', st_case(*POLAR), chk_singular, 700, 15000, **K),
    Law('core_models', st_case('generic', 'nearrim', 'nearR', 'rim', 'axis', 'plane', 'grid', eps=gen.logu(-4, -0.4), z0=st.one_of(st.just(0.0), z0), method=st.sampled_from(['Saffman', 'linear']),
                               f=st.lists(st.one_of(st.none(), gen.pick(0.0, 0.5, 0.999, 1.001, other=gen.uni(0, 3))), min_size=1, max_size=3), ang=gen.angle,
                               k=gen.slogu(-1, 1), c=gen.logu(-1, 1)), chk_core, 700, 15000, **K),
    Law('ring_u_finite_and_proportional', st_case('generic', 'axis', 'rim', 'nearrim', 'exactR', 'tinyR', 'plane', 'grid', eps=gen.logu(-4, -0.5), k=gen.slogu(-1, 1)), chk_ring_u_core, 400, 8000, **K),
]
