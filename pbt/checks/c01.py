"""C01 straight tubular wake (tangential vorticity)"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, vec, require
import gen, ref
from wiz import VortexCylinder as VC

EPS = 2.3e-16
RULE = ('cases are drawn per point class (axis, near axis, rotor plane, near radius, on the radius, near rim, rim, far, deep downstream, upstream, grid values); '
        'a case counts when the strength is not zero and at least one of its points is within 50 radii of the rim (so that the velocity is not negligible)')
ASSUMPTIONS = ['oracle: graded Gauss-Legendre quadrature of the sheet, self-tested by setup_cmd',
               'between 1e-8 and 1e-5 radii from the sheet the values are compared with the limit on that side within 8 eps/d^2 (the closed form loses eps/d^2 there)',
               'double precision: tolerance 2e-9 of the strength plus the conditioning terms stated in tol_u']


def tol_u(P, R):
    """ (tol_ur, tol_uz) relative to |gamma| """
    x, y, z = P/R
    r = np.hypot(x, y); d = np.abs(r-1); rho = np.hypot(d, z); L = np.hypot(r+1, z)
    tz = 2e-10+100*EPS/np.maximum(d, 1e-8)**2+EPS*50*(1+np.abs(z))
    tr = 2e-10+50*EPS*L/np.maximum(r, 1e-7)+50*EPS/np.maximum(rho, 1e-8)**2
    return tr, tz


def cart(ur, P):
    psi = np.arctan2(P[1], P[0])
    return ur*np.cos(psi), ur*np.sin(psi)


def expect(P, u, g, R, polar, got, what):
    """ compares code output (polar or Cartesian) with the reference vector u at points P """
    tr, tz = tol_u(P, R)
    g = abs(g)
    if polar:
        psi = np.arctan2(P[1], P[0])
        close(got[0], u[0]*np.cos(psi)+u[1]*np.sin(psi), g*tr, what+' radial velocity')
        close(got[1], u[2], g*tz, what+' axial velocity')
    else:
        close(got[0], u[0], g*tr, what+' x velocity')
        close(got[1], u[1], g*tr, what+' y velocity')
        close(got[2], u[2], g*tz, what+' axial velocity')


OFF = ['generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'nearR', 'nearrim', 'far', 'deep', 'up', 'grid']


def case_st(*classes, lo=1, hi=4, **extra):
    return st.fixed_dictionaries(dict(R=gen.radius, g=gen.strength, polar=st.booleans(), pts=gen.points(*classes, lo=lo, hi=hi), **extra))


def off_sheet(case, R=None):
    P = gen.XYZ(case['pts'], case['R'])
    r, d, rho = gen.d_tube(P, case['R'])
    ok = np.where(P[2]/case['R'] > -1e-3, d > 0.9e-5, True) | (r < 0.5)
    ok &= gen.d_sheet(P, case['R']) > 0.9e-6
    if not np.all(ok):
        raise Skip()
    return P


def chk_semi(case):
    P = off_sheet(case)
    n = 2 if case['polar'] else 3
    got = vec(VC.vc_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=case['g'], R=case['R'], polar_out=case['polar'])
    u = ref.tang_tube(P, case['g'], case['R'])
    expect(P, u, case['g'], case['R'], case['polar'], got, 'vc_tang_u')


def chk_scalar(case):
    P = off_sheet(case)[:, 0]
    n = 2 if case['polar'] else 3
    got = vec(VC.vc_tang_u, n, (), float(P[0]), float(P[1]), float(P[2]), case['g'], case['R'], case['polar'])
    expect(P.reshape(3, 1), ref.tang_tube_1(P, case['g'], case['R']).reshape(3, 1), case['g'], case['R'], case['polar'], got.reshape(n, 1), 'vc_tang_u (scalars)')


def mean_ref(p, g, R):
    """ mean of the two sides at a point of the sheet z>=0 (or limit, upstream), not on the rim """
    r = np.hypot(p[0], p[1])
    dl = 1e-4*min(1.0, abs(p[2])/R)
    a, b = (1-dl)*R/r, (1+dl)*R/r
    return 0.5*(ref.tang_tube_1([p[0]*a, p[1]*a, p[2]], g, R)+ref.tang_tube_1([p[0]*b, p[1]*b, p[2]], g, R))


def side_ref(p, g, R, f=None):
    """ limit on the side of a point next to the sheet (extrapolated from 1e-3 radii), None where it does not apply """
    f = f or ref.tang_tube_1
    r = np.hypot(p[0], p[1])
    d = r/R-1
    D = 1e-3*min(1.0, abs(p[2])/R)
    if not 5e-8 < abs(d) < min(1e-5, D):
        return None
    D = D*np.sign(d)
    a, b = (1+D)*R/r, (1+2*D)*R/r
    return 2*np.array(f(np.array([p[0]*a, p[1]*a, p[2]]), g, R))-np.array(f(np.array([p[0]*b, p[1]*b, p[2]]), g, R))


def side_tol(d):
    return 1e-4+2*d+8*EPS/d**2


def chk_surface(case):
    P = gen.XYZ(case['pts'], case['R'])
    R, g = case['R'], case['g']
    n = 2 if case['polar'] else 3
    got = vec(VC.vc_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, polar_out=case['polar'])
    require(np.all(np.isfinite(got)), 'vc_tang_u on the cylinder surface is not finite: %s at %s' % (got.tolist(), P.tolist()))
    for i, q in enumerate(case['pts']):
        zr = abs(P[2, i])/R
        r = np.hypot(P[0, i], P[1, i])
        if zr < 0.5e-8 and abs(r-R)/R < 0.5e-8:
            close(got[-1][i], g/4, abs(g)*1e-9, 'vc_tang_u axial velocity on the rim')
        elif abs(r-R)/R < 1e-14 and zr < 1e-5:
            close(got[-1][i], g/4, abs(g)*(30*zr+1e-9), 'vc_tang_u axial velocity on the surface next to the rim')
        elif abs(r-R)/R < 1e-14:
            u = mean_ref(P[:, i], g, R)
            close(got[-1][i], u[2], abs(g)*2e-8, 'vc_tang_u axial velocity on the surface')
            ur = u[0]*P[0, i]/r+u[1]*P[1, i]/r
            gur = got[0][i] if case['polar'] else (got[0][i]*P[0, i]+got[1][i]*P[1, i])/r
            close(gur, ur, abs(g)*(1e-8+100*EPS/min(zr, 1)**2), 'vc_tang_u radial velocity on the surface')
        u = side_ref(P[:, i], g, R)
        if u is not None:
            close(got[-1][i], u[2], abs(g)*side_tol(abs(r-R)/R), 'vc_tang_u axial velocity next to the surface (%g radii from it)', (r-R)/R)
        # everywhere: between the values of the two sides
        e = 0.01+(100*EPS/(abs(r-R)/R)**2 if abs(r-R)/R > 0.5e-8 else 0)  # rounding error of the closed form next to the radius
        require((-0.5-e)*abs(g) <= np.sign(g)*got[-1][i] <= (1+e)*abs(g), 'vc_tang_u axial velocity %s out of bounds near the radius at %s' % (got[-1][i]/g, P[:, i].tolist()))


def chk_surface_finite(case):
    P = gen.XYZ(case['pts'], case['R'])
    R, g = case['R'], case['g']
    z1, z2 = case['z1']*R, (case['z1']+case['l'])*R
    n = 2 if case['polar'] else 3
    got = vec(VC.cylinder_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, z1=z1, z2=z2, polar_out=case['polar'])
    require(np.all(np.isfinite(got)), 'cylinder_tang_u on the cylinder surface is not finite')
    for i in range(P.shape[1]):
        r = np.hypot(P[0, i], P[1, i]); za, zb = P[2, i]-z1, P[2, i]-z2
        if abs(r-R)/R < 1e-14 and min(abs(za), abs(zb))/R > 1e-5:
            u = mean_ref([P[0, i], P[1, i], za], g, R)-mean_ref([P[0, i], P[1, i], zb], g, R)
            close(got[-1][i], u[2], abs(g)*4e-8, 'cylinder_tang_u axial velocity on the surface')
        ua, ub = side_ref([P[0, i], P[1, i], za], g, R), side_ref([P[0, i], P[1, i], zb], g, R)
        if ua is not None and ub is not None:
            close(got[-1][i], ua[2]-ub[2], abs(g)*2*side_tol(abs(r-R)/R), 'cylinder_tang_u axial velocity next to the surface')


def chk_finite(case):
    R, g = case['R'], case['g']
    z1, z2 = case['z1']*R, (case['z1']+case['l'])*R
    P = gen.XYZ(case['pts'], R)
    if case['end']:
        P[2] += z2
    r = np.hypot(P[0], P[1])/R
    d = np.abs(r-1)
    near = (P[2]/R > case['z1']-1e-3) & (d < 0.9e-5)
    rho = np.minimum(np.hypot(d, (P[2]-z1)/R), np.hypot(d, (P[2]-z2)/R))
    if np.any(near) or np.any(rho < 0.9e-6):
        raise Skip()
    n = 2 if case['polar'] else 3
    got = vec(VC.cylinder_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, z1=z1, z2=z2, polar_out=case['polar'])
    u = ref.tang_tube_finite(P, g, R, z1, z2)
    sh = np.array([[0], [0], [1.0]])
    ta, tb = tol_u(P-sh*z1, R), tol_u(P-sh*z2, R)
    tr, tz = ta[0]+tb[0], ta[1]+tb[1]
    if case['polar']:
        psi = np.arctan2(P[1], P[0])
        close(got[0], u[0]*np.cos(psi)+u[1]*np.sin(psi), abs(g)*tr, 'cylinder_tang_u radial velocity')
        close(got[1], u[2], abs(g)*tz, 'cylinder_tang_u axial velocity')
    else:
        close(got, u, abs(g)*np.stack((tr, tr, tz)), 'cylinder_tang_u velocity')


def chk_raw(case):
    P = off_sheet(case)
    r = np.hypot(P[0], P[1])/case['R']
    if np.any(r < 1e-4) or np.any(np.abs(r-1) < 1e-9):
        raise Skip()
    got = vec(VC.cylinder_tang_semi_inf_u_raw, 2, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=case['g'], R=case['R'])
    expect(P, ref.tang_tube(P, case['g'], case['R']), case['g'], case['R'], True, got, 'cylinder_tang_semi_inf_u_raw')


def chk_eps(case):
    """ regularisation: nothing upstream, finite everywhere, converges with the square of epsilon """
    R, g = case['R'], case['g']
    P = gen.XYZ(case['pts'], R)
    eps = case['e']*R
    fin = case['fin']
    n = 2 if case['polar'] else 3
    if fin:
        z1, z2 = 0.0, case['l']*R
        f = lambda e: vec(VC.cylinder_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, z1=z1, z2=z2, polar_out=case['polar'], epsilon=e)
    else:
        f = lambda e: vec(VC.vc_tang_u, n, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), gamma_t=g, R=R, polar_out=case['polar'], epsilon=e)
    ue = f(eps)
    require(np.all(np.isfinite(ue)), 'regularised velocity is not finite (epsilon=%g R, points %s): %s' % (case['e'], (P/R).tolist(), ue.tolist()))
    r, d, rho = gen.d_tube(P, R)
    u0 = f(0)
    up = (P[2] < 0) & (d > 1e-5) & (rho > 1e-6)
    if np.any(up):
        tr, tz = tol_u(P[:, up], R)
        close(ue[-1][up], u0[-1][up], abs(g)*3*tz, 'regularisation changes the axial velocity upstream')
        close(ue[0][up], u0[0][up], abs(g)*3*tr, 'regularisation changes the radial velocity upstream')
    # no jump across the sheet: the transition takes place over a distance of the order of epsilon
    s = max(case['conv'], 1e-5/case['e']) if fin else case['conv']       # the far end is not regularised: conditioning of the closed form
    if case['e']*s > 1e-9 and s <= 0.1:
        C = P.copy(); rr = np.hypot(P[0], P[1]); C[:2] = np.where(rr > 0, P[:2]/np.where(rr > 0, rr, 1), [[1.0], [0.0]])*R
        C[2] = np.abs(C[2])
        if fin:
            C[2] = np.minimum(C[2], z2*0.9)
        F = lambda x: (vec(VC.cylinder_tang_u, 2, (C.shape[1],), C[0]*x, C[1]*x, C[2].copy(), z1=z1, z2=z2, epsilon=eps, gamma_t=g, R=R, polar_out=True) if fin else
                       vec(VC.vc_tang_u, 2, (C.shape[1],), C[0]*x, C[1]*x, C[2].copy(), epsilon=eps, gamma_t=g, R=R, polar_out=True))
        a, b = F(1-s*case['e'])[1], F(1+s*case['e'])[1]
        close(a, b, abs(g)*(6*s*(1+case['e'])+1e-6+1e3*EPS/case['e']**2+(6*s*case['e']*R/(z2-C[2])+200*EPS/(s*case['e'])**2 if fin else 0)), 'regularised axial velocity inside and outside of the sheet, %g epsilon from it (epsilon=%g R)', s, case['e'])
    # convergence: error <= C (e/d)^2 for points downstream, off the sheet
    for i in range(P.shape[1]):
        if P[2, i] >= 0 and d[i] > 1e-3 and (rho[i] > 1e-3):
            if fin and np.hypot(d[i], P[2, i]/R-case['l']) < 1e-3:
                continue
            e1 = min(d[i], 1.0)*case['conv']
            Q = P[:, i:i+1]
            tr, tz = tol_u(Q, R)
            kw = dict(gamma_t=g, R=R, polar_out=True)
            F = (lambda e: vec(VC.cylinder_tang_u, 2, (1,), Q[0].copy(), Q[1].copy(), Q[2].copy(), z1=z1, z2=z2, epsilon=e, **kw)) if fin else \
                (lambda e: vec(VC.vc_tang_u, 2, (1,), Q[0].copy(), Q[1].copy(), Q[2].copy(), epsilon=e, **kw))
            a, b = F(e1*R), F(0)
            bound = 4*case['conv']**2*(1+abs(np.log(d[i])))
            close(a[1], b[1], abs(g)*(bound+10*tz), 'regularised axial velocity does not converge to the unregularised one (epsilon=%g, distance %g)', e1, d[i])
            close(a[0], b[0], abs(g)*(bound+10*tr), 'regularised radial velocity does not converge to the unregularised one (epsilon=%g, distance %g)', e1, d[i])


def nontriv(case):
    return case['g'] != 0 and any(abs(p['p'][2]) < 50 for p in case['pts'])


K = dict(nontrivial=nontriv, classify=gen.classes_of)
ext = dict(z1=gen.pick(0.0, -1.0, -2, other=gen.uni(-5, 5)), l=gen.pick(1.0, 4, other=gen.logu(-3, 2)))
LAWS = [
    Law('semi_infinite_vs_biot_savart', case_st(*OFF), chk_semi, 900, 20000, **K),
    Law('scalar_arguments', case_st(*OFF, hi=1), chk_scalar, 250, 3000, **K),
    Law('on_the_surface', case_st('exactR', 'rim', 'tinyR', 'nearrim', 'nearR', hi=5), chk_surface, 500, 10000, **K),
    Law('finite_vs_biot_savart', case_st(*OFF, end=st.booleans(), **ext), chk_finite, 600, 15000, **K),
    Law('finite_on_the_surface', case_st('exactR', 'tinyR', 'rim', **ext), chk_surface_finite, 250, 5000, **K),
    Law('raw_closed_form', case_st('generic', 'inside', 'outside', 'nearR', 'plane', 'far', 'deep', 'up', 'nearrim'), chk_raw, 300, 5000, **K),
    Law('regularisation', case_st('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'nearR', 'tinyR', 'exactR', 'rim', 'nearrim', 'up', 'grid',
                                  e=gen.logu(-5, 0.3), conv=gen.logu(-4, -1), fin=st.booleans(), l=ext['l']), chk_eps, 500, 10000, **K),
]
