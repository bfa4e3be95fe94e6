"""C04 straight vortex lines, root vortex, longitudinal sheet, core models"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, vec, require, call
import gen, ref
from wiz import VortexLine as VL, VortexCylinder as VC

EPS = 2.3e-16
RULE = ('cases draw a direction, circulation, core model and radius (or sheet radius and strength) and points by class, on the axis and the sheet included; '
        'a case counts when the strength is not zero and a point is off the axis')
ASSUMPTIONS = ['oracle: closed form of the semi-infinite filament in a form without cancellation (self-tested against quadrature); quadrature of the sheet',
               'points closer to the line than its documented singularity cut-off (denominator 1e-12) are only checked to be zero or finite']


def chk_line(case):
    e = np.array(case['e'], float); e = e/np.linalg.norm(e)
    G, t, vm = case['G'], case['t'], case['vm']
    for q in case['pts']:
        # local frame: axial position a, distance h
        v = ref.rot(e, case['spin'])@_orth(e)
        x = case['L']*(q['p'][2]*e+np.hypot(q['p'][0], q['p'][1])*v)
        got = call(VL.vl_semiinf_u, x[0], x[1], x[2], e[0], e[1], e[2], G, vm, t)
        got = np.asarray(got, float)
        require(got.shape == (3,), 'vl_semiinf_u returned shape %s', got.shape)
        require(np.all(np.isfinite(got)), 'vl_semiinf_u (core model %d) is not finite at %s', vm, x.tolist())
        na = np.linalg.norm(x); b = e@x; cr = np.cross(e, x); h = np.linalg.norm(cr)
        den = na*(h*h/(na+b) if b > 0 else na-b)
        if na < 1e-9 or (h < 1e-9*na and b > 0):
            if q['c'] == 'axis':
                close(got, np.zeros(3), abs(G)*(1e-6+1/max(na, 1e-9))+1e-300, 'velocity on the line itself (core model %d)', vm)
            continue
        if den < 1.5e-12 or na < 1.1e-5:
            continue
        cond = na*na/(h*h) if b > 0 else 4
        if vm == 0:
            u = G/(4*np.pi)*cr/den
        elif vm in (1, 2, 3):
            K = {1: min(1.0, h*h/t/t), 2: -np.expm1(-1.25643*h*h/t/t), 3: 1/np.sqrt((t/h)**4+1)}[vm]
            u = G/(4*np.pi)*cr/den*K
        else:
            u = G/(4*np.pi)*cr/(den+t)
        un = np.linalg.norm(u)
        dh = EPS*10*na/h if h > 0 else 0    # relative rounding of the distance to the line
        close(got, u, un*(1e-12+60*EPS*cond+8*dh+(20*EPS*(t/h)**2 if vm == 2 and h > 0 else 0))+abs(G)*1e-18/max(na, 1e-3), 'vl_semiinf_u, core model %d (distance %g, axial %g, t=%g)', vm, h, b, t)
        if vm in (1, 2, 3) and b > 0:
            require(np.linalg.norm(got) <= abs(G)/(2*np.pi*t)*1.3, 'velocity exceeds the bound of core model %d: %s', vm, got.tolist())


def _orth(e):
    k = int(np.argmin(np.abs(e)))
    a = np.zeros(3); a[k] = 1
    v = np.cross(e, a)
    return v/np.linalg.norm(v)


def to_polar(u, P):
    psi = np.arctan2(P[1], P[0])
    return np.stack((u[0]*np.cos(psi)+u[1]*np.sin(psi), -u[0]*np.sin(psi)+u[1]*np.cos(psi), u[2]))


def chk_straight(case):
    """ axial semi-infinite line: vl_semiinf_straight_u(_polar), vc_root_u; also the general routine """
    G, L = case['G'], case['R']
    P = gen.XYZ(case['pts'], L)
    onaxis = (P[0] == 0) & (P[1] == 0)
    sh = P[0].shape
    up = onaxis & (P[2] < 0)
    r = np.hypot(P[0], P[1]); psi = np.arctan2(P[1], P[0])
    pol = case['form'] % 2 == 1
    f = case['form']//2
    if f == 0:
        got = vec(VL.vl_semiinf_straight_u, 3, sh, P[0].copy(), P[1].copy(), P[2].copy(), G, polar_out=pol); name = 'vl_semiinf_straight_u'
    elif f == 1:
        got = vec(VL.vl_semiinf_straight_u_polar, 3, sh, r.copy(), psi.copy(), P[2].copy(), G, polar_out=pol); name = 'vl_semiinf_straight_u_polar'
    else:
        got = vec(VC.vc_root_u, 3, sh, P[0].copy(), P[1].copy(), P[2].copy(), Gamma_r=G, polar_out=pol); name = 'vc_root_u'
    require(np.all(np.isfinite(got)), '%s is not finite at %s: %s', name, P.tolist(), got.tolist())
    if np.any(up):
        close(got[:, up], np.zeros((3, up.sum())), 1e-300, '%s on the upstream axis', name)
    k = ~onaxis & (r > 1e-9*L)
    if not np.any(k):
        return
    u = ref.line_semiinf(P[:, k], G, [0, 0, 1.0])
    if pol:
        u = to_polar(u, P[:, k])
    t = np.sqrt((u**2).sum(0))*1e-11+abs(G)*5*EPS/r[k]
    close(got[:, k], u, t, '%s %s output', name, 'polar' if pol else 'Cartesian')
    if pol:
        close(got[0], np.zeros(sh), 1e-300, '%s: radial component', name)
    close(got[2], np.zeros(sh), 1e-300, '%s: axial component', name)


def chk_longi(case):
    g, R = case['G'], case['R']
    P = gen.XYZ(case['pts'], R)
    sh = P[0].shape
    r = np.hypot(P[0], P[1]); psi = np.arctan2(P[1], P[0])
    pol = case['form'] % 2 == 1
    if case['form'] < 2:
        got = vec(VC.vc_longi_u, 3, sh, P[0].copy(), P[1].copy(), P[2].copy(), g, R, polar_out=pol); name = 'vc_longi_u'
    else:
        got = vec(VC.vc_longi_u_polar, 3, sh, r.copy(), psi.copy(), P[2].copy(), gamma_l=g, R=R, polar_out=pol); name = 'vc_longi_u_polar'
    require(np.all(np.isfinite(got)), '%s is not finite at %s: %s', name, (P/R).tolist(), got.tolist())
    if pol:
        close(got[0], np.zeros(sh), 1e-300, '%s: radial component', name)
    close(got[2], np.zeros(sh), 1e-300, '%s: axial component', name)
    upsi = got[1] if pol else -got[0]*np.sin(psi)+got[1]*np.cos(psi)
    if not pol:
        close(got[0]*np.cos(psi)+got[1]*np.sin(psi), np.zeros(sh), abs(g)*1e-13, '%s: radial component', name)
    _, d, rho = gen.d_tube(P, R)
    for i in range(P.shape[1]):
        rr, z = r[i]/R, P[2, i]/R
        if rr == 0:
            close(upsi[i], 0.0, 1e-300, '%s on the axis', name)
        elif d[i] < 1e-14:
            if abs(z) > 1e-5:      # mean of the two sides
                dl = 1e-4*min(1, abs(z))
                w = 0
                for s in (1-dl, 1+dl):
                    q = P[:, i].copy(); q[:2] *= s*R/r[i]
                    v = ref.longi_tube_1(q, g, R)
                    w += s*0.5*(-v[0]*np.sin(psi[i])+v[1]*np.cos(psi[i]))     # r*u is smooth on each side, with a constant jump
                close(upsi[i], w, abs(g)*1e-7, '%s on the sheet (mean of the two sides)', name)
            else:
                close(upsi[i], g/4, abs(g)*(1e-9+30*abs(z)), '%s next to the rim', name)
        elif d[i] < 1e-5 or rho[i] < 1e-6 or rr < 1e-9:
            require(abs(upsi[i]) <= 1.1*abs(g)*max(1, 1e-9/rr), '%s out of bounds near the sheet: %g', name, upsi[i])
            dd = abs(rr-1)
            if 5e-8 < dd < min(1e-5, 1e-3*abs(z)):      # limit on that side, extrapolated
                D = 1e-3*min(1, abs(z))*np.sign(rr-1)
                w = 0
                for s, c in ((1+D, 2), (1+2*D, -1)):
                    q = P[:, i].copy(); q[:2] *= s*R/r[i]
                    v = ref.longi_tube_1(q, g, R)
                    w += c*s*(-v[0]*np.sin(psi[i])+v[1]*np.cos(psi[i]))
                close(upsi[i], w, abs(g)*(1e-4+2*dd+8*EPS/dd**2), '%s next to the sheet (%g radii from it)', name, rr-1)
        else:
            v = ref.longi_tube_1(P[:, i], g, R)
            w = -v[0]*np.sin(psi[i])+v[1]*np.cos(psi[i])
            tol = abs(g)*(2e-10+100*EPS/max(d[i], 1e-8)**2+60*EPS*(1+abs(z))/min(1, rr)*max(1, abs(z)))
            close(upsi[i], w, tol, '%s vs Biot-Savart', name)


K = dict(nontrivial=lambda c: c['G'] != 0 and any(p['c'] != 'axis' for p in c['pts']), classify=lambda c: gen.classes_of(c)+(['core%d' % c['vm']] if 'vm' in c else []))
S = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearplane', 'far', 'deep', 'up', 'grid')
LAWS = [
    Law('line_and_core_models', st.fixed_dictionaries(dict(e=gen.unitvec, spin=gen.angle, G=gen.strength, vm=st.integers(0, 5), t=gen.pick(0.1, 1.0, other=gen.logu(-2, 1)),
        L=gen.pick(1.0, other=st.one_of(gen.logu(-1, 2), gen.logu(-1, 2), gen.logu(-5, -1))), pts=gen.points(*S, hi=4))), chk_line, 1500, 40000, **K),
    Law('axial_line', st.fixed_dictionaries(dict(G=gen.strength, R=gen.radius, form=st.integers(0, 5), pts=gen.points(*S, hi=4))), chk_straight, 800, 20000, **K),
    Law('longitudinal_sheet', st.fixed_dictionaries(dict(G=gen.strength, R=gen.radius, form=st.integers(0, 3),
        pts=gen.points(*S, 'exactR', 'nearR', 'tinyR', 'rim', 'nearrim', hi=4))), chk_longi, 1000, 25000, **K),
]
