"""C05 doublets and doublet lines"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, vec, require, call, refuses
import gen, ref
from wiz import VortexDoublet as VD

EPS = 2.3e-16
RULE = ('cases draw moment, position, skew, length and control points by class (off the line, rotor plane, upstream and downstream prolongation, on the line, far); '
        'a case counts when the strength is not zero and at least one point is off the line')
ASSUMPTIONS = ['oracle: dipole tensor and sinh-substituted quadrature of it along the line',
               'distances of at least 1e-2 length units (the code has absolute singularity thresholds); tolerance grows with (axial/lateral distance)^4, the conditioning of the closed forms']


def vector(m):
    return [m[0], m[1], m[2]]


def chk_doublet(case):
    L = case['L']
    P = gen.XYZ(case['pts'], L)
    x0 = [L*v for v in case['x0']]
    mv = case['mv']
    d = np.sqrt(((P-np.array(x0).reshape(3, 1))**2).sum(0))
    u = np.zeros(P.shape)
    on = d < 1e-9*L
    off = d > 3e-3
    if np.any(off):
        u[:, off] = ref.doublet(P[:, off], mv, x0)
    got = vec(VD.doublet_u, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), list(mv), x0=list(x0))
    nm = np.linalg.norm(mv)
    t = nm/(4*np.pi)/np.maximum(d, 1e-9)**3*(1e-12+20*EPS*(np.sqrt((P**2).sum(0))+np.linalg.norm(x0))/np.maximum(d, 1e-9))+1e-300
    k = off
    close(got[:, k], u[:, k], t[k], 'doublet_u')
    if np.any(on):
        close(got[:, on], 0*got[:, on], 1e-300, 'doublet_u at the doublet itself')
    require(np.all(np.isfinite(got)), 'doublet_u is not finite')
    if case['origin']:
        got = vec(VD.doublet_u, 3, P[0].shape, P[0]-x0[0], P[1]-x0[1], P[2]-x0[2], list(mv))
        close(got[:, k], u[:, k], 4*t[k], 'doublet_u (default position)')


def chk_doublet_polar(case):
    L = case['L']
    P = gen.XYZ(case['pts'], L)
    r = np.hypot(P[0], P[1]); z0 = case['x0'][2]*L
    mz = case['mv'][2]
    d = np.hypot(r, P[2]-z0)
    off = d > 3e-3
    got = vec(VD.doublet_u_polar, 2, r.shape, r.copy(), P[2].copy(), mz, z0=z0)
    require(np.all(np.isfinite(got)), 'doublet_u_polar is not finite')
    if np.any(off):
        Q = np.stack((r, 0*r, P[2]))[:, off]
        u = ref.doublet(Q, [0, 0, mz], [0, 0, z0])
        t = abs(mz)/(4*np.pi)/d[off]**3*(1e-12+20*EPS*(np.abs(P[2][off])+abs(z0)+r[off])/d[off])+1e-300
        close(got[0][off], u[0], t, 'doublet_u_polar radial velocity'); close(got[1][off], u[2], t, 'doublet_u_polar axial velocity')
    on = d == 0
    if np.any(on):
        close(got[:, on], 0*got[:, on], 1e-300, 'doublet_u_polar at the doublet itself')


def line_geom(P, m, L):
    """ perpendicular distance to the infinite line, axial position, distance to the segment """
    c2 = 1+m*m
    s = (m*P[0]+P[2])/c2
    h2 = (P[1]**2+(P[0]-m*P[2])**2/c2)
    sc = np.clip(s, 0, L)
    dist = np.sqrt((P[0]-m*sc)**2+P[1]**2+(P[2]-sc)**2)
    return s, np.sqrt(h2), dist


def chk_line(case):
    S, m, dm = case['L'], case['m'], case['dm']
    Lz = np.inf if case['len'] is None else case['len']*S
    Q = gen.XYZ(case['pts'], S)
    # the points are drawn around the line: shift by the axis position in some cases; prolongations and on-line points exactly
    for i, q in enumerate(case['pts']):
        w = case['where'][i % len(case['where'])]
        z = Q[2, i]
        if w == 1:
            Q[0, i] += m*z
        elif w == 2:       # exactly on the (extended) line
            Q[:, i] = [m*z, 0.0, z]
        elif w == 3:       # on the line
            z = abs(z) if np.isinf(Lz) else Lz*min(1.0, abs(q['p'][2])/4)
            Q[:, i] = [m*z, 0.0, z]
        elif w == 4:       # close to the (extended) line
            o = np.array([q['p'][1] or 1, q['p'][0] or 1, -m*(q['p'][1] or 1)])
            Q[:, i] = np.array([m*z, 0.0, z])+o/np.sqrt((o*o).sum())*S*10**(-case['near'])
    s, h, dist = line_geom(Q, m, Lz)
    got = vec(VD.doublet_line_u, 3, Q[0].shape, Q[0].copy(), Q[1].copy(), Q[2].copy(), dm, **(dict(m=m) if case['len'] is None and case['dflt'] else dict(m=m, L=Lz)))
    a = np.sqrt((Q**2).sum(0))
    for i in range(Q.shape[1]):
        onl = abs(Q[1, i]) < 1e-9 and abs(Q[0, i]-m*Q[2, i]) < 1e-9 and 0 <= Q[2, i] <= Lz
        if onl:
            close(got[:, i], np.zeros(3), 1e-300, 'doublet_line_u on the line (m=%g, L=%g)', m, Lz)
            continue
        if dist[i] < 1e-2*min(S, 1) or dist[i] < 3e-4:
            continue
        c = np.sqrt(1+m*m)
        if np.isinf(Lz):
            cond = 4.0 if s[i] <= 0 else (1+a[i]/max(h[i], 1e-300))**4
        else:
            # the code changes formula close to the prolongation: truncation error there, rounding elsewhere
            hh = max(h[i], 1e-300)
            en = EPS*((a[i]+Lz*c)/hh)**4*(1+dist[i]/(Lz*c)); es = (hh/dist[i])**2
            q = es**3/(EPS*(a[i]/dist[i])**4)
            e = 300*en if 0 <= s[i] <= Lz else 60*es if q < 0.2 else 300*en if q > 5 else 60*es+300*en
            cond = None
        u = ref.doublet_line_1(Q[:, i], dm, m, Lz)
        scale = abs(dm)/(4*np.pi)/dist[i]**2*min(1.0, (Lz*c/dist[i]) if np.isfinite(Lz) else 1.0)
        big = abs(dm)/(4*np.pi)/dist[i]**2
        if cond is None:
            if e > 0.1:
                continue
            close(got[:, i], u, scale*(e+3e-10)+big*(1e-12+30*EPS*(1+(a[i]+Lz*c)/dist[i])**3), 'doublet_line_u (m=%g, L=%g, s=%g, h=%g)', m, Lz, s[i], h[i])
        else:
            e = 1e-10+60*EPS*cond
            if e > 1e-2:
                continue
            close(got[:, i], u, scale*3e-10+big*(1e-12+60*EPS*cond), 'doublet_line_u (m=%g, L=%g, s=%g, h=%g)', m, Lz, s[i], h[i])


def chk_line_polar(case):
    S, dm = case['L'], case['dm']
    Q = gen.XYZ(case['pts'], S)
    r, z = np.hypot(Q[0], Q[1]), Q[2]
    got = vec(VD.doublet_line_polar_u, 2, r.shape, r.copy(), z.copy(), dm)
    require(np.all(np.isfinite(got)), 'doublet_line_polar_u is not finite: r=%s z=%s', r.tolist(), z.tolist())
    for i in range(len(r)):
        if r[i] == 0 and z[i] >= 0:
            close(got[:, i], np.zeros(2), 1e-300, 'doublet_line_polar_u on the line')
            continue
        dist = r[i] if z[i] >= 0 else np.hypot(r[i], z[i])
        n = np.hypot(r[i], z[i])
        if n < 1e-6 or 0 < r[i] < 2e-8:
            continue
        # off the line, doublets along a half line induce the velocity of a point sink at its end
        e = 1e-10+4e-8/n*(abs(z[i]) < 2e-8)
        close(got[:, i], -dm/(4*np.pi)*np.array([r[i], z[i]])/n**3, abs(dm)/(4*np.pi)/n**2*e, 'doublet_line_polar_u against the point sink')
        if dist < 1e-6:
            continue
        if r[i] != 0 and (r[i] < 1e-6*abs(z[i]) or r[i] < 1e-7):
            continue
        u = ref.doublet_line_1([r[i], 0, z[i]], dm)
        n = np.hypot(r[i], z[i])
        tz = abs(dm)/(4*np.pi)*(1e-10/dist**2+20*EPS/max(r[i], 1e-300 if r[i] > 0 else n)**2)
        if abs(z[i]) < 2e-8:
            tz += abs(dm)*abs(z[i])/dist**3
        close(got[0][i], u[0], abs(dm)/(4*np.pi)*1e-10/dist**2, 'doublet_line_polar_u radial velocity')
        close(got[1][i], u[2], tz, 'doublet_line_polar_u axial velocity')
    # same vector as the Cartesian routine
    ok = (r > 0.03*np.abs(z)) & (r > 1e-2)
    if np.any(ok):
        c = vec(VD.doublet_line_u, 3, (int(ok.sum()),), Q[0][ok], Q[1][ok], Q[2][ok], dm)
        psi = np.arctan2(Q[1], Q[0])[ok]
        n = np.hypot(r, z)[ok]
        t = abs(dm)/r[ok]**2*(1e-9+60*EPS*(1+n/r[ok])**4)+abs(dm)*3e-8/r[ok]**3
        close(c[0], got[0][ok]*np.cos(psi), t, 'polar and Cartesian doublet line, x'); close(c[1], got[0][ok]*np.sin(psi), t, 'polar and Cartesian doublet line, y')
        close(c[2], got[1][ok], t, 'polar and Cartesian doublet line, z')


def chk_num(case):
    """ quadrature versions: the error to the exact finite line is bounded by the rectangle rule's """
    S, m, dm = case['L'], case['m'], case['dm']
    Lz = (case['len'] or 3.0)*S
    Q = gen.XYZ(case['pts'], S)
    c = np.sqrt(1+m*m)
    s, h, dist = line_geom(Q, m, Lz)
    k = (dist > 0.05*S) & (dist > 0.02)
    if not np.any(k):
        raise Skip()
    Q, dist = Q[:, k][:, :1], dist[k][:1]
    N = int(min(4000, max(20, np.ceil(case['ref']*Lz*c/dist[0]))))
    dz = Lz/(N-1)
    if case['kind'] == 0:
        got = vec(VD.doublet_line_u_num, 3, (1,), Q[0].copy(), Q[1].copy(), Q[2].copy(), dm, m=m, zmax=Lz, nQuad=N)
        u = ref.doublet_line(Q, dm, m, Lz)
        f = [np.abs(ref.doublet(Q, [0, 0, dm], [m*z, 0, z])).max() for z in (0, Lz)]
    else:
        m = 0; c = 1.0
        z0 = case['x0'][2]*S
        r = np.hypot(Q[0], Q[1])
        Q = np.stack((r, 0*r, Q[2]))
        s, h, dist = line_geom(Q, 0, Lz)
        if dist[0] < 0.05*S or dist[0] < 0.02:
            raise Skip()
        N = int(min(4000, max(20, np.ceil(case['ref']*Lz*c/dist[0])))); dz = Lz/(N-1)
        got2 = vec(VD.doublet_line_polar_u_num, 2, (1,), r, Q[2]+z0, dm, z0=z0, zmax=z0+Lz, nQuad=N)
        got = np.stack((got2[0], 0*got2[0], got2[1]))
        u = ref.doublet_line(Q, dm, 0, Lz)
        f = [np.abs(ref.doublet(Q, [0, 0, dm], [0, 0, z])).max() for z in (0, Lz)]
    bound = dz*(f[0]+f[1])+6*(dz*c/dist[0])**2*abs(dm)/(4*np.pi)/dist[0]**2
    close(got, u, bound+abs(dm)*1e-10/dist[0]**2, 'quadrature version of the doublet line (nQuad=%d)', N)


def chk_int(case):
    """ closed-form integrals I30, 3 I50, 3 I51, 3 I52 against quadrature """
    S, m = case['L'], case['m']
    P = gen.XYZ(case['pts'], S)
    Lz = np.inf if case['len'] is None else case['len']*S
    s, h, dist = line_geom(P, m, Lz)
    a = np.sqrt((P**2).sum(0)); c = np.sqrt(1+m*m)
    for i in range(P.shape[1]):
        x, y, z = P[:, i]
        sub = abs((m*x+z)**2-a[i]**2*c*c) < 1e-8
        if h[i] < 0.02*(a[i]+(0 if np.isinf(Lz) else Lz*c)) or a[i] < 1e-2 or sub:
            continue
        want = _ints(x, y, z, m, Lz)
        b = m*x+z
        if np.isinf(Lz):
            got = [call(f, a[i], b, c) for f in (VD.I30, VD.tI50, VD.tI51, VD.tI52)]
        else:
            got = call(VD._integrals_DL_finite, np.array([a[i]]), np.array([b]), c, Lz)
        cond = (1+(a[i]+(0 if np.isinf(Lz) else Lz*c))/h[i])**4
        for n, g, w, k, pw in zip(('I30', '3 I50', '3 I51', '3 I52'), got, want, (1, 3, 3, 3), (-2, -4, -3, -2)):
            close(np.ravel(g)[0], k*w, abs(k*w)*1e-9+100*EPS*cond*(abs(k*w)+a[i]**pw), '%s (m=%g, L=%g)', n, m, Lz)


def _ints(x, y, z, m, L):
    c2 = 1+m*m
    sc = float(np.clip((m*x+z)/c2, 0, L)); d = np.sqrt((x-m*sc)**2+y*y+(z-sc)**2)/np.sqrt(c2)
    xg, w = ref.gl(16)
    out = np.zeros(4)
    for sg, lim in ((1, L-sc), (-1, sc)):
        if lim <= 0:
            continue
        T = min(45.0, np.arcsinh(lim/d)) if np.isfinite(lim) else 45.0
        e = np.linspace(0, T, max(1, int(np.ceil(T/0.5)))+1)
        t = (e[:-1, None]+np.diff(e)[:, None]*(xg+1)/2).ravel(); wt = (np.diff(e)[:, None]*w/2).ravel()
        q = sc+sg*d*np.sinh(t); ws = wt*d*np.cosh(t)
        r2 = (x-m*q)**2+y*y+(z-q)**2
        out += [(ws/r2**1.5).sum(), (ws/r2**2.5).sum(), (ws*q/r2**2.5).sum(), (ws*q*q/r2**2.5).sum()]
    return out


def chk_negative(case):
    P = gen.XYZ(case['pts'], case['L'])
    r = np.hypot(P[0], P[1])+0.1*case['L']
    i = case['i'] % len(r)
    r[i] = -r[i]
    require(refuses(VD.doublet_u_polar, r.copy(), P[2].copy(), case['dm']), 'doublet_u_polar accepts the radius %.17g', r[i])
    require(refuses(VD.doublet_line_polar_u, r.copy(), P[2].copy(), case['dm']), 'doublet_line_polar_u accepts the radius %.17g', r[i])


S = ('generic', 'inside', 'outside', 'axis', 'plane', 'nearplane', 'far', 'up', 'grid')
size = gen.pick(1.0, other=gen.logu(-2, 3))
length = st.one_of(st.none(), gen.pick(1.0, 4.0, other=gen.logu(-1.5, 2)))
pos = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(gen.uni0(3), min_size=3, max_size=3))
mv = st.one_of(st.just([0.0, 0.0, 1.0]), st.lists(gen.uni0(5), min_size=3, max_size=3))
K = dict(nontrivial=lambda c: c.get('dm', 1) != 0 and any(c['mv']) and any(p['c'] != 'axis' for p in c['pts']),
         classify=lambda c: gen.classes_of(c)+(['semi-infinite' if c['len'] is None else 'finite'] if 'len' in c else []))


def case_st(*classes, hi=4, **extra):
    return st.fixed_dictionaries(dict(L=size, mv=mv, x0=pos, dm=gen.strength, m=gen.skew, len=length, pts=gen.points(*classes, hi=hi), origin=st.booleans(), **extra))


LAWS = [
    Law('point_doublet', case_st(*S), chk_doublet, 700, 15000, **K),
    Law('point_doublet_polar', case_st(*S), chk_doublet_polar, 400, 8000, **K),
    Law('line_vs_quadrature', case_st(*S, dflt=st.booleans(), where=st.lists(st.integers(0, 4), min_size=1, max_size=4), near=gen.uni(0.5, 9)), chk_line, 1500, 40000, **K),
    Law('line_polar_vs_quadrature', case_st(*S, 'nearaxis', 'deep'), chk_line_polar, 700, 15000, **K),
    Law('quadrature_versions', case_st(*S, ref=gen.uni(3, 20), kind=st.integers(0, 1)), chk_num, 400, 8000, **K),
    Law('negative_radius', case_st(*S, i=st.integers(0, 3)), chk_negative, 100, 1000),
    Law('closed_form_integrals', case_st('generic', 'inside', 'outside', 'plane', 'up', 'grid'), chk_int, 500, 10000, **K),
]
