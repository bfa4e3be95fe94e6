"""C09 divergence-free and irrotational fields, circulations"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, fields
from fields import FIELDS, BY
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS, VortexRing as VR, VortexLine as VL, VortexPoint as VP

EPS = 2.3e-16
core.LAYOUT['per_case'] = True
RULE = ('cases draw a field with its parameters and a sphere, circle or loop; spheres and circles have a quarter of the distance to the vorticity as radius; '
        'a case counts when the strength is not zero (spheres and circles that the integration count of the code cannot resolve are skipped)')
ASSUMPTIONS = ['flux and circulation are computed with product Gauss/trapezoid rules that are exact to 0.25^18 for fields analytic in the sphere',
               'open vortex lines (longitudinal sheet, root vortex, line) are only checked for zero divergence and for the circulation far downstream of their start']
N_, W_ = ref.sphere_nodes(10, 18)
T_ = np.arange(24)*2*np.pi/24


def frame(n):
    n = np.asarray(n, float); n = n/np.linalg.norm(n)
    a = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.8 else [0, 1, 0]); a = a/np.linalg.norm(a)
    return a, np.cross(n, a)


def center(case):
    F, p, P = fields.get(case)
    R = F.size(p)
    d = F.dist(p, P)
    k = np.where((d > 0.05*R) & (d < 300*R))[0]
    if len(k) == 0:
        raise Skip()
    return F, p, P[:, k[0]], d[k[0]]


def closed_form_ok(F, p, P):
    """ closed forms that lose digits by cancellation far from the vorticity are only used where they keep 1e-8 """
    return np.all(fields.condition(F, p, P) < 1e-9) and (not F.quad or fields.resolved(p, P))


def tolrel(F, p, P, c, d):
    # axis formula threshold of the code (1e-7 radii)
    return 1e-7+fields.condition(F, p, P).max()*10


def absnoise(F, p, P):
    """ absolute error of the code for the fields whose rounding error does not scale with the local velocity """
    R = F.size(p)
    s = max(abs(v) for k in F.strengths for v in (p[k] if isinstance(p[k], list) else [p[k]]))
    L = np.sqrt((P**2).sum(0)).max()/R+1
    r = np.hypot(P[0], P[1]).min()/R
    return s*R**F.pw*(2e-10*min(1, L)+50*EPS*L/max(r, 1e-6)) if F.pw == 0 else s*R**F.pw*50*EPS*L**2


def chk_div(case):
    F, p, c, d = center(case)
    rho = 0.25*d
    P = c.reshape(3, 1)+rho*N_
    if not closed_form_ok(F, p, P):
        raise Skip()
    u = F.ev(p, P)
    require(np.all(np.isfinite(u)), '%s not finite away from the vorticity', F.name)
    flux = ((u*N_).sum(0)*W_).sum()
    umax = np.sqrt((u**2).sum(0)).max()
    close(flux/(4*np.pi), 0.0, umax*tolrel(F, p, P, c, d)+absnoise(F, p, P)+1e-300, 'mean outflow through a sphere: %s', F.name)


def chk_curl(case):
    F, p, c, d = center(case)
    rho = 0.25*d
    a, b = frame(case['n'])
    P = c.reshape(3, 1)+rho*(np.outer(a, np.cos(T_))+np.outer(b, np.sin(T_)))
    if not closed_form_ok(F, p, P):
        raise Skip()
    t = -np.outer(a, np.sin(T_))+np.outer(b, np.cos(T_))
    u = F.ev(p, P)
    umax = np.sqrt((u**2).sum(0)).max()
    circ = (u*t).sum(0).mean()
    close(circ, 0.0, umax*tolrel(F, p, P, c, d)+absnoise(F, p, P)+1e-300, 'mean circulation along a circle: %s', F.name)


X16, W16 = ref.gl(24)


def seg(f, A, B, n=1):
    """ line integral of f along the segment AB """
    A, B = np.asarray(A, float), np.asarray(B, float)
    tot = 0.0
    for i in range(n):
        a, b = A+(B-A)*i/n, A+(B-A)*(i+1)/n
        P = a.reshape(3, 1)+np.outer(b-a, (X16+1)/2)
        tot += ((f(P)*(b-a).reshape(3, 1)).sum(0)*W16/2).sum()
    return tot


def chk_jump(case):
    """ tangential sheets: circulation of a loop that crosses the sheet once or not at all """
    R, g, m = case['R'], case['g'], case['m'] if case['skewed'] else 0.0
    psi = case['psi']
    c = np.sqrt(1+m*m)
    er = np.array([np.cos(psi), np.sin(psi), 0]); e = np.array([m, 0, 1.0])
    z1, z2 = case['z1']*R, (case['z1']+case['dz'])*R
    ri, ro = (1-case['a'])*R, (1+case['b'])*R
    mid = R
    if case['out'] == 1:      # no crossing: outside
        ri = (1+case['b']*0.3)*R; mid = 0.5*(ri+ro)
    elif case['out'] == 2:    # inside
        ro = (1-case['a']*0.3)*R; mid = 0.5*(ri+ro)
    tol_d = abs(g)*R
    f = lambda P: fields.c3(VC.vc_tang_u, P, g, R, False)
    circ = seg(f, ri*er+e*z1, mid*er+e*z1)+seg(f, mid*er+e*z1, ro*er+e*z1)+seg(f, ro*er+e*z1, ro*er+e*z2, 2)+seg(f, ro*er+e*z2, mid*er+e*z2)+seg(f, mid*er+e*z2, ri*er+e*z2)+seg(f, ri*er+e*z2, ri*er+e*z1, 2)
    # orientation er -> ez : normal er x ez = -e_psi, the sheet vorticity is along +e_psi
    want = -g*(z2-z1) if case['out'] == 0 else 0.0
    close(circ, want, tol_d*2e-5*(1+abs(want)/tol_d), 'circulation around a loop %s (tube of tangential vorticity)', ['across the sheet', 'outside the sheet', 'inside the sheet'][case['out']])


def chk_jump_point(case):
    """ axial velocity jump at the sheet, by symmetric extrapolation to the sheet from both sides """
    R, g, m = case['R'], case['g'], case['m'] if case['skewed'] else 0.0
    psi = case['psi']
    z = (0.3+case['z1'])*R
    D = np.array([0.10, 0.16, 0.22, 0.28, 0.34])*min(1.0, z/R)
    er = np.array([np.cos(psi), np.sin(psi), 0]); c0 = np.array([m*z, 0, z])
    P = np.array([c0+R*(1+s*d)*er for s in (-1, 1) for d in D]).T
    q = dict(R=R, m=m)
    N = gen.ntheta_for(P, R, m)
    if N > 3000:
        raise Skip()
    u = fields.c3(VS.svc_tang_u, P, g, R, m, N) if case['skewed'] else fields.c3(VC.vc_tang_u, P, g, R, False)
    c = np.sqrt(1+m*m); e = np.array([m, 0, 1.0])/c
    ue = e @ u
    # polynomial extrapolation to the sheet
    ex = lambda y: np.polyval(np.polyfit(D, y, len(D)-1), 0.0)
    ji, jo = ex(ue[:len(D)]), ex(ue[len(D):])
    # vorticity sheet: rings parallel to z=0, gamma per unit length along e: jump across = vorticity per unit length (rings) x (e); flux through a loop of length l along e is gamma*l
    close(ji-jo, g, abs(g)*(0.012+0.03*abs(m)*(1+abs(m))), 'velocity jump along the wake direction across the sheet (m=%g)', m)


def chk_link(case):
    """ circulation around a filament: ring linked by a circle, lines and sheets deep in the wake, 2-D points """
    R, G, k = case['R'], case['g'], case['kind']
    t = np.arange(64)*2*np.pi/64
    psi = case['psi']
    er, ez = np.array([np.cos(psi), np.sin(psi), 0]), np.array([0, 0, 1.0])
    if k == 0:       # ring: circle in the meridional plane around the filament
        rho = case['rho']*0.6*R
        P = (R*er).reshape(3, 1)+rho*(np.outer(er, np.cos(t))+np.outer(ez, np.sin(t)))
        T = rho*(-np.outer(er, np.sin(t))+np.outer(ez, np.cos(t)))
        u = fields.c3(VR.ring_u, P, G, R, False)
        circ = (u*T).sum(0).mean()*2*np.pi
        # er -> ez orientation: normal = er x ez = -e_psi
        close(circ, -G, abs(G)*1e-7, 'circulation around the vortex ring')
        z0 = case['z1']*R
        r, z = np.hypot(P[0], P[1]), P[2]+z0
        uu = vec(VR.ring_u_polar, 2, r.shape, r, z, G, R, z0)
        u = fields.cart_from_polar(uu, P)
        close((u*T).sum(0).mean()*2*np.pi, -G, abs(G)*1e-7, 'circulation around the vortex ring (polar form, offset)')
    elif k == 1:     # root vortex / line, deep in the wake; and upstream of its start
        m = case['m'] if case['skewed'] else 0.0
        e = np.array([m, 0, 1.0]); e = e/np.linalg.norm(e)
        a, b = frame(e)
        D = 2e4*R if case['out'] < 2 else -2e4*R
        rho = case['rho']*R
        P = (D*e).reshape(3, 1)+rho*(np.outer(a, np.cos(t))+np.outer(b, np.sin(t)))
        T = rho*(-np.outer(a, np.sin(t))+np.outer(b, np.cos(t)))
        if case['out'] == 1:
            P = P+3*rho*a.reshape(3, 1)      # does not enclose the line
        want = G if case['out'] == 0 else 0.0
        u = fields.c3(VS.svc_root_u, P, G, m) if m else fields.c3(VC.vc_root_u, P, G)
        close((u*T).sum(0).mean()*2*np.pi, want, abs(G)*1e-4, 'circulation around the root vortex %s (m=%g)', ['deep in the wake', 'deep, not enclosing it', 'far upstream'][case['out']], m)
        v = fields.ev_line(dict(e=e.tolist(), G=G), P)
        close((v*T).sum(0).mean()*2*np.pi, want, abs(G)*1e-4, 'circulation around the vortex line')
    elif k == 2:     # longitudinal sheet
        m = case['m'] if case['skewed'] else 0.0
        D = 300*R if case['out'] < 2 else -300*R
        rho = (1+case['rho'])*R if case['out'] != 1 else (1-0.6*case['rho'])*R
        P = np.array([m*D+rho*np.cos(t), rho*np.sin(t), 0*t+D])     # horizontal circle around the shifted axis
        T = rho*np.array([-np.sin(t), np.cos(t), 0*t])
        if m:
            q = dict(R=R, m=m)
            N = gen.ntheta_for(P[:, ::16], R, m)
            if N > 2500:
                raise Skip()
            u = fields.c3(VS.svc_longi_u, P, G, R, m, N)
        else:
            u = fields.c3(VC.vc_longi_u, P, G, R)
        want = 2*np.pi*R*G if case['out'] == 0 else 0.0
        close((u*T).sum(0).mean()*2*np.pi, want, abs(G)*R*1e-3*(1+m*m), 'circulation around the longitudinal sheet %s (m=%g)', ['deep in the wake', 'inside, deep', 'far upstream'][case['out']], m)
    else:            # 2-D points, with cores
        X = np.array([[0.0, 0.0], [3*R, 0.5*R]])
        Gs = np.array([G, -0.7*G])
        rho = (case['rho'] if case['out'] == 0 else case['rho']*0.5+0.1)*R
        big = case['out'] == 2
        if big:
            rho = (4+case['rho'])*R
        P = np.array([rho*np.cos(t), rho*np.sin(t)]).T
        core = case['rho']*0.5*R
        u = np.asarray(call(VP.vps_u, P, X, Gs))
        T = rho*np.array([-np.sin(t), np.cos(t)]).T
        want = G if not big else 0.3*G
        if rho < 2.2*R or big:
            close((u*T).sum(1).mean()*2*np.pi, want, abs(G)*1e-6, 'circulation around point vortices')
            u = np.asarray(call(VP.vps_u, P, X[:1], Gs[:1], SmoothModel=1, KernelOrder=2, SmoothParam=[core]))
            close((u*T).sum(1).mean()*2*np.pi, G*(1-np.exp(-(rho/core)**2)), abs(G)*1e-9, 'circulation around a point vortex with a Gaussian core')


PT = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearR', 'far', 'deep', 'up', 'grid', 'nearplane')
DIV = [F for F in FIELDS if F.closed is not None]
CURL = [F for F in FIELDS if F.closed]
K = dict(nontrivial=lambda c: True, classify=lambda c: [c['f']])
loop = st.fixed_dictionaries(dict(R=gen.radius, g=gen.strength, m=fields.sknz, skewed=st.booleans(), psi=gen.angle, z1=gen.uni(0.05, 2), dz=gen.uni(0.3, 3), a=gen.uni(0.2, 0.8), b=gen.uni(0.2, 1.5),
                                  out=st.integers(0, 2), rho=gen.uni(0.1, 1), kind=st.integers(0, 3)))
KL = dict(nontrivial=lambda c: True, classify=lambda c: ['kind%d' % c['kind'], 'out%d' % c['out'], 'skewed' if c['skewed'] else 'straight'])
LAWS = [
    Law('divergence_free', fields.any_field(DIV, *PT, hi=2), chk_div, 1600, 30000, **K),
    Law('irrotational', fields.any_field(CURL, *PT, hi=2, n=gen.unitvec), chk_curl, 2000, 40000, **K),
    Law('loop_across_tangential_sheet', loop.map(lambda c: dict(c, skewed=False)), chk_jump, 500, 8000, **KL),
    Law('axial_jump', loop, chk_jump_point, 500, 8000, **KL),
    Law('linking_circulation', loop, chk_link, 1500, 20000, **KL),
]
