"""C10 linearity in the strength and dimensional consistency"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, fields, turb
from fields import FIELDS, BY
from wiz import VortexLine as VL, VortexCylinder as VC, VortexCylinderSkewed as VS, VortexRing as VR, VortexDoublet as VD

EPS = 2.3e-16
core.LAYOUT['per_case'] = True
RULE = ('cases draw a field or turbine with its parameters, points of all classes and a factor; a case counts when the factor is not 1')
ASSUMPTIONS = ['metamorphic: no reference value, the code is compared with itself',
               'points closer than 1e-6 sizes to the support of the vorticity, and lengths for which the absolute coincidence thresholds of the code (1e-8 on r^3, 1e-5 on lengths) act, are left out',
               'closed forms: relative tolerance 1e-10 plus the conditioning of the formula']


def prep(case, dmin=1e-6, s=1.0):
    F, p, P = fields.get(case)
    R = F.size(p)
    d = F.dist(p, P)
    ok = d > dmin*R
    if F.pw <= -1 or F.name == 'svc_all':        # absolute thresholds of the code (1e-5 on lengths, 1e-8 on r^3)
        ok &= np.minimum(d, d*s) > 5e-3
    if F.pw == -1 or F.name == 'svc_all':
        r = np.hypot(P[0], P[1])/R
        ok &= (r == 0) | (r > 1e-3)
    if not np.any(ok):
        raise Skip()
    return F, p, P[:, ok], d[ok]


def mags(F, p, P):
    s = max(abs(v) for k in F.strengths for v in (p[k] if isinstance(p[k], list) else [p[k]]))
    return s


def chk_linear(case):
    F, p, P, d = prep(case)
    N = fields.nth(p, P) if F.quad else None
    kw = dict(N=N) if F.quad else {}
    k = case['k']
    u = F.ev(p, P, **kw)
    v = F.ev(F.times(p, k), P, **kw)
    require(np.all(np.isfinite(u)), '%s is not finite away from the vorticity', F.name)
    if k == 0:
        require(np.all(v == 0), '%s with zero strength induces %s', F.name, v.ravel()[:3])
        return
    R = F.size(p)
    dd = np.minimum(d, R)
    base = mags(F, p, P)*(dd**F.pw if F.pw < 0 else 1.0)
    close(v, k*u, abs(k)*(1e-11*np.abs(u)+1e-13*base)+1e-300, '%s with the strength multiplied by %g', F.name, k)


def chk_superpose(case):
    """ additive in the strength: f(s1)+f(s2) = f(s1+s2) for fields with several strengths """
    F, p, P, d = prep(case)
    N = fields.nth(p, P) if F.quad else None
    kw = dict(N=N) if F.quad else {}
    w = case['w']
    a, b = dict(p), dict(p)
    i = 0
    for n in F.strengths:
        if isinstance(p[n], list):
            f = [w[(i+j) % len(w)] for j in range(len(p[n]))]
            a[n] = [x*y for x, y in zip(p[n], f)]; b[n] = [x*(1-y) for x, y in zip(p[n], f)]
            i += len(f)
        else:
            a[n] = p[n]*w[i % len(w)]; b[n] = p[n]*(1-w[i % len(w)])
            i += 1
    u, ua, ub = F.ev(p, P, **kw), F.ev(a, P, **kw), F.ev(b, P, **kw)
    R = F.size(p)
    dd = np.minimum(d, R)
    base = 3*mags(F, p, P)*(dd**F.pw if F.pw < 0 else 1.0)*(1+max(abs(x) for x in w))
    close(ua+ub, u, 1e-11*(np.abs(u)+np.abs(ua)+np.abs(ub))+1e-12*base+1e-300, '%s: sum over a split of the strengths', F.name)


def chk_scale(case):
    s = case['s']
    F, p, P, d = prep(case, s=s)
    R = F.size(p)
    q = F.scale(p, s)
    ok = fields.condition(F, p, P) < 1e-7
    if not np.any(ok):
        raise Skip()
    P, d = P[:, ok], d[ok]
    if min(R, R*s) < 1e-2 or not (1e-3 < R*s < 1e5):
        raise Skip()
    N = None
    kw = {}
    if F.quad:
        N = fields.nth(p, P)
        kw = dict(N=N)
    u = F.ev(p, P, **kw)
    v = F.ev(q, P*s, **kw)
    c = fields.condition(F, p, P)
    # closed forms on the axis / radius use series below relative thresholds: 1e-7
    un = np.sqrt((u**2).sum(0))
    base = mags(F, p, P)*R**F.pw
    L = np.sqrt((P**2).sum(0))/R+1
    r = np.hypot(P[0], P[1])/R
    tol = (un*(1e-9+c)+base*(2e-10+50*EPS*L/np.maximum(r, 1e-6)) if F.pw == 0 else un*(1e-9+c)+base*1e-14*L)
    if F.pw == -3 or F.pw == -2:
        tol = un*(1e-9+c)
    if F.noise == 'dl':      # rotor plane within 1e-8 (absolute)
        tol = tol+un*2e-8/(min(1, s)*np.maximum(1e-9, np.sqrt((P**2).sum(0))))
    close(v/s**F.pw, u, tol+1e-300, '%s with all lengths multiplied by %g (power %d)', F.name, s, F.pw)


def chk_turbine_scale(case):
    """ scaled geometry, scaled wind """
    s = case['s']
    Q = turb.wake_points(s, case['pts'])
    d, dl, N = turb.sheet_dist(s, Q)
    ok = (d > 1e-3) & (dl > 1e-3)
    if not np.any(ok):
        raise Skip()
    Q = Q[:, ok]
    P = turb.to_global(s, Q/s['R'])
    a, b = case['a'], case['b']
    s2 = dict(s, R=s['R']*a, U=s['U']*b)
    kw = dict(longi=case['longi'], root=case['root'], no_wake=case['no_wake'], only_ind=case['ind'], ground=case['ground'])
    if case['ground'] and s['load']['k'] != 'fun':
        kw['longi'] = False; kw['root'] = False
    u = turb.velocity(turb.make(s, case['via']), P, **kw)
    v = turb.velocity(turb.make(s2, case['via']), P*a, **kw)
    sc = turb.scale_of(s)+s['U']
    L = 1+np.sqrt((Q**2).sum(0))/s['R']+np.abs(P).max()/s['R']
    dd = np.minimum(1, np.minimum(d, dl)[ok])
    if case['ground'] or abs(math_dw(s)) < 3e-7:
        # image of the hub can be anywhere: skip points near the image
        v0 = turb.geom(s)[0]
        Pm = P-2*np.outer(v0, v0 @ P)
        Qm = turb.to_local(s, Pm)
        dm, dlm, _ = turb.sheet_dist(s, Qm)
        k = (dm > 1e-2) & (dlm > 1e-2)
        if not np.any(k):
            raise Skip()
        u, v, L, dd = u[:, k], v[:, k], L[k], dd[k]
    close(v/b, u, sc*(1e-9+1.2e-7*L/dd**2*(abs(s['dw']) < 1e-3)+1e-11*L**2/dd**2)+1e-300, 'turbine with lengths times %g and velocities times %g', a, b)


def math_dw(s):
    return s['dw']


def chk_line(case):
    """ viscous straight line: all models scale with the core radius, Gamma and lengths """
    e = np.array(case['e']); G = case['G']; m = case['visc']; t = case['t']; s = case['s']
    P = np.array(case['P'])
    if np.linalg.norm(np.cross(P, e)) < 5e-2 or np.linalg.norm(np.cross(P, e))*s < 5e-3:
        raise Skip()
    u = vec(VL.vl_semiinf_u, 3, (), *P, *e, G, m, t)
    k = case['k']
    v = vec(VL.vl_semiinf_u, 3, (), *P, *e, G*k, m, t)
    close(v, k*u, 1e-12*abs(k)*np.abs(u)+1e-300, 'viscous vortex line (model %d), strength times %g', m, k)
    ts = t*s*s if m >= 4 else t*s     # models 4, 5: the squared cut-off is the parameter
    v = vec(VL.vl_semiinf_u, 3, (), *(P*s), *e, G, m, ts)
    close(v*s, u, 1e-9*np.abs(u).max()+1e-300, 'viscous vortex line (model %d), lengths times %g', m, s)


PT = ('generic', 'inside', 'outside', 'axis', 'nearaxis', 'plane', 'nearR', 'far', 'deep', 'up', 'grid', 'nearplane', 'nearrim')
ks = gen.pick(0, -1, 0.0, 2, -1.0, other=gen.slogu(-6, 6), p=0.4)
S = st.one_of(gen.logu(-2, 3), st.sampled_from([2.0, 10.0, 0.5, 0.1, 100.0]))
K = dict(classify=lambda c: [c['f']])
LAWS = [
    Law('linear_in_strength', fields.any_field(FIELDS, *PT, k=ks), chk_linear, 3000, 40000, nontrivial=lambda c: c['k'] != 1, **K),
    Law('additive_in_strength', fields.any_field(FIELDS, *PT, w=st.lists(gen.uni0(3), min_size=3, max_size=3)), chk_superpose, 1500, 20000, **K),
    Law('length_scaling', fields.any_field(FIELDS, *PT, s=S), chk_scale, 3000, 40000, nontrivial=lambda c: c['s'] != 1, **K),
    Law('turbine_scaling', st.fixed_dictionaries(dict(s=turb.states(), pts=gen.points(*turb.PTS), via=st.sampled_from(['ctor', 'update']), a=gen.logu(-2, 3), b=gen.logu(-2, 2), longi=st.booleans(), root=st.booleans(),
                                                      no_wake=st.booleans(), ind=st.booleans(), ground=st.sampled_from([False, False, True]))), chk_turbine_scale, 800, 12000,
        classify=lambda c: [c['s']['load']['k']]),
    Law('viscous_line', st.fixed_dictionaries(dict(e=gen.unitvec, G=gen.strength, visc=st.integers(0, 5), t=gen.logu(-1.5, 1), P=st.lists(gen.uni0(3), min_size=3, max_size=3), s=gen.logu(-1.5, 2), k=ks)), chk_line, 1200, 15000,
        classify=lambda c: ['model%d' % c['visc']]),
]
