"""C21 wake vorticity with swirl conserves circulation in every formulation"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz import Solver
from checks.c20 import a_of, tol_a, frozen, unchanged, CTC, AC

PI = math.pi
RULE = ('cases draw circulation or thrust distributions (varying, uniform, zero), tip-speed ratios from 0.5 to 19.9, radii, wind speeds, blade numbers, enclosing cylinders, options; '
        'a case counts when some circulation or thrust is not zero')
ASSUMPTIONS = ['swirl: tip-speed ratio below 19.99 (the code decides at 20)', 'radii of control points are positive with swirl (zero only for the first one of the continuous formulation)',
               'thrusts whose circulation k is below 1.8 (bound of the solver)', 'the deficit due to rotation is known within the contribution of one interval (the published recursion leaves one out)']


def setup(case):
    R, U, lam = case['R'], case['U'], case['lam']
    Om = lam*U/R
    r = np.array(case['r'], float)*R
    x = r/R
    k = np.array(case['c'], float)*np.minimum(1, 2*lam*x)      # keeps the local thrust moderate at the root
    return R, U, lam, Om, r, x, k


def between(a, lo, hi, tol, what, *args):
    a = np.asarray(a, float)
    require(np.all(np.isfinite(a)), what+': %s', *args, a)
    mid = (lo+hi)/2
    close(a, mid, (hi-lo)/2+tol, what, *args)


def conserve(gl, Gr, r, G, what):
    n = len(G)
    gl = np.asarray(gl, float)
    require(gl.shape == (n,), '%s: shape %s of the trailed vorticity', what, gl.shape)
    m = np.abs(G).max()+1e-300
    close(float(np.ravel(Gr)[0]), -G[0], 1e-12*m, '%s: root vortex', what)
    t = gl*2*PI*r
    close(np.cumsum(t[::-1])[::-1], G, 1e-12*m*(n+1), '%s: circulation trailed by the outer tubes', what)
    close(t.sum()+float(np.ravel(Gr)[0]), 0.0, 1e-12*m*(n+1), '%s: total circulation', what)


def chk_discrete(case):
    R, U, lam, Om, r, x, k = setup(case)
    nB, high = case['nB'], case['high']
    n = len(r)
    G = k*PI*U**2/Om
    kw = {}
    if n == 1:
        rc = np.array([R])
    else:
        rc = np.append((r[1:]+r[:-1])/2, r[-1]+(r[-1]-r[-2])/2)
    if case['cyl'] is not None:
        d = np.diff(np.append(r, r[-1]+(r[-1]-(r[-2] if n > 1 else 0))))
        rc = r+case['cyl']*d
        kw['r_cyl'] = rc.copy()
    if not high:
        kw['bHighThrustCorr'] = False
    if case['tan'] is not None:
        kw['bTanInd_k'] = case['tan']
    Gb = G/nB
    args = [r.copy(), Gb.copy()]
    fr = frozen(*args, *[v for v in kw.values() if isinstance(v, np.ndarray)])
    gt, gl, Gr, misc = call(Solver.WakeVorticityFromCirculation_Discr, args[0], args[1], R, U, Om, nB, True, **kw)
    unchanged(fr, 'WakeVorticityFromCirculation_Discr')
    lR = Om*rc/U
    loc = np.append((k[1:]/2)**2*(1/lR[:-1]**2-1/lR[1:]**2), 0.0)
    hi = np.cumsum(loc[::-1])[::-1]              # deficit due to rotation, of this interval and those outside
    lo = hi-loc
    KJ = k*(1+k/(4*lR**2))
    C0, C1 = KJ-hi, KJ-lo
    if not high and np.any(C1 > 0.999):
        raise Skip()
    conserve(gl, Gr, r, G, 'discrete formulation')
    tol = (1e-12+tol_a(C0)+tol_a(C1))*(1+n)*(1+np.abs(KJ)+hi)
    S = -np.cumsum(np.asarray(gt, float)[::-1])[::-1]/(2*U)
    require(S.shape == (n,), 'shape %s of the tangential vorticity', S.shape)
    between(S, a_of(C0, high), a_of(C1, high), tol, 'axial induction of the discrete formulation')
    close(np.asarray(misc['a'], float), S, 1e-12*(1+n)*(1+np.abs(S).max()), 'reported axial induction')
    ap = G/(4*PI*Om*r**2)
    close(np.asarray(misc['a_prime'], float), ap, 1e-12*np.abs(ap)+1e-300, 'tangential induction')
    close(np.asarray(misc['Gamma_cp'], float), G, 1e-12*np.abs(G), 'reported circulation')
    close(np.asarray(misc['r_cp'], float), r, 1e-13*np.abs(r), 'reported radii')
    # helix pitch: convection with the mean velocities at the tube
    nxt = np.append(G[1:], 0.0)
    apc = 0*G if case['tan'] is False else (G+nxt)/(4*PI*Om*rc**2)
    Vc = U*(1-(S+np.append(S[1:], 0.0)))
    h = 2*PI*Vc/(Om*(1+apc))
    close(np.asarray(misc['h'], float), h, 2*PI*U/Om*1e-11*(1+n)*(1+np.abs(S).max()), 'reported pitch of the helices')
    # blades
    g2 = call(Solver.WakeVorticityFromCirculation_Discr, r, G, R, U, Om, 1, True, **kw)
    vs = 1e-9*(1+np.abs(S).max())
    for i, s in ((0, U*vs), (1, np.abs(gl).max()*1e-9+1e-300), (2, np.abs(G).max()*1e-9+1e-300)):
        close(np.asarray(g2[i], float), np.asarray((gt, gl, Gr)[i], float), s, 'output %d for %d blades and for one of the same total circulation', i, nB)
    # units
    la, lb = case['sl'], case['su']
    kw2 = dict(kw)
    if 'r_cyl' in kw2:
        kw2['r_cyl'] = kw2['r_cyl']*la
    g3 = call(Solver.WakeVorticityFromCirculation_Discr, r*la, Gb*la*lb, R*la, U*lb, Om*lb/la, nB, True, **kw2)
    for i, f, s in ((0, lb, U*vs), (1, lb, np.abs(gl).max()*1e-9+1e-300), (2, la*lb, np.abs(G).max()*1e-9+1e-300)):
        close(np.asarray(g3[i], float), np.asarray((gt, gl, Gr)[i], float)*f, f*s, 'output %d in other units', i)
    close(np.asarray(g3[3]['h'], float), h*la, la*2*PI*U/Om*1e-9*(1+np.abs(S).max()), 'pitch in other units')
    close(np.asarray(g3[3]['a'], float), S, vs, 'axial induction in other units')


def chk_continuous(case):
    R, U, lam, Om, r, x, k = setup(case)
    high = case['high']; n = len(r)
    G = k*PI*U**2/Om
    kw = {} if high else dict(bHighThrustCorr=False)
    lr = x*lam
    ap = k/(4*lr**2)
    f = k**2/(2*lr**2*x)
    dx = np.diff(x)
    lo = np.append(np.cumsum((np.minimum(f[1:], f[:-1])*dx)[::-1])[::-1], 0.0)
    hi = np.append(np.cumsum((np.maximum(f[1:], f[:-1])*dx)[::-1])[::-1], 0.0)
    KJ = k*(1+ap)
    C0, C1 = KJ-hi, KJ-lo
    if not high and np.any(C1 > 0.999):
        raise Skip()
    args = (x.copy(), lr.copy(), k.copy())
    fr = frozen(*args)
    kq = dict(kw)
    cq = None
    if case['cq'] is not None:
        cq = np.array([case['cq'][i % len(case['cq'])] for i in range(n)]); kq['Cq'] = cq
    a, apg, misc = call(Solver.InductionsFromCirculation_VC_Cont, *args, True, **kq)
    unchanged(fr, 'InductionsFromCirculation_VC_Cont')
    tol = (1e-12+tol_a(C0)+tol_a(C1))*(1+n)*(1+np.abs(KJ)+hi)
    between(a, a_of(C0, high), a_of(C1, high), tol, 'axial induction of the continuous formulation')
    close(np.asarray(misc['Ct_KJ'], float), KJ, 1e-12*np.abs(KJ)+1e-300, 'local thrust')
    between(misc['Ct_rot'], lo, hi, 1e-12*(1+n)*hi, 'deficit due to rotation')
    close(np.asarray(misc['Ct_eff'], float), np.asarray(misc['Ct_KJ'])-np.asarray(misc['Ct_rot']), 1e-12*(np.abs(KJ)+hi)+1e-300, 'effective thrust')
    a = np.asarray(a, float)
    if cq is None:
        close(np.asarray(apg, float), ap, 1e-12*np.abs(ap)+1e-300, 'tangential induction of the continuous formulation')
    else:
        if np.any(np.abs(1-a) < 1e-2):
            raise Skip()
        close(np.asarray(apg, float)*4*lr*(1-a), cq, 1e-11*cq+1e-300, 'tangential induction from the torque')
    # wake
    if np.any(np.abs(1-2*a) < 1e-2):
        raise Skip()
    args = (r.copy(), G.copy())
    fr = frozen(*args)
    gt, gl, Gr, m2 = call(Solver.WakeVorticityFromCirculation_Cont, *args, R, U, Om, True, **kw)
    unchanged(fr, 'WakeVorticityFromCirculation_Cont')
    conserve(gl, Gr, r, G, 'continuous formulation')
    a2 = np.asarray(m2['a'], float)
    close(a2, a, 1e-10*(1+np.abs(a))+10*tol, 'induction of the continuous formulation')
    close(np.asarray(m2['a_prime'], float), ap, 1e-11*np.abs(ap)+1e-300, 'tangential induction of the wake')
    dG = G-np.append(G[1:], 0)
    h = 2*PI*U*(1-2*a2)/(Om*(1+2*ap))
    close(np.asarray(m2['h'], float), h, 1e-10*np.abs(h), 'pitch of the helices')
    close(np.asarray(m2['Vz'], float), U*(1-2*a2), 1e-12*U*(1+np.abs(a2)), 'convection velocity')
    gt = np.asarray(gt, float)
    m = np.abs(G).max()+1e-300
    close(gt*h, -dG, 1e-10*m, 'tangential vorticity times pitch')
    close(gt*h, -np.asarray(gl, float)*2*PI*r, 1e-10*m, 'direction of the wake vorticity')
    la, lb = case['sl'], case['su']
    g3 = call(Solver.WakeVorticityFromCirculation_Cont, r*la, G*la*lb, R*la, U*lb, Om*lb/la, True, **kw)
    gm = m/np.abs(h).min()
    for o, w, s, what in ((g3[0], gt*lb, gm*lb, 'tangential'), (g3[1], np.asarray(gl)*lb, m/r.min()*lb, 'longitudinal'), (g3[2], float(np.ravel(Gr)[0])*la*lb, m*la*lb, 'root')):
        close(np.asarray(o, float), w, 1e-7*s, '%s vorticity of the continuous formulation in other units', what)
    # first control point on the axis
    if n > 1:
        r0 = r.copy(); r0[0] = 0
        G0 = G.copy()
        fr = frozen(r0, G0)
        g4 = call(Solver.WakeVorticityFromCirculation_Cont, r0, G0, R, U, Om, True, **kw)
        unchanged(fr, 'WakeVorticityFromCirculation_Cont (first radius zero)')
        rr = np.asarray(g4[3]['r_cp'], float)
        close(rr[1:], r[1:], 1e-13*np.abs(r[1:]), 'radii other than the first')
        require(0 < rr[0] < rr[1], 'first radius replaced by %s', rr[0])
        conserve(g4[1], g4[2], rr, G, 'continuous formulation (first radius zero)')


def shape_fun(case):
    p, q = case['p'], case['q']
    c = case['c']
    mx = (p/(p+q))**p*(q/(p+q))**q
    return lambda x: c*x**p*(1-x)**q/mx


def chk_limit(case):
    """ both formulations converge to each other with the number of tubes """
    R, U, lam = case['R'], case['U'], case['lam']
    Om = lam*U/R
    f = shape_fun(case)
    ea, et, eta = [], [], []
    for n in (60, 240):
        r = (np.arange(n)+0.5)/n*R
        if case['grid']:
            r = np.sin((np.arange(n)+0.5)/n*PI/2)*R
        k = f(r/R)
        G = k*PI*U**2/Om
        d = call(Solver.WakeVorticityFromCirculation_Discr, r, G, R, U, Om, 1, True)
        c = call(Solver.WakeVorticityFromCirculation_Cont, r, G, R, U, Om, True)
        a, ac = np.asarray(d[3]['a'], float), np.asarray(c[3]['a'], float)
        require(np.all(np.isfinite(a)) and np.all(np.isfinite(ac)), 'induction not finite')
        ea.append(np.abs(a-ac).max())
        close(np.asarray(c[3]['a_prime'], float), np.asarray(d[3]['a_prime'], float), 1e-11*np.abs(d[3]['a_prime'])+1e-300, 'tangential inductions of both formulations')
        close(np.asarray(c[1], float), np.asarray(d[1], float), 1e-11*np.abs(d[1]).max()+1e-300, 'longitudinal vorticity of both formulations')
        close(float(np.ravel(c[2])[0]), float(np.ravel(d[2])[0]), 1e-11*np.abs(G).max(), 'root vortices of both formulations')
        lam_r = lam*r/R
        if max(k*(1+k/(4*lam_r**2))) < CTC-0.03:
            # cumulative strengths: the far-wake velocity at every radius
            S, Sc = [np.cumsum(np.asarray(g, float)[::-1])[::-1]/U for g in (d[0], c[0])]
            et.append(np.abs(S-Sc).max())
    sc = case['c']
    require(ea[1] <= 0.012*(1+sc) and ea[1] <= 0.5*ea[0]+1e-4, 'axial inductions of the continuous and discrete formulations differ by %.3g with 60 tubes and %.3g with 240', *ea)
    if len(et) == 2:
        require(et[1] <= 0.03 and et[1] <= 0.5*et[0]+2e-4, 'sheet strengths of the continuous and discrete formulations (summed from the tip) differ by %.3g with 60 tubes and %.3g with 240', *et)


def chk_thrust(case):
    """ circulation that matches a thrust, and the wake from either """
    R, U, lam = case['R'], case['U'], case['lam']
    Om = lam*U/R
    r = np.array(case['r'], float)*R; Ct = np.array(case['ct'], float)
    x = r/R
    if case['r0']:
        x = x.copy(); x[0] = 0.0
    fr = frozen(x, Ct)
    k = np.asarray(call(Solver.CirculationFromPrescribedCt, x, Ct, lam, True), float)
    unchanged(fr, 'CirculationFromPrescribedCt')
    require(k.shape == Ct.shape, 'shape of the circulation')
    lr = x*lam
    z = (Ct == 0) | (x == 0)
    close(k[z], 0*k[z], 1e-300, 'circulation of a zero thrust or radius')
    require(np.all(k >= 0), 'negative circulation %s for a thrust', k)
    if np.any(~z):
        kk, ll = k[~z], lr[~z]
        close(kk*(1+kk/(4*ll**2)), Ct[~z], 4e-5*(1+kk/(2*ll**2)), 'thrust of the circulation found for it')
    if case['r0']:
        return
    fr = frozen(r, Ct)
    d = call(Solver.WakeVorticityFromCt, r, Ct, R, U, Om)
    unchanged(fr, 'WakeVorticityFromCt')
    G = np.asarray(call(Solver.CirculationFromPrescribedCt, r/R, Ct, Om*R/U, True), float)*PI*U**2/Om
    fr = frozen(r, G)
    g = call(Solver.WakeVorticityFromGamma, r, G, R, U, Om)
    unchanged(fr, 'WakeVorticityFromGamma')
    for i, nm in enumerate(('tangential', 'longitudinal', 'root')):
        close(np.asarray(d[i], float), np.asarray(g[i], float), 1e-3*np.abs(g[i]).max()+1e-3*U*(0.3 if i == 0 else 0), '%s vorticity from the thrust and from its circulation', nm)
    conserve(g[1], g[2], r, G, 'wake of a circulation')
    Gd = np.asarray(d[3]['Gamma_cp'], float)
    conserve(d[1], d[2], r, Gd, 'wake of a thrust')
    kd = Gd*Om/(PI*U**2); lr = r/R*lam
    close(kd*(1+kd/(4*lr**2)), Ct, 5e-5*(1+kd/(2*lr**2)), 'thrust of the circulation of the wake')


def chk_turbine(case):
    """ swirl of the wake of a turbine with several tubes: circulation of the enclosed tubes and root """
    s = case['s']
    R, U, lam = s['R'], s['U'], case['lam']
    r = np.array(case['r'], float)*R; c = np.array(case['c'], float)
    n = case['n']
    Om = lam*U/R
    kw = dict(r=r.copy(), nCyl=n)
    radii = r if n is None else np.linspace(0.005, 0.995, n)*R
    if case['k'] == 'gam':
        k = c*np.minimum(1, 2*lam*r/R)
        G = k*PI*U**2/Om
        kw['Gamma'] = G.copy()
        if n is not None:
            G = np.interp(radii, r, G)
    else:
        kw['Ct'] = c.copy()
        C = c if n is None else np.interp(radii, r, c)
        G = np.asarray(Solver.CirculationFromPrescribedCt(radii/R, C, lam, True), float)*PI*U**2/Om
    WT = turb.make(s, case['via'], Lambda=np.inf if case['lamctor'] == 0 else lam)
    if case['lamctor'] != 1:
        kw['Lambda'] = lam
    fr = frozen(*[v for v in kw.values() if isinstance(v, np.ndarray)])
    call(WT.update_loading, **kw)
    unchanged(fr, 'update_loading')
    nn = len(radii)
    tolG = (1e-4 if case['k'] == 'ct' else 1e-11)*PI*U**2/Om
    close(float(np.ravel(WT.Gamma_r)[0]), -G[0], tolG, 'root vortex of the turbine')
    rho = np.array(case['rho'])*1.3*R
    rho = rho[np.min(np.abs(rho[:, None]-radii[None, :]), 1) > 2e-2*R]
    rho = rho[rho > 1e-2*R]
    if len(rho) == 0:
        raise Skip()
    th = np.array([case['th'][i % len(case['th'])] for i in range(len(rho))])
    Gn = np.append(G, 0.0)[np.searchsorted(radii, rho)]
    T = turb.geom(s)[3]
    for z, f in ((0.0, 0.5), (3e4*R, 1.0), (-3e4*R, 0.0)):
        Q = np.array([rho*np.cos(th), rho*np.sin(th), np.zeros(len(rho))+z])
        u = turb.velocity(WT, turb.to_global(s, Q/R), only_ind=True, tang=False, longi=True, root=True)
        ul = T.T @ u
        ut = -ul[0]*np.sin(th)+ul[1]*np.cos(th)
        close(ut*2*PI*rho, -f*Gn, 2*tolG+1e-7*np.abs(G).max()*(1+nn), 'circulation around a circle at z=%g R', z/R)
        ur = ul[0]*np.cos(th)+ul[1]*np.sin(th)
        close(ul[2], 0*ut, 1e-7*np.abs(G).max()*(1+nn)/R, 'axial velocity of the longitudinal vorticity at z=%g R', z/R)
        close(ur, 0*ut, 1e-6*np.abs(G).max()*(1+nn)/R, 'radial velocity of the longitudinal vorticity at z=%g R', z/R)


fx = st.fixed_dictionaries
b = st.booleans()


def with_r(name, f, lo=1, hi=8, extra=None, small=True):
    return st.integers(lo, hi).flatmap(lambda n: fx(dict(r=turb.radii(n, n, small), **{name: st.one_of(st.lists(f, min_size=n, max_size=n), st.lists(f, min_size=n, max_size=n), f.map(lambda c: [c]*n))}, **(extra or {}))))


kv = gen.pick(0.8, 0.0, 0.5, other=st.one_of(gen.uni(0, 1), gen.uni(0, 0.7), gen.uni(0, 1.5)), p=0.3)
ctv = gen.pick(0.8, 0.0, 0.95, 1.0, other=st.one_of(gen.uni(0, 1), gen.uni(0, 1.5), gen.logu(-6, -1)), p=0.3)
lamv = gen.pick(6, 2.0, 10, 4.0, other=st.one_of(gen.uni(0.5, 19.9), gen.uni(3, 12)), p=0.3)
scl = gen.pick(1.0, 3.2808, 0.001, 2.0, other=gen.logu(-3, 3), p=0.3)
base = dict(R=turb.Rs, U=turb.Us, lam=lamv)
hl = lambda c: ['lam<3' if c['lam'] < 3 else 'lam>3', 'n=1' if len(c['r']) == 1 else 'n>1']
LAWS = [
    Law('discrete', with_r('c', kv, 1, 10, dict(base, nB=st.sampled_from([1, 1, 2, 3, 4, 5, 8]), high=st.sampled_from([True, True, False]), cyl=st.one_of(st.none(), gen.uni(0.01, 1)), tan=st.sampled_from([None, None, True, False]), sl=scl, su=scl)),
        chk_discrete, 3000, 50000, nontrivial=lambda c: any(c['c']), classify=lambda c: hl(c)+['nB=%d' % c['nB'], 'corr' if c['high'] else 'nocorr', 'r_cyl' if c['cyl'] is not None else 'default']),
    Law('continuous', with_r('c', kv, 1, 10, dict(base, high=st.sampled_from([True, True, False]), cq=st.one_of(st.none(), st.none(), st.lists(gen.uni(0, 0.2), min_size=1, max_size=4)), sl=scl, su=scl)),
        chk_continuous, 3000, 50000, nontrivial=lambda c: any(c['c']), classify=lambda c: hl(c)+['corr' if c['high'] else 'nocorr', 'Cq' if c['cq'] else 'no Cq']),
    Law('limit', fx(dict(R=turb.Rs, U=turb.Us, lam=gen.pick(6, 3.0, 10, other=gen.uni(1.5, 19.9)), c=gen.uni(0.05, 0.95), p=gen.pick(2, 3, other=gen.uni(2, 4)), q=gen.pick(1, 2, 1.5, other=gen.uni(1, 3)), grid=b)),
        chk_limit, 500, 8000, classify=lambda c: ['sine' if c['grid'] else 'uniform', 'lam<3' if c['lam'] < 3 else 'lam>3']),
    Law('thrust', with_r('ct', ctv, 1, 6, dict(base, r0=st.sampled_from([False, False, False, True]))), chk_thrust, 1200, 20000, nontrivial=lambda c: any(c['ct']), classify=lambda c: hl(c)+['axis' if c['r0'] else 'off axis']),
    Law('turbine_swirl', with_r('c', gen.uni(0, 0.9), 2, 6, dict(s=turb.states(st.none(), dwx=st.just(0.0)), lam=gen.pick(6, 3.0, other=gen.uni(1, 19.9)), lamctor=st.integers(0, 2), k=st.sampled_from(['gam', 'ct']), n=st.one_of(st.none(), st.integers(2, 7), st.integers(2, 30)), via=st.sampled_from(['ctor', 'update', 'setcoord']),
                                                                      rho=st.lists(gen.uni(0, 1), min_size=2, max_size=6), th=st.lists(gen.angle, min_size=1, max_size=3)), small=False),
        chk_turbine, 800, 12000, nontrivial=lambda c: any(c['c']), classify=lambda c: [c['k'], 'nCyl=None' if c['n'] is None else 'nCyl=n']),
]
