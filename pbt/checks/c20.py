"""C20 wake strength from thrust follows momentum theory"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz import Solver

RULE = ('cases draw thrust distributions (uniform, varying, zero, beyond the critical thrust, rounding neighbours of it), radii, wind speeds, rotation speeds, blade numbers, options; '
        'a case counts when some thrust is not zero')
ASSUMPTIONS = ['no swirl: tip-speed ratio above 20.01 or infinite (the code decides at 20)', 'points within 1e-2 radii of the tubes are left out of the comparisons of velocities']

AC = 0.34
CTC = 4*AC*(1-AC)


def a_of(Ct, high=True):
    """ momentum theory, with the high-thrust line beyond the critical thrust """
    Ct = np.asarray(Ct, float)
    a = 0.5*(1-np.sqrt(np.maximum(0, 1-Ct)))
    return np.where(Ct > CTC, (Ct-4*AC**2)/(4*(1-2*AC)), a) if high else a


def tol_a(Ct):
    """ rounding of Ct amplified by the slope of a """
    Ct = np.asarray(Ct, float)
    return 1e-13+1e-14*np.abs(Ct)/np.sqrt(np.maximum(np.abs(1-Ct), 1e-14))


def radii_of(case):
    r = np.array(case['r'], float)
    if case.get('r0'):
        r = r-r[0]
    return r*case['R']


def judge(gt, gl, Gr, misc, Ct, U, high=True, what=''):
    n = len(Ct)
    a = a_of(Ct, high)
    gt = np.asarray(gt)
    require(gt.shape == (n,), '%s: %s sheet strengths for %d radii', what, gt.shape, n)
    S = np.cumsum(gt[::-1])[::-1]
    close(S/(-2*U), a, tol_a(Ct)*(1+n), '%s: axial induction of the sum of the outer sheets', what)
    close(np.asarray(misc['a'], float), a, tol_a(Ct)*(1+n), '%s: reported axial induction', what)
    close(np.zeros(n)+np.asarray(misc['a_prime'], float), np.zeros(n), 0, '%s: tangential induction without swirl', what)
    for x, nm in ((gl, 'longitudinal vorticity'), (Gr, 'root vortex')):
        require(x is None or not np.any(np.asarray(x, float)), '%s: %s %s without swirl', what, nm, x)


def frozen(*arrs):
    return [(x, x.copy()) for x in arrs]


def unchanged(fr, what):
    for x, y in fr:
        require(x.shape == y.shape and np.array_equal(x, y), '%s modified the arrays of the caller', what)


def chk_ct(case):
    R, U = case['R'], case['U']
    r = radii_of(case); Ct = np.array(case['ct'])
    Om = np.inf if case['lam'] is None else case['lam']*U/R
    fr = frozen(r, Ct)
    gt, gl, Gr, misc = call(Solver.WakeVorticityFromCt, r, Ct, R, U, Om)
    unchanged(fr, 'WakeVorticityFromCt')
    judge(gt, gl, Gr, misc, Ct, U, True, 'wake of a thrust')
    # at infinite rotation speed as at large one, scaled with the speed, whatever the unit of length
    la, lb = case['sl'], case['su']
    Om2 = np.inf if case['lam'] is None else Om*lb/la
    gt2, gl2, Gr2, misc2 = call(Solver.WakeVorticityFromCt, r*la, Ct, R*la, U*lb, Om2)
    g = np.asarray(gt, float)
    close(np.asarray(gt2, float), g*lb, lb*U*1e-12*(1+len(Ct))+lb*U*4*tol_a(Ct).max()*(1+len(Ct)), 'sheet strengths in other units')
    if case['lam'] is not None:
        k = call(Solver.CirculationFromPrescribedCt, r/R, Ct, case['lam'], False)
        close(np.asarray(k, float), Ct, 1e-14*np.abs(Ct), 'circulation of a thrust without swirl')
        close(np.asarray(misc['Gamma_cp'], float), Ct*math.pi*U**2/Om, 1e-12*(np.abs(Ct)*math.pi*U**2/Om), 'reported circulation')
        gt3, gl3, Gr3, misc3 = call(Solver.WakeVorticityFromGamma, r, Ct*math.pi*U**2/Om, R, U, Om)
        judge(gt3, gl3, Gr3, misc3, Ct, U, True, 'wake of a circulation')


def chk_direct(case):
    R, U, nB, high = case['R'], case['U'], case['nB'], case['high']
    Om = case['lam']*U/R
    r = radii_of(case); Ct = np.array(case['ct'], float)
    if not high:
        Ct = np.minimum(Ct, 0.999)
    G = Ct*math.pi*U**2/Om
    kw = {}
    if case['cyl'] is not None:
        d = np.diff(np.append(r, r[-1]+(r[-1]-(r[-2] if len(r) > 1 else 0))))
        kw['r_cyl'] = r+case['cyl']*d
        if kw['r_cyl'][0] == 0:
            raise Skip()
    if not high:
        kw['bHighThrustCorr'] = False
    if case['tan'] is not None:
        kw['bTanInd_k'] = case['tan']
    Gb = G/nB
    fr = frozen(r, Gb, *[x for x in kw.values() if isinstance(x, np.ndarray)])
    gt, gl, Gr, misc = call(Solver.WakeVorticityFromCirculation_Discr, r, Gb, R, U, Om, nB, False, **kw)
    unchanged(fr, 'WakeVorticityFromCirculation_Discr')
    judge(gt, gl, Gr, misc, Ct, U, high, 'discrete formulation (%s)' % sorted(kw))
    # continuous formulation
    Cc = np.minimum(Ct, 0.999)
    k = Cc.copy(); vr = r/R; lr = vr*case['lam']
    if lr[0] == 0 and len(lr) < 2:
        raise Skip()
    fr = frozen(vr, k, lr)
    kw = {} if high else dict(bHighThrustCorr=False)
    a, ap, mc = call(Solver.InductionsFromCirculation_VC_Cont, vr, lr, k, False, **kw)
    unchanged(fr, 'InductionsFromCirculation_VC_Cont')
    close(np.asarray(a, float), a_of(Cc, high), tol_a(Cc)*4, 'continuous formulation: axial induction')
    close(np.zeros(len(k))+np.asarray(ap, float), np.zeros(len(k)), 0, 'continuous formulation: tangential induction without swirl')
    Gc = Cc*math.pi*U**2/Om
    fr = frozen(r, Gc)
    gtc, glc, Grc, mc = call(Solver.WakeVorticityFromCirculation_Cont, r, Gc, R, U, Om, False, **kw)
    unchanged(fr, 'WakeVorticityFromCirculation_Cont')
    require(not np.any(np.asarray(glc, float)) and not np.any(np.asarray(Grc, float)), 'continuous formulation: swirl %s %s', glc, Grc)
    aw = a_of(Cc, high)
    close(np.asarray(mc['a'], float), aw, tol_a(Cc)*4, 'continuous formulation: reported axial induction')
    # the sheets of both formulations differ by the variation of the convection velocity over one interval
    s = 1-2*aw; s2 = np.append(s[1:], 1.0); dk = np.diff(np.append(Cc, 0.0))
    ds = -2*np.diff(np.append(aw, 0.0))          # discrete strengths over U
    lim = 1.5*np.abs(dk/(2*s)-ds)+1e-9*(1+np.abs(dk))/np.maximum(s, 1e-3)**2
    close(np.asarray(gtc, float)/U, ds, lim, 'continuous formulation: sheet strengths against the discrete ones')


def chk_monotone(case):
    """ thrusts in increasing order, neighbours of the critical one included """
    R, U = case['R'], case['U']
    r = np.array(case['r'])*R
    c = np.sort(np.array(case['cs'], float))
    Om = np.inf if case['lam'] is None else case['lam']*U/R
    prev = None
    base = np.array(case['ct'], float)
    for x, y in zip(np.append(c[:1], c[:-1]), c):
        Ct = base*y if case['shape'] else np.full(len(r), y)
        gt, gl, Gr, misc = call(Solver.WakeVorticityFromCt, r, Ct, R, U, Om)
        S = -np.cumsum(np.asarray(gt, float)[::-1])[::-1]/(2*U)
        if prev is not None:
            require(np.all(S >= prev-1e-12), 'axial induction decreases from %s to %s when the thrust increases from %.17g to %.17g', prev, S, x, y)
            # the slope of a(Ct) is below 1/(4 (1-2 ac)) and continuous
            require(np.all(S-prev <= (y-x)*np.abs(base if case['shape'] else 1)/(4*(1-2*AC))*(1+1e-9)+1e-12), 'axial induction jumps from %s to %s when the thrust goes from %.17g to %.17g', prev, S, x, y)
        prev = S
    if c[0] == 0:
        gt = call(Solver.WakeVorticityFromCt, r, np.zeros(len(r)), R, U, Om)[0]
        require(not np.any(np.asarray(gt, float)), 'wake of a zero thrust: %s', gt)


def chk_turbine(case):
    """ turbine in aligned wind: deficit aU just behind the rotor, twice that in the far wake """
    s = case['s']
    R, U = s['R'], s['U']
    n = case['n']
    r = np.array(case['r'], float)*R
    Ct = np.array(case['ct'], float)
    kw = {}
    if n == 1:
        val = float(Ct.mean()); radii = np.array([R]); C = np.array([val])
        if case['pass']:
            kw['nCyl'] = 1
        if case['how'] == 0:
            kw['Ct'] = val
        elif case['how'] == 1:
            kw['Ct'] = Ct.copy()
        else:
            kw['Ct'] = Ct.copy(); kw['r'] = r.copy()
    elif n is None:
        if len(r) < 2:
            raise Skip()
        radii, C = r, Ct
        kw.update(r=r.copy(), Ct=Ct.copy(), nCyl=None)
    else:
        radii = np.linspace(0.005, 0.995, n)*R
        C = np.interp(radii, r, Ct)
        kw.update(r=r.copy(), Ct=Ct.copy(), nCyl=n)
    lam = case['lam']
    WT = turb.make(s, case['via'], Lambda=np.inf if (case['lamctor'] == 0 or lam is None) else lam)
    if lam is not None and case['lamctor'] == 0:
        kw['Lambda'] = lam
    elif case['lamctor'] == 2:
        kw['Lambda'] = np.inf if lam is None else lam
    fr = frozen(*[v for v in kw.values() if isinstance(v, np.ndarray)])
    call(WT.update_loading, **kw)
    unchanged(fr, 'update_loading')
    gt = np.atleast_1d(np.asarray(WT.gamma_t, float))
    S = np.cumsum(gt[::-1])[::-1]
    a = a_of(C)
    close(-S/(2*U), a, tol_a(C)*(1+len(C)), 'axial induction from the sheets of the turbine')
    if s['dw']:
        return                  # skewed wake: strengths only
    # velocities
    rho = np.array(case['rho'])*1.2*R
    rho = rho[np.min(np.abs(rho[:, None]-radii[None, :]), 1) > 1e-2*R]
    rho = rho[(rho > 1e-3*radii.min())]
    rho = np.append(rho, 0.0)
    th = np.array([case['th'][i % len(case['th'])] for i in range(len(rho))])
    aw = np.append(a, 0.0)[np.searchsorted(radii, rho)]
    sh = turb.geom(s)[2]
    sc = np.abs(gt).sum()
    for z, f in ((0.0, 1.0), (case['z'], None), (3e4*R, 2.0), (-3e4*R, 0.0)):
        Q = np.array([rho*np.cos(th), rho*np.sin(th), np.zeros(len(rho))+z])
        P = turb.to_global(s, Q/R)
        u = turb.velocity(WT, P, only_ind=True)
        uz = sh @ u
        if f is None:
            continue
        # far field: solid angle (R/z)^2
        close(uz, -f*U*aw, sc*(2e-9+(0 if z == 0 else 1e-8)), 'axial velocity at z=%g R', z/R)
        if f:
            w = turb.velocity(WT, P)
            close(sh @ w, U*(1-f*aw), sc*2e-8+U*1e-12, 'total axial velocity at z=%g R', z/R)


def chk_defs(case):
    r = np.array(case['r'], float); CT0 = case['c0']; cut = case['cut']; tip = case['tip']
    kw = {} if tip is None else dict(r_bar_tip=tip)
    fr = frozen(r)
    Ct = call(Solver.Ct_const_cutoff, CT0, cut, r, **kw)
    unchanged(fr, 'Ct_const_cutoff')
    if tip is not None and tip < cut:
        raise Skip()
    want = np.where(r < cut, CT0*r/cut if cut > 0 else CT0, CT0)
    if tip is not None and tip < 1:
        want = np.where(r > tip, CT0*(1-r)/(1-tip), want)
    close(np.asarray(Ct, float), want, 1e-12*abs(CT0)/(1-(tip if tip is not None and tip < 1 else 0))+1e-300, 'cut-off profile')
    # stream tubes
    c = np.array(case['ct'], float)[:len(r)]
    r = r[:len(c)]; r = np.where(r < 1e-3, 0.5, r)
    cq = np.array(case['cq'])[:len(c)]
    lam = case['lam']
    fr = frozen(r, c, cq)
    a, ap = call(Solver.InductionsFromPrescribedCtCq_ST, r, c, cq, lam, True)
    unchanged(fr, 'InductionsFromPrescribedCtCq_ST')
    a = np.asarray(a, float); ap = np.asarray(ap, float)
    close(4*a*(1-a), c, 1e-13, 'thrust of the stream tube')
    require(np.all(a <= 0.5+1e-12) and np.all(a >= -1e-15), 'stream-tube induction %s out of [0,1/2]', a)
    close(4*ap*(1-a)*lam*r, cq, 1e-12*np.abs(cq)+1e-300, 'torque of the stream tube')
    a2, ap2 = call(Solver.InductionsFromPrescribedCtCq_ST, r, c, cq, lam, False)
    close(np.asarray(a2, float), a, 1e-14, 'stream-tube induction with and without swirl')
    close(np.zeros(len(c))+np.asarray(ap2, float), np.zeros(len(c)), 0, 'stream-tube swirl when there is none')
    # same axial induction from the vortex tubes
    m = c < CTC
    if np.any(m):
        rr = np.sort(r)[:m.sum()]
        rr = rr+np.arange(len(rr))*1e-3
        g = np.asarray(call(Solver.WakeVorticityFromCt, rr, c[m], 1.0, 1.0, np.inf)[0], float)
        close(-np.cumsum(g[::-1])[::-1]/2, a[m], tol_a(c[m])*(2+len(c)), 'vortex tubes against stream tubes')


fx = st.fixed_dictionaries
b = st.booleans()
ctv = gen.pick(0.8, 0.0, 1.0, 0.4, CTC, 0.8975, 0.898, 1.2, other=st.one_of(gen.uni(0, 1.5), gen.uni(0, 0.897), gen.slogu(-9, -1).map(lambda d: CTC+d*0.5), gen.logu(-8, -1), gen.slogu(-9, -2).map(lambda d: 1+d)), p=0.3)


def with_r(f, lo=1, hi=8, extra=None, small=True):
    """ radii (fractions) and as many thrusts """
    return st.integers(lo, hi).flatmap(lambda n: fx(dict(r=turb.radii(n, n, small),
                                                         ct=st.one_of(st.lists(f, min_size=n, max_size=n), st.lists(f, min_size=n, max_size=n), f.map(lambda c: [c]*n)), **(extra or {}))))


lamv = st.one_of(st.none(), gen.pick(25, 50.0, 20.02, 1e3, other=gen.logu(1.302, 4), p=0.4))
lamf = gen.pick(25, 50.0, 8.0, 2, other=gen.logu(0, 3), p=0.4)
scl = gen.pick(1.0, 3.2808, 0.001, 2.0, other=gen.logu(-3, 3), p=0.4)
LAWS = [
    Law('thrust', with_r(ctv, 1, 10, dict(R=turb.Rs, U=turb.Us, lam=lamv, sl=scl, su=scl, r0=st.sampled_from([False, False, False, True]))), lambda c: chk_ct(c) if not (c['r0'] and len(c['r']) < 2) else (_ for _ in ()).throw(Skip()),
        2500, 40000, nontrivial=lambda c: any(c['ct']), classify=lambda c: ['high' if max(c['ct']) > CTC else 'low', 'infinite' if c['lam'] is None else 'finite', 'n=1' if len(c['r']) == 1 else 'n>1']),
    Law('formulations', with_r(ctv, 1, 8, dict(R=turb.Rs, U=turb.Us, lam=lamf, nB=st.sampled_from([1, 1, 2, 3, 4, 7]), high=b, cyl=st.one_of(st.none(), gen.uni(0.01, 1)), tan=st.sampled_from([None, True, False]), r0=st.sampled_from([False, False, False, True]))),
        chk_direct, 2500, 40000, nontrivial=lambda c: any(c['ct']), classify=lambda c: ['high' if max(c['ct']) > CTC else 'low', 'nB=%d' % c['nB'], 'corr' if c['high'] else 'nocorr', 'r_cyl' if c['cyl'] is not None else 'default']),
    Law('monotone', with_r(gen.uni(0, 1), 1, 4, dict(R=turb.Rs, U=turb.Us, lam=lamv, shape=b, cs=st.lists(ctv, min_size=2, max_size=8))),
        chk_monotone, 800, 10000, nontrivial=lambda c: any(c['cs']), classify=lambda c: ['across' if min(c['cs']) < CTC < max(c['cs']) else 'one side']),
    Law('turbine', with_r(ctv, 1, 6, dict(s=turb.states(st.none(), dwx=gen.pick(0.0, 0.0, other=turb.dw, p=0.7)), lam=lamv, lamctor=st.integers(0, 2), n=st.one_of(st.just(1), st.none(), st.integers(2, 8), st.integers(2, 30)), how=st.integers(0, 2), via=st.sampled_from(['ctor', 'update', 'setcoord']),
                                          rho=st.lists(gen.uni(0, 1), min_size=1, max_size=6), th=st.lists(gen.angle, min_size=1, max_size=3), z=gen.uni(-2, 5), **{'pass': b}), small=False),
        chk_turbine, 1200, 20000, nontrivial=lambda c: any(c['ct']), classify=lambda c: ['nCyl=%s' % (c['n'] if c['n'] in (None, 1) else 'n'), 'high' if max(c['ct']) > CTC else 'low']),
    Law('definitions', fx(dict(r=st.lists(gen.pick(0.0, 1.0, 0.5, other=gen.uni(0, 1), p=0.3), min_size=1, max_size=8), c0=gen.pick(0.95, 0.8, 0, 1, other=gen.uni(0, 1.5)), cut=gen.pick(0.11, 0.0, 0.5, other=gen.uni(0, 0.6)), tip=st.one_of(st.none(), gen.pick(0.9, 1.0, 0.7, other=gen.uni(0.6, 1))),
                               ct=st.lists(gen.pick(0.8, 0.0, 1.0, other=gen.uni(0, 1)), min_size=1, max_size=8), cq=st.lists(gen.uni(0, 0.3), min_size=8, max_size=8), lam=gen.pick(6, 1, other=gen.uni(0.5, 20)))),
        chk_defs, 1500, 20000, nontrivial=lambda c: any(c['ct']) and len(c['r']) > 1, classify=lambda c: ['tip' if c['tip'] is not None else 'root only']),
]
