"""C19 evaluation options select exactly what they document"""
import math
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call, refuses
import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
from wiz import VortexCylinder as VC, VortexDoublet as VD

core.LAYOUT['per_case'] = True
RULE = ('cases draw turbines (single and many tubes, with and without swirl, yawed and aligned), options and points, among them points on either side of every limit of the mask; '
        'a case counts when the loading is not zero')
ASSUMPTIONS = ['metamorphic: the options are compared with each other', 'points within 1e-9 radii of the limits of the mask (rounding of the frame) and points on the vorticity are left out']


def clear(s, P, dmin=1e-3):
    Q = turb.to_local(s, P)
    d, dl, N = turb.sheet_dist(s, Q)
    return (d > dmin) & (dl > dmin), Q


def points(s, case):
    """ around the wake and around the limits of the mask """
    R = s['R']
    Q = turb.wake_points(s, case['pts'])/R
    if case.get('lim'):
        L = np.array([[l['r']*math.cos(l['a']), l['r']*math.sin(l['a']), l['z']] for l in case['lim']]).T
        Q = np.concatenate((Q, L), 1)
    P = turb.to_global(s, Q)
    ok, Q = clear(s, P)
    r = np.hypot(Q[0], Q[1])/R
    ok &= (np.abs(r-1.001) > 5e-10) & (np.abs(Q[2]/R+0.6) > 5e-10)
    L = 1+np.abs(P).max(0)/R            # the limits are only as sharp as the coordinates
    ok &= (np.abs(r-1.001) > 1e-14*L) & (np.abs(Q[2]/R+0.6) > 1e-14*L)
    if not np.any(ok):
        raise Skip()
    return P[:, ok], Q[:, ok]


def state(case):
    s = case['s']
    if (case['kw'].get('Model') or 'VC') != 'VC':
        s = dict(s, dw=0.0)
    return s, {k: x for k, x in case['kw'].items() if x is not None}


def chk_stream(case):
    s, kw = state(case)
    P, Q = points(s, case)
    WT = turb.make(s, case['via'])
    a, b = turb.velocity(WT, P, **kw), turb.velocity(WT, P, only_ind=True, **kw)
    c = turb.velocity(WT, P, only_ind=False, **kw)
    w = turb.wind(s).reshape(3, 1)
    close(a, b+w, 1e-13*(s['U']+np.abs(b).max(0)), 'induction + free stream against the velocity %s', kw)
    close(c, a, 1e-14*(s['U']+np.abs(b).max(0)), 'only_ind=False is the default')
    sc = turb.scale_of(s)
    if s['load']['k'] == 'fun' and not any(s['load']['c']):
        require(not np.any(b), 'induction without loading')


def chk_components(case):
    s, kw = state(case)
    P, Q = points(s, case)
    WT = turb.make(s, case['via'])
    names = ('tang', 'longi', 'root')
    U = dict(only_ind=True, **kw)
    one = {}
    for n in names:
        one[n] = turb.velocity(WT, P, **dict(U, **{k: k == n for k in names}))
    z = turb.velocity(WT, P, **dict(U, tang=False, longi=False, root=False))
    require(not np.any(z), 'induction with all components switched off: %s', z.ravel()[:3])
    sc = sum(np.abs(one[n]).max(0) for n in names)
    for sel in case['sel']:
        u = turb.velocity(WT, P, **dict(U, **{k: bool(x) for k, x in zip(names, sel)}))
        want = sum((one[n] for n, x in zip(names, sel) if x), np.zeros(P.shape))
        close(u, want, 1e-12*sc+1e-300, 'components %s against the sum of each alone %s', dict(zip(names, sel)), kw)
    close(turb.velocity(WT, P, **U), one['tang'], 1e-14*sc, 'default components are the tangential vorticity')
    # which component is which: straight tubes
    radii, gt, gl, Gr = turb.tubes_of(s)
    if abs(s['dw']) < 1e-12 and not kw.get('ground') and not kw.get('no_wake'):
        T = turb.geom(s)[3]
        Q2 = turb.to_local(s, P)
        r = np.maximum(np.hypot(Q2[0], Q2[1]), 1e-300)
        er = T @ np.array([Q2[0]/r, Q2[1]/r, 0*r]); ep = T @ np.array([-Q2[1]/r, Q2[0]/r, 0*r]); ez = T[:, 2:3]
        g = sc.max()
        tol = 1e-9*(np.abs(gt).sum()+(np.abs(gl).sum() if gl is not None else 0)+(abs(float(np.ravel(Gr)[0]))/s['R'] if Gr is not None else 0))*(1+np.abs(P).max()/s['R'])/np.minimum(1, r/s['R'])
        close((one['tang']*ep).sum(0), np.zeros(P.shape[1]), tol, 'azimuthal velocity of the tangential vorticity')
        for n in ('longi', 'root'):
            close((one[n]*er).sum(0), np.zeros(P.shape[1]), tol, 'radial velocity of the %s vorticity', n)
            close((one[n]*ez).sum(0), np.zeros(P.shape[1]), tol, 'axial velocity of the %s vorticity', n)
        if gl is not None:
            # inside all tubes / outside: root and longitudinal vorticity
            Gl = np.concatenate([2*np.pi*radii*np.atleast_1d(gl)])
            enc = np.array([Gl[radii < x].sum() for x in r])
            zz = Q2[2]; deep = zz > 0
            n1 = (one['longi']*ep).sum(0); n2 = (one['root']*ep).sum(0)
            f = lambda G: G/(4*np.pi*r)*(1+zz/np.hypot(zz, r))
            close(n2, f(float(np.ravel(Gr)[0])), tol, 'swirl of the root vortex')


def chk_mask(case):
    s, kw = state(case)
    P, Q = points(s, case)
    WT = turb.make(s, case['via'])
    R = s['R']
    ins = (Q[2] > -0.6*R) & (np.hypot(Q[0], Q[1]) < 1.001*R)
    a = turb.velocity(WT, P, only_ind=True, **kw)
    b = turb.velocity(WT, P, only_ind=True, no_wake=True, **kw)
    require(not np.any(b[:, ins]), 'own wake masked, but induction %s inside the rotor tube at %s', b[:, ins].ravel()[:3], (Q[:, ins]/R).T[:3].tolist())
    close(b[:, ~ins], a[:, ~ins], 1e-13*np.abs(a[:, ~ins]).max(0)+1e-300 if np.any(~ins) else 1.0, 'induction outside of the mask changed by no_wake, at %s', (Q[:, ~ins]/R).T[:4].tolist())
    c = turb.velocity(WT, P, no_wake=True, **kw)
    close(c, b+turb.wind(s).reshape(3, 1), 1e-13*(s['U']+np.abs(b).max(0)), 'free stream with masked wake')
    d = turb.velocity(WT, P, only_ind=True, no_wake=False, **kw)
    close(d, a, 1e-14*np.abs(a).max(0)+1e-300, 'no_wake=False is the default')


def chk_farm_mask(case):
    """ in a farm each turbine masks its own wake only """
    ss, kw = case['ss'], {k: x for k, x in case['kw'].items() if x is not None}
    P = np.concatenate([turb.to_global(s, turb.wake_points(s, case['pts'])/s['R']) for s in ss], 1)
    ok = np.ones(P.shape[1], bool)
    for s in ss:
        k, Q = clear(s, P)
        r = np.hypot(Q[0], Q[1])/s['R']
        ok &= k & (np.abs(r-1.001) > 1e-6) & (np.abs(Q[2]/s['R']+0.6) > 1e-6)
    if not np.any(ok):
        raise Skip()
    P = P[:, ok]
    WTs = [turb.make(s, case['via']) for s in ss]
    want = 0; sc = 0
    for s, W in zip(ss, WTs):
        Q = turb.to_local(s, P)
        ins = (Q[2] > -0.6*s['R']) & (np.hypot(Q[0], Q[1]) < 1.001*s['R'])
        u = turb.velocity(W, P, only_ind=True, **kw)
        want = want+np.where(ins, 0.0, u); sc = sc+np.abs(u).max(0)
    F = WindFarm(WTs)
    got = vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), no_wake=True, **kw)
    close(got, want, 1e-12*sc+1e-300, 'farm with masked own wakes %s', kw)


def chk_dispatch(case):
    """ constructor, attribute and argument are interchangeable; the argument wins """
    s, kw = state(case)
    P, Q = points(s, case)
    mod = kw.pop('Model', 'VC'); gr = bool(kw.pop('ground', False))
    o = case['other']
    W0 = turb.make(s, case['via'], Model=mod, Ground=gr)
    W1 = turb.make(s, case['via'], Model=o, Ground=not gr)
    W2 = turb.make(s, case['via'])
    W2.Model = mod; W2.Ground = gr
    u0 = turb.velocity(W0, P, **kw)
    u1 = turb.velocity(W1, P, Model=mod, ground=gr, **kw)
    u2 = turb.velocity(W2, P, **kw)
    u3 = turb.velocity(turb.make(s, case['via']), P, Model=mod, ground=gr, **kw)
    sc = 1e-13*(np.abs(u0).max(0)+s['U'])
    close(u1, u0, sc, 'model %s, ground %s as arguments over other attributes against the constructor', mod, gr)
    close(u2, u0, sc, 'model %s, ground %s as attributes against the constructor', mod, gr)
    close(u3, u0, sc, 'model %s, ground %s as arguments against the constructor', mod, gr)
    require(W1.Model == o and W1.Ground == (not gr), 'attributes changed by the arguments of an evaluation')


def chk_models(case):
    """ what the models are: VC = full cylinder, VD = doublet line of the same strength, VCFF = VC up to R_far_field, VD beyond """
    s, kw = state(dict(case, kw=dict(case['kw'], Model='VD')))
    P, Q = points(s, case)
    R = s['R']
    WT = turb.make(s, case['via'])
    rf = case['rf']
    n = np.sqrt((Q**2).sum(0))/R
    ok = (np.abs(n-(6 if rf is None else rf)) > 1e-6*n) & (np.abs(Q[2])/R > 1e-5) & ((np.hypot(Q[0], Q[1]) > 0.05*n*R) | (Q[2] < 0)) & (n > 0.05) & turb.clean(s, Q)
    if not np.any(ok):
        raise Skip()
    P, Q, n = P[:, ok], Q[:, ok], n[ok]
    f = lambda m, **k: turb.velocity(WT, P, Model=m, only_ind=True, **k)
    vc, vd = f('VC'), f('VD')
    ff = f('VCFF') if rf is None else f('VCFF', R_far_field=rf)
    g = float(turb.tubes_of(s)[1][0])
    far = n > (6 if rf is None else rf)
    sc = abs(g)*(1e-10+1e-11*(1+np.abs(P).max()/R))
    close(ff[:, ~far], vc[:, ~far], sc, 'far-field model within its cut-off against the cylinder')
    close(ff[:, far], vd[:, far], sc*10, 'far-field model beyond its cut-off against the doublet line')
    T = turb.geom(s)[3]
    want = T @ np.array(VC.vc_tang_u(Q[0], Q[1], Q[2], gamma_t=g, R=R, polar_out=False))
    d = np.minimum(1, np.minimum(*turb.sheet_dist(s, Q)[:2]))
    close(vc, want, abs(g)*2e-9*(1+np.abs(P).max()/R)/d**2, 'model VC against the cylinder')
    nn = np.maximum(n, 0.02); rr = np.maximum(np.hypot(Q[0], Q[1])/R, 0.02)
    w = np.array(VD.doublet_line_u(Q[0], Q[1], Q[2], dmz_dz=g*np.pi*R**2))
    close(vd, T @ w, abs(g)*(1e-8/nn**4+1e-9/rr**3), 'model VD against the doublet line')
    ss = f('SS')
    sz = T[:, 2] @ ss
    up = Q[2] < -1e-6*R
    if np.any(up):
        xi = Q[2, up]/R
        eps = np.hypot(Q[0, up], Q[1, up])/R
        # on the axis the self-similar model is the axial induction of the cylinder
        ax = eps < 1e-9
        if np.any(ax):
            close(sz[up][ax], g/2*(1+xi[ax]/np.sqrt(1+xi[ax]**2)), abs(g)*1e-6, 'model SS on the axis')
        require(np.all(np.abs(sz[up]) <= abs(g)/2*(1+xi/np.sqrt(1+xi**2))+abs(g)*1e-9), 'model SS exceeds its value on the axis')
    close(ss-np.outer(T[:, 2], sz), np.zeros(ss.shape), abs(g)*1e-12, 'model SS is axial')


def chk_refused(case):
    s = dict(case['s'])
    k = case['what']
    if not np.all(turb.tubes_of(s)[1]):
        raise Skip()            # no wake, nothing to evaluate with the model
    P = turb.to_global(s, np.array([[0.3, 1.4], [0.1, 0.2], [-1.0, 2.0]]))
    ev = lambda W, **kw: W.compute_u(P[0].copy(), P[1].copy(), P[2].copy(), **kw)
    mod = case['mod']

    def must(W, what, **kw):
        if case['attr'] and 'Model' in kw:
            W.Model = kw.pop('Model')
        if case['farm']:
            F = WindFarm([W])
            ok = refuses(lambda: F.velocity_field(P[0].copy(), P[1].copy(), P[2].copy(), **kw))
        else:
            ok = refuses(ev, W, **kw)
        require(ok, '%s is not refused (%s)', what, kw)
    if k == 'yaw':
        if abs(s['dw']) < 1e-6:
            s['dw'] = 0.3
        must(turb.make(s, case['via']), 'model %s of a yawed turbine' % mod, Model=mod, **({'ground': True} if case['ground'] else {}))
    elif k == 'chi':
        s['dw'] = 0.0
        W = turb.make(s, case['via']); W.set_chi(0.25)
        must(W, 'model %s with a prescribed skew' % mod, Model=mod)
    elif k == 'multi':
        s['load'] = case['multi']
        must(turb.make(s, case['via']), 'model %s with several tubes' % mod, Model=mod)
    elif k == 'longi':
        s['dw'] = 0.0; s['load'] = case['swirl']
        must(turb.make(s, case['via']), 'longitudinal vorticity with model %s' % mod, Model=mod, longi=True, tang=bool(case['ground']))
    elif k == 'unknown':
        must(turb.make(s, case['via']), 'unknown model', Model=case['name'])
    elif k == 'unknown_multi':
        s['load'] = case['multi']
        must(turb.make(s, case['via']), 'unknown model', Model=case['name'])
    elif k == 'noload':
        must(turb.make(dict(s, load=None), case['via']), 'evaluation without a loading', **({'Model': mod} if case['ground'] else {}))
    elif k == 'loading':
        W = turb.make(s, case['via'])
        g = np.array(W.gamma_t)
        for kw in (dict(), dict(nCyl=3), dict(nCyl=None), dict(gamma_t_Ct=lambda c: -c), dict(gamma_t_Ct=lambda c: -c, Gamma=3.0), dict(Lambda=6)):
            require(refuses(W.update_loading, **kw), 'update_loading(%s) without thrust or circulation is not refused', sorted(kw))
            require(np.array_equal(g, np.array(W.gamma_t)), 'refused loading changes the wake')
        W.Lambda = None
        require(refuses(W.update_loading, Ct=0.5), 'loading without a tip-speed ratio is not refused')
        call(W.update_loading, Ct=0.5, Lambda=7)


fx = st.fixed_dictionaries
b = st.booleans()
via = st.sampled_from(['ctor', 'update', 'setcoord'])
pts = gen.points(*turb.PTS, lo=1, hi=4)
zs = st.one_of(gen.slogu(-9, -1).map(lambda e: -0.6+e), gen.uni(-3, 5), gen.pick(-1.0, 0.0, -0.55, -0.65, -0.7, -0.5, other=gen.uni(-1, 0.2)))
rs = st.one_of(gen.slogu(-9, -2).map(lambda e: 1.001+e), gen.uni(0, 2), gen.pick(0.0, 1.01, 0.99, 1.0005, 1.002, other=gen.uni(0.9, 1.1)))
lim = st.lists(fx(dict(r=rs, z=zs, a=gen.angle)), min_size=2, max_size=8)
gro = st.sampled_from([None, None, False, True])
vc = st.one_of(st.just({}), fx(dict(ground=gro, Model=st.sampled_from([None, 'VC']))))
mods = fx(dict(Model=st.sampled_from(['VCFF', 'VD', 'SS']), ground=gro))
comp = fx(dict(tang=b, longi=b, root=b, ground=gro))
SEL = [[1, 1, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1]]


def cs(load, kw, **x):
    return fx(dict(s=turb.states(load), kw=kw, via=via, pts=pts, **x))


nt = lambda c: any(any(s['load']['c']) for s in (c.get('ss') or [c['s']]))
cl = lambda c: [c['kw'].get('Model') or 'VC', 'ground' if c['kw'].get('ground') else 'free', c['s']['load']['k'], 'yawed' if c['s']['dw'] else 'aligned']
K = dict(nontrivial=nt, classify=cl)
LAWS = [
    Law('free_stream', cs(turb.load_any, st.one_of(vc, comp)), chk_stream, 400, 8000, **K),
    Law('free_stream_models', cs(turb.load_single, mods), chk_stream, 300, 6000, **K),
    Law('components', cs(turb.load_swirl, fx(dict(ground=gro, no_wake=st.sampled_from([None, None, True]))), sel=st.lists(st.sampled_from(SEL), min_size=1, max_size=2)), chk_components, 500, 8000, **K),
    Law('mask', cs(turb.load_any, st.one_of(vc, comp), lim=lim), chk_mask, 700, 10000, **K),
    Law('mask_models', cs(turb.load_single, mods, lim=lim), chk_mask, 500, 8000, **K),
    Law('mask_in_farm', fx(dict(ss=st.lists(turb.states(), min_size=2, max_size=3), kw=vc, via=via, pts=pts)), chk_farm_mask, 300, 5000, nontrivial=nt),
    Law('interchangeable', cs(turb.load_any, st.one_of(vc, comp), other=st.sampled_from(['VCFF', 'VD', 'SS', 'XX', None])), chk_dispatch, 250, 5000, **K),
    Law('interchangeable_models', cs(turb.load_single, mods, other=st.sampled_from(['VC', 'VD', 'SS', 'XX', None])), chk_dispatch, 250, 5000, **K),
    Law('models', cs(turb.load_single, st.just({}), lim=lim, rf=gen.pick(None, None, 3, other=gen.uni(1.2, 12))), chk_models, 500, 8000, **K),
    Law('refused', fx(dict(s=turb.states(turb.load_single), via=via, what=st.sampled_from(['yaw', 'chi', 'multi', 'longi', 'unknown', 'unknown_multi', 'noload', 'loading']), mod=st.sampled_from(['VCFF', 'VD', 'SS']), attr=b, farm=b, ground=b,
                           multi=turb.load_ctN.filter(lambda l: all(l['c'])), swirl=turb.load_ct1.map(lambda l: dict(l, lam=6, c=[max(0.2, l['c'][0])])), name=st.sampled_from(['vc', 'X', '', 'VCF', 'Doublet']))),
        chk_refused, 500, 5000, nontrivial=lambda c: all(c['s']['load']['c']), classify=lambda c: [c['what']]),
]
