"""C18 ground effect = mirror image of the wake"""
import math
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VS

core.LAYOUT['per_case'] = True
RULE = 'cases draw turbines above, on or below the ground plane (through the global origin, normal to the vertical), frames, yaw, wind, loadings, models and points; a case counts when the hub is not on the plane and the loading is not zero'
ASSUMPTIONS = ['tangential vorticity only (the statement); points closer than 0.02 radii to the wake or its image are left out',
               'absolute reference: Biot-Savart quadrature of the wake and of its mirrored field']


def mirror(s, P):
    v = turb.geom(s)[0]
    return P-2*np.outer(v, v @ P)


def image_state(s):
    """ the turbine of the mirror image: same rotor at the mirrored hub (shaft and wind are horizontal) """
    h = mirror(s, turb.hub(s).reshape(3, 1)).ravel()/s['R']
    return dict(s, hub=h.tolist())


def place(s, case):
    """ points around the wake, around the image and on the ground (global) """
    R = s['R']
    A = turb.to_global(s, turb.wake_points(s, case['pts'])/R)
    v = turb.geom(s)[0]
    G = A-np.outer(v, v @ A)             # on the plane
    if case['where'] == 'plane':
        return G
    if case['where'] == 'image':
        return mirror(s, A)
    return np.concatenate((A, mirror(s, A), G), 1)


def okpts(s, P, kw, dmin=0.02):
    ok = np.ones(P.shape[1], bool); tol = 0.0
    sc = turb.scale_of(s)
    mod = kw.get('Model') or 'VC'
    for s1 in (s, image_state(s)):
        Q = turb.to_local(s1, P)
        d, dl, N = turb.sheet_dist(s1, Q)
        r = np.hypot(Q[0], Q[1])
        ok &= (d > dmin) & (N <= 180) & turb.clean(s, Q)
        R = s['R']
        n = np.sqrt((Q**2).sum(0))/R; rr = r/R
        if mod == 'VCFF':
            ok &= np.abs(n-kw.get('R_far_field', 6)) > 1e-6*n
        if mod in ('VD', 'VCFF'):
            ok &= (((rr > 0.05*n) | (Q[2] < 0)) & (np.abs(Q[2])/R > 1e-5)) | ((mod == 'VCFF') & (n < kw.get('R_far_field', 6)))
        if mod == 'VD':
            ok &= n > 0.05
        if mod == 'SS':
            ok &= (np.abs(Q[2])/R > 1e-6)
        tol = tol+2*turb.tol_field(s, Q, sc)
        if mod == 'VD':
            tol = tol+sc*(1e-8/np.maximum(n, 0.02)**4+1e-9/np.maximum(rr, 0.02)**3)
        ok &= dl >= 0
    # beyond the sheets far away from the axis, the two contributions cancel: conditioning of the closed forms
    return ok, tol


def state(case):
    s = case['s']
    if (case['kw'].get('Model') or 'VC') != 'VC':
        s = dict(s, dw=0.0)
    v = turb.axes0(s)[0]
    h = np.array(s['hub'], float)
    h = h-v*(v @ h)+v*case['h']
    return dict(s, hub=h.tolist())


def prep(case):
    s = state(case)
    kw = {k: x for k, x in case['kw'].items() if x is not None}
    P = place(s, case)
    ok, tol = okpts(s, P, kw)
    if not np.any(ok):
        raise Skip()
    P, tol = P[:, ok], tol[ok]
    tol = tol+turb.scale_of(s)*3e-11*(1+np.abs(P).max()/s['R'])
    return s, kw, P, tol


def evalg(s, P, kw, how, via, ground=True):
    """ velocity with ground effect, requested in one of the ways """
    kw = dict(kw)
    if how == 'ctor':
        WT = turb.make(s, via, Ground=ground)
    elif how == 'attr':
        WT = turb.make(s, via, Ground=not ground); WT.Ground = ground
    elif how == 'override':
        WT = turb.make(s, via, Ground=not ground); kw['ground'] = ground
    elif how == 'farm':
        WT = turb.make(s, via)
        F = WindFarm([WT])
        ind = kw.pop('only_ind', False)
        u = vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), ground=ground, **kw)
        return u+(0 if ind else turb.wind(s).reshape(3, 1))
    else:
        WT = turb.make(s, via); kw['ground'] = ground
    return turb.velocity(WT, P, **kw)


def chk_image(case):
    """ with ground = without ground + mirrored field of the mirrored point """
    s, kw, P, tol = prep(case)
    v = turb.geom(s)[0]
    WT = turb.make(s, case['via'])
    k0 = dict(kw, only_ind=True)
    u1 = turb.velocity(WT, P, **k0)
    u2 = mirror(s, turb.velocity(WT, mirror(s, P), **k0))
    ug = evalg(s, P, kw, case['how'], case['via'])
    w = 0 if kw.get('only_ind') else turb.wind(s).reshape(3, 1)
    close(ug-w, u1+u2, tol+1e-13*s['U'], 'induction with ground effect (requested by %s) against wake + mirrored wake %s', case['how'], kw)
    if case['how'] in ('ctor', 'override', 'attr'):
        close(evalg(s, P, kw, case['how'], case['via'], False)-w, u1, tol+1e-13*s['U'], 'ground effect switched off by %s', case['how'])
    # pair of turbines
    F = WindFarm([WT, turb.make(image_state(s), case['via'])])
    k1 = {k: x for k, x in kw.items() if k != 'only_ind'}
    uf = vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **k1)
    close(ug-w, uf, tol+1e-13*s['U'], 'induction with ground effect against a farm of the turbine and its image')


def chk_plane(case):
    s, kw, P, tol = prep(case)
    v = turb.geom(s)[0]
    ug = evalg(s, P, dict(kw, only_ind=True), case['how'], case['via'])
    on = np.abs(v @ P) < 1e-12*(1+np.abs(P).max())
    if np.any(on):
        close(v @ ug[:, on], np.zeros(on.sum()), tol[on], 'velocity through the ground')
    um = evalg(s, mirror(s, P), dict(kw, only_ind=True), case['how'], case['via'])
    close(um, mirror(s, ug), tol, 'mirror symmetry about the ground')
    if not np.any(on) and not np.any(ug):
        raise Skip()


def chk_reference(case):
    s, kw, P, tol = prep(case)
    k = np.ones(P.shape[1], bool)
    for X in (P, mirror(s, P)):
        Q = turb.to_local(s, X)
        g = np.zeros(P.shape[1], bool); g[turb.good(s, Q, line=False)] = True
        k &= g
    if not np.any(k):
        raise Skip()
    P, tol = P[:, k], tol[k]
    T = turb.geom(s)[3]
    u = T @ turb.ref_local(s, turb.to_local(s, P))+mirror(s, T @ turb.ref_local(s, turb.to_local(s, mirror(s, P))))
    ug = evalg(s, P, dict(only_ind=True), case['how'], case['via'])
    close(ug, u, tol+turb.scale_of(s)*1e-9, 'induction with ground effect against Biot-Savart quadrature of wake and image')


def chk_on_plane(case):
    """ hub on the ground: twice the induction; ground far away: no effect """
    case = dict(case, h=0.0)
    s, kw, P, tol = prep(case)
    WT = turb.make(s, case['via'])
    u = turb.velocity(WT, P, **dict(kw, only_ind=True))
    ug = evalg(s, P, dict(kw, only_ind=True), case['how'], case['via'])
    close(ug, 2*u, 2*tol, 'hub on the ground')
    c2 = dict(case, h=case['far'])
    s, kw, P, tol = prep(c2)
    h = case['far']
    d = np.abs(turb.to_local(s, mirror(s, P))[1])/s['R']
    k = d > abs(h)*0.5
    if not np.any(k):
        return
    u = turb.velocity(turb.make(s, case['via']), P[:, k], **dict(kw, only_ind=True))
    ug = evalg(s, P[:, k], dict(kw, only_ind=True), case['how'], case['via'])
    m = math.tan(s['dw'])
    close(ug, u, tol[k]+30*turb.scale_of(s)*(1+m*m)**1.5/h**2, 'ground %g radii away', h)


def chk_low(case):
    """ the routines for several wakes with Ground """
    n, k = case['n'], case['k']
    A = lambda x: np.array(x[:n*k], float).reshape(n, k)
    g, R, m = A(case['g']), A(case['R']), A(case['m'])
    X, Y, Z = (np.array(case[a][:n], float) for a in ('xc', 'yc', 'zc'))
    P = gen.XYZ(case['pts'])
    i = case['at'] % n
    P = P+np.array([[X[i]], [Y[i]], [Z[i]]])
    if case['img']:
        P[1] *= -1
    ok = np.ones(P.shape[1], bool)
    for a in range(n):
        for b in range(k):
            for y in (Y[a], -Y[a]):
                Q = P-np.array([[X[a]], [y], [Z[a]]])
                ok &= gen.d_sheet(Q, R[a, b], m[a, b] if case['skew'] else 0)*R[a, b] > 0.02
                r = np.hypot(Q[0], Q[1]); ok &= ((r == 0) | (r > 1e-4*R[a, b])) & (np.abs(r-R[a, b]) > 1e-4*R[a, b])
                if case['skew']:
                    ok &= gen.eta_tang(Q, R[a, b], m[a, b]) > 26/180
    if not np.any(ok):
        raise Skip()
    P = P[:, ok]
    S = np.array([[1.0], [-1], [1]])
    if case['skew']:
        f = lambda q, ground: vec(VS.svcs_tang_u, 3, q[0].shape, q[0].copy(), q[1].copy(), q[2].copy(), g, R, m, X, Y, Z, Ground=ground)
        one = lambda q, a, b: np.array(VS.svc_tang_u(q[0], q[1], q[2], g[a, b], R[a, b], m[a, b], polar_out=False))
    else:
        f = lambda q, ground: vec(VC.vcs_tang_u, 3, q[0].shape, q[0].copy(), q[1].copy(), q[2].copy(), g, R, X, Y, Z, Ground=ground)
        one = lambda q, a, b: np.array(VC.vc_tang_u(q[0], q[1], q[2], g[a, b], R[a, b], polar_out=False))
    sc = np.abs(g).sum()
    L = 1+np.abs(P).max()+max(np.abs(np.concatenate((X, Y, Z))))
    tol = sc*3e-10*L*L+1e-300
    ug = f(P, True)
    close(ug, f(P, False)+S*f(P*S, False), tol, 'several wakes with ground against wakes + mirrored wakes')
    want = np.zeros(P.shape)
    for a in range(n):
        c = np.array([[X[a]], [Y[a]], [Z[a]]])
        for b in range(k):
            if g[a, b] != 0:
                want += one(P-c, a, b)+S*one(P*S-c, a, b)
    close(ug, want, tol, 'several wakes with ground against the sum over wakes and mirrored wakes')


fx = st.fixed_dictionaries
b = st.booleans()
hh = gen.pick(1.0, 1.5, -1.0, 2.0, 0.0, 90/63.5, other=st.one_of(gen.uni(-3, 3), gen.uni(0.02, 4), gen.slogu(-3, 2.3)), p=0.4)
how = st.sampled_from(['ctor', 'attr', 'arg', 'override', 'farm'])
via = st.sampled_from(['ctor', 'update', 'setcoord'])
pts = gen.points(*turb.PTS, lo=1, hi=4)
where = st.sampled_from(['all', 'all', 'plane', 'image'])
vc = fx(dict(only_ind=b, Model=st.sampled_from([None, 'VC'])))
mods = st.one_of(fx(dict(only_ind=b, Model=st.just('VCFF'), R_far_field=gen.pick(6, other=gen.uni(1.5, 15)))), fx(dict(only_ind=b, Model=st.sampled_from(['VD', 'SS', 'VCFF', 'SS']))))


def cs(load, kw, **x):
    return fx(dict(s=turb.states(load), h=hh, kw=kw, how=how, via=via, pts=pts, where=where, **x))


nt = lambda c: c['h'] != 0 and any(c['s']['load']['c'])
cl = lambda c: [c['how'], c['kw'].get('Model') or 'VC', 'multi' if len(c['s']['load']['c']) > 1 and c['s']['load'].get('n', 1) != 1 else 'single', 'yawed' if c['s']['dw'] else 'aligned', c['where']]
few = lambda f: st.lists(f, min_size=9, max_size=9)
low = fx(dict(n=st.integers(1, 3), k=st.integers(1, 3), g=few(gen.pick(1.0, 0.0, -0.5, other=gen.uni0(2))), R=few(gen.uni(0.3, 2)), m=few(gen.pick(0.0, 0.3, -0.5, other=gen.uni0(1))), xc=few(gen.uni0(5)), yc=few(gen.pick(0, 1.5, other=gen.uni(-3, 4))), zc=few(gen.uni0(6)),
              pts=gen.points('generic', 'inside', 'outside', 'deep', 'up', 'grid', 'axis', 'plane', lo=1, hi=4), at=st.integers(0, 2), img=b, skew=b))
LAWS = [
    Law('image', cs(turb.load_any, vc), chk_image, 700, 10000, nontrivial=nt, classify=cl),
    Law('image_other_models', cs(turb.load_single, mods), chk_image, 700, 10000, nontrivial=nt, classify=cl),
    Law('no_flow_through_ground', cs(turb.load_any, vc), chk_plane, 500, 8000, nontrivial=nt, classify=cl),
    Law('no_flow_through_ground_other_models', cs(turb.load_single, mods), chk_plane, 500, 8000, nontrivial=nt, classify=cl),
    Law('reference', cs(turb.load_any, vc), chk_reference, 500, 8000, nontrivial=nt, classify=cl),
    Law('hub_on_ground_or_far', cs(turb.load_any, vc, far=gen.slogu(1.5, 3)), chk_on_plane, 300, 5000, nontrivial=lambda c: any(c['s']['load']['c']), classify=cl),
    Law('several_wakes', low, chk_low, 800, 12000, nontrivial=lambda c: any(c['yc'][:c['n']]), classify=lambda c: ['skewed' if c['skew'] else 'straight', '%d wakes' % c['n']]),
]
