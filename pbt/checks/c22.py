"""C22 a farm is the sum of its turbines, wherever its layout puts them"""
import math
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call, refuses
import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm, gridLayout, windfarm_gridlayout_CTconst
from wiz import VortexCylinder as VC

core.LAYOUT['per_case'] = True
RULE = ('cases draw farms (0-5 turbines, every way of assembling them, histories of appends, layout reads and writes, refused writes), free streams, options, grids; '
        'a case counts when at least two turbines are in the farm or the grid')
ASSUMPTIONS = ['the sum over turbines uses the field of a single turbine (C15) or of a single cylinder (C01)', 'points within 1e-3 radii of the vorticity are left out of comparisons between different routines']


def grid_points(case, ss):
    Q = gen.XYZ(case['pts'])
    P = np.concatenate([Q*s['R']+turb.hub(s).reshape(3, 1) for s in ss] or [Q], 1)
    return P


def shape_it(P, k):
    """ points as 1-d, 2-d or 3-d arrays """
    if k == 1:
        return P.reshape(3, 1, -1)
    if k == 2:
        return P.reshape(3, -1, 1, 1)
    return P


def total(ss, P, kw, U0, via):
    """ sum of the inductions of newly created turbines """
    u = np.zeros(P.shape)
    sc = 0.0
    for s in ss:
        x = turb.velocity(turb.make(s, via), P, only_ind=True, **kw)
        u = u+x; sc = sc+np.abs(x)
    if U0 is not None:
        u = u+np.array(U0, float).ravel().reshape((3,)+(1,)*(P.ndim-1))
        sc = sc+np.abs(U0).max()
    return u, sc


def build(WTs, how):
    if how == 'list':
        return WindFarm(list(WTs))
    if how == 'named':
        return WindFarm(WTs=list(WTs), name='farm')
    if how == 'tuple':
        return WindFarm(tuple(WTs))
    if how == 'append':
        F = WindFarm(name='a')
        for W in WTs:
            call(F.append, W)
        return F
    F = WindFarm(list(WTs[:1]))
    for W in WTs[1:]:
        call(F.append, W)
    return F


def vfield(F, P, **kw):
    return vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **kw)


def chk_sum(case):
    ss = case['ss']
    kw = {k: x for k, x in case['kw'].items() if x is not None}
    if kw.get('Model', 'VC') != 'VC':
        ss = [dict(s, dw=0.0, load=case['single'][i % len(case['single'])]) for i, s in enumerate(ss)]
    P = shape_it(grid_points(case, ss), case['shape'])
    WTs = [turb.make(s, case['via']) for s in ss]
    F = build(WTs, case['how'])
    U0 = case['U0']
    g = {}
    if U0 is not None:
        g['U0'] = U0 if case['uform'] == 0 else np.array(U0) if case['uform'] == 1 else tuple(U0)
    want, sc = total(ss, P, kw, U0, case['via'])
    ok = np.isfinite(want).all(0) & (np.abs(want).max(0) < 1e6*(1+max([s['U'] for s in ss] or [1])))
    if not np.any(ok):
        raise Skip()
    got = vfield(F, P, **g, **kw)
    close(got[:, ok], want[:, ok], 1e-12*(sc[:, ok] if np.ndim(sc) else 1.0)+1e-300, 'farm of %d turbines (assembled by %s, options %s) against the sum of the turbines', len(ss), case['how'], kw)
    p = list(WTs); p = [p[i] for i in np.argsort([case['perm'][i % len(case['perm'])]+1e-6*i for i in range(len(p))])]
    got2 = vfield(build(p, 'list'), P, **g, **kw)
    close(got2[:, ok], want[:, ok], 1e-11*(sc[:, ok] if np.ndim(sc) else 1.0)+1e-300, 'farm in another order')
    require(len(F) == len(ss) and F.nWT == len(ss), 'number of turbines %s instead of %d', F.nWT, len(ss))
    lay = np.asarray(F.layout, float)
    close(lay, np.array([turb.hub(s) for s in ss]).reshape(len(ss), 3), 1e-13*(1+max((np.abs(turb.hub(s)).max() for s in ss), default=0)), 'layout')
    # stream only added once, and only when asked
    if U0 is not None:
        a = vfield(F, P, **kw)
        close((got-a)[:, ok], (np.zeros(P.shape)+np.array(U0, float).reshape((3,)+(1,)*(P.ndim-1)))[:, ok], 1e-12*(1+np.abs(got[:, ok]).max()+np.abs(U0).max()), 'free stream added by U0')
    require(len(WindFarm()) == 0, 'a new farm is not empty')


def chk_history(case):
    """ appends, moves and layout writes; the model is the list of states """
    pool = [dict(s) for s in case['pool']]
    WTs = [turb.make(s, case['via']) for s in pool]
    n0 = min(case['n0'], len(pool))
    idx = list(range(n0))
    F = build([WTs[i] for i in idx], case['how'])
    G = WindFarm([WTs[0]])             # a second farm sharing a turbine
    for o in case['ops']:
        k = o['k']
        if k == 'append':
            i = o['i'] % len(pool)
            if i in idx and not o['twice']:
                continue
            call(F.append, WTs[i]); idx.append(i)
        elif k == 'foreign':
            for x in (None, 3, 'WindTurbine', [WTs[0]], F, dict(s=1), WindTurbine):
                require(refuses(F.append, x), 'a %s is accepted as turbine of a farm', type(x).__name__)
        elif k == 'write':
            n = len(idx)
            if n == 0:
                continue
            L = np.array([o['lay'][j % len(o['lay'])] for j in range(n)], float)+np.arange(n).reshape(-1, 1)*np.array([[0.0, 0, 1]])
            for j in range(n):             # the same turbine twice: the same place twice
                L[j] = L[idx.index(idx[j])]
            if o['form'] == 0:
                F.layout = L.tolist()
            elif o['form'] == 1:
                F.layout = L
                L = L.copy()
            else:
                X = L.copy(); F.layout = X; X[...] = 99
            for j, i in enumerate(idx):
                pool[i]['hub'] = (L[j]/pool[i]['R']).tolist()
                pool[i]['abs'] = L[j].tolist()
        elif k == 'wrong':
            n = len(idx)
            for x in (np.zeros((n+1, 3)), np.zeros((n, 2)), np.zeros((n, 4)), np.zeros(3*n), np.zeros((3, n)) if n != 3 else np.zeros((3, 3, 1)), np.zeros((max(0, n-1), 3)) if n else np.zeros((1, 3))):
                if x.shape == (n, 3):
                    continue
                require(refuses(lambda: setattr(F, 'layout', x)), 'layout of shape %s accepted for %d turbines', x.shape, n)
        elif k == 'move':
            i = o['i'] % len(pool)
            call(WTs[i].update_position, np.array(o['hub'])*pool[i]['R'])
            pool[i]['hub'] = list(o['hub']); pool[i].pop('abs', None)
        elif k == 'nudge':             # a small displacement
            i = o['i'] % len(pool)
            h = (np.array(pool[i]['abs']) if 'abs' in pool[i] else turb.hub(pool[i]))+o['e']*pool[i]['R']*np.array([1.0, -0.6, 0.3])
            call(WTs[i].update_position, h.copy())
            pool[i]['hub'] = (h/pool[i]['R']).tolist(); pool[i]['abs'] = h.tolist()
        elif k == 'remove':
            if idx:
                j = o['i'] % len(idx)
                if o['form']:
                    F.pop(j)
                else:
                    del F[j]
                idx.pop(j)
        elif k == 'read':
            X = F.layout; X[...] = 7.0
            F.nWT; call(F.tostring)
        elif k == 'eval':
            P = gen.XYZ(case['pts'])*pool[0]['R']
            call(F.velocity_field, P[0], P[1], P[2], **o['kw'])
        hub = lambda i: np.array(pool[i]['abs']) if 'abs' in pool[i] else turb.hub(pool[i])
        lay = np.asarray(F.layout, float)
        close(lay, np.array([hub(i) for i in idx]).reshape(len(idx), 3), 1e-13*(1+max([np.abs(hub(i)).max() for i in range(len(pool))])), 'layout after %s', k)
        require(F.nWT == len(idx), 'number of turbines after %s', k)
        for i, W in enumerate(WTs):     # nobody else moved
            close(np.asarray(W.r_hub, float).ravel(), hub(i), 1e-13*(1+np.abs(hub(i)).max()), 'hub of turbine %d after %s', i, k)
        close(np.asarray(G.layout, float), hub(0).reshape(1, 3), 1e-13*(1+np.abs(hub(0)).max()), 'layout of the second farm after %s', k)
    ss = [pool[i] for i in idx]
    P = grid_points(case, ss or pool[:1])
    kw = case['kw']
    want, sc = total(ss, P, kw, None, 'ctor')
    ok = np.isfinite(want).all(0)
    for s in ss:
        Q = turb.to_local(s, P)
        d, dl, N = turb.sheet_dist(s, Q)
        ok &= (d > 1e-2) & (dl > 1e-2) & turb.clean(s, Q)
        r = np.hypot(Q[0], Q[1])/s['R']
        ok &= (np.abs(r-1.001) > 1e-6) & (np.abs(Q[2]/s['R']+0.6) > 1e-6)
    if not np.any(ok):
        raise Skip()
    got = vfield(F, P, **kw)
    L = 1+np.abs(P).max()/min(s['R'] for s in pool)
    close(got[:, ok], want[:, ok], sum([turb.scale_of(s) for s in ss], 0.0)*1e-8*L+1e-300, 'field of the farm after the history')


def chk_grid(case):
    nx, nz, xs, zs, h, mir = (case[k] for k in ('nx', 'nz', 'xs', 'zs', 'h', 'mirror'))
    kw = {}
    if case['hkw']:
        kw['hub_height'] = h
    else:
        h = 0
    if mir is not None:
        kw['mirror'] = mir
    x, y, z = call(gridLayout, nx, xs, nz, zs, **kw)
    m = 2 if mir else 1
    for a in (x, y, z):
        require(np.shape(a) == (nx*nz*m,), 'grid of %d x %d turbines has shape %s', nx, nz, np.shape(a))
    got = sorted(zip(np.round(np.asarray(x, float), 9).tolist(), np.round(np.asarray(y, float), 9).tolist(), np.round(np.asarray(z, float), 9).tolist()))
    want = sorted((round((j-nx//2)*xs, 9)+0.0, round(yy, 9)+0.0, round(i*zs, 9)+0.0) for j in range(nx) for i in range(nz) for yy in ([h, -h] if mir else [h]))
    close(np.array(got)+0.0, np.array(want), 2e-9*(1+abs(xs)*nx+abs(zs)*nz), 'grid positions (sorted)')
    # every mirrored turbine below its own
    if mir:
        k = nx*nz
        S = set(zip(np.round(x, 6), np.round(z, 6), np.round(y, 6)))
        for a, b_, c in list(S):
            require(any(abs(a-p) < 1e-5 and abs(b_-q) < 1e-5 and abs(c+r) < 1e-5 for p, q, r in S), 'turbine without its mirror image')


def chk_ctconst(case):
    nx, nz, xs, zs, h, mir, R, CT, U = (case[k] for k in ('nx', 'nz', 'xs', 'zs', 'h', 'mirror', 'R', 'ct', 'U'))
    xs, zs, h = xs*R, zs*R, h*R
    pos = [((j-nx//2)*xs, yy, i*zs) for i in range(nz) for j in range(nx) for yy in ([h, -h] if mir else [h])]
    Q = gen.XYZ(case['pts'])*R
    c = np.array(pos[case['at'] % len(pos)]).reshape(3, 1)
    P = Q+c
    ok = np.ones(P.shape[1], bool)
    for p in pos:
        q = P-np.array(p).reshape(3, 1)
        r = np.hypot(q[0], q[1])/R
        ok &= (gen.d_sheet(q, R) > 1e-2) & (np.abs(r-1) > 1e-4) & ((r == 0) | (r > 1e-4))
    if not np.any(ok):
        raise Skip()
    P = P[:, ok]
    P = shape_it(P, case['shape'])
    u = vec(windfarm_gridlayout_CTconst, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), R, CT, U, nx, xs, nz, zs, hub_height=h, mirror=mir)
    g = -U*(1-math.sqrt(1-CT))
    want = 0
    for p in pos:
        want = want+np.array(VC.vc_tang_u(P[0]-p[0], P[1]-p[1], P[2]-p[2], gamma_t=g, R=R, polar_out=False)) if g else want+np.zeros(P.shape)
    L = 1+np.abs(P).max()/R
    tol = abs(g)*len(pos)*1e-9*L+1e-300
    close(u, want, tol, 'grid farm of constant thrust against the sum of cylinders')
    F = WindFarm([WindTurbine(R, r_hub=list(p), U0=[0, 0, U]) for p in pos])
    for W in F:
        W.update_loading(Ct=CT, gamma_t_Ct=lambda C: -U*(1-np.sqrt(1-C)))
    close(vfield(F, P), u, tol, 'farm of turbines on the grid against the grid farm of constant thrust')
    if mir and case['half']:
        F = WindFarm([WindTurbine(R, r_hub=list(p), U0=[0, 0, U], Ground=True) for p in pos if p[1] == h][:nx*nz])
        for W in F:
            W.update_loading(Ct=CT, gamma_t_Ct=lambda C: -U*(1-np.sqrt(1-C)))
        if h != 0:
            close(vfield(F, P), u, tol, 'turbines with ground effect on the grid against the mirrored grid farm')


fx = st.fixed_dictionaries
b = st.booleans()
via = st.sampled_from(['ctor', 'update', 'setcoord'])
how = st.sampled_from(['list', 'named', 'tuple', 'append', 'mixed'])
pts = gen.points('generic', 'inside', 'outside', 'axis', 'plane', 'deep', 'far', 'up', 'grid', lo=1, hi=4)
n0 = st.sampled_from([None, None, True, False])
kwv = st.one_of(st.just({}), fx(dict(no_wake=n0, longi=n0, root=n0, tang=n0, ground=st.sampled_from([None, None, True]))),
                fx(dict(Model=st.sampled_from(['VC', 'VCFF', 'VD', 'SS']), no_wake=n0, R_far_field=st.just(None))), fx(dict(Model=st.just('VCFF'), no_wake=n0, R_far_field=gen.uni(1.2, 12), ground=st.sampled_from([None, None, True]))))
U0s = st.one_of(st.none(), st.lists(gen.uni0(10), min_size=3, max_size=3), st.lists(st.integers(-9, 9), min_size=3, max_size=3))
small = gen.pick(1, 63.5, other=gen.uni(0.5, 80))
vec3 = st.one_of(st.lists(gen.uni0(6), min_size=3, max_size=3), st.lists(st.integers(-4, 4), min_size=3, max_size=3))
ops = st.one_of(fx(dict(k=st.just('append'), i=st.integers(0, 3), twice=b)), fx(dict(k=st.just('nudge'), i=st.integers(0, 3), e=gen.slogu(-7, -2))), fx(dict(k=st.just('foreign'))), fx(dict(k=st.just('write'), lay=st.lists(vec3, min_size=1, max_size=4), form=st.integers(0, 2))), fx(dict(k=st.just('write'), lay=st.lists(vec3, min_size=1, max_size=4), form=st.integers(0, 2))),
                fx(dict(k=st.just('wrong'))), fx(dict(k=st.just('move'), i=st.integers(0, 3), hub=vec3)), fx(dict(k=st.just('remove'), i=st.integers(0, 3), form=b)), fx(dict(k=st.just('read'))),
                fx(dict(k=st.just('eval'), kw=st.sampled_from([{}, dict(no_wake=True), dict(U0=[1.0, 2, 3])]))))
GR = dict(nx=st.integers(1, 6), nz=st.integers(1, 5), mirror=b)
sp = gen.pick(2, 5.0, 3, other=gen.uni(2.1, 8))
LAWS = [
    Law('sum', fx(dict(ss=st.one_of(st.lists(turb.states(), min_size=2, max_size=5), st.lists(turb.states(), min_size=2, max_size=3), st.lists(turb.states(), max_size=1)), single=st.lists(turb.load_single, min_size=1, max_size=3), kw=kwv, via=via, how=how, pts=pts, shape=st.integers(0, 2), U0=U0s, uform=st.integers(0, 2), perm=st.lists(st.integers(0, 9), min_size=5, max_size=5))),
        chk_sum, 500, 10000, nontrivial=lambda c: len(c['ss']) > 1, classify=lambda c: ['%d turbines' % len(c['ss']), c['how'], c['kw'].get('Model') or 'VC']),
    Law('histories', fx(dict(pool=st.lists(turb.states(turb.load_fun1), min_size=2, max_size=4), n0=st.integers(0, 3), how=how, via=via, ops=st.lists(ops, min_size=1, max_size=10), pts=pts, kw=st.sampled_from([{}, dict(no_wake=True), dict(ground=True)]))),
        chk_history, 600, 10000, nontrivial=lambda c: len(c['pool']) > 1, classify=lambda c: sorted(set(o['k'] for o in c['ops']))),
    Law('grid_layout', fx(dict(nx=st.integers(1, 9), nz=st.integers(1, 7), xs=st.one_of(gen.uni(0.1, 900), st.integers(1, 9), gen.uni(-5, -1)), zs=st.one_of(gen.uni(0.1, 900), st.integers(1, 9), st.just(0)), h=st.one_of(gen.uni(0, 150), st.integers(0, 5)), hkw=st.sampled_from([True, True, True, False]),
                               mirror=st.sampled_from([None, False, True]))), chk_grid, 800, 8000, nontrivial=lambda c: c['nx']*c['nz'] > 1, classify=lambda c: ['mirror' if c['mirror'] else 'plain']),
    Law('grid_constant_thrust', fx(dict(xs=sp, zs=sp, h=gen.pick(0, 1.5, other=gen.uni(0.5, 4)), R=small, ct=gen.pick(0.8, 0.0, 0.4, other=gen.uni(0, 0.99)), U=turb.Us, pts=pts, at=st.integers(0, 30), shape=st.integers(0, 2), half=b, **GR)), chk_ctconst, 500, 8000,
        nontrivial=lambda c: c['nx']*c['nz'] > 1 and c['ct'] > 0, classify=lambda c: ['mirror' if c['mirror'] else 'plain', '%dx%d' % (min(c['nx'], 2), min(c['nz'], 2))]),
]
