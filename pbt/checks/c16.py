"""C16 equivariance under rigid motions"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, turb
from turb import PI
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

core.LAYOUT['per_case'] = True
RULE = 'cases draw turbines or farms, options, points and a rigid motion; a case counts when the motion is not the identity and some loading is not zero'
ASSUMPTIONS = ['metamorphic: the code is compared with itself in the moved configuration', 'points closer than 0.02 radii to the vorticity, or within 1e-5 radii of the limits of the self-induction mask or of the far-field cut-off, are left out',
               'translations up to 20 radii']


def moved(s, M, t, via):
    """ turbine of state s moved by x -> M x + t """
    v, s0, sh, T, w, _ = turb.geom(s)
    h = M @ turb.hub(s)+t
    v, s0, w = M @ v, M @ s0, M @ w
    if via == 'ctor':
        WT = call(WindTurbine, s['R'], r_hub=h.tolist(), e_shaft_yaw0=s0.tolist(), e_vert=v.tolist(), U0=w.tolist())
    elif via == 'default':
        WT = call(WindTurbine, s['R'])
        call(WT.set_yaw0_coord, s0.reshape(3, 1), v.reshape(3, 1))
        call(WT.update_position, h.reshape(3, 1)); call(WT.update_wind, w.reshape(3, 1))
    else:                       # the turbine of the original configuration is moved
        WT = turb.make(s, 'update')
        call(WT.compute_u, *[np.array([1.0, 2.0])]*3)
        call(WT.update_position, h); call(WT.update_wind, w)
        call(WT.set_yaw0_coord, s0, v)
    call(WT.update_yaw_pos, s['yaw'])
    if s['load'] is not None:
        turb.apply_loading(WT, s['load'], s['R'], s['U'])
    return WT


def motion(c, s):
    R = s['R']
    M = ref.rot(c['rot']['axis'], c['rot']['ang'])
    t = np.array(c['t'], float)*R
    return M, t


def margins(s, P, opts, chi=None):
    """ which points of P are well defined for this turbine, and the error bound there """
    Q = turb.to_local(s, P)
    R = s['R']
    d, dl, N = turb.sheet_dist(s, Q, chi)
    ok = (d > 0.02) & (dl > 0.02) & turb.clean(s, Q)
    if opts.get('no_wake'):
        r = np.hypot(Q[0], Q[1])/R
        ok &= (np.abs(r-1.001) > 1e-5) & (np.abs(Q[2]/R+0.6) > 1e-5)
    mod = opts.get('Model', 'VC')
    n = np.sqrt((Q**2).sum(0))/R; r = np.hypot(Q[0], Q[1])/R
    if mod == 'VCFF':
        ok &= np.abs(n-opts.get('R_far_field', 6)) > 1e-6*n
    if mod in ('VD', 'VCFF'):        # the doublet line: away from the line and from its absolute threshold in the rotor plane
        ok &= (((r > 0.05*n) | (Q[2] < 0)) & (np.abs(Q[2])/R > 1e-5)) | ((mod == 'VCFF') & (n < opts.get('R_far_field', 6)))
    if mod == 'SS':
        ok &= np.abs(Q[2])/R > 1e-8
    sc = turb.scale_of(s)
    tol = 8*turb.tol_field(s, Q, sc, chi)
    if mod == 'VD':
        tol = tol+sc*(1e-8/np.maximum(n, 0.02)**4+1e-9/np.maximum(r, 0.02)**3)
    return ok, tol


def chk_turbine(case):
    s = case['s']
    o = dict(case['opts'])
    ground = o.pop('ground', False)
    if o.get('Model', 'VC') != 'VC':
        s = dict(s, dw=0.0)
    M, t = motion(case, s)
    v = turb.geom(s)[0]
    if ground:
        M = ref.rot(v, case['rot']['ang'])
        t = t-v*(v @ t)
        o['longi'] = False; o['root'] = False
    P = turb.to_global(s, turb.wake_points(s, case['pts'])/s['R'])
    ok, tol = margins(s, P, o)
    if ground:
        ok2, tol2 = margins(s, P-2*np.outer(v, v @ P), dict(o, no_wake=False))
        ok &= ok2; tol = tol+tol2
    if not np.any(ok):
        raise Skip()
    P, tol = P[:, ok], tol[ok]
    kw = dict(o)
    if ground:
        kw['ground'] = True
    a, b = turb.make(s, case['via']), moved(s, M, t, case['via2'])
    L = 1+(np.abs(P).max()+np.abs(t).max())/s['R']
    tol = tol+turb.scale_of(s)*L*3e-11+1e-13*s['U']
    ua = turb.velocity(a, P, **kw)
    ub = turb.velocity(b, M @ P+t.reshape(3, 1), **kw)
    close(ub, M @ ua, tol, 'velocity of the moved turbine (%s%s)', kw, ', yawed' if s['dw'] else '')
    if case['angles']:
        for n in ('yaw_wind', 'yaw_error'):
            x, y = float(getattr(a, n)), float(getattr(b, n))
            e = (x-y+PI) % (2*PI)-PI
            close(e, 0.0, 1e-11*(1+abs(s['yaw'])), '%s of the moved turbine', n)
        D, E = np.asarray(call(a.rotor_disk_points, 12), float), np.asarray(call(b.rotor_disk_points, 12), float)
        h, k = D.mean(1), E.mean(1)
        c = M @ turb.hub(s)+t
        close(np.sqrt(((E-c.reshape(3, 1))**2).sum(0)), np.full(12, float(s['R'])), 1e-9*s['R']*L, 'rotor disk of the moved turbine')


def chk_farm(case):
    ss = case['ss']
    o = dict(case['opts']); o.pop('ground', None)
    R0 = ss[0]['R']
    ss = [dict(s, R=R0*f) for s, f in zip(ss, case['Rf'])]
    if o.get('Model', 'VC') != 'VC':
        ss = [dict(s, dw=0.0) for s in ss]
    M, t = motion(case, ss[0])
    P = np.concatenate([turb.to_global(s, turb.wake_points(s, case['pts'][:2])/s['R']) for s in ss], 1)
    ok = np.ones(P.shape[1], bool); tol = np.zeros(P.shape[1])
    for s in ss:
        k, e = margins(s, P, o)
        ok &= k; tol += e
    if not np.any(ok):
        raise Skip()
    P, tol = P[:, ok], tol[ok]
    F = WindFarm([turb.make(s, case['via']) for s in ss])
    G = WindFarm([moved(s, M, t, case['via2']) for s in ss])
    kw = dict(o); kw.pop('only_ind', None)
    U0 = case['U0']
    if U0 is not None:
        kw['U0'] = np.array(U0)
    ua = vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **kw)
    if U0 is not None:
        kw['U0'] = M @ np.array(U0)
    X = M @ P+t.reshape(3, 1)
    ub = vec(G.velocity_field, 3, P[0].shape, X[0].copy(), X[1].copy(), X[2].copy(), **kw)
    sc = sum(turb.scale_of(s) for s in ss)
    L = 1+(np.abs(P).max()+np.abs(t).max())/min(s['R'] for s in ss)
    close(ub, M @ ua, tol+sc*3e-11*L+1e-13*np.linalg.norm(U0 or 0), 'velocity of the moved farm of %d turbines', len(ss))
    lay = np.asarray(G.layout, float)
    close(lay, np.array([M @ turb.hub(s)+t for s in ss]), 1e-12*(np.abs(t).max()+np.abs(P).max()+R0*10), 'layout of the moved farm')


fx = st.fixed_dictionaries
rots = st.builds(lambda a, t: dict(axis=a, ang=t), gen.unitvec, st.one_of(gen.angle, gen.uni(-PI, PI)))
trans = st.one_of(st.just([0, 0, 0]), st.lists(gen.uni0(20), min_size=3, max_size=3), st.lists(st.integers(-9, 9), min_size=3, max_size=3))
b = st.booleans()
vco = fx(dict(longi=b, tang=st.sampled_from([True, True, False]), root=b, no_wake=b, only_ind=b, ground=st.sampled_from([False, False, True])))
modo = st.one_of(fx(dict(Model=st.just('VCFF'), R_far_field=gen.pick(6, other=gen.uni(1.5, 15)), no_wake=b, only_ind=b, ground=st.sampled_from([False, False, True]))),
                 fx(dict(Model=st.sampled_from(['VD', 'SS', 'VC', 'SS']), no_wake=b, only_ind=b, ground=st.sampled_from([False, False, True]))))
via = st.sampled_from(['ctor', 'update', 'setcoord'])
via2 = st.sampled_from(['ctor', 'default', 'moved'])
pts = gen.points(*turb.PTS, lo=1, hi=5)
nt = lambda c: (c['rot']['ang'] != 0 or any(c['t'])) and any(x != 0 for s in (c.get('ss') or [c['s']]) for x in s['load']['c'])
LAWS = [
    Law('turbine', fx(dict(s=turb.states(), opts=vco, pts=pts, via=via, via2=via2, rot=rots, t=trans, angles=b)), chk_turbine, 1600, 20000, nontrivial=nt, classify=lambda c: [c['s']['load']['k'], 'ground' if c['opts']['ground'] else 'no_ground']),
    Law('turbine_with_swirl', fx(dict(s=turb.states(turb.load_swirl), opts=vco, pts=pts, via=via, via2=via2, rot=rots, t=trans, angles=b)), chk_turbine, 800, 10000, nontrivial=nt, classify=lambda c: [c['s']['load']['k']]),
    Law('models', fx(dict(s=turb.states(turb.load_single), opts=modo, pts=pts, via=via, via2=via2, rot=rots, t=trans, angles=b)), chk_turbine, 1200, 15000, nontrivial=nt, classify=lambda c: [c['opts']['Model']]),
    Law('farm', fx(dict(ss=st.lists(turb.states(), min_size=2, max_size=3), Rf=st.lists(gen.pick(1.0, other=gen.uni(0.5, 2)), min_size=3, max_size=3), opts=vco, pts=pts, via=via, via2=via2, rot=rots, t=trans,
                        U0=st.one_of(st.none(), st.lists(gen.uni0(10), min_size=3, max_size=3)))), chk_farm, 600, 8000, nontrivial=nt, classify=lambda c: ['%d turbines' % len(c['ss'])]),
    Law('farm_models', fx(dict(ss=st.lists(turb.states(turb.load_single), min_size=2, max_size=3), Rf=st.lists(gen.pick(1.0, other=gen.uni(0.5, 2)), min_size=3, max_size=3), opts=modo, pts=pts, via=via, via2=via2, rot=rots, t=trans,
                               U0=st.none())), chk_farm, 400, 5000, nontrivial=nt, classify=lambda c: [c['opts']['Model']]),
]
