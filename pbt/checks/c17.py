"""C17 the field depends on the current state, not on the history (model-based histories)"""
import numpy as np
from hypothesis import strategies as st
import core
from core import Law, Violation, Skip, close, require, vec, call
import gen, ref, turb
from turb import PI
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

core.LAYOUT['per_case'] = True
RULE = ('cases are histories: 1-3 turbines, up to 20 operations (position, yaw, wind, axes, loading, skew prescription, evaluations with all options, attribute reads, refused calls, '
        'farm moves, later changes of the arrays that were passed in or returned), then evaluations of every turbine; a case counts when at least 4 operations change a state')
ASSUMPTIONS = ['the reference is a newly created turbine put directly into the state that a small model of the history predicts (plain values, no wiz code)',
               'every loading operation states its tip-speed ratio or all of them use the one given at construction']

DEF = dict(hub=[0.0, 0.0, 0.0], fr=dict(axis=[0, 1.0, 0], ang=0.0), yaw=0.0, wind=[0.0, 0.0, 10.0], chi=None, load=None, ground=False, model='VC')


def axes(fr):
    M = ref.rot(fr['axis'], fr['ang'])
    return M @ np.array([0, 1.0, 0]), M @ np.array([0, 0, 1.0])


def hwind(fr, w):
    """ horizontal wind vector: angle w['a'] about the vertical from the zero-yaw shaft, speed w['U'] """
    v, s0 = axes(fr)
    return ref.rot(v, w['a']) @ s0*w['U']


class Box:
    """ arrays handed to the code, which the caller changes afterwards """
    def __init__(self):
        self.l = []

    def __call__(self, a, form):
        a = np.array(a, float)
        if form == 0:
            return a.tolist()
        if form == 2:
            a = a.reshape(3, 1)
        self.l.append(a)
        return a

    def spoil(self):
        for a in self.l:
            if a.flags.writeable:
                a[...] = 1e3
        self.l = []


def fresh(m):
    """ a new turbine in state m """
    v, s0 = axes(m['fr'])
    WT = call(WindTurbine, m['R'], r_hub=list(m['hub']), e_shaft_yaw0=s0.tolist(), e_vert=v.tolist(), U0=list(m['load']['wind'] if m['load'] else m['wind']),
              Lambda=m['Lambda'], Ground=m['ground'], Model=m['model'])
    if m['load']:
        load(WT, m['load'], m['R'])
    call(WT.update_wind, list(m['wind']))
    call(WT.update_yaw_pos, m['yaw'])
    if m['chi'] is not None:
        call(WT.set_chi, m['chi'])
    return WT


def load(WT, l, R, box=None):
    """ loading l: kind, values in units of the wind speed at that time """
    U = float(np.linalg.norm(l['wind']))
    d = l['d']
    n = d.get('n', 1)
    kw = {}
    if n != 1:
        kw['nCyl'] = n
    if 'r' in d:
        kw['r'] = np.array(d['r'])*R
    c = np.array(d['c'], float)
    if d['k'] == 'gam':
        kw['Gamma'] = c*U*R
    else:
        kw['Ct'] = c if (len(c) > 1 or d.get('arr')) else float(c[0])
    if d['k'] == 'fun':
        f = d['f']
        kw['gamma_t_Ct'] = lambda C: -f*U*np.asarray(C)
    if l['lam'] is not None:
        kw['Lambda'] = np.inf if l['lam'] == 'inf' else l['lam']
    if box is not None:
        for k in ('r', 'Ct', 'Gamma'):
            if isinstance(kw.get(k), np.ndarray):
                box.l.append(kw[k])
    call(WT.update_loading, **kw)


def new_load(W, m, d, lam, box):
    """ loading d: without a tip-speed ratio the last one given stays in force """
    load(W, dict(d=d, wind=list(m['wind']), lam=lam), m['R'], box)
    if lam is not None:
        m['lam'] = lam
    m['load'] = dict(d=d, wind=list(m['wind']), lam=m['lam'])


def step(o, WTs, ms, F, box, P):
    """ one operation on the real turbines and on the model """
    i = o['t'] % len(WTs)
    W, m = WTs[i], ms[i]
    k = o['op']
    if k == 'pos':
        m['hub'] = [x*m['R'] for x in o['hub']]
        call(W.update_position, box(m['hub'], o['form']))
    elif k == 'yaw':
        m['yaw'] = o['yaw']
        call(W.update_yaw_pos, o['yaw'])
    elif k == 'wind':
        m['wind'] = hwind(m['fr'], o['w']).tolist()
        call(W.update_wind, box(m['wind'], o['form']))
    elif k == 'axes':
        m['fr'] = o['fr']; m['yaw'] = 0.0
        m['wind'] = hwind(m['fr'], o['w']).tolist()
        v, s0 = axes(m['fr'])
        if o['first']:
            call(W.update_wind, box(m['wind'], o['form']))
        call(W.set_yaw0_coord, box(s0, o['form']), box(v, o['form']))
        if not o['first']:
            call(W.update_wind, box(m['wind'], o['form']))
    elif k == 'load':
        new_load(W, m, o['d'], o['lam'], box)
    elif k == 'chi':
        m['chi'] = o['chi']
        call(W.set_chi, o['chi'])
    elif k == 'nudge':             # a small change of the current state
        e = o['e']
        if o['what'] == 'pos':
            m['hub'] = [x+e*m['R']*y for x, y in zip(m['hub'], (1.0, -0.7, 0.4))]
            call(W.update_position, box(m['hub'], o['form']))
        elif o['what'] == 'yaw':
            m['yaw'] = m['yaw']+e
            call(W.update_yaw_pos, m['yaw'])
        elif o['what'] == 'wind':
            m['wind'] = (ref.rot(axes(m['fr'])[0], e*o['turn']) @ np.array(m['wind'])*(1+e)).tolist()
            call(W.update_wind, box(m['wind'], o['form']))
        elif o['what'] == 'chi' and m['chi'] is not None:
            m['chi'] = m['chi']+e
            call(W.set_chi, m['chi'])
        elif o['what'] == 'load' and m['load']:
            d = dict(m['load']['d'])
            d['c'] = [x*(1+e) for x in d['c']]
            new_load(W, m, d, o.get('lam'), box)
    elif k == 'attr':
        if 'ground' in o:
            m['ground'] = W.Ground = o['ground']
        if 'model' in o:
            m['model'] = W.Model = o['model']
    elif k == 'eval':
        try:
            u = W.compute_u(P[0].copy(), P[1].copy(), P[2].copy(), **o['kw'])
        except Exception:
            u = None            # refused combination, or loading not set
        if u is not None:
            for a in u:
                a = np.asarray(a)
                if a.flags.writeable:
                    a[...] = 77.0
    elif k == 'farm_eval':
        try:
            u = F.velocity_field(P[0].copy(), P[1].copy(), P[2].copy(), **{a: b for a, b in o['kw'].items() if a != 'only_ind'})
        except Exception:
            u = None
        if u is not None:
            for a in u:
                a[...] = 77.0
    elif k == 'read':
        for n in ('yaw_wind', 'yaw_error', 'T_c2wt', 'T_wt2g', 'chi', 'gamma_t', 'Lambda'):
            getattr(W, n)
        D = call(W.rotor_disk_points, 5)
        D[...] = 5.0
        call(W.tostring); call(repr, W)
        L = F.layout
        L[...] = -3.0
        call(F.tostring); F.nWT
    elif k == 'layout':
        new = np.array(o['lay'])[:len(WTs)]*np.array([[q['R']] for q in ms])
        for q, h in zip(ms, new):
            q['hub'] = h.tolist()
        F.layout = new if o['form'] else new.tolist()
        if o['form']:
            new[...] = 1e3
    elif k == 'refused':
        for f, a in ((W.update_loading, {}), (W.update_loading, dict(gamma_t_Ct=lambda c: c)), (W.update_position, dict(r_hub=[1, 2])), (W.update_wind, dict(U0_g=[1.0, 2]))):
            try:
                f(**a)
            except Exception:
                pass
            else:
                raise Skip()
        try:
            F.layout = np.zeros((len(WTs)+1, 3))
        except Exception:
            pass
        else:
            raise Skip()
        try:
            F.append(3)
        except Exception:
            pass
        else:
            raise Skip()
    if o.get('spoil'):
        box.spoil()


def pts_of(case, ms):
    Q = gen.XYZ(case['pts'])
    out = []
    for m in ms:
        out.append(Q*m['R']+np.array(m['hub']).reshape(3, 1))
    return np.concatenate(out, 1)


def chk(case):
    WTs, ms = [], []
    for q in case['wts']:
        m = dict(DEF, R=q['R'], Lambda=np.inf if q['lam'] is None else q['lam'],
                 lam='inf' if q['lam'] is None else q['lam'])
        if q['default']:
            W = call(WindTurbine, q['R'], Lambda=m['Lambda'])
        else:
            m.update(fr=q['fr'], hub=[x*q['R'] for x in q['hub']], ground=q['ground'], model=q['model'])
            m['wind'] = hwind(q['fr'], q['w']).tolist()
            v, s0 = axes(q['fr'])
            W = call(WindTurbine, q['R'], r_hub=list(m['hub']), e_shaft_yaw0=s0, e_vert=v, U0=np.array(m['wind']), Lambda=m['Lambda'], Ground=q['ground'], Model=q['model'])
        if q['load0'] is not None:
            new_load(W, m, q['load0'], q['lam0'], None)
        WTs.append(W); ms.append(m)
    F = WindFarm(WTs)
    box = Box()
    for o in case['ops']:
        step(o, WTs, ms, F, box, pts_of(case, ms[:1]))
    box.spoil()
    P = pts_of(case, ms)
    U = max(np.linalg.norm(m['wind']) for m in ms)
    dist = np.ones(P.shape[1], bool)
    order = [i % len(ms) for i in case['order']]+list(range(len(ms)))
    opts = (case['final']*3)[:max(len(order), len(case['final']))]
    for j, kw in enumerate(opts):
        i = order[j % len(order)]
        W, m = WTs[i], ms[i]
        R = m['R']
        try:
            want = fresh(m).compute_u(P[0].copy(), P[1].copy(), P[2].copy(), **kw)
        except Violation:
            raise
        except Exception as e:
            try:
                got = W.compute_u(P[0].copy(), P[1].copy(), P[2].copy(), **kw)
            except Exception:
                continue
            raise Violation('turbine with a history answers a call that a new turbine in the same state refuses (%s): %s' % (type(e).__name__, kw))
        got = vec(W.compute_u, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **kw)
        want = np.array(want)
        ok = np.all(np.isfinite(want), 0) & (np.abs(want).max(0) < 1e6*(U+1))
        if np.any(ok):
            close(got[:, ok], want[:, ok], 1e-9*(np.abs(want[:, ok]).max(0)+1e-3*U), 'velocity of turbine %d after the history (%s) compared with a new turbine in the same state', i, kw)
    kw = dict(case['farm_kw'])
    try:
        want = sum(np.array(fresh(m).compute_u(P[0].copy(), P[1].copy(), P[2].copy(), only_ind=True, **kw)) for m in ms)
    except Violation:
        raise
    except Exception:
        return
    got = vec(F.velocity_field, 3, P[0].shape, P[0].copy(), P[1].copy(), P[2].copy(), **kw)
    ok = np.all(np.isfinite(want), 0) & (np.abs(want).max(0) < 1e6*(U+1))
    if np.any(ok):
        close(got[:, ok], want[:, ok], 1e-9*(np.abs(want[:, ok]).max(0)+1e-3*U), 'velocity of the farm after the history (%s)', kw)
    close(np.asarray(F.layout, float), np.array([m['hub'] for m in ms]), 1e-12, 'layout after the history')
    for W, m in zip(WTs, ms):
        close(np.asarray(W.r_hub, float).ravel(), m['hub'], 1e-14*np.abs(m['hub']).max(), 'hub after the history')
        f = fresh(m)
        for n in ('yaw_wind', 'yaw_error'):
            e = float(getattr(W, n))-float(getattr(f, n))
            close(e-2*PI*np.round(e/(2*PI)), 0.0, 1e-9, '%s after the history', n)
        close(np.asarray(call(W.rotor_disk_points, 7), float), np.asarray(call(f.rotor_disk_points, 7), float), 1e-9*m['R'], 'rotor disk after the history')


# ------------------------------------------------------------------------------------------------------------- generators
fx = st.fixed_dictionaries
b = st.booleans()
wdir = fx(dict(a=gen.pick(0.0, 0.0, 0.3, -0.3, PI, other=st.one_of(gen.uni0(1.2), gen.uni0(PI)), p=0.5), U=gen.pick(10, 8.0, other=gen.uni(2, 20), p=0.5)))
vec3 = st.one_of(st.lists(gen.uni0(6), min_size=3, max_size=3), st.lists(st.integers(-4, 4), min_size=3, max_size=3))
ld = st.one_of(fx(dict(k=st.just('fun'), c=st.just([1.0]), f=gen.uni(0.1, 1.2))), fx(dict(k=st.just('fun'), c=st.just([1.0]), f=gen.uni(0.1, 1.2))),
               fx(dict(k=st.just('ct'), c=gen.uni(0.1, 0.9).map(lambda x: [x]), arr=b)), fx(dict(k=st.just('gam'), c=gen.uni(0.02, 0.25).map(lambda x: [x]))),
               turb.fractions.flatmap(lambda r: fx(dict(k=st.just('ct'), r=st.just(r), n=st.sampled_from([None, 3]), c=st.lists(gen.uni(0.1, 0.9), min_size=len(r), max_size=len(r))))),
               turb.fractions.flatmap(lambda r: fx(dict(k=st.just('gam'), r=st.just(r), n=st.sampled_from([None, 2]), c=st.lists(gen.uni(0.02, 0.2), min_size=len(r), max_size=len(r))))))
lams = st.sampled_from(['inf', 6, 8.0, None])
chis = gen.pick(0.0, 0.3, None, None, other=gen.uni0(1.0), p=0.6)
kws = st.one_of(st.just({}), st.just({}), fx(dict(only_ind=b)), fx(dict(only_ind=b, longi=b, root=b, tang=b)), fx(dict(longi=st.just(True), root=st.just(True))), fx(dict(no_wake=b, ground=b)),
                fx(dict(Model=st.sampled_from(['VC', 'VCFF', 'VD', 'SS']))), fx(dict(ground=b, only_ind=b)))
tt = st.integers(0, 2)
sp = st.sampled_from([False, False, True])
form = st.integers(0, 2)
ops = {
    'pos': fx(dict(op=st.just('pos'), t=tt, hub=vec3, form=form, spoil=sp)),
    'yaw': fx(dict(op=st.just('yaw'), t=tt, yaw=turb.yaw)),
    'wind': fx(dict(op=st.just('wind'), t=tt, w=wdir, form=form, spoil=sp)),
    'axes': fx(dict(op=st.just('axes'), t=tt, fr=gen.rotation, w=wdir, form=form, first=b, spoil=sp)),
    'load': fx(dict(op=st.just('load'), t=tt, d=ld, lam=lams, spoil=sp)),
    'chi': fx(dict(op=st.just('chi'), t=tt, chi=chis)),
    'nudge': fx(dict(op=st.just('nudge'), t=tt, what=st.sampled_from(['pos', 'yaw', 'wind', 'wind', 'chi', 'load']), e=gen.slogu(-6.5, -2), turn=st.sampled_from([0, 1]), form=form, spoil=sp)),
    'attr': st.one_of(fx(dict(op=st.just('attr'), t=tt, ground=b)), fx(dict(op=st.just('attr'), t=tt, model=st.sampled_from(['VC', 'VC', 'VCFF', 'VD', 'SS'])))),
    'eval': fx(dict(op=st.just('eval'), t=tt, kw=kws)),
    'farm_eval': fx(dict(op=st.just('farm_eval'), t=tt, kw=kws)),
    'read': fx(dict(op=st.just('read'), t=tt)),
    'layout': fx(dict(op=st.just('layout'), t=tt, lay=st.lists(vec3, min_size=3, max_size=3), form=st.integers(0, 1))),
    'refused': fx(dict(op=st.just('refused'), t=tt)),
}
weights = ['pos', 'yaw', 'yaw', 'wind', 'wind', 'axes', 'load', 'load', 'chi', 'attr', 'nudge', 'nudge', 'eval', 'eval', 'eval', 'eval', 'farm_eval', 'read', 'layout', 'refused']
op = st.sampled_from(weights).flatmap(lambda k: ops[k])
wt = fx(dict(R=gen.pick(1.0, 50.0, other=gen.uni(0.5, 60)), lam=st.sampled_from([None, None, 6.0, 'x']).map(lambda x: 8.0 if x == 'x' else x), default=b, fr=gen.rotation, hub=vec3, w=wdir, ground=st.sampled_from([False, False, True]),
             model=st.sampled_from(['VC', 'VC', 'VC', 'VCFF']), load0=st.one_of(st.none(), ld), lam0=lams))
pts = gen.points('generic', 'inside', 'outside', 'grid', 'deep', 'up', lo=2, hi=4)
MUT = ('pos', 'yaw', 'wind', 'axes', 'load', 'chi', 'attr', 'layout', 'nudge')
nt = lambda c: sum(o['op'] in MUT for o in c['ops']) >= 4
cl = lambda c: sorted(set(o['op'] for o in c['ops']))


def hist(nt_, lo, hi, opx=op):
    return fx(dict(wts=st.lists(wt, min_size=1, max_size=nt_), ops=st.lists(opx, min_size=lo, max_size=hi), pts=pts, order=st.lists(st.integers(0, 2), min_size=1, max_size=3),
                   final=st.lists(kws, min_size=1, max_size=4), farm_kw=st.one_of(st.just({}), fx(dict(no_wake=b)), fx(dict(ground=b)), fx(dict(longi=b, root=b)))))


# short histories on one loaded turbine: the interleavings of evaluation and change
core = st.sampled_from(['yaw', 'wind', 'load', 'eval', 'eval', 'chi', 'pos', 'read', 'axes', 'attr', 'nudge', 'nudge']).flatmap(lambda k: ops[k])
wtl = wt.flatmap(lambda w: ld.map(lambda d: dict(w, load0=d, model='VC')))
short = fx(dict(wts=st.lists(wtl, min_size=1, max_size=1), ops=st.lists(core, min_size=1, max_size=6), pts=pts, order=st.just([0]), final=st.lists(kws, min_size=1, max_size=2), farm_kw=st.just({})))
LAWS = [
    Law('one_turbine', hist(1, 3, 14), chk, 800, 12000, nontrivial=nt, classify=cl),
    Law('turbines_and_farm', hist(3, 4, 20), chk, 800, 12000, nontrivial=nt, classify=cl),
    Law('short', short, chk, 1200, 20000, nontrivial=lambda c: sum(o['op'] in MUT for o in c['ops']) >= 1, classify=cl),
]
