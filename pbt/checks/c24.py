"""C24 yaw geometry: angles, axes, rotor disk and helper rotations"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call, refuses
import gen, ref
from wiz import WindTurbine as W

PI = math.pi
RULE = 'cases draw frames (vertical and shaft axes, exactly or to rounding orthonormal), yaw positions up to many turns, horizontal wind directions relative to the axes (aligned, opposed, barely off both) and histories of yawing, moving and wind changes; a case counts when some angle is not zero'
ASSUMPTIONS = ['horizontal wind and shaft (the code does not handle tilt)', 'angles compared modulo full turns, to 1e-12 per radian of yaw position']


def axes(fr):
    M = ref.rot(fr['axis'], fr['ang'])
    v = M @ np.array([0, 1.0, 0]); s = M @ np.array([0, 0, 1.0])
    if fr.get('snap'):
        v, s = np.round(v, 15)+0.0, np.round(s, 15)+0.0
    return v, s


def wrap(a):
    return math.remainder(a, 2*PI)


def same_angle(a, b, tol, msg, *args):
    require(math.isfinite(a), msg+': angle is not finite', *args)
    close(wrap(a-b), 0.0, tol, msg+' (modulo full turns)', *args)


def arr(x, how):
    x = np.array(x, float)
    return x.tolist() if how == 'list' else x.reshape(3, 1) if how == 'column' else x


def chk_history(case):
    """ angles and axes after any history of yawing, wind changes, moves and new axes """
    v, s0 = axes(case['fr'])
    R = case['R']
    kw = dict(e_shaft_yaw0=arr(s0, case['as']), e_vert=arr(v, case['as']))
    hub = np.zeros(3); yaw = 0.0; U = np.array([0, 0, 10.0]); hor = False
    WT = call(W.WindTurbine, R, **kw)
    for o in case['ops']:
        k = o['k']
        if k == 'yaw':
            yaw = o['a']; call(WT.update_yaw_pos, yaw)
        elif k == 'wind':
            U = ref.rot(v, o['a']) @ s0*o['U']; hor = True
            call(WT.update_wind, arr(U, case['as']))
        elif k == 'along':           # wind along the yawed shaft, up to a small angle
            U = ref.rot(v, yaw+o['a']) @ s0*o['U']; hor = True
            call(WT.update_wind, arr(U, case['as']))
        elif k == 'pos':
            hub = np.array(o['h'])*R; call(WT.update_position, arr(hub, case['as']))
        elif k == 'align' and hor:
            yaw = call(lambda: WT.yaw_wind); call(WT.update_yaw_pos, yaw)
            sh = np.asarray(WT.e_shaft_g, float).ravel()
            close(sh, U/np.linalg.norm(U), 1e-12, 'shaft after yawing by the wind angle')
            close(float(call(lambda: WT.yaw_error)), 0.0, 1e-12, 'yaw error after yawing by the wind angle')
        elif k == 'untwist' and hor:
            e = float(call(lambda: WT.yaw_error)); yaw = yaw-e; call(WT.update_yaw_pos, yaw)
            sh = np.asarray(WT.e_shaft_g, float).ravel()
            close(sh, U/np.linalg.norm(U), 1e-12*(1+abs(yaw)), 'shaft after removing the yaw error')
        elif k == 'axes':
            v, s0 = axes(o['fr']); yaw = 0.0; hor = hor and False
            call(WT.set_yaw0_coord, arr(s0, case['as']), arr(v, case['as']))
        elif k == 'print':
            call(WT.tostring); call(WT.tostring, False); call(repr, WT)
        # --- state
        t = 1e-12*(1+abs(yaw))
        M = ref.rot(v, yaw)
        sh = np.asarray(WT.e_shaft_g, float)
        require(sh.size == 3, 'shaft of shape %s', sh.shape)
        close(sh.ravel(), M @ s0, t, 'shaft after yawing by %.17g', yaw)
        close(np.asarray(WT.e_vert_g, float).ravel(), v, 1e-15, 'vertical axis')
        close(np.asarray(WT.r_hub, float).ravel(), hub, 1e-12*(1+abs(hub).max()), 'hub position')
        close(float(WT.yaw_pos), yaw, 1e-15*abs(yaw), 'yaw position')
        for name, T in (('T_wt2g', M), ('T_c2wt', np.stack((np.cross(v, s0), v, s0), 1)), ('T_F2g', np.stack((s0, np.cross(v, s0), v), 1))):
            if hasattr(WT, name):
                close(np.asarray(getattr(WT, name), float), T, t, 'rotation matrix %s', name)
        if hor:
            Uh = U/np.linalg.norm(U)
            aw = math.atan2(Uh @ np.cross(v, s0), Uh @ s0)
            w = np.asarray(call(lambda: WT.yaw_wind)); e = np.asarray(call(lambda: WT.yaw_error))
            require(w.size == 1 and e.size == 1, 'wind angle/yaw error of size %s/%s', w.size, e.size)
            w, e = float(w), float(e)
            same_angle(w, aw, 1e-12, 'wind angle')
            same_angle(e, yaw-aw, t, 'yaw error for yaw position %.17g and wind angle %.17g', yaw, aw)
            for x, n in ((w, 'wind angle'), (e, 'yaw error')):
                require(abs(x) <= PI*(1+1e-15), '%s %.17g beyond half a turn', n, x)
    n = case['nP']
    args = () if n is None else (n,)
    P = np.asarray(call(WT.rotor_disk_points, *args), float)
    n = 100 if n is None else n
    require(P.shape == (3, n), 'rotor disk points of shape %s for %d points', P.shape, n)
    sh = ref.rot(v, yaw) @ s0
    t = 1e-12*(R*(1+abs(yaw))+abs(hub).max())
    D = P-hub.reshape(3, 1)
    close(np.sqrt((D**2).sum(0)), np.full(n, R), t, 'distance of the rotor disk points to the hub')
    close(sh @ D, np.zeros(n), t, 'axial offset of the rotor disk points')
    if n > 2:                              # a closed, evenly spaced outline: first and last point coincide
        step = np.sqrt((np.diff(D, axis=1)**2).sum(0))
        close(step, np.full(n-1, 2*R*math.sin(PI/(n-1))), t, 'spacing of the rotor disk points')
        close(D[:, 0], D[:, -1], t, 'first and last rotor disk points')
    if n > 1:
        d = np.diff(np.sort(np.mod(np.arctan2(np.cross(sh, D[:, 0]) @ D, D[:, 0] @ D)+1e-7, 2*PI)))
        gap = max(d.max(), 2*PI-d.sum())
        require(gap <= 2*PI/(n-1)+1e-7 if n > 2 else True, 'rotor disk points leave a gap of %.17g rad for %d points', gap, n)


def chk_rot(case):
    u = np.array(case['u'], float)
    f = W.RotMat_AxisAngle
    if np.linalg.norm(u) == 0:
        raise Skip()
    u = u/np.linalg.norm(u)
    if case['snap']:
        u = np.round(u, 15)+0.0
    a, b = case['a'], case['b']
    U = u.reshape(3, 1) if case['as'] == 'column' else u
    A, B = np.asarray(call(f, U, a), float), np.asarray(call(f, U, b), float)
    t = 2e-15*8
    require(A.shape == (3, 3), 'rotation matrix of shape %s', A.shape)
    close(A @ A.T, np.eye(3), t, 'rotation matrix times its transpose')
    close(np.linalg.det(A), 1.0, t, 'determinant of the rotation matrix')
    close(A @ u, u, t, 'axis of the rotation')
    close(np.trace(A), 1+2*math.cos(a), t, 'trace of the rotation matrix')
    w = np.array(case['w'], float)
    close(A @ w, w*math.cos(a)+np.cross(u, w)*math.sin(a)+u*(u @ w)*(1-math.cos(a)), 10*t*(1+abs(w).max()), 'rotated vector (Rodrigues)')
    close(A @ B, np.asarray(call(f, U, a+b), float), t+4e-16*(abs(a)+abs(b)), 'composed rotations')
    close(np.asarray(call(f, U, -a), float), A.T, t, 'rotation by the opposite angle')
    close(np.asarray(call(f, -U, a), float), A.T, t, 'rotation about the opposite axis')


def chk_orth(case):
    u = np.array(case['u'], float)*case['L']
    U = u.reshape(3, 1) if case['as'] == 'column' else u
    if not np.any(u):
        with np.errstate(all='ignore'):
            require(refuses(W.orth_vect, U), 'orthogonal vector to a zero vector accepted')
        return
    keep = U.copy()
    v = np.asarray(call(W.orth_vect, U), float)
    require(np.array_equal(U, keep), 'orth_vect modified its argument')
    require(v.shape == (3, 1), 'orthogonal vector of shape %s', v.shape)
    close(np.linalg.norm(v), 1.0, 1e-14, 'norm of the orthogonal vector to %s', u.tolist())
    close(v.ravel() @ (u/np.linalg.norm(u)), 0.0, 1e-14, 'orthogonal vector against %s', u.tolist())


def chk_transform(case):
    T = ref.rot(case['fr']['axis'], case['fr']['ang'])
    X = gen.XYZ(case['pts'])*case['L']
    if case['shape'] == 'matrix' and X.shape[1] % 2 == 0:
        X = X.reshape(3, 2, -1)
    t = 1e-14*(abs(X).max()+1e-300)
    k = X.copy()
    Y = np.array(call(W.transform, T, X[0], X[1], X[2]), float)
    Z = np.array(call(W.transform_T, T, X[0], X[1], X[2]), float)
    require(np.array_equal(X, k), 'transform modified its arguments')
    close(Y, np.tensordot(T, X, 1), t, 'transform')
    close(Z, np.tensordot(T.T, X, 1), t, 'transform_T')
    close(np.array(call(W.transform_T, T, Y[0], Y[1], Y[2]), float), X, 4*t, 'transform_T after transform')


fx = st.fixed_dictionaries
fr = st.builds(lambda r, s: dict(r, snap=s), gen.rotation, st.booleans())
small = gen.pick(0.0, PI, -PI, other=st.one_of(gen.slogu(-17, -3), gen.slogu(-16, -3).map(lambda x: PI+x)), p=0.5)
ang = gen.pick(0.0, PI/2, -PI/2, PI, -PI, PI/6, 2*PI, other=st.one_of(gen.uni(-PI, PI), gen.uni0(7), gen.slogu(-17, -2), gen.slogu(0, 3), small), p=0.3)
U = gen.pick(10.0, 1.0, other=gen.logu(-3, 3))
op = st.one_of(ang.map(lambda a: dict(k='yaw', a=a)), ang.map(lambda a: dict(k='yaw', a=a)),
               st.builds(lambda a, u: dict(k='wind', a=a, U=u), ang, U), st.builds(lambda a, u: dict(k='along', a=a, U=u), small, U),
               st.lists(gen.uni0(20), min_size=3, max_size=3).map(lambda h: dict(k='pos', h=h)),
               st.sampled_from(['align', 'untwist', 'print', 'align']).map(lambda k: dict(k=k)), fr.map(lambda f: dict(k='axes', fr=f)))
As = st.sampled_from(['list', 'array', 'column'])
comp = gen.pick(0.0, 1.0, -1.0, other=st.one_of(gen.uni0(1), gen.slogu(-17, 0)), p=0.4)
v3 = st.one_of(st.lists(comp, min_size=3, max_size=3), gen.unitvec, gen.unitvec, st.tuples(gen.sgn(), gen.sgn(), gen.sgn(), gen.slogu(-17, -8)).map(lambda t: [t[0]*(1+t[3]), float(t[1]), float(t[2])]))
LAWS = [
    Law('history', fx(dict(fr=fr, R=gen.radius, ops=st.lists(op, min_size=1, max_size=8), nP=gen.pick(None, 1, 2, 3, 4, other=st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 1500)), p=0.4), **{'as': As})), chk_history, 1500, 25000,
        nontrivial=lambda c: any(o.get('a') for o in c['ops']), classify=lambda c: sorted({o['k'] for o in c['ops']})),
    Law('rotation_matrix', fx(dict(u=v3, a=ang, b=ang, w=v3, snap=st.booleans(), **{'as': As})), chk_rot, 800, 15000, nontrivial=lambda c: c['a'] != 0 and any(c['u'])),
    Law('orthogonal_vector', fx(dict(u=st.one_of(v3, v3, v3, st.just([0.0, 0, 0])), L=gen.pick(1.0, other=gen.logu(-6, 6)), **{'as': As})), chk_orth, 800, 15000, nontrivial=lambda c: any(c['u'])),
    Law('transforms', fx(dict(fr=gen.rotation, pts=gen.points('generic', 'grid', 'far'), L=gen.logu(-3, 3), shape=st.sampled_from(['vector', 'matrix']))), chk_transform, 400, 8000, nontrivial=lambda c: c['fr']['ang'] != 0),
]
