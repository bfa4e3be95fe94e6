"""C28 the blockage-study helpers: models, stored planes, rebuilt farms, comparison measures and drawings"""
import importlib.util, math, os, shutil, tempfile, types
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call, vec, REPO
import gen, ref, turb
from wiz import VortexCylinder as VC
from wiz.VortexDoublet import doublet_line_u
from wiz.SelfSimilar import ss_u
from wiz.Solver import Ct_const_cutoff

RULE = ('cases draw study set-ups (thrust, hub height, tip-speed ratio, yaw, model, wind speed, strength or centre velocity), stored planes and volumes with their names, grids, tables of thrust, curves, missing points, limits; '
        'a case counts when the thrust or strength is not zero, or the stored values differ somewhere')
ASSUMPTIONS = ['data files are written by the check, in the format that the helpers read, in a scratch folder with the layout the scripts expect (../data)',
               'the strength of a thrust comes from the solver module (C20, C21); the models other than the tubular wake come from their element routines (C05, C08, C14)']
_H = []
ID = dict(axis=[0, 1.0, 0], ang=0.0)
RAD = math.pi/180


def helpers():
    if not _H:
        p = os.path.join(REPO, 'wiz', 'article_blockage', 'helper_functions.py')
        spec = importlib.util.spec_from_file_location('wiz_blockage_helpers', p)
        m = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(m)
        except Exception as e:
            raise Violation('helper_functions cannot be imported: %r' % (e,))
        _H.append(m)
    return _H[0]


class folder:
    """ scratch/run is the current folder, scratch/data the data """
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='wizc28.'); self.cwd = os.getcwd()
        os.makedirs(os.path.join(self.d, 'run')); os.makedirs(os.path.join(self.d, 'data', 'Ground')); os.makedirs(os.path.join(self.d, 'data', 'ProjCorr'))
        os.chdir(os.path.join(self.d, 'run'))
        return os.path.join(self.d, 'data')

    def __exit__(self, *a):
        os.chdir(self.cwd); shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ set-up of a study model
def study(case):
    """ state of the turbine of the study: hub above the origin, shaft along z, vertical y, wind yawed, skew of the thrust """
    CT, lam, U = case['CT'], case['lam'], case['U0']
    swirl = lam < 30
    vr = np.linspace(0, 1, 100)
    ct = Ct_const_cutoff(CT, 0.10 if swirl else 0.0, vr)
    s = dict(R=1.0, hub=[0.0, case['HH'], 0.0], fr=ID, yaw=0.0, dw=case['yaw']*RAD, U=U,
             load=dict(k='ct', r=vr.tolist(), c=ct.tolist(), n=30 if swirl else 1, lam=lam))
    chi = case['yaw']*(1+0.3*(1-math.sqrt(1-CT)))*RAD
    return s, chi


def strengths(case, s, g=None):
    if g is not None:
        return np.array([1.0]), np.array([g]), None, None
    radii, gt, _, _ = turb.tubes_of(s)
    return radii, gt, None, None


def field(case, s, chi, t, Q):
    """ velocity relative to the hub of the wake (and of its image) and the wind """
    h = case['HH']
    u = np.zeros(Q.shape)
    for off in ([0.0, 2*h] if h < 9 else [0.0]):
        P = Q+np.array([[0.0], [off], [0.0]])
        if case['model'] == 'VC':
            u += turb.ref_local(s, P, chi, True, False, False, t)
        elif case['model'] == 'VCFF':
            u += np.array(VC.vc_tang_u_doublet(P[0], P[1], P[2], t[1][0], 1.0, 6, False))
        elif case['model'] == 'VD':
            u += np.array(doublet_line_u(P[0], P[1], P[2], math.pi*t[1][0]))
        else:
            u[2] += ss_u(P[0], P[1], P[2], t[1][0], 1.0)
    w = case['U0']*np.array([[math.sin(case['yaw']*RAD)], [0.0], [math.cos(case['yaw']*RAD)]])
    return u+w


def fake_AD(case, u_center):
    """ a plane of data with a known velocity at the centre """
    H = helpers()
    AD = H.OutputAD()
    AD.CT, AD.HH, AD.Lambda, AD.Yaw, AD.Horizontal, AD.Vertical = case['CT'], case['HH'], case['lamA'], case['yaw'], case['hor'], not case['hor']
    a = np.linspace(-1, 1, 5); AD.z = np.linspace(-2, 2, 9)
    if case['hor']:
        AD.x, AD.y = a, 0
    else:
        AD.x, AD.y = 0, a
    AD.W = u_center+np.add.outer(AD.z, 0.3*a)
    return AD


def chk_model(case):
    H = helpers()
    case = dict(case)
    if case['model'] != 'VC':
        case['yaw'], case['lam'] = 0, 99
    if case['lam'] == 'inf':
        case['lam'] = np.inf
    case['lamA'] = case['lam']
    s, chi = study(case)
    kw = dict(CT=case['CT'], HH=case['HH'], Lambda=case['lam'], Horizontal=case['hor'], Yaw=case['yaw'])
    g = None
    if case['how'] == 'match':
        uc = case['uc']*case['U0']
        g = -(case['U0']*math.cos(case['yaw']*RAD)-uc)*2
        kw = dict(AD=fake_AD(case, uc), MatchMidVel=True)
    if case['how'] == 'gamma' or case['both']:
        g = case['g']; kw['gamma_t'] = g
    if case['U0'] != 1:
        kw['U0'] = case['U0']
    if case['model'] != 'VC' or case['both']:
        kw['Model'] = case['model']
    V = call(H.setupModel, **kw)
    for a, b in (('CT', 'CT'), ('HH', 'HH'), ('Lambda', 'lam'), ('Yaw', 'yaw'), ('Horizontal', 'hor')):
        require(getattr(V, a, None) == case[b], '%s of the study model is %r instead of %r', a, getattr(V, a, None), case[b])
    t = strengths(case, s, g)
    sc = np.abs(t[1]).sum()
    Q = turb.wake_points(s, case['pts'], chi)
    sg = dict(s, load=dict(k='fun', f=1.0, c=[1.0], n=1)) if len(t[0]) == 1 else s
    k = turb.good(sg, Q, dmin=0.02 if len(t[0]) == 1 else 0.005, line=True, chi=chi)
    if case['HH'] < 9:                     # the image may touch the points too
        k = [i for i in k if i in turb.good(sg, Q+np.array([[0.0], [2*case['HH']], [0.0]]), dmin=0.02 if len(t[0]) == 1 else 0.005, line=True, chi=chi)]
    if len(k) == 0:
        raise Skip()
    Q = Q[:, k]
    want = field(case, s, chi, t, Q)
    tol = turb.tol_field(sg, Q, 2*sc, chi)+1e-12*(1+case['U0'])
    if case['HH'] > 100:
        tol = tol+1e-13*case['HH']*sc*1e3   # coordinates relative to the hub are rounded
    got = vec(V.fU, 3, Q[0].shape, Q[0].copy(), Q[1].copy(), Q[2].copy())
    close(got, want, tol, 'velocity of the study model (%s, yaw %s, hub at %s)', case['model'], case['yaw'], case['HH'])
    # the other ways of sampling the same field
    vx, vz = np.array(case['va'][:3]), np.array(case['va'][2:])
    f = lambda x, y, z: vec(V.fU, 3, np.shape(x), np.array(x, float), np.array(y, float), np.array(z, float))
    te = 1e-11*(sc+case['U0'])*(1+case['HH'] if case['HH'] < 100 else 1e4)
    ok = lambda a: np.where(np.isfinite(a) & (np.abs(a) < 1e3*(sc+case['U0'])), a, 0)
    X, Z = np.meshgrid(vx, vz); O = 0*X
    for name, axes, idx, pts in (('fHorz', (X, Z), (0, 2), (X, O, Z)), ('fVert', (X, Z), (1, 2), (O, X, Z))):
        r = call(getattr(V, name), vx.copy(), vz.copy())
        require(len(r) == 4, '%s returned %d arrays', name, len(r))
        close(r[0], axes[0], 0, 'lateral coordinates of %s', name); close(r[1], axes[1], 0, 'axial coordinates of %s', name)
        u = f(*pts)
        close(ok(r[2]), ok(u[idx[0]]), te, 'lateral velocity of %s', name); close(ok(r[3]), ok(u[idx[1]]), te, 'axial velocity of %s', name)
    z = np.array(case['va'])
    close(ok(vec(V.fAxial, 3, z.shape, z.copy())), ok(f(0*z, 0*z, z)), te, 'velocity on the axis')
    z0 = case['z0']
    a = vec(V.fRadial, 3, z.shape, z.copy(), z0) if z0 else vec(V.fRadial, 3, z.shape, z.copy())
    close(ok(a), ok(f(z, 0*z, 0*z+z0) if case['hor'] else f(0*z, z, 0*z+z0)), te, 'velocity on a radial line')


# ------------------------------------------------------------------------------------------------ stored planes
def axis_values(a0, steps, n):
    return np.round(np.cumsum([a0]+[steps[i % len(steps)] for i in range(n-1)]), 2)


def data(case, n, m, k=0):
    c = case['c']
    return np.array([[c[(i*m+j*3+k) % len(c)]+0.1*i-0.07*j*(k+1) for j in range(m)] for i in range(n)], float)


def store(case, d):
    """ writes the plane of the study in the published naming, returns the arrays """
    import scipy.io
    CT, HH, hor = case['CT'], case['HH'], case['hor']
    lam = 99 if case['lam'] == 'inf' or case['lam'] > 20 else case['lam']
    a = axis_values(case['a0'], case['steps'], case['na']); z = axis_values(case['z0'], case['steps'][::-1], case['nz'])
    W, U, V, O = [data(case, len(z), len(a), k) for k in range(4)]
    if case['poly'] is not None:          # a polynomial that the cubic interpolation reproduces
        p = case['poly']; A, Z = np.meshgrid(a, z)
        W = p[0]+p[1]*A+p[2]*Z+p[3]*A*Z+p[4]*A**3/10+p[5]*Z**2*A/10
    h10 = 99 if HH > 9 else round(HH*10)
    base = 'CT0%d_HH%02d_Lambda%02d_Yaw%02d' % (round(CT*100), h10, lam, -case['yaw'])
    if HH > 9:
        A, Z = np.meshgrid(a, z)
        scipy.io.savemat(os.path.join(d, 'AD_%s.mat' % base), dict(x=A, z=Z, u=U, v=V, w=W))
    else:
        g = os.path.join(d, 'Ground')
        sv = lambda n, x: np.savetxt(os.path.join(g, n), x, delimiter=',', fmt='%.17g')
        if hor:
            sv('Horizontal_X.csv', a); sv('Horizontal_Z.csv', z)
        else:
            sv('Vertical_Z.csv', z); sv('Vertical_Y_HH%s.csv' % ('20' if HH == 2.0 else '15'), a)
            sv('Vertical_Y_HH%s.csv' % ('15' if HH == 2.0 else '20'), a*7+1)
        s = 'Horizontal' if hor else 'Vertical'
        for n, x in (('U', U), ('V', V), ('W', W), ('Om', O)):
            sv('%s_%s_%s.csv' % (base, s, n), x)
    return a, z, U, V, W, O


def normal(case):
    case = dict(case)
    if case['HH'] > 9:
        case['hor'] = True
        if case['yaw'] != 0:
            case['lam'] = 'inf'
    else:
        case['yaw'] = 0
    if case['HH'] not in (1.5, 2.0):
        case['hor'] = True
    return case


def near0(a):
    return int(np.argmin(np.abs(a)))


def chk_plane(case):
    H = helpers()
    case = normal(case)
    lam = np.inf if case['lam'] == 'inf' else case['lam']
    with folder() as d:
        a, z, U, V, W, O = store(case, d)
        AD = call(H.loadPlane, case['CT'], case['HH'], lam, case['hor'], case['yaw'])
        require(AD is not None, 'an existing plane is reported as missing')
    if len(set(np.abs(a))) != len(a) or len(set(np.abs(z))) != len(z):   # ties of the sample nearest to the centre
        tie = sorted(np.abs(a))[:2] == [sorted(np.abs(a))[0]]*2 or sorted(np.abs(z))[:2] == [sorted(np.abs(z))[0]]*2
    else:
        tie = False
    A, Z = np.meshgrid(a, z)
    lat = 'X' if case['hor'] else 'Y'
    close(getattr(AD, lat), A, 1e-9, 'lateral coordinates of the plane'); close(AD.Z, Z, 1e-9, 'axial coordinates of the plane')
    for n, x in (('U', U), ('V', V), ('W', W)):
        close(getattr(AD, n), x, 1e-14*(1+np.abs(x).max()), 'stored component %s', n)
    if case['HH'] <= 9:
        close(AD.O, O, 1e-14*(1+np.abs(O).max()), 'stored vorticity')
    require(AD.CT == case['CT'] and AD.Yaw == case['yaw'] and AD.Horizontal == case['hor'] and AD.Vertical != case['hor'], 'description of the plane')
    call(AD.setupInterpolants)
    sc = 1+max(np.abs(x).max() for x in (U, V, W)); it = 1e-9*sc
    o = 0*A
    P = (A, o, Z) if case['hor'] else (o, A, Z)
    lateral = U if case['hor'] else V
    for f, comps in ((AD.fU, (lateral, W)), (AD.fW, (0*W, W))):
        r = vec(f, 3, A.shape, *[p.copy() for p in P])
        close(r[2], W, it, 'axial velocity interpolated at the samples (%s)', f.__name__)
        close(r[0 if case['hor'] else 1], comps[0], it, 'lateral velocity interpolated at the samples (%s)', f.__name__)
        close(r[1 if case['hor'] else 0], o, 0, 'velocity normal to the plane (%s)', f.__name__)
    if case['poly'] is not None:
        p = case['poly']
        s = np.array([q[0] for q in case['q']]); t = np.array([q[1] for q in case['q']])
        s, t = a[0]+(a[-1]-a[0])*s, z[0]+(z[-1]-z[0])*t
        w = p[0]+p[1]*s+p[2]*t+p[3]*s*t+p[4]*s**3/10+p[5]*t**2*s/10
        r = vec(AD.fW, 3, s.shape, *((s, 0*s, t) if case['hor'] else (0*s, s, t)))
        close(r[2], w, 1e-7*(sc+np.abs(w).max()), 'interpolation of a cubic')
    f = call(AD.fHorz, 0, 0) if case['hor'] else call(AD.fVert, 0, 0)
    for n, x, w in zip(('lateral coordinates', 'axial coordinates', 'lateral velocity', 'axial velocity'), f, (A, Z, lateral, W)):
        close(x, w, 1e-9 if 'coord' in n else 1e-14*sc, '%s of the plane', n)
    i, j = near0(z), near0(a)
    if not tie:
        close(call(AD.fCenter), W[i, j], 1e-14*sc, 'velocity at the centre')
        s = z[0]+(z[-1]-z[0])*np.array([q[1] for q in case['q']])
        got = vec(AD.fAxial, 3, s.shape, s.copy())
        close(got, [np.interp(s, z, x[:, j]) for x in (U, V, W)], 1e-12*sc, 'velocity on the axis of the data')
    k = case['iz'] % len(z)
    s = a[0]+(a[-1]-a[0])*np.array([q[0] for q in case['q']])
    got = vec(AD.fRadial, 3, s.shape, s.copy(), z[k])
    close(got, [np.interp(s, a, x[k, :]) for x in (U, V, W)], 1e-12*sc, 'velocity on a radial line of the data')


def volume(case, d, CT, HH, suffix):
    """ a volume of the projection method: coordinates x (axial), y (lateral), z (vertical) """
    x = axis_values(case['z0'], case['steps'], case['nz']); y = axis_values(case['a0'], case['steps'][::-1], case['na']); z = axis_values(HH+case['zv'], [0.4, 0.7, 0.3], 6)
    c = case['c']
    f = lambda k: np.array([[[c[(i*7+j*3+l*5+k) % len(c)]+0.1*i-0.05*j+0.2*l*(k+1) for l in range(len(z))] for j in range(len(y))] for i in range(len(x))])
    u, v, w = f(0), f(1), f(2)
    np.savez(os.path.join(d, 'ProjCorr', 'Layout1x1_CT0%02d%s.npz' % (round(CT*100), suffix)), x1=x, y1=y, z1=z, u=u, v=v, w=w)
    return x, y, z, u, v, w


def chk_volume(case):
    H = helpers()
    HH = case['h']
    with folder() as d:
        x, y, z, u, v, w = volume(case, d, case['CT'], HH, case['suffix'])
        kw = dict(suffix=case['suffix']) if case['suffix'] != '_rev1_df01R_noGE' else {}
        G = call(H.OutputProj, case['CT'], HH=HH, Lambda=99, Horizontal=case['hor'], **kw)
    A = y if case['hor'] else z-HH
    k = near0(z-HH if case['hor'] else y)
    srt = sorted(np.abs(z-HH if case['hor'] else y))
    if srt[1]-srt[0] < 1e-9:
        raise Skip()
    W = u[:, :, k] if case['hor'] else u[:, k, :]
    X, L = np.meshgrid(x, A, indexing='ij')
    close(G.Z, X, 1e-12, 'axial coordinates of the slice'); close(G.X if case['hor'] else G.Y, L, 1e-12, 'lateral coordinates of the slice')
    close(G.W, W, 1e-14*(1+np.abs(W).max()), 'axial velocity of the slice')
    call(G.setupInterpolants)
    o = 0*X
    r = vec(G.fW, 3, X.shape, *((L, o, X) if case['hor'] else (o, L, X)))
    close(r, [o, o, W], 1e-9*(1+np.abs(u).max()), 'slice interpolated at its samples')


# ------------------------------------------------------------------------------------------------ farms of the study
def tube_at(P, hub, g, ground):
    """ induction (along x) of a tube of radius one half at a hub, and of its image """
    u = np.zeros(P.shape)
    for s in ((1, -1) if ground else (1,)):
        Q = P-np.array([[hub[0]], [hub[1]], [s*hub[2]]])
        uy, uz, ux = VC.vc_tang_u(Q[1], Q[2], Q[0], g, 0.5, False)
        u += np.array([ux, uy, uz])
    return u


def gam(case, ct):
    if case['fun'] is not None:
        return -(case['fun'][0]*ct+case['fun'][1]*ct**2)
    return -(1-math.sqrt(1-ct)) if ct <= 4*0.34*0.66 else -2*(ct-4*0.34**2)/(4*(1-2*0.34))


def chk_farm(case):
    H = helpers()
    fun = None if case['fun'] is None else (lambda C: H.gamma_CT_fun(np.asarray(C), *[x/2 for x in case['fun']]+[0, 0]))
    kw = {} if fun is None else dict(gamma_t_Ct=fun)
    nx, ny = case['nx'], case['ny']
    ct = np.array([[case['ct'][(i*ny+j*2) % len(case['ct'])] for j in range(ny)] for i in range(nx)])
    S, h = case['S'], case['h']
    ground = h < 10
    hubs = np.array([[j*S, (i-nx//2)*S, h] for i in range(nx) for j in range(ny)], float); cts = ct.ravel()
    P = np.array(case['P'], float).T+np.array([[0.0], [0.0], [h]])
    d = np.min([np.abs(np.hypot(P[1]-q[1], P[2]-sg*q[2])-0.5) for q in hubs for sg in (1, -1)], axis=0)
    ax = np.min([np.hypot(P[1]-q[1], P[2]-sg*q[2]) for q in hubs for sg in (1, -1)], axis=0)
    P = P[:, (d > 1e-3) & ((ax > 1e-3) | (ax == 0))]
    if P.shape[1] == 0:
        raise Skip()
    ind = sum(tube_at(P, q, gam(case, c), ground) for q, c in zip(hubs, cts))
    sc = 1+sum(abs(gam(case, c)) for c in cts)
    tol = 1e-7*sc
    if case['kind'] == 'table':
        F = call(H.VCFarmFromFloris, ct.copy(), h, S, **kw)
        require(len(F) == nx*ny, '%d turbines instead of %d', len(F), nx*ny)
        got = vec(F.velocity_field, 3, P[0].shape, P[0], P[1], P[2], U0=[1, 0, 0])
        close(got, ind+np.array([[1.0], [0], [0]]), tol, 'farm of a table of thrusts')
        return
    n = P.shape[1]
    T = P+np.array([[0.3], [S/2], [0.05]]); dT = np.min([np.abs(np.hypot(T[1]-q[1], T[2]-sg*q[2])-0.5) for q in hubs for sg in (1, -1)], axis=0)
    k = np.argsort([case['perm'][i % len(case['perm'])]+1e-6*i for i in range(len(hubs))])
    xyz = np.zeros((n, 3, 2)); xyz[:, :, 0] = P.T; xyz[:, :, 1] = T.T
    A = dict(xyz_wt=hubs[k].copy(), ct_wt=cts[k].copy(), xyz=xyz.copy())
    mid, top = call(H.ADFarm2VCFarm, A, 'farm', **kw)
    close(mid, ind[0]+1, tol, 'velocity along the middle line')
    if len(hubs) > 1:
        g = dT > 1e-3
        if g.any():
            it = sum(tube_at(T[:, g], q, gam(case, c), ground) for q, c in zip(hubs, cts))
            close(np.asarray(top)[g], it[0]+1, tol, 'velocity along the top line')
    else:
        close(top, 0*mid, 0, 'top line of a single turbine')
    require(np.array_equal(A['xyz'], xyz) and np.array_equal(A['ct_wt'], cts[k]), 'the data of the farm are modified')


# ------------------------------------------------------------------------------------------------ comparison measures
def chk_measures(case):
    H = helpers()
    X = np.linspace(-6, 3, case['n']); X = X+0.03*np.sin(3*X)
    u1 = 0.5+np.array([case['c'][i % len(case['c'])] for i in range(len(X))])
    e = case['e']
    for name in ('relerrinduction', 'relerrinduction_mid', 'relerrinduction_25'):
        f = getattr(H, name)
        close(call(f, X, u1, u1*(1+e)), 100*abs(e), 1e-9, '%s of curves in the ratio %s', name, 1+e)
        close(call(f, X, 3*u1, 3*u1[::-1]), call(f, X, u1, u1[::-1]), 1e-8*(1+abs(call(f, X, u1, u1[::-1]))), '%s in other units', name)
    at = lambda x0, u: np.interp(x0, X, u)
    v = u1[::-1]
    close(call(H.relerrinduction_mid, X, u1, v), 100*abs(at(0, u1)-at(0, v))/at(0, u1), 1e-9*(1+1e2), 'error at the rotor')
    close(call(H.relerrinduction_25, X, u1, v), 100*abs(at(-2.5, u1)-at(-2.5, v))/at(-2.5, u1), 1e-9*(1+1e2), 'error at 2.5 units upstream')
    # only the range is compared
    lo, hi = case['r']
    inside = (X >= lo-0.7) & (X <= hi+0.7)
    a = call(H.relerrinduction, X, u1, np.where(inside, u1*(1+e), u1*7), x1=lo, x2=hi)
    if X[inside].min() <= lo and X[inside].max() >= hi:
        close(a, 100*abs(e), 1e-9, 'error between %s and %s', lo, hi)
    p = case['p']
    close(call(H.gamma_CT_fun, np.array([0.2, 0.9]), *p), [-2*sum(p[k]*c**(k+1) for k in range(4)) for c in (0.2, 0.9)], 1e-12*(1+sum(map(abs, p))), 'strength of the fitted thrust function')
    v = case['e']*9
    r = call(H.find_nearest, list(u1), v)
    require(r[0] == u1[r[1]] and abs(r[0]-v) <= np.abs(u1-v).min()+1e-15, 'nearest value to %s is not %s', v, r)
    with folder():
        ob = dict(a=u1, b=[case['e'], None, 'x'], c={'d': X})
        call(H.save_obj, ob, 'obj'); call(H.save_obj, [1], 'other')
        g = call(H.load_obj, 'obj')
        require(set(g) == set(ob) and np.array_equal(g['a'], u1) and g['b'] == ob['b'] and np.array_equal(g['c']['d'], X), 'stored object read back differently')


def chk_relerr(case):
    """ relative error of the models against a stored plane, over lines in given directions """
    H = helpers()
    case = normal(dict(case, yaw=0, HH=case['HH2']))
    hor = case['hor']
    lam = np.inf if case['lam'] == 'inf' else case['lam']
    ang = np.array(case['ang']); off = np.array(case['off'][:len(ang)]); ang = ang[:len(off)]
    with folder() as d:
        a = np.round(np.linspace(-6, 6, 13), 2); z = np.round(np.linspace(-6, 6, 13), 2)
        c2 = dict(case, a0=-6.0, z0=-6.0, steps=[1.0], na=13, nz=13, poly=[3.0]+[x/40 for x in case['poly6']])
        _, _, U, V, W, _ = store(c2, d)
        volume(dict(case, a0=-6.0, z0=-6.0, steps=[1.0], na=13, nz=13), d, case['CT'], case['h'], '_s')
        names = case['models']
        rho = -np.array(case['rho'])
        args = (ang, off, rho, case['user'], case['CT'], [dict(name=n) for n in names], case['match'])
        kw = dict(HH=case['HH'], Lambda=lam, Yaw=0, Horizontal=hor, suffix_GP='_s', HH_GP=case['h'])
        RE, MRE = call(H.getModelsRelErr, *args, **kw)
        AD = H.loadPlane(CT=case['CT'], HH=case['HH'], Lambda=lam, Horizontal=hor, Yaw=0); AD.setupInterpolants()
        GP = H.OutputProj(CT=case['CT'], HH=case['h'], Lambda=lam, suffix='_s', Horizontal=hor); GP.setupInterpolants()
    for n, R, M in zip(names, RE, MRE):
        w = []
        for t, o in zip(ang, off):
            Z = rho*np.cos(t) if case['user'] else rho
            X = -rho*np.sin(t) if case['user'] else 0*rho+o
            P = (X, 0*X, Z) if hor else (0*X, X, Z)
            ad = AD.fW(*P)[2]
            if n == 'AD':
                v = ad
            elif n == 'GP':
                v = GP.fW(*P)[2]
            else:
                v = H.setupModel(AD, MatchMidVel=case['match'], Model=n).fU(*P)[2]
            w.append((v-ad)/ad*100)
        w = np.array(w)
        close(R, w, 1e-9*(1+np.abs(w)), 'relative error of %s', n)
        close(M, w.mean(0), 1e-9*(1+np.abs(w).max(0)), 'mean relative error of %s', n)


# ------------------------------------------------------------------------------------------------ drawings
def chk_draw(case):
    import matplotlib.pyplot as plt
    H = helpers()
    a = axis_values(case['a0'], case['steps'], case['na']); z = axis_values(case['z0'], case['steps'][::-1], case['nz'])
    A, Z = np.meshgrid(a, z)
    W, L, O = data(case, len(z), len(a), 0), data(case, len(z), len(a), 1), data(case, len(z), len(a), 2)
    for i, j, k in case['nan']:
        if i < len(z) and j < len(a):
            (W, L, O)[k % 3][i, j] = np.nan
            if k > 2:
                W[i, j] = L[i, j] = O[i, j] = np.nan
    comp = case['comp']
    vert = case['vert'] and comp != 'Vorticity'
    S = W if comp == 'Axial' else O if comp == 'Vorticity' else np.hypot(W, L)
    fin = np.isfinite(S)
    if not fin.any():
        raise Skip()
    lo, hi = S[fin].min(), S[fin].max(); kw = {}
    if case['lo'] is not None:
        kw['minSpeed'] = lo = case['lo']
    if case['hi'] is not None:
        kw['maxSpeed'] = hi = case['hi']
    if comp != 'Axial' or case['vert']:
        kw['component'] = comp
    fig, ax = plt.subplots()
    try:
        if vert:
            im, ax2, fig2 = call(H.plotPlaneVert, A.copy(), Z.copy(), L.copy(), W.copy(), ax=ax, **kw)
            S2, f2 = S.T, fin.T
        else:
            n = 'X' if case['hor'] else 'Y'
            D = types.SimpleNamespace(**{'Z': Z.copy(), n: A.copy(), 'W': W.copy(), 'U' if case['hor'] else 'V': L.copy(), 'O': O.copy()})
            im, ax2, fig2 = call(H.plotPlane, D, ax=ax, Horizontal=case['hor'], **kw)
            S2, f2 = S, fin
        require(ax2 is ax and im.axes is ax, 'the plane is not drawn on the given axes')
        M = np.ma.asarray(im.get_array())
        require(M.size == S2.size, 'drawn plane has %d values instead of %d', M.size, S2.size)
        M = M.reshape(S2.shape)
        require(np.array_equal(np.ma.getmaskarray(M), ~f2), 'points without velocity are not exactly the ones left out')
        close(np.asarray(M)[f2], S2[f2], 1e-12*(1+np.abs(S2[f2]).max()), 'drawn values')
        if lo < hi:
            tl = 1e-12*(1+abs(lo)+abs(hi))
            close(im.norm.vmin, lo, tl, 'lower limit of the colours'); close(im.norm.vmax, hi, tl, 'upper limit of the colours')
        # where the values are drawn: centres of the cells on the given coordinates
        c = np.asarray(im._coordinates)
        mid = (c[:-1, :-1]+c[1:, 1:]+c[1:, :-1]+c[:-1, 1:])/4
        X2, Y2 = (np.meshgrid(z, a) if vert else (Z, A))
        if np.allclose(np.diff(a), a[1]-a[0]) and np.allclose(np.diff(z), z[1]-z[0]):
            close(mid[..., 0], X2, 1e-9*(1+np.abs(z).max()), 'axial position of the drawn values'); close(mid[..., 1], Y2, 1e-9*(1+np.abs(a).max()), 'lateral position of the drawn values')
    finally:
        plt.close('all')


# ------------------------------------------------------------------------------------------------ strategies
cts = gen.pick(0.4, 0.95, 0.29, 0.57, 0.8, other=st.integers(5, 99).map(lambda k: k/100), p=0.4)
num = gen.uni(-1, 2)
C = dict(c=st.lists(num, min_size=2, max_size=9))
G = dict(a0=gen.pick(-2.0, -3.0, other=gen.uni(-4, 0), p=0.4), z0=gen.pick(-2.0, -3.0, other=gen.uni(-6, 0), p=0.4), steps=gen.pick([1.0], [0.5], other=st.lists(gen.uni(0.1, 1.5).map(lambda x: max(0.1, round(x, 2))), min_size=1, max_size=4), p=0.3), na=st.integers(5, 9), nz=st.integers(5, 9))
model = st.fixed_dictionaries(dict(CT=gen.pick(0.4, 0.95, 0.8, other=gen.uni(0.02, 0.97), p=0.3), HH=gen.pick(9999, 1.5, 2.0, 9.9, 1, other=gen.uni(0.2, 20), p=0.5), lam=st.sampled_from(['inf', 'inf', 99, 6, 10, 30, 29.5]),
                                   yaw=gen.pick(0, -30, 30, -10, 20, other=gen.uni0(45), p=0.6), U0=gen.pick(1, 1, 8.0, other=gen.uni(0.3, 12)), hor=st.booleans(), model=st.sampled_from(['VC']*4+['VD', 'SS', 'VCFF']),
                                   how=st.sampled_from(['thrust', 'thrust', 'gamma', 'match']), both=st.booleans(), g=gen.slogu(-1, 0.3), uc=gen.uni(0.2, 1), z0=gen.pick(0.0, other=gen.uni(-3, 3)),
                                   va=st.lists(gen.uni0(4), min_size=5, max_size=6), pts=gen.points('generic', 'outside', 'inside', 'plane', 'up', 'axis', 'grid', lo=1, hi=5)))
plane = st.fixed_dictionaries(dict(C, **G, CT=cts, HH=st.sampled_from([9999, 99, 9.9, 1.5, 2.0, 2.3, 4.1, 1]), lam=st.sampled_from(['inf', 99, 6, 30]), yaw=st.sampled_from([0, 0, -10, -30, -5]), hor=st.booleans(), iz=st.integers(0, 8),
                                   poly=st.one_of(st.none(), st.lists(num, min_size=6, max_size=6)), q=st.lists(st.tuples(gen.uni(0, 1), gen.uni(0, 1)), min_size=1, max_size=4)))
vol = st.fixed_dictionaries(dict(C, **G, CT=cts, h=gen.uni(0, 5).map(lambda x: round(x, 2)), zv=gen.uni(-2, 0.3), hor=st.booleans(), suffix=st.sampled_from(['_rev1_df01R_noGE', '_a', ''])))
farm = st.fixed_dictionaries(dict(kind=st.sampled_from(['table', 'lines']), nx=st.sampled_from([1, 1, 2, 3, 4]), ny=st.sampled_from([1, 1, 2, 3, 4]), ct=st.lists(gen.uni(0.05, 0.96), min_size=1, max_size=7), S=gen.pick(2, 4.0, other=gen.uni(1.5, 9)), h=gen.pick(1.5, 9999.0, 20, 9.9, other=gen.uni(0.6, 12), p=0.5),
                                  fun=st.one_of(st.none(), st.lists(gen.uni(0.05, 0.6), min_size=2, max_size=2)), perm=st.lists(st.integers(0, 9), min_size=1, max_size=9), P=st.lists(st.tuples(gen.uni(-6, 20), gen.uni0(8), gen.uni(-0.5, 2)), min_size=1, max_size=5)))
meas = st.fixed_dictionaries(dict(c=st.lists(gen.uni(0.05, 1), min_size=2, max_size=9), n=st.integers(15, 60), e=gen.uni0(0.5), r=st.tuples(gen.uni(-5, -2), gen.uni(-1.5, 1)), p=st.lists(num, min_size=4, max_size=4)))
rel = st.fixed_dictionaries(dict(C, CT=cts, hor=st.booleans(), HH2=st.sampled_from([9999, 1.5, 2.0]), lam=st.sampled_from(['inf', 99]), h=gen.uni(0, 5).map(lambda x: round(x, 2)), zv=gen.uni(-2, 0.3), user=st.booleans(), match=st.booleans(), poly6=st.lists(num, min_size=5, max_size=5),
                                 models=st.lists(st.sampled_from(['AD', 'VC', 'VD', 'SS', 'GP']), min_size=1, max_size=4), rho=st.lists(gen.uni(1.2, 5.5), min_size=2, max_size=4), ang=st.lists(gen.uni0(1.4), min_size=1, max_size=3), off=st.lists(gen.uni0(3), min_size=3, max_size=3)))
draw = st.fixed_dictionaries(dict(C, **G, nan=st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6), st.integers(0, 5)), max_size=3), comp=st.sampled_from(['Axial', 'Axial', 'Speed', 'Vorticity']), vert=st.booleans(), hor=st.booleans(),
                                  lo=gen.pick(None, None, 0.5, other=gen.uni(-3, -1)), hi=gen.pick(None, None, 1.05, other=gen.uni(3, 20))))
differ = lambda c: any(a != c['c'][0] for a in c['c'])
LAWS = [
    Law('study_models', model, chk_model, 1200, 6000, classify=lambda c: [c['model'], c['how'], 'ground' if c['HH'] < 9 else 'free', 'yawed' if c['yaw'] else 'aligned', 'swirl' if c['lam'] not in ('inf', 99) and c['lam'] < 30 else 'one tube']+gen.classes_of(c)),
    Law('stored_planes', plane, chk_plane, 500, 4000, nontrivial=differ, classify=lambda c: ['ground' if c['HH'] <= 9 else 'free', 'horizontal' if c['hor'] else 'vertical', 'polynomial' if c['poly'] else 'values']),
    Law('volumes', vol, chk_volume, 250, 2000, nontrivial=differ, classify=lambda c: ['horizontal' if c['hor'] else 'vertical']),
    Law('farms', farm, chk_farm, 600, 4000, classify=lambda c: [c['kind'], 'ground' if c['h'] < 10 else 'free', 'thrust' if c['fun'] is None else 'function']),
    Law('measures', meas, chk_measures, 200, 2000, nontrivial=lambda c: len(set(c['c'])) > 1),
    Law('relative_errors', rel, chk_relerr, 160, 800, nontrivial=lambda c: set(c['models']) - {'AD'} != set(), classify=lambda c: c['models']),
    Law('drawings', draw, chk_draw, 400, 3000, nontrivial=differ, classify=lambda c: [c['comp'], 'nan' if c['nan'] else 'full']),
]
