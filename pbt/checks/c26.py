"""C26 velocity planes exchanged with FLORIS are extracted, stored, read back and drawn unchanged"""
import importlib.util, os, shutil, sys, tempfile, types
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call, REPO
import gen

RULE = ('cases draw plane sizes, coordinates, velocities (NaN included when drawing), normalising wind speeds, file prefixes, orders of saving and loading, requested speed limits; '
        'a case counts when the two velocity components differ somewhere')
ASSUMPTIONS = ['FLORIS is not installed here: a stand-in with the interface used by the helpers (its horizontal plane keeps velocities as flat arrays, lateral index slowest) takes its place',
               'file prefixes lie in an existing scratch folder']


def stub():
    """ the helpers import floris at the top: a stand-in module that records what it is asked for """
    class Vec3:
        def __init__(self, a, b, c): self.x1, self.x2, self.x3 = a, b, c

    class HorPlane:
        def __init__(self, data, z): self.__dict__.update(data['plane']); LOG.append(('plane', data['id'], z))

    class Turbine:
        def __init__(self, h): self.hub_height = h

    class FlorisInterface:
        def __init__(self, f):
            LOG.append(('open', f))
            self.floris = types.SimpleNamespace(farm=types.SimpleNamespace(turbines=[Turbine(h) for h in WORLD['heights']]))

        def calculate_wake(self, **kw): LOG.append(('wake', kw))

        def get_flow_data(self, **kw): LOG.append(('flow', kw)); return WORLD
    fl, tools, util = types.ModuleType('floris'), types.ModuleType('floris.tools'), types.ModuleType('floris.utilities')
    tools.floris_utilities = types.SimpleNamespace(FlorisInterface=FlorisInterface)
    tools.cut_plane = types.SimpleNamespace(HorPlane=HorPlane)
    util.Vec3 = Vec3; fl.tools, fl.utilities = tools, util
    sys.modules.update({'floris': fl, 'floris.tools': tools, 'floris.utilities': util})


LOG, WORLD = [], {}
_H = []


def helpers():
    if not _H:
        stub()
        p = os.path.join(REPO, 'coupling_examples', 'helper_functions.py')
        spec = importlib.util.spec_from_file_location('wiz_coupling_helpers', p)
        m = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(m)
        except Exception as e:
            raise Violation('helper_functions cannot be imported: %r' % (e,))
        _H.append(m)
    return _H[0]


def plane(case):
    nx, ny = case['nx'], case['ny']
    g = lambda o: np.array([[case['c'][(i*nx+j*3+o) % len(case['c'])]+0.1*i-0.07*j*o for j in range(nx)] for i in range(ny)], float)
    x = np.cumsum([case['x0']]+[case['dx'][i % len(case['dx'])] for i in range(nx-1)])
    y = np.cumsum([case['y0']]+[case['dx'][(i+1) % len(case['dx'])] for i in range(ny-1)])
    return x, y, g(1), g(2)


NAMES = ['a_', 'ab', 'b_', 'Layout12_0_', 'Layout12_1_', 'a.b']
FORMS = ['%s', './%s', 'no/../%s', '/%s', 'sub//%s', 'sub/%s']


def chk_store(case):
    H = helpers()
    d = tempfile.mkdtemp(prefix='wizc26.')
    try:
        os.mkdir(os.path.join(d, 'sub'))
        model = {}
        for s in case['steps']:
            nm = NAMES[s['name'] % len(NAMES)]; fm = FORMS[s['form'] % len(FORMS)]
            base = d+'/'+fm % nm; key = os.path.normpath(base)
            if s['op'] == 'save':
                p = plane(dict(s, c=case['c'], dx=case['dx'])); q = [a.copy() for a in p]
                kw = {} if s['U0'] is None else dict(U0=s['U0'])
                if s['tuple']:
                    arg = tuple(p)+('interface',)*s['extra']
                    call(H.savePlane, arg, base, **kw)
                else:
                    call(H.savePlane, *p, base=base, **kw)
                require(all(np.array_equal(a, b) for a, b in zip(p, q)), 'saving a plane changes the arrays that are saved')
                U = 1.0 if s['U0'] is None else s['U0']
                model[key] = (q[0], q[1], q[2]/U, q[3]/U)
            elif key in model:
                r = call(H.loadPlane, base)
                require(len(r) == 4, 'loadPlane returned %d items', len(r))
                for n, a, b in zip('xyuv', r, model[key]):
                    close(a, b, 1e-13*(np.abs(b).max()+1e-300) if n in 'uv' else 0, '%s read back (%s)', n, nm)
        for key in model:
            for n, a, b in zip('xyuv', call(H.loadPlane, key), model[key]):
                close(a, b, 1e-13*(np.abs(b).max()+1e-300) if n in 'uv' else 0, '%s read back in the end', n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def chk_draw(case):
    import matplotlib.pyplot as plt
    H = helpers()
    x, y, u, v = plane(case)
    for i, j in case['nan']:
        if i < case['ny'] and j < case['nx']:
            u[i, j] = np.nan
    S = u if case['axial'] else np.sqrt(u**2+v**2)
    fin = np.isfinite(S)
    if not fin.any():
        raise Skip()
    kw = {}
    lo, hi = S[fin].min(), S[fin].max()
    if case['lo'] is not None:
        kw['minSpeed'] = lo = case['lo']
    if case['hi'] is not None:
        kw['maxSpeed'] = hi = case['hi']
    if case['axial']:
        kw['axial'] = True
    q = [a.copy() for a in (x, y, u, v)]
    fig, ax = plt.subplots()
    try:
        im = call(H.plotPlane, x, y, u, v, ax, **kw)
        require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip((x, y, u, v), q)), 'drawing a plane changes its arrays')
        A = np.ma.asarray(im.get_array())
        require(A.size == S.size, 'drawn plane has %d values instead of %d', A.size, S.size)
        A = A.reshape(S.shape); m = np.ma.getmaskarray(A)
        require(np.array_equal(m, ~fin), 'points without velocity are not exactly the ones left out')
        close(np.asarray(A)[fin], S[fin], 1e-12*(1+np.abs(S[fin]).max()), 'drawn speed')
        tl = 1e-12*(1+abs(lo)+abs(hi))
        if lo < hi:
            close(im.norm.vmin, lo, tl, 'lower limit of the colours'); close(im.norm.vmax, hi, tl, 'upper limit of the colours')
        require(im.axes is ax, 'the plane is not drawn on the given axes')
    finally:
        plt.close(fig)


def chk_extract(case):
    H = helpers()
    x, y, u, v = plane(case)
    nx, ny = case['nx'], case['ny']
    pl = types.SimpleNamespace(x1_lin=x, x2_lin=y, u_mesh=u.ravel().copy(), v_mesh=v.ravel().copy(), resolution=(nx, ny))
    opts = {'Ground': case['axial'], 'no_induction': bool(case['nx'] % 2)}
    WORLD.clear(); WORLD.update(plane=pl.__dict__, id=7, heights=case['heights'])
    del LOG[:]
    res = sys.modules['floris.utilities'].Vec3(nx, ny, 2)
    b = [0, 1, 2, 3, 4, 5] if case['bounds'] else None
    r = call(H.get_HH_plane_vel, 'in.json', opts, res, *([b] if b else []))
    require(len(r) == 5, 'get_HH_plane_vel returned %d items', len(r))
    for n, a, w in zip(('x', 'y', 'u', 'v'), r, (x, y, u, v)):
        close(a, w, 0, 'extracted %s', n)
    L = list(LOG)
    require(('open', 'in.json') in L, 'the input file is not the given one: %s', L)
    wk = [k for k in L if k[0] == 'wake']; fl = [k for k in L if k[0] == 'flow']; pn = [k for k in L if k[0] == 'plane']
    require(wk and wk[-1][1].get('Ind_Opts') is opts, 'the wake is computed with other induction options')
    require(fl and all(k[1].get('Ind_Opts') is opts and k[1].get('resolution') is res for k in fl[-1:]), 'the flow is requested with other options')
    require(fl[-1][1].get('bounds_to_set') is b, 'the flow is requested within other bounds')
    require(L.index(wk[0]) < L.index(fl[-1]), 'the flow is requested before the wake is computed')
    require(pn and pn[-1][1] == 7 and pn[-1][2] == case['heights'][0], 'the plane is not at hub height')


num = gen.uni(-3, 15)
D = dict(c=st.lists(num, min_size=2, max_size=9), dx=st.lists(gen.uni(0.5, 60), min_size=1, max_size=4))
P = dict(nx=st.integers(2, 7), ny=st.integers(2, 7), x0=gen.uni(-500, 500), y0=gen.uni(-500, 500))
step = st.fixed_dictionaries(dict(P, op=st.sampled_from(['save', 'save', 'load']), name=st.integers(0, 5), form=st.integers(0, 5), U0=gen.pick(None, None, 1.0, 6, other=gen.uni(1, 25)), tuple=st.booleans(), extra=st.integers(0, 1)))
store = st.fixed_dictionaries(dict(D, steps=st.lists(step, min_size=1, max_size=8)))
draw = st.fixed_dictionaries(dict(D, **P, nan=st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6)), max_size=3), axial=st.booleans(), lo=gen.pick(None, None, 0.5, other=gen.uni(-1, 2)), hi=gen.pick(None, None, 1.03, other=gen.uni(3, 20))))
extract = st.fixed_dictionaries(dict(D, **P, axial=st.booleans(), bounds=st.booleans(), heights=st.lists(gen.uni(10, 200), min_size=1, max_size=3)))
differ = lambda c: any(a != c['c'][0] for a in c['c'])
LAWS = [
    Law('stored_planes', store, chk_store, 400, 4000, nontrivial=lambda c: differ(c) and any(s['op'] == 'save' for s in c['steps']), classify=lambda c: sorted({s['op'] for s in c['steps']})+(['normalised'] if any(s['U0'] for s in c['steps']) else [])),
    Law('drawn_planes', draw, chk_draw, 150, 1500, nontrivial=differ, classify=lambda c: ['axial' if c['axial'] else 'speed', 'nan' if c['nan'] else 'full']+['limits' if c['lo'] is not None or c['hi'] is not None else 'free']),
    Law('extracted_planes', extract, chk_extract, 300, 3000, nontrivial=differ),
]
