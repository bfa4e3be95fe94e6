"""C25 colour maps and contour levels"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen
from wiz import plotting_functions as PF

RULE = 'cases draw colour sequences (3 or 4 components), increasing locations and speed limits; a case counts when two of the colours differ'
ASSUMPTIONS = ['the colour table of matplotlib has 256 entries: a looked-up colour is compared with the range of the piecewise linear map within 1.5 entries of the location']
H = 1.5/255


def bounds(x, v, C):
    """ componentwise min/max of the piecewise linear map over [x-H,x+H] """
    a, b = max(0.0, x-H), min(1.0, x+H)
    xs = [a, b]+[w for w in v if a <= w <= b]
    Y = np.array([[np.interp(s, v, C[:, k]) for k in range(C.shape[1])] for s in xs])
    return Y.min(0)-1e-9, Y.max(0)+1e-9


def look(cmap, x):
    c = np.asarray(call(cmap, float(x)), float)
    require(c.shape == (4,), 'colour of shape %s', c.shape)
    return c


def compare(cmap, x, v, C, what):
    got = look(cmap, x)
    lo, hi = bounds(x, v, C)
    n = C.shape[1]
    require(np.all(got >= -1e-12) and np.all(got <= 1+1e-12), '%s: colour %s outside [0,1]', what, got.tolist())
    require(np.all(got[:n] >= lo) and np.all(got[:n] <= hi), '%s at %.6g: got %s, expected within %s..%s', what, x, got[:n].tolist(), lo.tolist(), hi.tolist())
    if n == 3:
        require(got[3] == 1, '%s: opaque colours give transparency %s', what, got[3])


def locations(case, n):
    if case['dflt']:
        return None, np.linspace(0, 1, n)
    w = np.cumsum([0]+[case['gaps'][i % len(case['gaps'])] for i in range(n-1)])
    w = w/w[-1]; w[-1] = 1.0
    return w, w


def chk_map(case):
    k = 4 if case['alpha'] else 3
    C = np.array([c[:k] for c in case['seq']], float)
    arg, v = locations(case, len(C))
    seq = [tuple(float(x) for x in c) for c in C]
    s0 = list(seq)
    a = None if arg is None else (arg.tolist() if case['aslist'] else arg.copy())
    cmap = call(PF.make_colormap, seq, a) if arg is not None else call(PF.make_colormap, seq)
    require(seq == s0, 'colour sequence modified')
    for i, x in enumerate(v):
        compare(cmap, x, v, C, 'colour %d of %d' % (i, len(C)))
    for x in case['xs']:
        compare(cmap, x, v, C, 'interpolated colour')
    close(look(cmap, 0.0)[:k], C[0], 1e-9, 'first colour'); close(look(cmap, 1.0)[:k], C[-1], 1e-9, 'last colour')


BLUE, RED = np.array([63, 63, 153])/255, np.array([138, 42, 93])/255
SPEED = [(None, BLUE), (0.90, np.array([159, 159, 204])/255), (0.95, np.array([158, 204, 170])/255), (0.98, np.array([255, 212, 96])/255), (0.999, np.ones(3)), (1.0, np.ones(3)), (1.001, np.ones(3)), (None, RED)]


def chk_speed(case):
    lo, hi = 0.89-case['lo'], 1.01+case['hi']
    al = case['al']
    r = call(PF.get_cmap, lo, hi, *([] if al is None else [al]))
    require(len(r) == 2, 'get_cmap returned %d items', len(r))
    cmap, lev = r
    al = 1.0 if al is None else al
    V = np.array([lo]+[s[0] for s in SPEED[1:-1]]+[hi]); v = (V-lo)/(hi-lo)
    C = np.array([np.append(s[1], al) for s in SPEED])
    for s in list(V)+[lo+(hi-lo)*x for x in case['xs']]:
        compare(cmap, min(1.0, max(0.0, (s-lo)/(hi-lo))), v, C, 'speed colour map at speed %.4g' % s)
    close(look(cmap, 0.0), C[0], 1e-9, 'colour of the lowest speed'); close(look(cmap, 1.0), C[-1], 1e-9, 'colour of the highest speed')
    lev = np.asarray(lev, float)
    require(lev.ndim == 1 and len(lev) >= 2 and np.all(np.diff(lev) >= -1e-12), 'speed levels not increasing: %s', lev.tolist())
    require(abs(lev[0]-lo) <= 0.0051 and lev[-1] == hi, 'speed levels %s do not span %g..%g', lev.tolist(), lo, hi)


def chk_contours(case):
    r = call(PF.get_contours, case['ct'])
    require(len(r) == 2, 'get_contours returned %d items', len(r))
    c, l = np.asarray(r[0], float), np.asarray(r[1], float)
    for n, x in (('contour', c), ('line', l)):
        require(x.ndim == 1 and len(x) > 1 and np.all(np.diff(x) > 0), '%s levels not increasing: %s', n, x.tolist())
    require(c[0] <= l[0] and c[-1] >= l[-1] and c[0] < 0.5 < 1.01 < c[-1], 'contour levels %s do not enclose the lines %s', c.tolist(), l.tolist())
    require(all(x in c for x in l), 'a contour line %s is not a level of the filled contours %s', l.tolist(), c.tolist())


unit = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), gen.uni(0, 1))
col = st.lists(unit, min_size=4, max_size=4)
cs = st.fixed_dictionaries(dict(seq=st.lists(col, min_size=2, max_size=16), alpha=st.booleans(), dflt=st.booleans(), aslist=st.booleans(),
                                gaps=st.lists(gen.uni(0.05, 1), min_size=1, max_size=15), xs=st.lists(gen.uni(0, 1), max_size=6)))
LAWS = [
    Law('colour_sequences', cs, chk_map, 1500, 20000, nontrivial=lambda c: any(x != c['seq'][0] for x in c['seq']), classify=lambda c: ['alpha' if c['alpha'] else 'rgb', 'default' if c['dflt'] else 'located']),
    Law('speed_map', st.fixed_dictionaries(dict(lo=gen.pick(0.39, 0.09, other=gen.uni(0, 3)), hi=gen.pick(0.04, other=gen.uni(0, 2)), al=gen.pick(None, 1, 0.5, other=gen.uni(0, 1)), xs=st.lists(gen.uni(0, 1), max_size=6))),
        chk_speed, 800, 8000),
    Law('contour_levels', st.fixed_dictionaries(dict(ct=gen.pick(0.95, 0, 0.4, 0.8, other=gen.uni(0, 1.5)))), chk_contours, 100, 1000),
]
