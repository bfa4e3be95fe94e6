"""C07 complete elliptic integral of the third kind"""
import numpy as np
from hypothesis import strategies as st
from core import Law, Violation, Skip, close, require, call
import gen
from scipy.special import elliprf, elliprj, ellipk, ellipe
from wiz.elliptic import ellipticPiCarlson as PI

RULE = ('cases draw arrays mixing n and m over 12 decades (both signs, zero, equal, tiny distances to one, exactly one for n); '
        'a case counts when it has an element with n different from 0 and m different from 0')
ASSUMPTIONS = ['oracle: R_F + n/3 R_J with scipy.special.elliprf/elliprj (an independent implementation, cross-checked with mpmath by setup_cmd and by the law defining_integral)',
               'accuracy required: 5e-12 relative plus 2e-13 |n| for negative n (cancellation in the formula)']


def val(x):
    """ case values are numbers, or ['1-', d] for 1-d """
    return 1-x[1] if isinstance(x, list) else x


def ref(n, m):
    return elliprf(0, 1-m, 1)+n/3*elliprj(0, 1-m, 1, 1-n)


def tol(n, m, w):
    # conditioning at tiny distances to one is that of the argument 1-m, 1-n, exact here since both sides use the same rounded n, m
    return 5e-12*np.abs(w)+2e-13*np.maximum(-n, 0)


def arrs(case):
    n = np.array([val(e[0]) for e in case['e']], float)
    m = np.array([val(e[1]) for e in case['e']], float)
    k = case.get('rep', 0)                # long arrays: the same elements, then smaller copies of them
    if k:
        n = np.concatenate([n]+[n*(1-0.9*i/k) for i in range(1, k+1)])
        m = np.concatenate([m]+[m*(1-0.8*i/k) for i in range(1, k+1)])
    return n, m


def chk_array(case):
    n, m = arrs(case)
    n0, m0 = n.copy(), m.copy()
    sh = (len(n),)
    if case['two'] and len(n) % 2 == 0:
        sh = (2, len(n)//2)
    one = n == 1
    A, B = n.reshape(sh), m.reshape(sh)
    if case.get('lay') == 1:
        A, B = np.asfortranarray(A), np.asfortranarray(B)
    elif case.get('lay') == 2:
        A, B = np.repeat(A, 2, axis=-1)[..., ::2], np.repeat(B, 2, axis=-1)[..., ::2]
    elif case.get('lay') == 3:
        A, B = A[..., ::-1].copy()[..., ::-1], B
    got = np.asarray(call(PI, A, B))
    require(got.shape == sh, 'shape %s instead of %s', got.shape, sh)
    require(np.array_equal(n, n0) and np.array_equal(m, m0), 'arguments modified')
    got = got.reshape(-1)
    w = ref(n[~one], m[~one])
    close(got[~one], w, tol(n[~one], m[~one], w), 'elliptic integral')
    require(np.all(got[one] == np.inf), 'characteristic one does not give infinity: %s', got[one].tolist())


def chk_single(case):
    n, m = arrs(case)
    i = 0
    if n[i] == 1:
        require(call(PI, np.array([1.0]), m[:1])[0] == np.inf, 'characteristic one does not give infinity')
        require(call(PI, 1.0, float(m[i])) == np.inf, 'characteristic one does not give infinity (scalar)')
        return
    w = ref(n[i], m[i])
    t = tol(n[i], m[i], w)
    close(call(PI, n[:1], m[:1]), [w], t, 'elliptic integral, one element')
    close(call(PI, float(n[i]), float(m[i])), w, t, 'elliptic integral, scalars')
    if n[i] == int(n[i]) and m[i] == int(m[i]):
        close(call(PI, int(n[i]), int(m[i])), w, t, 'elliptic integral, integers')


def chk_identities(case):
    n, m = arrs(case)
    m = np.where(m == 1, 0.5, m)
    a = call(PI, 0*m, m); b = call(PI, m, m); k = ellipk(m)
    close(a, k, 5e-12*np.abs(k), 'PI(0,m)=K(m)')
    e = ellipe(m)/(1-m)
    mm = np.maximum(m, -1e3)
    e = ellipe(mm)/(1-mm)
    close(call(PI, mm, mm), e, 5e-12*e+2e-13*np.maximum(-mm, 0), 'PI(m,m)=E(m)/(1-m)')
    nn = np.where(n == 1, 0.5, n)
    c = np.pi/2/np.sqrt(1-nn)
    close(call(PI, nn, 0*nn), c, 5e-12*c+2e-13*np.maximum(-nn, 0), 'PI(n,0)=pi/2/sqrt(1-n)')


def chk_def(case):
    """ the defining integral by periodic trapezoid (moderate arguments only) """
    n, m = arrs(case)
    k = (n < 0.97) & (m < 0.97) & (n > -30) & (m > -30)
    if not np.any(k):
        raise Skip()
    n, m = n[k], m[k]
    t = (np.arange(400)+0.5)*np.pi/800
    s2 = np.sin(t)**2
    w = (1/((1-n[:, None]*s2)*np.sqrt(1-m[:, None]*s2))).sum(1)*np.pi/800
    close(call(PI, n, m), w, 1e-11*w, 'defining integral')


one_minus = gen.logu(-13, -0.3).map(lambda d: ['1-', d])
nv = st.one_of(gen.uni0(1).filter(lambda v: v < 1), one_minus, gen.logu(-9, 3).map(lambda v: -v), st.sampled_from([0, 0.5, -1, -3, 0.25, 1, -0.0]), gen.logu(-12, -1))
mv = st.one_of(gen.uni0(1).filter(lambda v: v < 1), one_minus, gen.logu(-9, 6).map(lambda v: -v), st.sampled_from([0, 0.5, -1, 0.25, -1000000.0, -0.0]), gen.logu(-12, -1))
elem = st.one_of(st.tuples(nv, mv).map(list), mv.filter(lambda v: not isinstance(v, list) and v > -1000).map(lambda v: [v, v]))


def case_st(lo=1, hi=8):
    return st.fixed_dictionaries(dict(e=st.lists(elem, min_size=lo, max_size=hi), two=st.booleans(), rep=st.sampled_from([0, 0, 0, 0, 3, 15, 120]) if hi > 1 else st.just(0), lay=st.integers(0, 3)))


K = dict(nontrivial=lambda c: any(val(e[0]) != 0 and val(e[1]) != 0 for e in c['e']),
         classify=lambda c: [('n near 1' if isinstance(e[0], list) else 'n<0' if e[0] < 0 else 'n=0' if e[0] == 0 else 'n=1' if e[0] == 1 else 'n in (0,1)') for e in c['e'][:1]]
         + [('m near 1' if isinstance(e[1], list) else 'm<0' if e[1] < 0 else 'm=0' if e[1] == 0 else 'm in (0,1)') for e in c['e'][:1]])


def chk_empty(case):
    for n, m in (([], []), (np.array([]), np.array([]))):
        g = np.asarray(call(PI, n, m))
        require(g.size == 0, 'empty input gives %s', g.shape)


LAWS = [
    Law('mixed_arrays', case_st(1, 12), chk_array, 4000, 80000, **K),
    Law('single_elements', case_st(1, 1), chk_single, 3000, 60000, **K),
    Law('identities', case_st(), chk_identities, 2000, 30000, **K),
    Law('defining_integral', case_st(1, 8), chk_def, 1500, 20000, **K),
    Law('empty', st.just(dict(e=[])), chk_empty, 1, 1, nontrivial=lambda c: False),
]
