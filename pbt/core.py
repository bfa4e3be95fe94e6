"""Runner: laws (generator + executable oracle) -> Hypothesis search -> shrunk replay file + evidence.

A property is a list of Law objects.  A law has a Hypothesis strategy producing a plain JSON-able case and a
check(case) function that raises Violation when the property is broken.  Every random choice is made by Hypothesis,
so a run is a function of (code under test, VERIF_SEED, tier) only.
"""
import hashlib, io, json, math, os, sys, time, traceback, warnings
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('WIZ_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The case is outside the domain of the property (counted, never reported)."""


class Law:
    def __init__(self, name, strategy, check, quick, thorough=None, nontrivial=None, classify=None, examples=(), note=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, (thorough if thorough is not None else quick*25)
        self.nontrivial = nontrivial or (lambda case: True)
        self.classify = classify or (lambda case: [])
        self.examples, self.note = list(examples), note


# ----------------------------------------------------------------------------------------------- calling the code
def call(f, *args, **kw):
    """Calls the code under test on a valid input: an exception is a violation."""
    try:
        return f(*args, **kw)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (os.path.basename(t.filename), t.name) for t in tb[1:]][-3:]
        raise Violation('%s raised %s: %s (%s)' % (getattr(f, '__name__', f), type(e).__name__, str(e)[:200], ' > '.join(where)))


def refuses(f, *args, **kw):
    """True if the call is refused with an exception."""
    try:
        f(*args, **kw)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception:
        return True
    return False


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# largest error/tolerance ratio seen by the running law (reported in the evidence, to see how tight the tolerances are)
WORST = [0.0]


def close(got, want, tol, what, *args):
    """ |got-want| <= tol elementwise (all broadcast); non-finite values and wrong shapes are violations """
    import numpy as np
    try:
        g = np.asarray(got, dtype=float)
    except Exception:
        raise Violation((what % args if args else what) + ': result is not a real array: %.200r' % (got,))
    w = np.asarray(want, dtype=float); t = np.asarray(tol, dtype=float)+1e-300
    if g.shape != w.shape:
        raise Violation((what % args if args else what) + ': shape %s instead of %s' % (g.shape, w.shape))
    if g.size == 0:
        return
    e = np.abs(g-w)/np.broadcast_to(t, g.shape)
    if not np.all(np.isfinite(g)):
        raise Violation((what % args if args else what) + ': not finite: got %s, expected %s' % (_short(g), _short(w)))
    if not np.all(np.isfinite(e)):
        raise OracleError('oracle not finite in %s: %s %s' % (what, _short(w), _short(t)))
    mx = float(np.max(e))
    if mx > 1:
        i = np.unravel_index(int(np.argmax(e)), e.shape)
        raise Violation((what % args if args else what) + ': got %.15g, expected %.15g (|diff|=%.3g > tol %.3g) at index %s'
                        % (g[i], w[i], abs(g[i]-w[i]), np.broadcast_to(t, g.shape)[i], i))
    if mx > WORST[0]:
        WORST[0] = mx


def _short(a):
    import numpy as np
    s = np.array2string(np.asarray(a), precision=6, threshold=12)
    return s if len(s) < 300 else s[:300]+'...'


# presentation of the control points: the same points in another layout, chosen by the case (a pure function of it)
# (per_case: all calls of a case in the same layout, for laws that compare answers to the last digit)
LAYOUT = dict(seed=0, call=0, on=True, per_case=False)
LAYOUTS = ('plain', 'plain', 'plain', 'reversed view', 'strided view', 'two dimensions', 'fortran order', 'many copies', 'among others', 'integers')


def _present(args, shape):
    """ (other arguments, function that extracts the answer for the original points) or None """
    import numpy as np
    if not LAYOUT['on'] or shape is None or len(shape) != 1 or shape[0] == 0:
        return None
    k = 0
    while k < min(3, len(args)) and isinstance(args[k], np.ndarray) and args[k].shape == tuple(shape) and args[k].dtype == float:
        k += 1
    if k == 0:
        return None
    LAYOUT['call'] += 0 if LAYOUT['per_case'] else 1
    h = hashlib.sha1(('%s/%d' % (LAYOUT['seed'], LAYOUT['call'])).encode()).digest()
    how = LAYOUTS[h[0] % len(LAYOUTS)]; n = shape[0]; pts = args[:k]
    if how == 'plain':
        return None
    if how == 'reversed view':
        new, sh, back = [p[::-1].copy()[::-1] for p in pts], (n,), lambda c: c
    elif how == 'strided view':
        new, sh, back = [np.repeat(p, 2)[::2] for p in pts], (n,), lambda c: c
    elif how == 'two dimensions':
        sh = (n, 1) if h[1] % 2 else (1, n)
        new, back = [p.reshape(sh).copy() for p in pts], lambda c: c.reshape(n)
    elif how == 'fortran order':
        sh = (2, n)
        new, back = [np.asfortranarray(np.array([p[::-1], p])) for p in pts], lambda c: c[1]
    elif how == 'many copies':
        q = 2+h[1] % 3 if h[1] % 4 else 70//n+1
        new, sh, back = [np.concatenate([p]*q) for p in pts], (n*q,), lambda c: c[n*(q-1):]
    elif how == 'among others':
        d = [(-3.7, 0.9, 1.3, 21.0)[b % 4] for b in h[2:5]]
        new, sh, back = [np.concatenate([p+(d[i] if p.min() < 0 else abs(d[i])), p, p*1.31]) for i, p in enumerate(pts)], (3*n,), lambda c: c[n:2*n]
    else:
        if not all(np.all(np.abs(p) < 1e6) and np.all(p == np.round(p)) and not np.any(np.signbit(p) & (p == 0)) for p in pts):
            return None
        new, sh, back = [p.astype(np.int64) for p in pts], (n,), lambda c: c
    return tuple(new)+tuple(args[k:]), sh, back


def vec(f, n, shape, *args, **kw):
    """ Calls a velocity function and returns its n components as one array (n,)+shape, checking number, shape, reality.
        The points are sometimes given in another layout: the answer must be that of the points. """
    import numpy as np
    name = getattr(f, '__name__', str(f))
    back = None
    other = _present(args, shape)
    if other is not None:
        args, shape, back = other
    u = call(f, *args, **kw)
    try:
        k = len(u)
    except TypeError:
        raise Violation('%s returned %.100r instead of %d components' % (name, u, n))
    if k != n:
        raise Violation('%s returned %d components instead of %d' % (name, k, n))
    out = []
    for c in u:
        a = np.asarray(c)
        if a.dtype.kind not in 'fiu':
            raise Violation('%s returned values of type %s' % (name, a.dtype))
        if shape is not None and a.shape != tuple(shape):
            raise Violation('%s returned shape %s for control points of shape %s' % (name, a.shape, tuple(shape)))
        a = a.astype(float)
        out.append(a if back is None else back(a))
    return np.array(out)


# ----------------------------------------------------------------------------------------------- running laws
def _case_key(law, case):
    return hashlib.sha1((law + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


def _summ(case, limit=700):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + '...'


def _quiet():
    sys.stdout = open(os.devnull, 'w')
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


class OracleError(Exception):
    """The oracle itself failed: no verdict."""


def run_check(law, case):
    """ The checks are written for any numeric answer of the right form: an exception while judging an answer means that the
        answer is not of that form (None, wrong type or size, NaN in an angle, ...), which is a violation. """
    LAYOUT['seed'], LAYOUT['call'] = _case_key(law.name, case), 0
    try:
        law.check(case)
    except (Skip, Violation, OracleError, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        raise Violation('%s: %s while judging the answer (%s)' % (type(e).__name__, str(e)[:200], ' > '.join('%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])))


def run_law_shard(pid, law, tier, seed, shard, n):
    """Runs one law for n generated cases. Returns a plain dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import strategies as st
    _quiet()
    res = dict(law=law.name, shard=shard, evaluations=0, keys=[], skipped=0, samples=[], classes={}, failure=None, error=None)
    keys = set()
    WORST[0] = 0.0
    state = dict(best=None, nfail=0, history=[], after=0)

    def one(case, generated=True):
        if state['best'] is None:
            res['evaluations'] += 1
            try:
                nt = bool(law.nontrivial(case))
            except Exception:
                nt = False
            if nt:
                k = _case_key(law.name, case)
                if k not in keys:
                    keys.add(k)
                    if len(res['samples']) < 2:
                        res['samples'].append(dict(law=law.name, case=_summ(case)))
            for c in law.classify(case):
                res['classes'][c] = res['classes'].get(c, 0)+1
        else:
            state['after'] += 1
            if state['after'] > 1500:         # enough shrinking: keep the smallest failure found so far
                raise _StopShrinking()
        try:
            run_check(law, case)
        except Skip:
            res['skipped'] += 1
        except Violation as v:
            size = len(json.dumps(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, str(v), list(state['history'][-3:]) if state['best'] is None else state['best'][3])
            state['nfail'] += 1
            raise
        finally:
            if state['best'] is None:
                state['history'].append(case)
                del state['history'][:-3]

    try:
        if shard == 0:
            for ex in law.examples:
                one(ex)
        if n > 0:
            hseed = int(hashlib.sha256(('%d|%s|%s|%d' % (seed, pid, law.name, shard)).encode()).hexdigest()[:12], 16)

            @hypothesis.seed(hseed)
            @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
            @given(law.strategy)
            def prop(case):
                one(case)
            sink = io.StringIO()
            olderr, sys.stderr = sys.stderr, sink
            try:
                prop()
            finally:
                sys.stderr = olderr
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if state['best'] is None:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state['best'] is not None:
        _, case, msg, hist = state['best']
        reproduces = True
        try:
            run_check(law, case)
            reproduces = False
        except Violation as v:
            msg = str(v)
        except Exception:
            pass
        res['failure'] = dict(case=case, message=msg, reproduces_alone=reproduces, preceding_cases=[] if reproduces else hist)
    res['keys'] = sorted(keys)
    res['worst'] = WORST[0]
    return res


class _StopShrinking(BaseException):
    pass


_REG = {}

# multiplies the number of cases of the quick runs, such that each takes about half a minute on eight cores
SCALE = dict(C01=3, C02=8, C03=8, C04=8, C05=6, C06=2, C07=2, C08=6, C09=4, C10=3, C12=4, C14=4, C15=4, C16=3, C17=2, C18=2, C19=2, C20=2, C21=2, C22=2,
             C23=6, C24=6, C25=6, C26=6, C27=3, C28=2)


def _worker(args):
    pid, lawname, tier, seed, shard, n = args
    try:
        return run_law_shard(pid, _REG[lawname], tier, seed, shard, n)
    except BaseException as e:
        return dict(law=lawname, shard=shard, evaluations=0, keys=[], skipped=0, samples=[], classes={}, failure=None,
                    error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])


def run_property(pid, laws, rule, assumptions, tier, seed, nproc=None, only=None):
    t0 = time.time()
    names = [l.name for l in laws]
    assert len(set(names)) == len(names), 'duplicate law names'
    laws = [l for l in laws if only is None or l.name in only]
    jobs = []
    for l in laws:
        _REG[l.name] = l
        q = l.quick*SCALE.get(pid, 1) if l.quick > 1 else l.quick
        n = q if tier == 'quick' else max(l.thorough, 3*q if l.quick > 1 else q)
        nsh = 1
        if tier != 'quick':
            nsh = max(1, min(8, n//max(1, q)))
        else:
            nsh = max(1, min(8, n//100, -(-24//len(laws))))
        for s in range(nsh):
            m = n//nsh + (1 if s < n % nsh else 0)
            jobs.append((pid, l.name, tier, seed, s, m))
    nproc = nproc or min(8, os.cpu_count() or 1, len(jobs))
    out = []
    if nproc <= 1:
        so = sys.stdout
        for j in jobs:
            out.append(_worker(j))
            sys.stdout = so
    else:
        ctx = mp.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as ex:
            futs = [ex.submit(_worker, j) for j in jobs]
            for f, j in zip(futs, jobs):
                try:
                    out.append(f.result())
                except BaseException as e:     # worker died
                    out.append(dict(law=j[1], shard=j[4], evaluations=0, keys=[], skipped=0, samples=[], classes={}, failure=None,
                                    error='worker died: %r' % (e,)))
    keys = set()
    for r in out:
        keys.update(r['law']+k for k in r['keys'])
    per_law = {}
    for r in out:
        d = per_law.setdefault(r['law'], dict(evaluations=0, distinct_nontrivial=0, skipped_out_of_domain=0, worst_error_over_tolerance=0.0, classes={}))
        d['evaluations'] += r['evaluations']; d['skipped_out_of_domain'] += r['skipped']
        d['worst_error_over_tolerance'] = max(d['worst_error_over_tolerance'], float('%.3g' % r.get('worst', 0)))
        for c, k in r['classes'].items():
            d['classes'][c] = d['classes'].get(c, 0)+k
    for n in per_law:
        per_law[n]['distinct_nontrivial'] = sum(1 for k in keys if k.startswith(n) and len(k) == len(n)+16)
    samples, seen = [], set()
    for r in out:
        for s in r['samples']:
            if r['law'] not in seen:
                seen.add(r['law']); samples.append(s)
    failures = [r for r in out if r['failure']]
    errors = [r for r in out if r['error']]
    replay_paths = []
    seenlaw = set()
    for r in failures:
        if r['law'] in seenlaw:
            continue
        seenlaw.add(r['law'])
        d = os.path.join(ROOT, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (pid, r['law']))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, law=r['law'], seed=seed, tier=tier, **r['failure']), f, indent=1)
        replay_paths.append((p, r['law'], r['failure']['message']))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in out), distinct_nontrivial=len(keys), rule=rule, samples=samples, laws=per_law),
              assumptions=assumptions, wall_s=round(time.time()-t0, 2), violations=len(replay_paths))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid+'.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return ev, replay_paths, errors
