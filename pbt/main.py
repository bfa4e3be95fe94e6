"""usage: main.py PROPERTY [--tier quick|thorough] [--law NAME]... [--replay FILE] [--scale X]"""
import argparse, importlib, json, os, sys, warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WIZ_REPO', '/repo')


def setup_paths():
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    try:
        import hypothesis  # noqa
    except ImportError:
        # Hypothesis is pure Python: appended last so that numpy/scipy stay those of the project's environment
        for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
            if os.path.isdir(os.path.join(p, 'hypothesis')):
                sys.path.append(p)
                break
        import hypothesis  # noqa
    import numpy as np
    np.seterr(all='ignore')
    import wiz
    real = os.path.realpath(wiz.__file__)
    assert real.startswith(os.path.realpath(REPO)+os.sep), real


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--law', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--nproc', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    # A module of the code under test that cannot even be imported leaves nothing to check: report it as a violation
    try:
        setup_paths()
        import core
        mod = importlib.import_module('checks.' + a.property.lower())
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any(t.filename.startswith(os.path.realpath(REPO)+os.sep+'wiz') for t in tb):
            d = os.path.join(os.path.dirname(HERE), 'replay'); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, a.property+'-import.json')
            json.dump(dict(property=a.property, law='import', message=repr(e)), open(p, 'w'))
            print('the code under test cannot be imported: %r' % (e,))
            print('VIOLATION property=%s replay=%s' % (a.property, p))
            return 1
        raise
    if a.replay:
        d = json.load(open(a.replay))
        law = [l for l in mod.LAWS if l.name == d['law']][0]
        for c in d.get('preceding_cases', []):
            try:
                law.check(c)
            except Exception:
                pass
        try:
            core.run_check(law, d['case'])
        except core.Violation as v:
            print('law %s: %s' % (law.name, v))
            print('VIOLATION property=%s replay=%s' % (a.property, os.path.abspath(a.replay)))
            return 1
        print('replay passes')
        return 0
    ev, viol, errors = core.run_property(a.property, mod.LAWS, mod.RULE, mod.ASSUMPTIONS, a.tier, seed, nproc=a.nproc, only=a.law)
    c = ev['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (a.property, a.tier, seed, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
    for n, l in c['laws'].items():
        print('  %-34s %6d cases %6d non-trivial %5d skipped  %7.2g  %s' % (n, l['evaluations'], l['distinct_nontrivial'], l['skipped_out_of_domain'], l['worst_error_over_tolerance'],
              ' '.join('%s:%d' % kv for kv in sorted(l['classes'].items()))))
    for line in known_findings(a.property):
        print(line)
    if viol:
        for p, n, m in viol:
            print('law %s: %s' % (n, m))
            print('VIOLATION property=%s replay=%s' % (a.property, p))
        for r in errors[:1]:
            print('(harness error in law %s)\n%s' % (r['law'], r['error']), file=sys.stderr)
        return 1
    if errors:
        done = set()
        for r in errors:
            if r['law'] not in done:
                print('HARNESS ERROR in law %s\n%s' % (r['law'], r['error']), file=sys.stderr)
            done.add(r['law'])
        return 2
    return 0


def known_findings(pid):
    p = os.path.join(os.path.dirname(HERE), 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                out.append('KNOWN-FINDING: ' + l[len('finding: '):].strip())
    return out


if __name__ == '__main__':
    sys.exit(main())
