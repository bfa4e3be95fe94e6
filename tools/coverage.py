"""usage: coverage.py [N]   lines of wiz/*.py (outside its unit tests) never executed when every law runs N cases (default 60)"""
import sys, os, ast, importlib, warnings
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'pbt'))
warnings.simplefilter('ignore')
import main
main.setup_paths()
REPO = os.path.realpath(main.REPO)

SEEN = set()


def one(pid):
    import core
    M = sys.monitoring
    if M.get_tool(2) is None:
        M.use_tool_id(2, 'cov')

    def line(code, n):
        if code.co_filename.startswith(REPO+'/wiz'):
            SEEN.add((os.path.basename(code.co_filename), n))
        return M.DISABLE
    M.register_callback(2, M.events.LINE, line)
    M.set_events(2, M.events.LINE)
    mod = importlib.import_module('checks.'+pid)
    so = sys.stdout
    for l in mod.LAWS:
        core.run_law_shard(pid, l, 'quick', 3, 0, N)
        sys.stdout = so
    return SEEN


N = int(sys.argv[1]) if len(sys.argv) > 1 else 60
hit = set()
with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
    for h in ex.map(one, ['c%02d' % i for i in range(1, 26)]):
        hit |= h
for f in sorted(os.listdir(REPO+'/wiz')):
    if not f.endswith('.py') or f.startswith(('test_', '__')):
        continue
    src = open(REPO+'/wiz/'+f).read()
    lines = src.splitlines()
    want = set()

    def walk(n):
        if isinstance(n, ast.ClassDef) and n.name.startswith('Test'):
            return
        if isinstance(n, ast.If) and '__name__' in ast.dump(n.test):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for b in n.body:
                for q in ast.walk(b):
                    if isinstance(q, ast.stmt) and not isinstance(q, (ast.Expr,)) or isinstance(q, ast.Expr) and not isinstance(q.value, ast.Constant):
                        want.add(q.lineno)
    walk(ast.parse(src))
    miss = sorted(n for n in want if (f, n) not in hit)
    print('%s: %d of %d statements not executed' % (f, len(miss), len(want)))
    for n in miss:
        print('   %4d %s' % (n, lines[n-1].strip()[:110]))
