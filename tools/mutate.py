"""Development aid: mutants of regreg source files, one at a time, against every check.
usage: mutate.py FILE[:lo-hi] ... [-n MAX] [-s SEED] [-i IDS]   -> prints the mutants no check reports"""
import warnings
warnings.simplefilter("ignore")
import ast, copy, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


def sites(tree, lo, hi):
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n):
            docs.add(id(n.body[0].value))
    infn = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for x in ast.walk(f):
                infn[id(x)] = f.name
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or not lo <= n.lineno <= hi or id(n) in docs:
            continue
        nm = infn.get(id(n))
        if nm is None or nm in ('__repr__', 'latexify', 'terms', '_repr_latex_'):
            continue
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
                out.append((n, 'swap+-'))
                out.append((n, 'dropright'))
            if isinstance(n.op, (ast.Mult, ast.Div)):
                out.append((n, 'swap*/'))
                out.append((n, 'dropright'))
                if isinstance(n.op, ast.Mult):
                    out.append((n, 'dropleft'))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            out.append((n, 'flip'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((n, 'dropunary'))
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                out.append((n, 'dropkw%d' % i))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((n, 'swapargs'))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (('maximum', 'minimum'), ('max', 'min'), ('lagrange', 'bound'), ('linear_map', 'affine_map'), ('coef', 'linear_term'),
                         ('adjoint_map', 'linear_map'), ('shape', 'input_shape'), ('any', 'all'), ('zeros', 'ones'), ('copy', 'view')):
                if n.attr == a:
                    out.append((n, 'attr:' + b))
                elif n.attr == b:
                    out.append((n, 'attr:' + a))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((n, 'const'))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, 'notbool'))
        if isinstance(n, ast.If):
            out.append((n, 'iftrue'))
            out.append((n, 'iffalse'))
        if isinstance(n, (ast.AugAssign,)):
            out.append((n, 'delete'))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((n, 'delete'))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, 'delete'))
    return out


def apply(n, kind):
    """-> replacement node or None to mutate in place"""
    if kind == 'swap+-':
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind == 'swap*/':
        n.op = ast.Div() if isinstance(n.op, ast.Mult) else ast.Mult()
    elif kind == 'dropright':
        return n.left
    elif kind == 'dropleft':
        return n.right
    elif kind == 'flip':
        o = n.ops[0]
        n.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}[type(o)]()
    elif kind == 'dropunary':
        return n.operand
    elif kind.startswith('dropkw'):
        del n.keywords[int(kind[6:])]
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind.startswith('attr:'):
        n.attr = kind[5:]
    elif kind == 'const':
        n.value = n.value + 1 if n.value != 1 else 2
    elif kind == 'notbool':
        n.value = not n.value
    elif kind == 'iftrue':
        n.test = ast.Constant(True)
    elif kind == 'iffalse':
        n.test = ast.Constant(False)
    elif kind == 'delete':
        return ast.Pass()
    return n


class Rep(ast.NodeTransformer):
    def __init__(self, old, kind):
        self.old, self.kind = old, kind

    def visit(self, n):
        if n is self.old:
            return apply(n, self.kind)
        return self.generic_visit(n)


def main():
    args = sys.argv[1:]
    n, seed, ids, files = 60, 1, ['--all'], []
    while args:
        a = args.pop(0)
        if a == '-n':
            n = int(args.pop(0))
        elif a == '-s':
            seed = int(args.pop(0))
        elif a == '-i':
            ids = args.pop(0).split(',')
        else:
            files.append(a)
    jobs = []
    for f in files:
        lo, hi = 1, 10 ** 9
        if ':' in f:
            f, r = f.split(':')
            lo, hi = map(int, r.split('-'))
        src = open(os.path.join(REPO, f)).read()
        k = len(sites(ast.parse(src), lo, hi))
        jobs += [(f, src, i, lo, hi) for i in range(k)]
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:n]

    def one(job):
        f, src, i, lo, hi = job
        t = ast.parse(src)
        node, kind = sites(t, lo, hi)[i]
        before = ast.unparse(node)[:100]
        line = node.lineno
        t = Rep(node, kind).visit(t)
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        d = '/tmp/mut/%s_%d' % (f.replace('/', '_'), i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, 'regreg'), os.path.join(d, 'regreg'), ignore=shutil.ignore_patterns('*.so', 'tests', '__pycache__', '*.csv'))
        for x in ('src', 'setup.py'):
            if os.path.exists(os.path.join(REPO, x)):
                os.symlink(os.path.join(REPO, x), os.path.join(d, x))
        open(os.path.join(d, f), 'w').write(new)
        r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py')] + ids, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=os.path.join(d, 'ev')), capture_output=True, text=True)
        hit = sorted({l.split()[1].split('=')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
        err = 'ANCHOR ' if r.returncode not in (0, 1) else ''
        shutil.rmtree(d, ignore_errors=True)
        return '%s%s:%d %s [%s] %s' % (err, f, line, kind, before.replace('\n', ' ; '), ','.join(hit) or 'MISSED'), bool(hit)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for s, h in sorted(res):
        if not h:
            print(s)
    print('caught %d of %d' % (sum(h for _, h in res), len(res)))


main()
