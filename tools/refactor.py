"""Development aid: apply behaviour-preserving rewrites to a copy of regreg and run every
check on it; any VIOLATION is a false alarm of the machinery.
usage: refactor.py [REWRITE ...]"""
import ast, os, shutil, subprocess, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, p='tmp'):
        self.n += 1
        return '_%s_%d' % (p, self.n)


class InvertIf(Base):
    "if c: A else: B  ->  if not c: B else: A"
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class ReturnTemp(Base):
    "return e -> r = e; return r"
    def visit_Return(self, n):
        if n.value is None:
            return n
        v = self.fresh('ret')
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]


class CondTemp(Base):
    "if c: -> t = c; if t:"
    def visit_If(self, n):
        self.generic_visit(n)
        v = self.fresh('cond')
        return [ast.Assign([ast.Name(v, ast.Store())], n.test), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class ElseAfterReturn(Base):
    "if c: ...return x ; rest -> if c: ... else: rest"
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class RenameLocals(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) and x is not n for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval', 'exec') for x in ast.walk(n)):
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set()) | ({n.args.kwarg.arg} if n.args.kwarg else set())
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_renamed'
            if isinstance(x, ast.ExceptHandler) and x.name:
                loc.discard(x.name)
        return n


class ExtractImpl(Base):
    "def m(self, a, b): body -> def m(self, a, b): return self._m_impl(a, b)"
    def visit_ClassDef(self, n):
        out = []
        for b in n.body:
            out.append(b)
            if isinstance(b, ast.FunctionDef) and not b.decorator_list and not b.name.startswith('__') and \
                    b.args.args and b.args.args[0].arg == 'self' and not b.args.vararg and not b.args.kwarg and \
                    not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(b)):
                impl = '_%s_%s_impl' % (n.name, b.name)
                args = ast.arguments([], list(b.args.args), None, list(b.args.kwonlyargs), list(b.args.kw_defaults), None, [])
                import copy
                args = copy.deepcopy(args)
                out.append(ast.FunctionDef(impl, args, b.body, [], None, None))
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), impl, ast.Load()),
                                [ast.Name(a.arg, ast.Load()) for a in b.args.args[1:]],
                                [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in b.args.kwonlyargs])
                doc = b.body[:1] if ast.get_docstring(b) else []
                b.body = doc + [ast.Return(call)]
        n.body = out
        return n


class AugAssign(Base):
    "x op= e -> x = x op e for attribute-free scalars is not always equal; only for names that were assigned a fresh value"
    def visit_FunctionDef(self, n):
        return n


class KwTemp(Base):
    "hoist call arguments that are binary operations into temporaries (statement level)"
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or s.value is None:
            return [s]
        pre = []
        v = s.value
        if isinstance(v, ast.Call):
            for i, a in enumerate(v.args):
                if isinstance(a, (ast.BinOp, ast.Attribute, ast.UnaryOp)):
                    t = self.fresh('arg')
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[i] = ast.Name(t, ast.Load())
                elif isinstance(a, ast.Starred):
                    break
                elif not isinstance(a, (ast.Name, ast.Constant)):
                    break
        elif isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call)):
            t = self.fresh('lhs')
            pre.append(ast.Assign([ast.Name(t, ast.Store())], v.left))
            v.left = ast.Name(t, ast.Load())
        return pre + [s]

    def visit_FunctionDef(self, n):
        def go(body):
            out = []
            for s in body:
                for f in ('body', 'orelse', 'finalbody'):
                    if getattr(s, f, None) and not isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                        setattr(s, f, go(getattr(s, f)))
                for h in getattr(s, 'handlers', []):
                    h.body = go(h.body)
                if isinstance(s, ast.FunctionDef):
                    out.append(self.visit_FunctionDef(s))
                else:
                    out += self.stmt(s)
            return out
        doc = n.body[:1] if ast.get_docstring(n) else []
        n.body = doc + go(n.body[len(doc):])
        return n


class CompToLoop(Base):
    "x = [e for v in it] -> loop with append"
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 \
                and not n.value.generators[0].is_async:
            g = n.value.generators[0]
            t = self.fresh('acc')
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            m = {k: self.fresh(k) for k in names}
            import copy
            def ren(e):
                e = copy.deepcopy(e)
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                return e
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n.value.elt)):
                return n
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [ren(n.value.elt)], []))]
            for c in reversed(g.ifs):
                body = [ast.If(ren(c), body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())),
                    ast.For(ren(g.target), g.iter, body, []),
                    ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class CommuteMul(Base):
    "a * b -> b * a ; a + b -> b + a (names, attributes and calls of numpy only, not strings/lists)"
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant, ast.JoinedStr)) or "linear_operator" in ast.unparse(x) for x in (n.left, n.right)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Unaug(Base):
    "self.x -> local alias read at function start is unsafe; instead a = a + 0 no-ops: insert pass"
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = n.body[:1] if ast.get_docstring(n) else []
        n.body = doc + [ast.Pass()] + n.body[len(doc):] + []
        return n


class IfExp(Base):
    "x = a if c else b -> if statement;"
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            import copy
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n


class ToIfExp(Base):
    "if c: x = a else: x = b -> x = a if c else b"
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(s, ast.Assign) and len(s.targets) == 1 for s in (n.body[0], n.orelse[0])) and \
                ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class NotIsNone(Base):
    "x is not None -> not (x is None)"
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.IsNot, ast.NotIn)):
            op = ast.Is() if isinstance(n.ops[0], ast.IsNot) else ast.In()
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [op], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
            return ast.Compare(n.comparators[0], [op], [n.left])
        return n


class NumpyForms(Base):
    "np.dot(a, b) -> a.dot(b); x.sum() -> np.sum(x); np.fabs -> np.abs; np.multiply"
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np':
            if f.attr == 'fabs':
                f.attr = 'abs'
            elif f.attr == 'dot' and len(n.args) == 2 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                return ast.Call(ast.Attribute(n.args[0], 'dot', ast.Load()), [n.args[1]], [])
            elif f.attr == 'zeros' and len(n.args) == 1 and not n.keywords:
                return ast.Call(f, n.args, [ast.keyword('dtype', ast.Name('float', ast.Load()))])
        elif isinstance(f, ast.Attribute) and f.attr in ('sum', 'copy') and not n.args and isinstance(f.value, (ast.BinOp, ast.Call)) and f.attr == 'sum' \
                and not n.keywords:
            return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'sum', ast.Load()), [f.value], [])
        return n


class HelperFn(Base):
    "module-level helper for the last return expression built from local names"
    def visit_Module(self, n):
        import builtins
        out = []
        glob = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    glob |= {(a.asname or a.name).split('.')[0] for a in x.names}
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                glob.add(s.name)
            elif isinstance(s, ast.Assign):
                glob |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        helpers = []
        def one(f):
            last = f.body[-1]
            if not (isinstance(last, ast.Return) and isinstance(last.value, (ast.BinOp, ast.Call))):
                return
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Yield, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ('super', 'locals') for x in ast.walk(last.value)):
                return
            names = []
            for x in ast.walk(last.value):
                if isinstance(x, ast.Name) and x.id not in names and not hasattr(builtins, x.id) and x.id not in glob:
                    names.append(x.id)
            loc = {a.arg for a in f.args.args} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if not all(k in loc for k in names):
                return
            h = self.fresh('helper_' + f.name.strip('_'))
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(k) for k in names], None, [], [], None, []), [ast.Return(last.value)], [], None, None))
            last.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(k, ast.Load()) for k in names], [])
        for s in ast.walk(n):
            if isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        one(f)
        n.body = n.body + helpers
        return n


REWRITES = dict(invert=InvertIf, rettemp=ReturnTemp, condtemp=CondTemp, elseret=ElseAfterReturn, rename=RenameLocals, impl=ExtractImpl,
                argtemp=KwTemp, comp=CompToLoop, commute=CommuteMul, nop=Unaug, ifexp=IfExp, toifexp=ToIfExp, notis=NotIsNone, npforms=NumpyForms, helper=HelperFn)


def main():
    names = sys.argv[1:] or list(REWRITES)
    ids = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    only = os.environ.get('IDS')
    if only:
        ids = only.split(',')
    for nm in names:
        dst = '/tmp/refac/%s' % nm
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('.git', 'build', 'doc', '*.so'))
        for d, dirs, fs in os.walk(os.path.join(dst, 'regreg')):
            if '/tests' in d:
                continue
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    try:
                        t = ast.parse(open(p).read())
                        for k in nm.split('+'):
                            t = REWRITES[k]().visit(t)
                        ast.fix_missing_locations(t)
                        src = ast.unparse(t)
                        compile(src, p, 'exec')
                        open(p, 'w').write(src + '\n')
                    except SyntaxError as e:
                        print('skip', p, e)
        ev = os.path.join('/tmp/refac', 'ev')
        for i in ids:
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), i], env=dict(os.environ, SA_REPO=dst), capture_output=True, text=True)
            bad = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'BAD' in l]
            last = (r.stdout.strip().splitlines() or ['?'])[-1]
            print(nm, i, r.returncode, last[:120], '' if r.returncode == 0 else (r.stdout + r.stderr)[-600:])
        shutil.rmtree(dst, ignore_errors=True)


main()
