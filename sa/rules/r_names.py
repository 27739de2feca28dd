"""N01 every name, attribute and import resolves on every path;
N02 every internal call agrees with the signature of every callable it can reach."""
import ast, builtins, glob, os, re
from ..check import OK, BAD, UND
from ..model import Class, Func, Module

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__all__'}


# ------------------------------------------------------------------ scopes
class Scope(object):
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.names = set()
        self.globals = set()


def _targets(t, out):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)


def local_names(fn):
    """names bound in a function body (not nested scopes)"""
    out, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for st in body:
        visit(st)
    return out - glob


def functions(model):
    """every function of the package with its qualified name and scope chain"""
    for mn in sorted(model.modules):
        m = model.modules[mn]

        def rec(node, chain, qual, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    nm = getattr(ch, 'name', '<lambda>')
                    q = qual + '.' + nm
                    yield m, ch, chain, q, cls
                    yield from rec(ch, chain + [local_names(ch)], q, None)
                elif isinstance(ch, ast.ClassDef):
                    k = m.classes.get(ch.name) if not chain and cls is None else None
                    yield from rec(ch, chain, qual + '.' + ch.name, k or ch)
                else:
                    yield from rec(ch, chain, qual, cls)
        yield from rec(m.tree, [], m.name, None)


def module_has(model, m, name):
    """True / False / None (unknown)"""
    if name in m.bound or name in m.imports or name in m.classes or name in m.funcs:
        return True
    if m.is_pkg and m.name + '.' + name in model.modules:
        return True
    for base in m.star:
        if base in model.modules:
            r = module_has(model, model.modules[base], name)
            if r or r is None:
                return r
        else:
            return None
    # names declared global and assigned in functions
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global) and name in n.names:
            return True
    return False


def own_nodes(fn):
    """nodes of a function excluding nested functions (comprehensions included with
    their targets)"""
    out = []

    def visit(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            for d in getattr(n, 'decorator_list', []):
                visit(d, comp)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, comp)
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            c2 = set(comp)
            for g in n.generators:
                _targets(g.target, c2)
            for ch in ast.iter_child_nodes(n):
                visit(ch, c2)
            return
        if isinstance(n, ast.comprehension):
            for ch in ast.iter_child_nodes(n):
                visit(ch, comp)
            return
        out.append((n, comp))
        for ch in ast.iter_child_nodes(n):
            visit(ch, comp)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for st in body:
        visit(st, set())
    return out


def guarded_by(fn, node, excs):
    """node is inside a try whose handlers catch one of excs (or everything)"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(node is n for b in t.body for n in ast.walk(b)):
            for h in t.handlers:
                if h.type is None:
                    return True
                names = [getattr(x, 'id', getattr(x, 'attr', '')) for x in
                         (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(x in excs or x in ('Exception', 'BaseException') for x in names):
                    return True
    return False


# ------------------------------------------------------------------ definite unboundness
def _walk_own(n):
    """expression nodes in evaluation-agnostic order, not entering nested scopes"""
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        # the first iterable is evaluated in the enclosing scope
        yield from _walk_own(n.generators[0].iter)
        return
    if isinstance(n, ast.Lambda):
        return
    yield n
    for ch in ast.iter_child_nodes(n):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # the first iterable is evaluated in the enclosing scope
                yield from _walk_own(ch.generators[0].iter)
            continue
        yield from _walk_own(ch)


def unbound(fn):
    """names read at a point that no assignment can reach (must-analysis on the
    may-assigned set), and names read where some path misses an assignment while no
    correlated condition exists are left alone"""
    loc = local_names(fn)
    a = fn.args
    start = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            start.add(x.arg)
    bad = []

    def use(expr, st):
        if expr is None or st is None:
            return
        for n in _walk_own(expr):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in st:
                bad.append(n)
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)

    def bind(t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                st.add(n.id)

    class Loop(object):
        def __init__(self):
            self.brk = set()

    def block(body, st, loop):
        for s in body:
            if st is None:
                return None
            st = stmt(s, st, loop)
        return st

    def join(x, y):
        if x is None:
            return y
        if y is None:
            return x
        return x | y

    def stmt(s, st, loop):
        st = set(st)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.add(s.name)
            return st
        if isinstance(s, ast.Assign):
            use(s.value, st)
            for t in s.targets:
                use(t, st)
                bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            use(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in loc and s.target.id not in st:
                    bad.append(s.target)
            else:
                use(s.target, st)
            bind(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                use(s.value, st)
                bind(s.target, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                st.add((al.asname or al.name).split('.')[0])
            return st
        if isinstance(s, ast.If):
            use(s.test, st)
            return join(block(s.body, set(st), loop), block(s.orelse, set(st), loop))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                use(s.iter, st)
                e = set(st)
                bind(s.target, e)
            else:
                # the body can run before: everything assigned in the body may be assigned
                e = set(st)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        pass
                use(s.test, st)
            may = set()
            for b in s.body:
                _targets(b, may)
                for n in ast.walk(b):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        may.add(n.name)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        may.update((al.asname or al.name).split('.')[0] for al in n.names)
            nbad = len(bad)
            # the first iteration starts from the entry state: a read that only a later
            # statement of the body assigns fails in that first iteration
            firstset = block(s.body, set(e), Loop())
            # reads inside branches may be of later iterations: keep only those at top level of the body
            keep = []
            top = set()
            for b in s.body:
                if isinstance(b, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                    if isinstance(b, ast.If) or isinstance(b, ast.While):
                        top.update(id(n) for n in ast.walk(b.test))
                    continue
                top.update(id(n) for n in ast.walk(b))
            for n in bad[nbad:]:
                if n.id not in may or id(n) in top:
                    keep.append(n)
            bad[nbad:] = keep
            out = set(st) | may
            if isinstance(s, ast.For):
                bind(s.target, out)
            return block(s.orelse, out, loop) if s.orelse else out
        if isinstance(s, ast.Try):
            b = block(s.body, set(st), loop)
            mayb = set(st)
            for x in s.body:
                _targets(x, mayb)
                for n in ast.walk(x):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        mayb.update((al.asname or al.name).split('.')[0] for al in n.names)
            outs = block(s.orelse, b, loop) if (s.orelse and b is not None) else b
            for h in s.handlers:
                hs = set(mayb)
                if h.name:
                    hs.add(h.name)
                outs = join(outs, block(h.body, hs, loop))
            if s.finalbody:
                f = block(s.finalbody, set(mayb) | (outs or set()), loop)
                return f if outs is not None else None
            return outs
        if isinstance(s, ast.With):
            for it in s.items:
                use(it.context_expr, st)
                if it.optional_vars is not None:
                    bind(it.optional_vars, st)
            return block(s.body, st, loop)
        if isinstance(s, (ast.Return, ast.Raise)):
            for ch in ast.iter_child_nodes(s):
                use(ch, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            return st
        for ch in ast.iter_child_nodes(s):
            use(ch, st)
        return st
    if isinstance(fn.body, list):
        block(fn.body, start, None)
    return bad


def maybe_unbound(fn):
    """names read on some path that skips every assignment, where no condition under
    which the read happens is related to the conditions of the assignments (so
    nothing in the program excludes that path)"""
    loc = local_names(fn)
    a = fn.args
    start = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            start.add(x.arg)
    if not isinstance(fn.body, list):
        return []
    assigned = {}          # name -> list of guard vocabularies
    cands = []

    def vocab(test):
        out = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and n.id not in ('np', 'self', 'isinstance', 'hasattr', 'len', 'type', 'None', 'True', 'False'):
                out.add(n.id)
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
        return out

    def use(expr, st, g):
        if expr is None or st is None:
            return
        for n in _walk_own(expr):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in st:
                cands.append((n, set(g)))
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)
            if isinstance(n, (ast.IfExp, ast.BoolOp)):
                pass

    def bind(t, st, g):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                st.add(n.id)
                assigned.setdefault(n.id, []).append(set(x for x in g if not isinstance(x, tuple)))

    def bname(n, st, g):
        st.add(n)
        assigned.setdefault(n, []).append(set(x for x in g if not isinstance(x, tuple)))

    def block(body, st, g):
        g = set(g)
        for s in body:
            if st is None:
                return None
            st = stmt(s, st, g)
            if isinstance(s, ast.If) and any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for n in ast.walk(s)):
                g |= set((x,) for x in vocab(s.test))
        return st

    def join(x, y):
        if x is None:
            return y
        if y is None:
            return x
        return x & y

    def stmt(s, st, g):
        st = set(st)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            bname(s.name, st, g)
            return st
        if isinstance(s, ast.Assign):
            use(s.value, st, g)
            for t in s.targets:
                use(t, st, g)
                bind(t, st, g)
            return st
        if isinstance(s, ast.AugAssign):
            use(s.value, st, g)
            if isinstance(s.target, ast.Name):
                if s.target.id in loc and s.target.id not in st:
                    cands.append((s.target, set(g)))
            else:
                use(s.target, st, g)
            bind(s.target, st, g)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                use(s.value, st, g)
                bind(s.target, st, g)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                bname((al.asname or al.name).split('.')[0], st, g)
            return st
        if isinstance(s, ast.If):
            use(s.test, st, g)
            g2 = set(g) | vocab(s.test)
            # names bound next to the tested ones (flags) carry the same condition
            return join(block(s.body, set(st), g2), block(s.orelse, set(st), g2))
        if isinstance(s, (ast.For, ast.While)):
            e = set(st)
            if isinstance(s, ast.For):
                use(s.iter, st, g)
                bind(s.target, e, g)
            else:
                use(s.test, st, g)
            # everything assigned anywhere in a loop may come from an earlier iteration
            for b in s.body:
                t = set()
                _targets(b, t)
                for n in ast.walk(b):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        t.add(n.name)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        t.update((al.asname or al.name).split('.')[0] for al in n.names)
                e |= t
            block(s.body, set(e), g)
            if s.orelse:
                return block(s.orelse, e, g)
            return e
        if isinstance(s, ast.Try):
            b = block(s.body, set(st), g)
            outs = block(s.orelse, b, g) if (s.orelse and b is not None) else b
            mayb = set(st)
            for x in s.body:
                _targets(x, mayb)
                for n in ast.walk(x):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        mayb.update((al.asname or al.name).split('.')[0] for al in n.names)
            for h in s.handlers:
                hs = set(mayb)
                if h.name:
                    hs.add(h.name)
                outs = join(outs, block(h.body, hs, g))
            if s.finalbody:
                f = block(s.finalbody, set(mayb) | (outs or set()), g)
                return f if outs is not None else None
            return outs
        if isinstance(s, ast.With):
            for it in s.items:
                use(it.context_expr, st, g)
                if it.optional_vars is not None:
                    bind(it.optional_vars, st, g)
            return block(s.body, st, g)
        if isinstance(s, (ast.Return, ast.Raise)):
            for ch in ast.iter_child_nodes(s):
                use(ch, st, g)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            return st
        for ch in ast.iter_child_nodes(s):
            use(ch, st, g)
        return st
    block(fn.body, start, set())
    # conditional expressions and short circuits guard their operands
    inner = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.IfExp):
            for b in (n.body, n.orelse):
                for m in ast.walk(b):
                    inner.setdefault(id(m), set()).update(vocab(n.test))
        if isinstance(n, ast.BoolOp):
            for i, b in enumerate(n.values[1:]):
                for m in ast.walk(b):
                    for e in n.values[:i + 1]:
                        inner.setdefault(id(m), set()).update(vocab(e))
    # a condition held in a local variable stands for the expression it was given
    given = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            t = set()
            _targets(n, t)
            for v in t:
                given.setdefault(v, set()).update(vocab(n.value))

    def closure(vs):
        vs, todo = set(vs), list(vs)
        while todo:
            for w in given.get(todo.pop(), ()):
                if w not in vs:
                    vs.add(w)
                    todo.append(w)
        return vs
    for v in assigned:
        assigned[v] = [closure(x) if x else x for x in assigned[v]]
    # a flag assigned next to v carries the condition of v
    out = []
    for n, g in cands:
        g = closure(set(x[0] if isinstance(x, tuple) else x for x in g) | inner.get(id(n), set()))
        if n.id not in assigned:
            continue
        co = set()
        for x in assigned[n.id]:
            co |= x
        # variables whose own assignments depend on the same conditions are related too
        rel = set(co)
        for v, gs in assigned.items():
            if any(x & co for x in gs):
                rel.add(v)
        if g & rel:
            continue
        # a condition computed in branches may imply the assignment
        if any(v in assigned and any(x for x in assigned[v]) for v in co):
            continue
        out.append(n)
    return out


# ------------------------------------------------------------------ numpy names
_NP = {}


def external_names(dotted):
    """public names of an installed numpy/scipy module, read from its sources, or None"""
    if dotted in _NP:
        return _NP[dotted]
    out = None
    for root in glob.glob('/opt/venv/lib/python3*/site-packages') + glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        p = os.path.join(root, *dotted.split('.'))
        for cand in (os.path.join(p, '__init__.pyi'), p + '.pyi'):
            if os.path.exists(cand) and dotted in ('numpy', 'numpy.linalg', 'numpy.random'):
                txt = open(cand, encoding='utf-8').read()
                out = set(re.findall(r'\bas (\w+)', txt)) | set(re.findall(r'^(?:def|class) (\w+)', txt, re.M)) | \
                    set(re.findall(r'^(\w+)\s*:', txt, re.M)) | set(re.findall(r'^(\w+)\s*=', txt, re.M))
                out |= {'bool', 'int', 'float', 'complex', 'object', 'str', 'newaxis', 'testing', 'random', 'linalg', 'fft', 'inf', 'nan', 'pi', 'e', 'infty', 'Inf', 'NaN'}
                break
        if out is not None:
            break
    _NP[dotted] = out
    return out


# ------------------------------------------------------------------ N01
def assigned_on(cls_node):
    """attribute names stored on any object in a class body"""
    out = set()
    for n in ast.walk(cls_node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
    return out


def has_dynamic(cls):
    for c in cls.mro():
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and not (
                    len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                return True
        if '__getattr__' in c.methods or '__getattribute__' in c.methods:
            return True
    return False


def names(ctx, obs):
    model = ctx.model
    allstore = {}
    for m in model.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                allstore.setdefault(n.attr, 0)
    # imports
    for mn in sorted(model.modules):
        m = model.modules[mn]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = model._rel(m, n)
                if n.level and not guarded_by(m.tree, n, ('ImportError', 'ModuleNotFoundError', 'ValueError')):
                    cons, w = '%s:from:%s%s' % (m.name, '.' * n.level, n.module or ''), '%s:%d' % (m.relpath, n.lineno)
                    top = m.package().split('.')
                    if n.level > len(top):
                        obs.add('import', cons, BAD, 'relative import beyond the top-level package', w)
                    elif base not in model.modules and base not in model.cython and \
                            not any(os.path.exists(os.path.join(os.path.dirname(model.modules[top[0]].path), *base.split('.')[1:]) + e)
                                    for e in ('', '.py', '.pyx', '.so', '.c')):
                        obs.add('import', cons, BAD, 'there is no module %s' % base, w)
                    else:
                        obs.add('import', cons, OK, '', w)
                if base in model.modules:
                    for a in n.names:
                        if a.name == '*':
                            continue
                        b = model.modules[base]
                        r = module_has(model, b, a.name)
                        cons = '%s:import:%s' % (m.name, a.name)
                        w = '%s:%d' % (m.relpath, n.lineno)
                        if r is False and base + '.' + a.name not in model.modules and base + '.' + a.name not in model.cython \
                                and not os.path.isdir(os.path.join(os.path.dirname(b.path), a.name)) \
                                and not guarded_by(m.tree, n, ('ImportError',)):
                            obs.add('import', cons, BAD, 'name %s is imported from %s which does not define it' % (a.name, base), w)
                        else:
                            obs.add('import', cons, OK, '', w)
    nf = 0
    for m, fn, chain, qual, cls in functions(model):
        nf += 1
        loc = local_names(fn)
        w0 = '%s:%d' % (m.relpath, fn.lineno)
        bad = False
        for n, comp in own_nodes(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                nm = n.id
                if nm in loc or nm in comp or any(nm in c for c in chain) or nm in BUILTINS:
                    continue
                r = module_has(model, m, nm)
                if r is False and not guarded_by(fn, n, ('NameError',)):
                    bad = True
                    obs.add('name', '%s:%s' % (qual, nm), BAD, 'the name %s is not defined' % nm, '%s:%d' % (m.relpath, n.lineno))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, (ast.Name, ast.Attribute)):
                base = None
                root = n.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id not in loc and root.id not in comp and not any(root.id in c for c in chain):
                    base = model.resolve_expr(m, n.value)
                    if isinstance(base, Module):
                        if module_has(model, base, n.attr) is False and base.name + '.' + n.attr not in model.cython:
                            bad = True
                            obs.add('name', '%s:%s.%s' % (qual, base.name, n.attr), BAD,
                                    'module %s has no attribute %s' % (base.name, n.attr), '%s:%d' % (m.relpath, n.lineno))
                    elif isinstance(base, tuple) and base[0] == 'ext':
                        ks = external_names(base[1])
                        if ks is not None and n.attr not in ks and not n.attr.startswith('__'):
                            bad = True
                            obs.add('name', '%s:%s.%s' % (qual, base[1], n.attr), BAD,
                                    '%s has no attribute %s' % (base[1], n.attr), '%s:%d' % (m.relpath, n.lineno))
                    elif isinstance(base, Class):
                        if base.lookup(n.attr) is None and not base.ext_bases() and not has_dynamic(base) and not n.attr.startswith('__') \
                                and n.attr not in class_stores(base):
                            bad = True
                            obs.add('name', '%s:%s.%s' % (qual, base.name, n.attr), BAD,
                                    'class %s has no attribute %s' % (base.name, n.attr), '%s:%d' % (m.relpath, n.lineno))
        for n in unbound(fn):
            bad = True
            obs.add('unbound', '%s:%s' % (qual, n.id), BAD, 'the local variable %s is read before any assignment can reach it' % n.id,
                    '%s:%d' % (m.relpath, n.lineno))
        seen = set(id(n) for n in unbound(fn))
        for n in maybe_unbound(fn):
            if id(n) not in seen:
                bad = True
                obs.add('unbound', '%s:%s' % (qual, n.id), BAD, 'the local variable %s is read on a path that does not assign it' % n.id,
                        '%s:%d' % (m.relpath, n.lineno))
        if not bad:
            obs.add('name', qual, OK, '', w0)
    # self attributes
    for c in model.all_classes():
        ext = c.ext_bases()
        known = class_attrs(model, c)
        dyn = has_dynamic(c)
        for mem in members(c):
            if mem.is_static or not mem.params():
                continue
            self_n = mem.params()[0]
            for n in ast.walk(mem.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == self_n:
                    if mem.is_classmethod:
                        continue
                    cons = '%s:self.%s' % (mem.qual, n.attr)
                    if n.attr in known or n.attr.startswith('__'):
                        obs.add('attribute', cons, OK)
                    elif ext or dyn or guarded_by(mem.node, n, ('AttributeError',)):
                        obs.add('attribute', cons, UND, 'external base or dynamic attributes')
                    elif hasattr_guard(mem.node, n.attr):
                        obs.add('attribute', cons, OK)
                    else:
                        obs.add('attribute', cons, BAD, 'no class that can be the receiver ever defines the attribute %s' % n.attr,
                                '%s:%d' % (c.module.relpath, n.lineno))


def hasattr_guard(fn, name):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
            return True
    return False


def members(c):
    for st in c.node.body:
        if isinstance(st, ast.FunctionDef):
            yield Func(st, c.module, c)


_STORES = {}


def class_stores(c):
    out = set()
    for k in c.mro():
        if id(k.node) not in _STORES:
            _STORES[id(k.node)] = assigned_on(k.node)
        out |= _STORES[id(k.node)]
    return out


def class_attrs(model, c):
    """every attribute some receiver of class c (or a subclass, or a class mixed in
    with it) may define"""
    out = set()
    fam = set(c.mro())
    for s in model.subclasses(c):
        fam |= set(s.mro())
    for k in fam:
        out |= set(k.methods) | set(k.props) | set(k.attrs)
        if id(k.node) not in _STORES:
            _STORES[id(k.node)] = assigned_on(k.node)
        out |= _STORES[id(k.node)]
    return out


# ------------------------------------------------------------------ N02
class Sig(object):
    def __init__(self, fn, skip=0):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.pos = pos[skip:]
        self.ndef = min(len(a.defaults), len(self.pos))
        self.required = self.pos[:len(self.pos) - self.ndef]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var = a.vararg is not None
        self.kw = a.kwarg is not None

    def mismatch(self, nargs, kws, star, dstar):
        if not self.var and nargs > len(self.pos):
            return 'takes at most %d arguments, %d are given' % (len(self.pos), nargs)
        given = set(self.pos[:nargs])
        for k in kws:
            if k in given:
                return 'gets two values for the argument %s' % k
            if k not in self.pos and k not in self.kwonly and not self.kw:
                return 'has no argument named %s' % k
        if not star and not dstar:
            miss = [r for r in self.required if r not in given and r not in kws] + [r for r in self.kwreq if r not in kws]
            if miss:
                return 'is not given its argument%s %s' % ('s' if len(miss) > 1 else '', ', '.join(miss))
        return None


def call_shape(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    nargs = len([a for a in n.args if not isinstance(a, ast.Starred)])
    return nargs, [k.arg for k in n.keywords if k.arg], star, dstar


def ctor(c):
    """(__init__ Func or None, decidable)"""
    r = c.lookup('__init__')
    if r and r[0] == 'method':
        return r[1], True
    if c.lookup('__new__'):
        return None, False
    return None, not c.ext_bases()


def runs_on(model, k, name, seen=()):
    """can the private method `name` run on an instance of k?  (some method that k does
    not override calls it)"""
    if not name.startswith('_') or name.startswith('__') or name in seen:
        return name not in seen
    users = getattr(model, '_self_users', None)
    if users is None:
        users = model._self_users = {}
        for m, fn, chain, qual, cls in functions(model):
            for n, comp in own_nodes(fn):
                if isinstance(n, ast.Attribute):
                    own = isinstance(n.value, ast.Name) and isinstance(cls, Class) and fn.args.args and n.value.id == fn.args.args[0].arg
                    users.setdefault(n.attr, []).append(fn if own else None)
    fns = users.get(name, [])
    if not fns or None in fns:
        return True
    for f in fns:
        lk = k.lookup(f.name)
        if lk and lk[0] in ('method', 'prop'):
            nodes = [x.node for x in (lk[1] if isinstance(lk[1], tuple) else (lk[1],)) if x is not None]
            if f in nodes and runs_on(model, k, f.name, seen + (name,)):
                return True
    return False


def calls(ctx, obs):
    model = ctx.model
    impls = {}
    for c in model.all_classes():
        for nm, f in c.methods.items():
            impls.setdefault(nm, []).append((c, f))
    for m, fn, chain, qual, cls in functions(model):
        loc = local_names(fn)
        params = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        decs = [d for d in getattr(fn, 'decorator_list', [])]
        isclsm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in decs)
        isstatic = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in decs)
        for n, comp in own_nodes(fn):
            if not isinstance(n, ast.Call):
                continue
            where = '%s:%d' % (m.relpath, n.lineno)
            shape = call_shape(n)
            any_ok = False
            tgt = None      # (label, node, skip)
            f = n.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            shadow = isinstance(root, ast.Name) and (root.id in loc or root.id in comp or any(root.id in ch for ch in chain))
            label = ast.unparse(f) if len(ast.unparse(f)) < 60 else '...'
            cons = '%s:%s' % (qual, label)
            if isinstance(root, ast.Name) and not shadow:
                r = model.resolve_expr(m, f)
                if isinstance(r, Func):
                    skip = 1 if (r.is_classmethod and isinstance(f, ast.Attribute)) else 0
                    tgt = [(r.qual, r.node, skip)]
                elif isinstance(r, Class):
                    init, dec = ctor(r)
                    if init is not None:
                        tgt = [(r.qual + '()', init.node, 1)]
                    elif dec and (shape[0] or shape[1]):
                        obs.add('signature', cons, BAD, '%s takes no arguments' % r.qual, where)
                        continue
                elif r is None and isinstance(f, ast.Attribute):
                    b = model.resolve_expr(m, f.value)
                    if isinstance(b, Class):
                        lk = b.lookup(f.attr)
                        if lk and lk[0] == 'prop':
                            obs.add('signature', cons, BAD, '%s.%s is a property, it cannot be called through the class' % (b.name, f.attr), where)
                            continue
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None and isinstance(cls, Class) and params \
                    and f.value.id == params[0] and not isstatic and not reassigned(fn, params[0]):
                # self.method(...)  /  klass(...).  every receiver class
                tgt = []
                for k in [cls] + model.subclasses(cls):
                    lk = k.lookup(f.attr)
                    me = k.lookup(fn.name) if hasattr(fn, 'name') else None
                    if k is not cls:
                        if me is None or me[0] == 'attr':
                            continue
                        nodes = [x.node for x in (me[1] if isinstance(me[1], tuple) else (me[1],)) if x is not None]
                        if fn not in nodes or not runs_on(model, k, fn.name):
                            continue
                    if lk and lk[0] == 'method' and f.attr not in class_stores(k):
                        g = lk[1]
                        t = (g.qual, g.node, 0 if g.is_static else (0 if (isclsm and not g.is_classmethod) else 1))
                        if t not in tgt:
                            tgt.append(t)
                    elif lk and lk[0] == 'prop' and not isclsm:
                        pass
            elif isinstance(f, ast.Name) and isclsm and params and f.id == params[0] and isinstance(cls, Class):
                tgt = []
                any_ok = True
                for k in [cls] + model.subclasses(cls):
                    me = k.lookup(fn.name)
                    if me is None or me[0] != 'method' or me[1].node is not fn:
                        continue
                    init, dec = ctor(k)
                    if init is not None:
                        tgt.append((k.qual + '()', init.node, 1))
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and isinstance(cls, Class):
                for k in cls.mro()[1:]:
                    if f.attr in k.methods:
                        g = k.methods[f.attr]
                        tgt = [(g.qual, g.node, 0 if g.is_static else 1)]
                        break
            if tgt and any_ok:
                # an inherited alternative constructor: some class that inherits it must
                # accept the call (classes with other constructors do not support it)
                errs = [(lab, Sig(node, skip).mismatch(*shape)) for lab, node, skip in tgt]
                if any(e is None for _, e in errs):
                    obs.add('signature', cons, OK, '', where)
                    continue
            if tgt:
                for lab, node, skip in tgt:
                    e = Sig(node, skip).mismatch(*shape)
                    if e:
                        obs.add('signature', cons, BAD, 'the call of %s: %s' % (lab, e), where)
                    else:
                        obs.add('signature', cons, OK, lab, where)
                continue
            # duck-typed call: at least one implementation in the package must accept it
            if isinstance(f, ast.Attribute) and f.attr in impls and f.attr not in DUCK_SKIP and not (
                    isinstance(root, ast.Name) and not shadow and isinstance(model.resolve_expr(m, root), (tuple, type(None)))
                    and not isinstance(f.value, ast.Call)):
                if any(f.attr in c.attrs or f.attr in c.props for c in model.all_classes()):
                    continue
                errs = []
                for c, g in impls[f.attr]:
                    e = Sig(g.node, 0 if g.is_static else 1).mismatch(*shape)
                    if e is None:
                        errs = None
                        break
                    errs.append('%s %s' % (g.qual, e))
                if errs is None:
                    obs.add('duck', cons, OK, '', where)
                else:
                    obs.add('duck', cons, BAD, 'no implementation of %s accepts this call: %s' % (f.attr, '; '.join(errs[:3])), where)


DUCK_SKIP = {'copy', 'get', 'update', 'append', 'pop', 'keys', 'items', 'values', 'fit', 'dot', 'reshape', 'sum', 'mean', 'next', 'score', 'predict', 'sort',
             'append', 'add', 'remove', 'index', 'count', 'clear', 'set_params', 'get_params', 'linear', 'max', 'min', 'conj', 'transpose'}


def reassigned(fn, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fn))


PROPS = {
    'N01': dict(run=names, floor=800, rule='Every name read in a function resolves to a local, enclosing, module or builtin binding that some path '
                'can have assigned; every name imported from a package module is defined there; every module or class attribute that is read exists; every attribute read '
                'on self is defined by some class in the family of possible receivers.'),
    'N02': dict(run=calls, floor=300, rule='Every call whose target resolves inside the package (functions, constructors, methods on self for every '
                'subclass that inherits the caller, super calls, classmethod constructors) agrees in arity and keyword names with the target; duck-typed method calls '
                'are accepted by at least one implementation; properties are not called through a class.'),
}
