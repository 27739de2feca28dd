"""E01 functions leave what they are given unchanged; E04 shared mutable state is never modified.

Interprocedural effect analysis: a forward may-alias dataflow in every function computes which
names, attributes and results can denote a parameter (or memory, or a component of it); writes
through such names are collected into summaries (parameters modified, returned and stored in
attributes) that are propagated over the call graph to a fixpoint."""
import ast, re
from ..check import OK, BAD, UND
from ..model import Class, Func, Module

# origins: (root, d).  root: ('p', name) a parameter, ('a', attr) an attribute of self at entry, ('g', qualified name) a module
# global, ('k', class, attr) a class attribute.
SAME, VIEW, PART, SHALLOW, MAYBE = 0, 1, 2, 3, 4
EMPTY = frozenset()

ALIAS_FN = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'ascontiguousarray', 'squeeze', 'ravel', 'reshape', 'transpose',
            'broadcast_to', 'expand_dims', 'swapaxes', 'asfortranarray', 'require'}
ALIAS_METH = {'reshape', 'ravel', 'squeeze', 'view', 'transpose', 'swapaxes', 'tocsr', 'tocsc', 'tocoo'}
ALIAS_ATTR = {'T', 'flat', 'real', 'imag'}
SHALLOW_FN = {'list', 'dict', 'set', 'tuple', 'sorted', 'copy', 'OrderedDict'}
INPLACE = {'sort', 'fill', 'resize', 'itemset', 'partition', 'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse',
           'update', 'setdefault', 'popitem', 'byteswap', 'setdiag', 'sum_duplicates', 'sort_indices', 'eliminate_zeros', 'add', 'discard'}
CONTAINER_ONLY = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard'}
WRITE_FN = {'copyto', 'put', 'place', 'fill_diagonal', 'putmask', 'shuffle', 'put_along_axis'}
UFUNC = dict([(n, 2) for n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'power', 'fmax', 'fmin',
                              'dot', 'hypot', 'logaddexp', 'mod', 'arctan2', 'greater', 'less', 'copysign', 'floor_divide')] +
             [(n, 1) for n in ('exp', 'log', 'log1p', 'expm1', 'sqrt', 'square', 'fabs', 'absolute', 'abs', 'negative', 'sign', 'tanh', 'cosh', 'sinh',
                               'sin', 'cos', 'reciprocal', 'floor', 'ceil', 'rint', 'isnan')] + [('clip', 3)])
ARRAY_NAMES = {'x', 'v', 'z', 'arg', 'grad', 'gradient', 'natural_param', 'linpred', 'linear_predictor', 'eta', 'coefs', 'response', 'point', 'center',
               'solution', 'score', 'beta', 'X', 'Y', 'y', 'case_weights', 'prox_center', 'mean_param', 'dual', 'primal', 'initial', 'weights',
               'successes', 'trials', 'counts', 'event_times', 'censoring', 'labels', 'predictions', 'soln', 'scalings', 'groups', 'residual'}
ARRAYISH = {'shape', 'T', 'dot', 'copy', 'sum', 'reshape', 'mean', 'ndim', 'size', 'dtype', 'astype', 'max', 'min', 'ravel', 'flatten', 'std', 'var', 'toarray'}


def target(node):
    """the expression written"""
    t = node
    if isinstance(t, ast.AugAssign):
        t = t.target
    if isinstance(t, ast.Call):
        return ast.unparse(t.func)
    while isinstance(t, ast.Subscript):
        t = t.value
    return ast.unparse(t)


def part(os):
    return frozenset((r, PART if d != MAYBE else MAYBE) for r, d in os)


def view(os):
    return frozenset((r, VIEW if d == SAME else d) for r, d in os if d != SHALLOW)


def shallow(os):
    return frozenset((r, SHALLOW if d in (SAME, VIEW, SHALLOW) else MAYBE) for r, d in os)


def maybe(os):
    return frozenset((r, MAYBE) for r, d in os)


class Summary(object):
    def __init__(self):
        self.mut = {}        # (root, depth) -> (how, line, chain)
        self.ret = EMPTY
        self.sites = {}      # root -> what is written -> (how, line, chain)
        self.store = {}      # attr -> origins (parameters)

    def key(self):
        return (frozenset(self.mut), self.ret, tuple(sorted((k, v) for k, v in self.store.items())))


class Effects(object):
    def __init__(self, model):
        self.model = model
        self.funcs = []
        self.sums = {}
        self.byname = {}
        self.cy = {}
        self.spec, self.busy = {}, set()
        seen = set()
        for f in model.all_funcs():
            if id(f.node) not in seen:
                seen.add(id(f.node))
                self.funcs.append(f)
                self.sums[id(f.node)] = Summary()
                if f.cls is not None:
                    self.byname.setdefault(f.name, []).append(f)
        # names that are mutable tables of classes and never attributes of instances
        tables, inst = set(), set()
        for c in model.all_classes():
            for st in c.node.body:
                if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Dict, ast.List, ast.Set)) or isinstance(st, ast.Assign) and mutable(st.value):
                    tables |= {t.id for t in st.targets if isinstance(t, ast.Name)}
        for f in self.funcs:
            inst |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
                     and f.cls is not None and n.value.id == first(f)}
        self.tables = tables - inst
        self.calls = 0
        self.writes = 0
        for rnd in range(12):
            changed = False
            self.calls = self.writes = 0
            self.spec, self.busy = {}, set()
            for f in self.funcs:
                s = Flow(self, f).run()
                if s.key() != self.sums[id(f.node)].key():
                    changed = True
                self.sums[id(f.node)] = s
            if not changed:
                break
        self.rounds = rnd + 1

    def summary(self, f):
        return self.sums.get(id(f.node))

    def special(self, f, consts):
        """the summary for calls with constant flags"""
        names = set(flags(f))
        consts = {k: v for k, v in consts.items() if k in names}
        if not consts:
            return self.summary(f)
        k = (id(f.node), tuple(sorted(consts.items(), key=str)))
        if k in self.busy:
            return self.summary(f)
        if k not in self.spec:
            self.busy.add(k)
            self.spec[k] = Flow(self, f, consts).run()
            self.busy.discard(k)
        return self.spec[k]

    def compiled(self, base, name):
        if base not in self.cy:
            self.cy[base] = cython_effects(self.model.cython[base])
        return self.cy[base].get(name)


class Compiled(object):
    """a function of a Cython module: its parameters, those written and those returned"""
    def __init__(self, name, params, line):
        self.name, self.params, self.line = name, params, line
        self.mut, self.ret = {}, set()


def cython_effects(path):
    out = {}
    lines = open(path).read().split('\n')
    starts = [i for i, l in enumerate(lines) if re.match(r'(def|cpdef)\s+\w+', l)] + [len(lines)]
    for a, b in zip(starts, starts[1:]):
        text = '\n'.join(re.sub(r'#.*', '', l) for l in lines[a:b])
        m = re.match(r'(?:def|cpdef)\s+(?:[\w.]+\s+)?(\w+)\s*\(', text)
        if not m:
            continue
        depth, j = 1, m.end()
        while depth and j < len(text):
            depth += {'(': 1, ')': -1}.get(text[j], 0)
            j += 1
        sig, body = text[m.end():j - 1], text[j:]
        sig = re.sub(r'\[[^\]]*\]', '', sig)
        params = [re.sub(r'=.*', '', p, flags=re.S).split()[-1] for p in sig.split(',') if p.strip()]
        F = Compiled(m.group(1), params, a + 1)
        alias = {p: p for p in params}
        for k, l in enumerate(body.split('\n')):
            l = l.strip()
            w = re.match(r'(\w+)\s*\[.*?\]\s*(?:[-+*/|&]|\*\*|//)?=(?!=)', l)
            if w and w.group(1) in alias:
                F.mut.setdefault(alias[w.group(1)], k)
            w = re.match(r'(\w+)\s*(?:[-+*/|&]|\*\*|//)=(?!=)', l)
            if w and w.group(1) in alias and re.search(r'ndarray[^,]*?(\[[^\]]*\])?\s+%s\b' % w.group(1), text[:j]):
                F.mut.setdefault(alias[w.group(1)], k)
            w = re.match(r'(\w+)\.(sort|fill|partition|resize|itemset)\(', l)
            if w and w.group(1) in alias:
                F.mut.setdefault(alias[w.group(1)], k)
            w = re.match(r'(?:cdef\s+[\w.]+(?:\[[^\]]*\])?\s+)?(\w+)\s*=(?!=)\s*(.*)$', l)
            if w:
                v = re.match(r'(?:np\.(?:asarray|ascontiguousarray|atleast_1d|ravel|squeeze)\()?(\w+)\)?(\.T|\.ravel\(\)|\.reshape\(.*\)|\[:\])?\s*$', w.group(2))
                if v and v.group(1) in alias:
                    alias[w.group(1)] = alias[v.group(1)]
                else:
                    alias.pop(w.group(1), None)
            w = re.match(r'return\s+(\w+)\s*$', l)
            if w and w.group(1) in alias:
                F.ret.add(alias[w.group(1)])
        out[F.name] = F
    return out


class Flow(object):
    def __init__(self, E, f, consts=None):
        self.E, self.f, self.model = E, f, E.model
        self.consts = consts or {}
        self.s = Summary()
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.me = self.pos[0] if f.cls is not None and self.pos and not f.is_static else None
        self.env = {}
        for p in self.params:
            if p != self.me:
                self.env[p] = frozenset([(('p', p), SAME)])
        if a.vararg:
            self.env[a.vararg.arg] = frozenset([(('p', a.vararg.arg), SHALLOW)])
        if a.kwarg:
            self.env[a.kwarg.arg] = frozenset([(('p', a.kwarg.arg), SHALLOW)])
        self.arrayish = arrays_of(f)
        self.dead = False
        self.tests = {}
        from .r_names import local_names
        self.locals = local_names(f.node)

    def run(self):
        self.block(self.f.node.body)
        return self.s

    # ------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            if self.dead:
                break
            self.stmt(st)

    def join(self, *envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, EMPTY) | v
        return out

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def stmt(self, n):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value)
            for t in n.targets:
                self.assign(t, v, n.value)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value), n.value)
        elif isinstance(n, ast.AugAssign):
            self.ev(n.value)
            self.aug(n)
        elif isinstance(n, (ast.Expr,)):
            self.ev(n.value)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.s.ret = self.s.ret | self.ev(n.value)
        elif isinstance(n, ast.If):
            self.ev(n.test)
            k = self.known(n.test)
            if k is not None:
                self.block(n.body if k else n.orelse)
                if self.ends(n.body if k else n.orelse):
                    self.dead = True
                return
            e0 = dict(self.env)
            self.narrow(n.test, True)
            self.block(n.body)
            e1, d1 = self.env, self.dead
            self.env, self.dead = e0, False
            self.narrow(n.test, False)
            self.block(n.orelse)
            e2, d2 = self.env, self.dead
            self.dead = d1 and d2
            if d1 != d2:
                self.env = e2 if d1 else e1
            elif self.ends(n.body) and self.ends(n.orelse):
                self.env = self.join(e1, e2)
            elif self.ends(n.body):
                self.env = e2
            elif self.ends(n.orelse):
                self.env = e1
            else:
                self.env = self.join(e1, e2)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.iter(n.iter)
            e0 = dict(self.env)
            for k in range(2):
                self.assign_iter(n.target, n.iter, it)
                self.block(n.body)
                self.dead = False
                self.env = self.join(e0, self.env)
            self.block(n.orelse)
        elif isinstance(n, ast.While):
            e0 = dict(self.env)
            for k in range(2):
                self.ev(n.test)
                self.block(n.body)
                self.dead = False
                self.env = self.join(e0, self.env)
            self.block(n.orelse)
        elif isinstance(n, ast.Try):
            e0 = dict(self.env)
            self.block(n.body)
            e1 = self.env
            outs = [e1]
            self.dead = False
            for h in n.handlers:
                self.env = self.join(e0, e1)
                self.block(h.body)
                self.dead = False
                if not self.ends(h.body):
                    outs.append(self.env)
            self.env = self.join(*outs)
            self.block(n.orelse)
            self.block(n.finalbody)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            self.block(n.body)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value), 'item deletion', t)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(n, ast.Assert):
            self.ev(n.test)
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.ev(n.exc)

    def known(self, test):
        """the value of a test of constant flags"""
        if not self.consts:
            return None
        test = self.tests.get(test.id, test) if isinstance(test, ast.Name) and test.id not in self.consts else test
        if isinstance(test, ast.Name) and test.id in self.consts:
            return bool(self.consts[test.id])
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            k = self.known(test.operand)
            return None if k is None else not k
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in self.consts:
            v, o, c = self.consts[test.left.id], test.ops[0], test.comparators[0]
            try:
                c = ast.literal_eval(c)
                if isinstance(o, (ast.Eq, ast.Is)):
                    return v == c
                if isinstance(o, (ast.NotEq, ast.IsNot)):
                    return v != c
                if isinstance(o, ast.In):
                    return v in c
                if isinstance(o, ast.NotIn):
                    return v not in c
            except (ValueError, TypeError):
                pass
        return None

    def narrow(self, test, truth):
        """x is None: x denotes nothing the caller could see"""
        if isinstance(test, ast.Name) and test.id in self.tests:
            test = self.tests[test.id]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not truth)
        if isinstance(test, ast.BoolOp) and (isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth):
            for v in test.values:
                self.narrow(v, truth)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if eq == truth:
                k = self.place(test.left)
                if k is not None:
                    self.env[k] = EMPTY
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            if isinstance(test.ops[0], ast.IsNot) == truth:
                a, b = self.place(test.left), self.place(test.comparators[0])
                for k, o in ((a, test.comparators[0]), (b, test.left)):
                    if k is not None and self.place(o) is not None:
                        same = frozenset(x for x in self.ev(o) if x[1] == SAME)
                        if same and same == self.ev(o):
                            self.env[k] = self.ev(test.left if k == a else test.comparators[0]) - same

    def place(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
            return 'self.' + e.attr
        return None

    def iter(self, e):
        return self.ev(e)

    def assign_iter(self, target, e, it):
        # zip / enumerate / items: the parts of the arguments
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if isinstance(target, (ast.Tuple, ast.List)):
                if nm == 'zip' and len(target.elts) == len(e.args):
                    for t, a in zip(target.elts, e.args):
                        self.assign(t, part(self.ev(a)), None)
                    return
                if nm == 'enumerate' and len(target.elts) == 2 and e.args:
                    self.assign(target.elts[0], EMPTY, None)
                    self.assign(target.elts[1], part(self.ev(e.args[0])), None)
                    return
                if nm == 'items' and len(target.elts) == 2 and isinstance(e.func, ast.Attribute):
                    self.assign(target.elts[0], EMPTY, None)
                    self.assign(target.elts[1], part(self.ev(e.func.value)), None)
                    return
            if nm in ('range', 'arange', 'keys', 'product', 'sorted', 'unique'):
                self.assign(target, EMPTY, None)
                return
        self.assign(target, part(it), None)

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.tests.pop(t.id, None)
            if isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) or isinstance(value, ast.Name) and value.id in self.consts:
                self.tests[t.id] = value
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(x) for x in value.elts]
                for a, b, c in zip(t.elts, vs, value.elts):
                    self.assign(a, b, c)
            else:
                for a in t.elts:
                    self.assign(a.value if isinstance(a, ast.Starred) else a, part(v), None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            self.write(self.ev(t.value), 'item assignment', t)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                self.env['self.' + t.attr] = v
                if self.f.name != '__new__':
                    own = frozenset(o for o in v if o[0][0] == 'p')
                    if own:
                        self.s.store[t.attr] = self.s.store.get(t.attr, EMPTY) | own
                    self.setter(t.attr, v, t)
            else:
                k = self.klass(t.value)
                if k is not None:
                    self.s.mut.setdefault((('k', t.attr), SAME), ('assignment to an attribute of the class', t.lineno, None))
                self.write_attr(self.ev(t.value), t)

    def klass(self, e):
        if isinstance(e, ast.Attribute) and e.attr == '__class__' or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type':
            return True
        if isinstance(e, ast.Name) and (e.id == self.me and self.f.is_classmethod or e.id not in self.locals and isinstance(self.model.resolve(self.f.module, e.id), (Class, Module))):
            return True
        return None

    def setter(self, attr, v, node):
        """assignments to properties run their setters"""
        if self.f.cls is None:
            return
        for c in [self.f.cls] + self.model.subclasses(self.f.cls):
            lk = c.lookup(attr)
            if lk and lk[0] == 'prop' and lk[1][1] is not None and lk[1][1].node is not self.f.node:
                self.apply(lk[1][1], [v], {}, node, skip=1)

    def aug(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            os = self.env.get(t.id, None)
            if os is None:
                os = self.ev(ast.Name(id=t.id, ctx=ast.Load()))
            live = frozenset((r, d) for r, d in os if d in (SAME, VIEW) and (r[0] != 'p' or self.array(r[1]) or t.id in self.arrayish))
            self.write(live, 'augmented assignment', n)
        elif isinstance(t, ast.Subscript):
            self.write(self.ev(t.value), 'augmented item assignment', n)
        elif isinstance(t, ast.Attribute):
            os = self.ev(t)
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                live = frozenset((r, d) for r, d in os if d in (SAME, VIEW) and (r[0] != 'p' or self.array(r[1])))
                self.write(live, 'augmented assignment', n)
            else:
                self.write_attr(self.ev(t.value), t)

    def array(self, p):
        return p in self.arrayish

    # ------------------------------------------------------------ writes
    def write(self, os, how, node, chain=None):
        self.E.writes += 1
        for r, d in os:
            if d in (SAME, VIEW, PART):
                self.s.mut.setdefault((r, PART if d == PART else SAME), (how, node.lineno, chain))
                self.s.sites.setdefault(r, {}).setdefault(target(node), (how, node.lineno, chain))

    def replaced(self):
        if not hasattr(self, '_replaced'):
            self._replaced = {ast.dump(n.value).replace('Store()', 'Load()') + n.attr for n in ast.walk(self.f.node)
                              if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return self._replaced

    def write_attr(self, os, node):
        self.E.writes += 1
        if ast.dump(node.value) + node.attr in restored(self.f):
            return
        for r, d in os:
            if d == SAME or d == PART:
                self.s.mut.setdefault((r, d), ('assignment to the attribute %s' % node.attr, node.lineno, None))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
            elif isinstance(c, ast.comprehension):
                self.ev(c.iter)
        return EMPTY

    def ex_Constant(self, e):
        return EMPTY

    def ex_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.locals or e.id == self.me:
            return EMPTY
        r = self.model.resolve(self.f.module, e.id)
        if isinstance(r, tuple) and r[0] == 'var':
            return frozenset([(('g', '%s.%s' % (r[1].name, r[2])), SAME)])
        return EMPTY

    def ex_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == self.me:
            k = 'self.' + e.attr
            if k in self.env:
                return self.env[k]
            if self.f.is_classmethod:
                return frozenset([(('k', e.attr), SAME)])
            # properties: what the getter returns
            lk = self.f.cls.lookup(e.attr)
            if lk and lk[0] == 'prop' and lk[1][0] is not None:
                s = self.E.summary(lk[1][0])
                return frozenset((r, d) for r, d in s.ret if r[0] == 'a') if s else EMPTY
            return frozenset([(('a', e.attr), SAME)])
        if isinstance(e.value, ast.Attribute) and e.value.attr == '__class__' or isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'type':
            return frozenset([(('k', e.attr), SAME)])
        if isinstance(e.value, ast.Name) and e.value.id not in self.locals:
            c = self.model.resolve(self.f.module, e.value.id)
            if isinstance(c, Class):
                return frozenset([(('k', e.attr), SAME)])
            if isinstance(c, Module) and e.attr in c.bound and e.attr not in c.funcs and e.attr not in c.classes:
                return frozenset([(('g', '%s.%s' % (c.name, e.attr)), SAME)])
        os = self.ev(e.value)
        if e.attr in ALIAS_ATTR:
            return view(os)
        if e.attr in self.E.tables and ast.dump(e.value) + e.attr not in self.replaced():
            return part(os) | frozenset([(('k', e.attr), SAME)])
        return part(os)

    def ex_Subscript(self, e):
        os = self.ev(e.value)
        self.ev(e.slice)
        s = e.slice
        if isinstance(s, ast.Slice) or isinstance(s, ast.Tuple) and s.elts and all(
                isinstance(x, ast.Slice) or isinstance(x, ast.Constant) or isinstance(x, ast.Attribute) and x.attr == 'newaxis' for x in s.elts):
            return view(os)
        if isinstance(s, ast.Constant) and (s.value is Ellipsis or isinstance(s.value, str)):
            return view(os) if s.value is Ellipsis else part(os)
        if isinstance(s, ast.Constant) and isinstance(s.value, int):
            return part(os)
        return maybe(os)

    def ex_Starred(self, e):
        return part(self.ev(e.value))

    def ex_IfExp(self, e):
        self.ev(e.test)
        k = self.known(e.test)
        if k is not None:
            return self.ev(e.body if k else e.orelse)
        e0 = dict(self.env)
        self.narrow(e.test, True)
        a = self.ev(e.body)
        self.env = dict(e0)
        self.narrow(e.test, False)
        b = self.ev(e.orelse)
        self.env = e0
        return a | b

    def ex_BoolOp(self, e):
        out = EMPTY
        for v in e.values:
            out |= self.ev(v)
        return out

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def ex_Tuple(self, e):
        out = EMPTY
        for v in e.elts:
            out |= maybe(self.ev(v))
        return out

    ex_List = ex_Tuple

    def ex_Dict(self, e):
        out = EMPTY
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.ev(k)
                out |= maybe(self.ev(v))
            else:
                out |= shallow(self.ev(v))
        return out

    def comp(self, e, elts):
        e0 = dict(self.env)
        for g in e.generators:
            it = self.ev(g.iter)
            self.assign_iter(g.target, g.iter, it)
            for i in g.ifs:
                self.ev(i)
        out = EMPTY
        for x in elts:
            out |= maybe(self.ev(x))
        self.env = e0
        return out

    def ex_ListComp(self, e):
        return self.comp(e, [e.elt])

    ex_SetComp = ex_GeneratorExp = ex_ListComp

    def ex_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def ex_Lambda(self, e):
        return EMPTY

    # ------------------------------------------------------------ calls
    def ex_Call(self, e):
        self.E.calls += 1
        f = e.func
        args = [self.ev(a) for a in e.args if not isinstance(a, ast.Starred)]
        star = [self.ev(a.value) for a in e.args if isinstance(a, ast.Starred)]
        kws = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        dstar = [self.ev(k.value) for k in e.keywords if k.arg is None]
        if 'out' in kws:
            self.write(kws['out'], 'out=', e)
        if isinstance(f, ast.Name):
            tgt = None if f.id in self.locals else self.model.resolve(self.f.module, f.id)
            if isinstance(tgt, Func):
                return self.apply(tgt, args, kws, e)
            if isinstance(tgt, Class):
                return self.construct(tgt, args, kws, e)
            if f.id == self.me and self.f.is_classmethod and self.f.cls is not None:
                return self.construct(self.f.cls, args, kws, e)
            if isinstance(tgt, tuple) and tgt[0] == 'cy':
                return self.native(tgt, args, kws, e)
            return self.external(f.id, tgt, args, kws, e)
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in self.locals and root.id != self.me:
                tgt = self.model.resolve_expr(self.f.module, f)
                if isinstance(tgt, Func):
                    # Class.method(self, ..) or module function
                    return self.apply(tgt, args, kws, e, own=bool(tgt.cls is not None and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me))
                if isinstance(tgt, Class):
                    return self.construct(tgt, args, kws, e)
                if isinstance(tgt, tuple) and tgt[0] == 'cy':
                    return self.native(tgt, args, kws, e)
                if isinstance(tgt, tuple) and tgt[0] == 'ext':
                    return self.external(f.attr, tgt, args, kws, e)
            # methods of self and super
            sup = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
            if (isinstance(f.value, ast.Name) and f.value.id == self.me or sup) and self.f.cls is not None:
                out, seen = EMPTY, set()
                ks = [self.f.cls] + ([] if sup else self.model.subclasses(self.f.cls))
                for k in ks:
                    g = None
                    if sup:
                        for b in k.mro()[1:]:
                            if f.attr in b.methods:
                                g = b.methods[f.attr]
                                break
                    else:
                        g = k.method(f.attr)
                    if g is not None and id(g.node) not in seen:
                        seen.add(id(g.node))
                        out |= self.apply(g, args, kws, e, skip=0 if g.is_static else 1, own=not g.is_classmethod)
                if seen:
                    return out
            recv = self.ev(f.value)
            if f.attr in INPLACE:
                if f.attr in CONTAINER_ONLY or f.attr in ('sort', 'fill', 'resize', 'itemset', 'partition', 'setdiag'):
                    if not (f.attr == 'update' and False):
                        self.write(recv, '.%s()' % f.attr, e)
                if f.attr in ('pop', 'setdefault', 'popitem'):
                    return part(recv)
                return EMPTY
            if f.attr == 'dot' and len(args) > 1 and not any('dot' == g.name for g in self.E.byname.get('dot', [])):
                self.write(args[1], '.dot(out)', e)
            if f.attr == '__setitem__':
                self.write(recv, '.__setitem__()', e)
            if f.attr in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
                self.write(recv, 'augmented assignment', e)
            if f.attr in ALIAS_METH:
                return view(recv)
            if f.attr in ('get', 'values', 'items'):
                return part(recv)
            if f.attr == 'astype' and self.false(e, 'copy'):
                return view(recv)
            if f.attr in ('copy', 'astype', 'flatten', 'toarray', 'todense', 'dot', 'sum', 'mean', 'keys'):
                return EMPTY
            if f.attr.startswith('set_') and len(f.attr) > 4 and e.args + e.keywords:
                self.write_attr(recv, ast.copy_location(ast.Attribute(value=f.value, attr=f.attr[4:], ctx=ast.Store()), e))
            # methods of other objects, by name
            gs = self.E.byname.get(f.attr, [])
            for g in gs:
                self.apply(g, args, kws, e, skip=0 if g.is_static else 1)
            return EMPTY
        self.ev(f)
        return EMPTY

    def false(self, e, name):
        return any(k.arg == name and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords)

    def native(self, tgt, args, kws, e):
        F = self.E.compiled(tgt[1], tgt[2])
        if F is None:
            return EMPTY
        bind = dict(zip(F.params, args))
        bind.update(kws)
        for p in F.mut:
            self.write(bind.get(p, EMPTY), 'item assignment in %s.%s' % (tgt[1], tgt[2]), e)
        out = EMPTY
        for p in F.ret:
            out |= bind.get(p, EMPTY)
        return out

    def external(self, name, tgt, args, kws, e):
        if isinstance(tgt, tuple) and tgt[0] == 'ext' and isinstance(e.func, (ast.Attribute, ast.Name)):
            k = UFUNC.get(name)
            if k is not None and len(args) > k:
                self.write(args[k], 'output argument of %s()' % name, e)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Attribute) and name == 'at' and args:
                self.write(args[0], '%s.at()' % e.func.value.attr, e)
            if name == 'nan_to_num' and args and self.false(e, 'copy'):
                self.write(args[0], 'nan_to_num(copy=False)', e)
        if name in WRITE_FN and args:
            self.write(args[0], name + '()', e)
            return EMPTY
        if name == 'setattr' and len(args) > 1:
            if isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                return EMPTY
            self.s.mut.update({(r, d): ('setattr', e.lineno, None) for r, d in args[0] if d in (SAME, PART)})
            return EMPTY
        if name in ALIAS_FN and args:
            return args[0] if name.startswith('as') or name.startswith('at') else view(args[0])
        if name in ('array', 'nan_to_num') and args and self.false(e, 'copy'):
            return args[0]
        if name in SHALLOW_FN and args and (tgt is None or isinstance(tgt, tuple) and tgt[0] == 'ext'):
            if name == 'copy' and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                return EMPTY
            return shallow(args[0])
        if name == 'getattr' and args:
            if isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                return maybe(frozenset())
            return part(args[0])
        if name in ('reversed', 'iter'):
            return shallow(args[0]) if args else EMPTY
        if name in ('zip', 'enumerate', 'chain'):
            out = EMPTY
            for a in args:
                out |= maybe(a)
            return out
        if name == 'next':
            return part(args[0]) if args else EMPTY
        return EMPTY

    def construct(self, c, args, kws, e):
        lk = c.lookup('__init__')
        if lk and lk[0] == 'method':
            self.apply(lk[1], args, kws, e, skip=1)
        return EMPTY

    def apply(self, g, args, kws, e, skip=0, own=False):
        """the effects of a call"""
        s = self.E.summary(g)
        if s is None:
            return EMPTY
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip == 0 and g.is_classmethod and g.cls is not None:
            skip = 1
        names = pos[skip:]
        if isinstance(node_call(e), ast.Call) and not any(isinstance(x, ast.Starred) for x in e.args):
            cs = {}
            for nm, x in list(zip(names, e.args)) + [(k.arg, k.value) for k in e.keywords]:
                if isinstance(x, ast.Constant) and isinstance(x.value, (bool, str)):
                    cs[nm] = x.value
                elif isinstance(x, ast.Name) and x.id in self.consts:
                    cs[nm] = self.consts[x.id]
            if not any(k.arg is None for k in e.keywords):
                d = a.defaults
                for p, x in list(zip(pos[len(pos) - len(d):], d)) + [(p.arg, x) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None]:
                    if p in names[len(e.args):] + [q.arg for q in a.kwonlyargs] and p not in [k.arg for k in e.keywords] and isinstance(x, ast.Constant) and isinstance(x.value, (bool, str)):
                        cs[p] = x.value
            if cs:
                s = self.E.special(g, cs)
        bind = dict(zip(names, args))
        bind.update({k: v for k, v in kws.items() if k in names or k in [x.arg for x in a.kwonlyargs]})

        def back(root, d):
            if root[0] == 'p':
                os = bind.get(root[1], EMPTY)
                return os if d == SAME else view(os) if d == VIEW else part(os) if d == PART else shallow(os) if d == SHALLOW else maybe(os)
            if root[0] == 'a':
                return (self.env.get('self.' + root[1], frozenset([(root, SAME)])) if d in (SAME, VIEW) else EMPTY) if own else EMPTY
            return frozenset([(root, d)])
        for (r, d), (how, line, chain) in s.mut.items():
            if r[0] == 'g' or r[0] == 'k':
                continue                 # reported where it happens
            if r[0] == 'a' and not own:
                continue
            os = back(r, d)
            if how.startswith('augmented assignment'):
                os = frozenset(o for o in os if o[1] in (SAME, VIEW) and (o[0][0] != 'p' or self.array(o[0][1])))
            self.write(os, '%s in %s' % (how.split(' in ')[0], g.qual), e, chain=g)
        if own:
            for attr, os in s.store.items():
                v = EMPTY
                for r, d in os:
                    v |= back(r, d)
                if v:
                    self.env['self.' + attr] = self.env.get('self.' + attr, EMPTY) | v
                    keep = frozenset(o for o in v if o[0][0] == 'p')
                    if keep:
                        self.s.store[attr] = self.s.store.get(attr, EMPTY) | keep
                else:
                    self.env['self.' + attr] = EMPTY
        out = EMPTY
        for r, d in s.ret:
            if r[0] in ('p',) or own:
                out |= back(r, d)
        return out


_restored = {}


def restored(f):
    """attributes saved in a name and written back from it: old = x.a; ..; x.a = old"""
    if id(f.node) not in _restored:
        saved, back = {}, set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                ts, vs = [n.targets[0]], [n.value]
                if isinstance(ts[0], ast.Tuple) and isinstance(vs[0], ast.Tuple) and len(ts[0].elts) == len(vs[0].elts):
                    ts, vs = ts[0].elts, vs[0].elts
                for t, v in zip(ts, vs):
                    if isinstance(t, ast.Name):
                        if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.func, ast.Name) and v.func.id == 'copy':
                            v = v.args[0]
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args:
                            v = v.func.value
                        if isinstance(v, ast.Attribute):
                            saved.setdefault(t.id, set()).add(ast.dump(v.value) + v.attr)
        for st in always(f.node.body):
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                ts, vs = [st.targets[0]], [st.value]
                if isinstance(ts[0], ast.Tuple) and isinstance(vs[0], ast.Tuple) and len(ts[0].elts) == len(vs[0].elts):
                    ts, vs = ts[0].elts, vs[0].elts
                for t, v in zip(ts, vs):
                    if isinstance(t, ast.Attribute) and isinstance(v, ast.Name):
                        k = ast.dump(t.value) + t.attr
                        if k in saved.get(v.id, ()):
                            back.add(k)
        _restored[id(f.node)] = back
    return _restored[id(f.node)]


def always(body):
    """statements that run whenever the body runs to its end"""
    for st in body:
        yield st
        if isinstance(st, ast.Try):
            for x in always(st.body):
                yield x
            for x in always(st.finalbody):
                yield x
        if isinstance(st, ast.With):
            for x in always(st.body):
                yield x


_flags = {}


def flags(f):
    """parameters tested and never assigned"""
    if id(f.node) not in _flags:
        ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        asg = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        tst = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.IfExp)):
                tst |= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Call):
                tst |= {x.id for x in n.args + [k.value for k in n.keywords] if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Compare, ast.BoolOp, ast.UnaryOp)):
                tst |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        _flags[id(f.node)] = [p for p in ps if p in tst and p not in asg]
    return _flags[id(f.node)]


def node_call(e):
    return e if isinstance(e, ast.Call) else None


_arr = {}


def arrays_of(f):
    """parameters with evidence of being arrays: documented as such, or used as one"""
    if id(f.node) in _arr:
        return _arr[id(f.node)]
    out = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg in ARRAY_NAMES}
    docs = [ast.get_docstring(f.node) or '']
    if f.cls is not None:
        docs.append(ast.get_docstring(f.cls.node) or '')
    for d in docs:
        for m in re.finditer(r'^\s*(\w+)\s*:\s*(?:\[?np\.|ndarray|.*\bndarray|.*\barray)', d, re.M):
            out.add(m.group(1))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAYISH:
            out.add(n.value.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('dot', 'asarray', 'atleast_1d', 'sum', 'squeeze', 'ravel'):
            for a in n.args[:2]:
                if isinstance(a, ast.Name):
                    out.add(a.id)
    _arr[id(f.node)] = out
    return out


# ---------------------------------------------------------------- rules
EXEMPT_ATTR = {'coefs', 'final_step', 'ever_active'}      # the current iterate of a problem and its atoms; progress of a path
EXEMPT_MODULES = ('regreg.doctemplates',)
EVALUATE = {'smooth_objective', 'nonsmooth_objective', 'objective', 'proximal', 'proximal_objective', 'proximal_optimum', 'proximal_step',
            'seminorm', 'constraint', 'lagrange_prox', 'bound_prox', 'cone_prox', 'hessian', 'hessian_mult', 'mean_function', 'linear_map',
            'affine_map', 'adjoint_map', 'latexify', 'terms', 'get_conjugate', 'get_dual', 'predict', 'predict_proba', 'decision_function',
            'score', 'check_KKT', 'scale', 'apply_offset', 'subsample', 'zeroed', 'recenter', 'collapsed', 'conjugate', 'dual', '__copy__',
            '__eq__', '__repr__', 'shift', 'linear', 'affine', 'information', 'restricted_penalty', 'full_gradient', 'smoothed', 'group_terms', 'prox'}
WARM = {'initial_rank', 'warm_start'}                     # where iterative decompositions start
SCALARS = {'constant_term', 'coef', 'lagrange', 'bound', 'step', 'tol'}
SCRATCH = {'zeros', 'empty', 'ones', 'zeros_like', 'empty_like', 'ones_like'}
CONFIG = {'lagrange', 'bound', 'coef', 'quadratic', 'offset', 'center', 'linear_term', 'constant_term', 'weights', 'data', 'scaling', 'shape',
          'case_weights', 'affine_offset', 'output_shape', 'input_shape'}
GLOBAL_CALLS = {'numpy.seterr', 'numpy.seterrcall', 'numpy.random.seed', 'numpy.set_printoptions', 'random.seed', 'warnings.simplefilter',
                'warnings.filterwarnings', 'sys.setrecursionlimit', 'os.chdir', 'os.putenv', 'warnings.resetwarnings', 'numpy.random.set_state'}


def effects(ctx):
    if 'effects' not in ctx.cache:
        ctx.cache['effects'] = Effects(ctx.model)
        for f in ctx.cache['effects'].funcs:
            ctx.funcs.add(f.qual)
    return ctx.cache['effects']


def api():
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'api.txt')
    return set(open(p).read().split())


def public(f):
    n = f.name
    return (not n.startswith('_') or n.startswith('__') and n.endswith('__')) and f.outer is None and f.module.name not in EXEMPT_MODULES


def where(f, line=None):
    return '%s:%d' % (f.module.relpath, line or f.node.lineno)


def methods_of(c):
    """name -> function for everything a class has, inherited methods included"""
    ms = {}
    for b in reversed(c.mro()):
        for n, g in b.methods.items():
            ms[n] = g
        for n, p in b.props.items():
            for i, x in enumerate(p):
                if x is not None:
                    ms['%s.%s' % (n, ('get', 'set', 'del')[i] if i < 3 else i)] = x
    return ms


def reason(v):
    return '%s, line %d' % (v[0], v[1])


def exempt(how):
    m = re.match(r'assignment to the attribute (\w+)', how)
    return bool(m) and m.group(1) in EXEMPT_ATTR


def run_e01(ctx, obs):
    E = effects(ctx)
    known = api()
    for f in E.funcs:
        if not public(f) or f.qual not in known:
            continue
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.cls is not None and not f.is_static:
            ps = ps[1:]
        if not ps:
            continue
        s = E.summary(f)
        bad = {}
        for (r, d), v in sorted(s.mut.items(), key=str):
            if r[0] == 'p' and r[1] in ps and not exempt(v[0]):
                bad.setdefault(r[1], v)
        for p in sorted(bad):
            ws = {t: v for t, v in s.sites.get(('p', p), {}).items() if not exempt(v[0])} or {p: bad[p]}
            for t in sorted(ws):
                obs.add('argument', '%s: %s%s' % (f.qual, p, '' if t == p else ' by ' + t), BAD, 'modifies its argument %s (%s)' % (p, reason(ws[t])), where(f, ws[t][1]))
        if not bad:
            obs.add('argument', f.qual, OK, '', where(f))
    for c in E.model.all_classes():
        ms = methods_of(c)
        hold, mut = {}, {}
        for n, g in ms.items():
            s = E.summary(g)
            if s is None:
                continue
            arr = arrays_of(g)
            for at, os in s.store.items():
                for r, d in os:
                    if d in (SAME, VIEW) and r[0] == 'p':
                        hold.setdefault(at, []).append((g, r[1], r[1] in arr))
            for (r, d), v in s.mut.items():
                if r[0] == 'a' and d == SAME and not v[0].startswith('assignment to the attribute') and v[0] != 'setattr':
                    mut.setdefault(r[1], []).append((g, v))
        for at in sorted(hold):
            b = [(g, v) for g, v in mut.get(at, [])
                 if not v[0].startswith('augmented assignment') or any(x for _, _, x in hold[at])]
            h = hold[at][0]
            if b:
                g, v = b[0]
                obs.add('held', '%s.%s' % (c.qual, at), BAD, 'keeps the argument %s of %s and %s modifies it (%s)' % (h[1], h[0].qual, g.qual, reason(v)),
                        where(g, v[1]))
            else:
                obs.add('held', '%s.%s' % (c.qual, at), OK, '', where(h[0]))


# ------------------------------------------------------------ E02
def present(t, attr):
    """True / False when the test says that the attribute is there / is missing"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = present(t.operand, attr)
        return None if r is None else not r
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and t.left.attr == attr and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return {ast.Is: False, ast.Eq: False, ast.IsNot: True, ast.NotEq: True}.get(type(t.ops[0]))
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hasattr' and len(t.args) == 2 and \
            isinstance(t.args[1], ast.Constant) and t.args[1].value == attr:
        return True
    return None


def assigned(f, me):
    """direct assignments to attributes of self (or of a local that is self): (attr, node, guarded by a test of the attribute, value)"""
    out = []

    def visit(body, tests, al):
        for st in body:
            ts = []
            if isinstance(st, ast.Assign):
                ts = [(t, st.value) for t in st.targets]
            elif isinstance(st, ast.AugAssign):
                ts = [(st.target, None)]
            for t, v in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in al:
                        txt = ' '.join(ast.dump(q) for q, side in tests if present(q, x.attr) is not side)
                        out.append((x.attr, st, "attr='%s'" % x.attr in txt or "value='%s'" % x.attr in txt, v))
                    if isinstance(x, ast.Name) and x.id != me:
                        if isinstance(v, ast.Name) and v.id in al and x is t:
                            al.add(x.id)
                        else:
                            al.discard(x.id)
            if isinstance(st, ast.If):
                al2 = set(al)
                visit(st.body, tests + [(st.test, True)], al)
                visit(st.orelse, tests + [(st.test, False)], al2)
                al |= al2
            elif isinstance(st, (ast.For, ast.While)):
                if isinstance(st, ast.For):
                    al -= {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)} - {me}
                visit(st.body, tests, al)
                visit(st.orelse, tests, al)
            elif isinstance(st, ast.With):
                visit(st.body, tests, al)
            elif isinstance(st, ast.Try):
                visit(st.body, tests, al)
                for h in st.handlers:
                    visit(h.body, tests, al)
                visit(st.orelse, tests, al)
                visit(st.finalbody, tests, al)
    visit(f.node.body, [], {me})
    return out


def first(f):
    a = f.node.args
    p = [x.arg for x in a.posonlyargs + a.args]
    return p[0] if p and not f.is_static else None


def scratch(v):
    if v is None:
        return False
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else None
        return n in SCRATCH
    return isinstance(v, ast.BinOp) and (scratch(v.left) or scratch(v.right))


def configuration(c, ms):
    """attributes whose values are decided by constructors and setters"""
    out = {}
    for n, g in ms.items():
        if n == '__init__' or n.endswith('.set') or n.startswith('set_'):
            todo, seen = [g], set()
            for b in c.mro():
                if n in b.methods and b.methods[n] is not g:
                    todo.append(b.methods[n])
            while todo:
                h = todo.pop()
                if id(h.node) in seen:
                    continue
                seen.add(id(h.node))
                for at, st, guard, v in assigned(h, first(h)):
                    if not scratch(v):
                        out.setdefault(at, h)
    return out


def run_e02(ctx, obs):
    E = effects(ctx)
    done = set()
    for c in E.model.all_classes():
        if c.module.name in EXEMPT_MODULES:
            continue
        ms = methods_of(c)
        conf = configuration(c, ms)
        props = {n.split('.')[0] for n in ms if n.endswith('.set')}
        own = set()
        for g in ms.values():
            own |= set(x[0] for x in assigned(g, first(g)))
        # memory of the object written in place by any method
        inplace = {}
        for n, g in ms.items():
            s = E.summary(g)
            for (r, d), v in (s.mut.items() if s else ()):
                if r[0] == 'a' and d == SAME and r[1] in own and not v[0].startswith('assignment to the attribute') and v[0] != 'setattr':
                    inplace.setdefault(r[1], (g, v))
        for n, g in sorted(ms.items()):
            base = n.split('.')[0]
            if base not in EVALUATE or n.endswith('.set'):
                continue
            s = E.summary(g)
            if s is None:
                continue
            key = '%s.%s' % (c.qual, n)
            bad = None
            for r, d in sorted(s.ret, key=str):
                if r[0] == 'a' and d in (SAME, VIEW) and r[1] in inplace:
                    h, v = inplace[r[1]]
                    bad = 'returns the memory of its attribute %s, which %s overwrites (%s)' % (r[1], h.qual, reason(v))
            obs.add('result', key, BAD if bad else OK, bad or '', where(g))
            # state
            bad, line = None, None
            if not (g.is_classmethod or g.is_static):
                todo, seen = [g], set()
                while todo:
                    h = todo.pop()
                    if id(h.node) in seen:
                        continue
                    seen.add(id(h.node))
                    me = first(h)
                    back = restored(h)
                    for at, st, guard, v in assigned(h, me):
                        k = ast.dump(ast.Name(id=me, ctx=ast.Load())) + at
                        if at in conf and not guard and k not in back and at not in EXEMPT_ATTR | WARM and (not at.startswith('_') or at[1:] in props):
                            bad, line = 'assigns the attribute %s (line %d), which %s configures' % (at, st.lineno, conf[at].qual), st.lineno
                    for x in ast.walk(h.node):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                            q = c.method(x.func.attr)
                            if q is not None and q.name not in EVALUATE and not q.is_static and not q.is_classmethod:
                                todo.append(q)
                for (r, d), v in sorted(s.mut.items(), key=str):
                    if r[0] == 'a' and r[1] not in own and d == SAME:
                        # a property of this class: what its getter returns
                        lk = c.lookup(r[1])
                        gs = E.summary(lk[1][0]) if lk and lk[0] == 'prop' and lk[1][0] is not None else None
                        r = next((q for q, dq in sorted(gs.ret, key=str) if q[0] == 'a' and dq == SAME and q[1] in own), r) if gs else r
                    if r[0] != 'a' or r[1] not in own:
                        continue
                    m = re.match(r'assignment to the attribute (\w+)', v[0])
                    if d == SAME and not m and r[1] in conf and not (v[0].startswith('augmented assignment') and r[1] in SCALARS):
                        bad, line = 'modifies the attribute %s in place (%s), which %s configures' % (r[1], reason(v), conf[r[1]].qual), v[1]
                    if m and m.group(1) in CONFIG:
                        bad, line = 'changes %s of its attribute %s (%s)' % (m.group(1), r[1], reason(v)), v[1]
            obs.add('state', key, BAD if bad else OK, bad or '', where(g, line))
    collected(ctx, obs)


# ------------------------------------------------------------ E04
def mutable(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else None
        return n in {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'copy'} | SCRATCH | {'array', 'arange', 'identity_quadratic'}
    return False


def run_e04(ctx, obs):
    E = effects(ctx)
    M = E.model
    writes = {}
    holds = {}
    for c in M.all_classes():
        for n, g in methods_of(c).items():
            s = E.summary(g)
            for (r, d), v in (s.mut.items() if s else ()):
                if r[0] == 'a' and d == SAME:
                    writes.setdefault((c.qual, r[1]), (g, v))
    for f in E.funcs:
        a = f.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        s = E.summary(f)
        for p, d in ds:
            if not mutable(d):
                continue
            bad, line = None, None
            for (r, k), v in s.mut.items():
                if r == ('p', p) and k in (SAME, PART) and not exempt(v[0]):
                    bad, line = 'modifies the default of %s, shared by all calls (%s)' % (p, reason(v)), v[1]
            if f.cls is not None:
                for at, os in s.store.items():
                    if any(r == ('p', p) and k in (SAME, VIEW) for r, k in os):
                        for c in [f.cls] + M.subclasses(f.cls):
                            w = writes.get((c.qual, at))
                            if w is not None and not w[1][0].startswith('assignment to the attribute'):
                                bad, line = 'keeps the default of %s in %s, which %s modifies (%s)' % (p, at, w[0].qual, reason(w[1])), w[1][1]
            obs.add('default', '%s: %s' % (f.qual, p), BAD if bad else OK, bad or '', where(f, line))
    # class attributes
    for c in M.all_classes():
        names = {}
        for st in c.node.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        names[t.id] = st
        mine = set()
        for k in [c] + M.subclasses(c):
            for g in methods_of(k).values():
                mine |= set(x[0] for x in assigned(g, first(g)))
        for n in sorted(names):
            if not mutable(names[n].value):
                continue
            bad, line = None, None
            if n not in mine:
                for k in [c] + M.subclasses(c):
                    w = writes.get((k.qual, n))
                    if w is not None:
                        bad, line = '%s modifies it, for all instances (%s)' % (w[0].qual, reason(w[1])), w[1][1]
            obs.add('class', '%s.%s' % (c.qual, n), BAD if bad else OK, bad or '', '%s:%d' % (c.module.relpath, line or names[n].lineno))
    for f in E.funcs:
        if f.module.name in EXEMPT_MODULES:
            continue
        s = E.summary(f)
        bad, line = None, None
        for (r, d), v in s.mut.items():
            if r[0] == 'k':
                bad, line = 'modifies the class attribute %s (%s)' % (r[1], reason(v)), v[1]
            elif r[0] == 'g':
                bad, line = 'modifies the module level %s (%s)' % (r[1], reason(v)), v[1]
        protected = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.With) and any('catch_warnings' in ast.dump(i.context_expr) for i in n.items):
                protected |= set(id(x) for x in ast.walk(n))
        asg = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                for g in n.names:
                    if g in asg:
                        bad, line = 'rebinds the module level %s' % g, n.lineno
            if isinstance(n, ast.Call):
                t = M.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                q = external_name(t)
                if q in GLOBAL_CALLS and id(n) not in protected and not (q == 'numpy.seterr' and saves(f, n)):
                    bad, line = 'changes a setting of the whole process: %s' % q, n.lineno
        obs.add('global', f.qual, BAD if bad else OK, bad or '', where(f, line))


def collected(ctx, obs):
    """what a loop appends to a list is not memory that the loop overwrites"""
    E = effects(ctx)
    for f in E.funcs:
        outside(f, obs)
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        seen = set()
        for lp in loops:
            inner = [x for st in lp.body for x in ast.walk(st)]
            writes = {}
            for x in inner:
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
                for t in ts:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        writes.setdefault(t.value.id, x.lineno)
                    elif isinstance(x, ast.AugAssign) and isinstance(t, ast.Name):
                        writes.setdefault('+' + t.id, x.lineno)
            rebound = {t.id for x in inner if isinstance(x, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr)) for t in names_bound(x)}
            if isinstance(lp, ast.For):
                rebound |= {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
            # snapshots taken after a write, read after the loop, overwritten by the next iteration
            for x in inner:
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    e = x.value
                    cp = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args
                    b = base_name(e.func.value if cp else e)
                    t = x.targets[0].id
                    if b is None or b == t or b in rebound or b not in writes or writes[b] > x.lineno:
                        continue
                    if not any(isinstance(q, ast.Name) and q.id == t and isinstance(q.ctx, ast.Load) and q.lineno > lp.end_lineno for q in ast.walk(f.node)):
                        continue
                    if any(isinstance(q, ast.Assign) and any(isinstance(z, ast.Subscript) and isinstance(z.value, ast.Name) and z.value.id == t for z in q.targets)
                           for q in inner):
                        continue
                    obs.add('snapshot', '%s: %s' % (f.qual, t), OK if cp else BAD, '' if cp else
                            'keeps the memory of %s, which the next iteration overwrites (line %d)' % (b, writes[b]), where(f, x.lineno))
            for x in inner:
                if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert') and x.args):
                    continue
                for e in pieces(x.args[-1]):
                    b = base_name(e)
                    if b is None or id(e) in seen:
                        continue
                    bad = b not in rebound and b in writes
                    if bad and isinstance(e, ast.Name) and isinstance(x.func.value, ast.Name) and container(f, b):
                        bad = False
                    seen.add(id(e))
                    obs.add('collected', '%s: %s' % (f.qual, ast.unparse(x)[:60]), BAD if bad else OK,
                            'appends the memory of %s, which the same loop overwrites (line %d)' % (b, writes[b]) if bad else '', where(f, x.lineno))


def outside(f, obs):
    """the same for what is appended before a loop"""
    body = f.node.body
    for i, st in enumerate(body):
        x = st.value if isinstance(st, ast.Expr) else None
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and len(x.args) == 1):
            continue
        e = x.args[0]
        cp = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args
        b = base_name(e.func.value if cp else e)
        if b is None or container(f, b):
            continue
        hit = None
        for q in body[i + 1:]:
            inner = list(ast.walk(q))
            if any(n.id == b for y in inner if isinstance(y, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr)) for n in names_bound(y)):
                break
            for y in inner:
                ts = y.targets if isinstance(y, ast.Assign) else [y.target] if isinstance(y, ast.AugAssign) else []
                if any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == b for t in ts):
                    hit = hit or y.lineno
        if cp and hit or not cp:
            obs.add('collected', '%s: %s before' % (f.qual, ast.unparse(x)[:60].replace('.copy()', '')), BAD if hit and not cp else OK,
                    'appends the memory of %s, which is overwritten later (line %d)' % (b, hit) if hit and not cp else '', where(f, x.lineno))


def names_bound(x):
    ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.For, ast.NamedExpr)) else \
        [i.optional_vars for i in x.items if i.optional_vars is not None]
    for t in ts:
        for q in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
            if isinstance(q, ast.Name):
                yield q


def pieces(e):
    return [y for z in e.elts for y in pieces(z)] if isinstance(e, (ast.Tuple, ast.List)) else [e]


def base_name(e):
    """the array an expression is a view of"""
    while True:
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and e.attr in ALIAS_ATTR:
            e = e.value
        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ALIAS_METH:
            e = e.func.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('asarray', 'atleast_1d', 'squeeze', 'ravel') and e.args:
            e = e.args[0]
        else:
            return None


def container(f, b):
    """a dictionary or list shared on purpose"""
    return any(isinstance(x, ast.Assign) and isinstance(x.value, (ast.Dict, ast.List, ast.ListComp, ast.DictComp)) and
               any(isinstance(t, ast.Name) and t.id == b for t in x.targets) for x in ast.walk(f.node))


def external_name(t):
    if isinstance(t, tuple) and t[0] == 'ext':
        return '.'.join(str(x) for x in t[1:] if x)
    return None


def saves(f, n):
    """old = seterr(..) ... seterr(**old)"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and ast.dump(x.func) == ast.dump(n.func) and any(k.arg is None for k in x.keywords):
            return True
    return False


PROPS = {
    'E01': dict(run=run_e01, floor=500, rule='no write reaches memory that may be the caller\'s: interprocedural may-alias analysis with function summaries '
                '(parameters modified, returned, stored) to a fixpoint over the call graph, compiled (Cython) functions included', assumptions=[
                    'array methods and numpy functions other than those listed as returning views return fresh memory']),
    'E02': dict(run=run_e02, floor=500, rule='no result of an evaluation is memory of the object that a later call writes; no evaluation assigns or modifies what '
                'constructors and setters configure', assumptions=['attributes filled lazily behind a test of themselves are caches']),
    'E04': dict(run=run_e04, floor=500, rule='no write reaches a default value, class attribute or module level value, and no process-wide setting is changed', assumptions=[]),
}
