"""Abstract interpreter: builds value graphs (terms.py) and alias/effect facts
for a function of the repository, specialised to a concrete class and to the
abstract values given for its parameters.

One forward pass over the syntax tree; control-flow joins create gated phi
nodes; abstract loops are summarised by one symbolic iteration (accumulators
become loop sums, everything else an opaque loop value); calls that resolve
inside the repository are inlined through the concrete class's MRO, other
calls are uninterpreted operators.  No path is enumerated, nothing from the
repository is executed and no solver is used.
"""
import ast
from fractions import Fraction
from . import terms as T
from .terms import mk, num, const, sym, NONE, TRUE, FALSE, ZERO, ONE, Term
from .model import Model, Class, Func, Module

MAXDEPTH = 24
MAXSTEPS = 250000


class Bottom(Exception):
    """the path ends here (raise / infeasible)"""


class Giveup(Exception):
    pass


class Value(object):
    pass


class A(Value):
    """array/number/unknown runtime value: contents live in a state cell"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class C(Value):
    """immutable value"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Tup(Value):
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind):
        self.id, self.kind = id, kind


class Dct(Value):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Ob(Value):
    __slots__ = ('id', 'cls', 'base', 'symbolic')

    def __init__(self, id, cls, base, symbolic):
        self.id, self.cls, self.base, self.symbolic = id, cls, base, symbolic


class Cl(Value):
    def __init__(self, cls):
        self.cls = cls


class Fn(Value):
    def __init__(self, func, env=None):
        self.func, self.env = func, env


class Bd(Value):
    def __init__(self, recv, func):
        self.recv, self.func = recv, func


class Pt(Value):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Md(Value):
    def __init__(self, mod):
        self.mod = mod


class Ex(Value):
    def __init__(self, name):
        self.name = name


class Sup(Value):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Me(Value):
    """method `name` of a value that is not a repo object"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class State(object):
    __slots__ = ('env', 'heap', 'cells', 'lists', 'dicts', 'assume', 'path', 'views')

    def __init__(self):
        self.env, self.heap, self.cells, self.lists, self.dicts, self.assume = {}, {}, {}, {}, {}, {}
        self.path = ()
        self.views = {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.cells = dict(self.env), dict(self.heap), dict(self.cells)
        s.lists = {k: list(v) for k, v in self.lists.items()}
        s.dicts = {k: dict(v) for k, v in self.dicts.items()}
        s.assume = dict(self.assume)
        s.path = self.path
        s.views = dict(self.views)
        return s

    def become(self, o):
        for a in State.__slots__:
            setattr(self, a, getattr(o, a))


NOORIG = frozenset()

IQ_NAMES = {'quadratic', '_quadratic', 'conjugate_quadratic', 'smoothing_quadratic', 'proxq',
            'proxquadratic', 'quad', 'total_quadratic'}

NUMPY_ALIASES = {
    'numpy.fabs': 'numpy.abs', 'numpy.absolute': 'numpy.abs', 'numpy.amax': 'numpy.max',
    'numpy.amin': 'numpy.min', 'numpy.true_divide': 'numpy.divide', 'numpy.alltrue': 'numpy.all',
    'numpy.sometrue': 'numpy.any', 'builtins.abs': 'numpy.abs', 'math.sqrt': 'numpy.sqrt',
    'math.exp': 'numpy.exp', 'math.log': 'numpy.log', 'math.fabs': 'numpy.abs',
    'numpy.matmul': 'numpy.dot', 'numpy.concatenate': 'numpy.hstack',
    'numpy.core.numeric.zeros': 'numpy.zeros',
}

FRESH_CTORS = {'numpy.zeros': ZERO, 'numpy.zeros_like': ZERO, 'numpy.ones': ONE, 'numpy.ones_like': ONE}


class Interp(object):
    def __init__(self, model, nonnull=(), none=(), interior=False, no_inline=(), hints=None, protocol=True):
        self.model = model
        self.events = []
        self.n = 0
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.nonnull = set(nonnull)     # attribute / symbol names assumed not None
        self.none = set(none)           # attribute names assumed None
        self.interior = interior
        self.no_inline = set(no_inline)
        self.stubs = {}
        self.exact = False           # ties matter in every comparison
        self.plain = None                   # term -> number of dimensions when it is a plain array, else 0
        self.probe = None                   # called with the state at each call of a method of an unknown object
        self.loopdepth = 0
        self.analysed = set()           # functions inlined
        self.iq = model.cls('regreg.identity_quadratic.identity_quadratic')
        self.hints = hints or {}        # attr name -> factory(interp, st, term) -> Value
        self.protocol = protocol
        self.facts = {}                 # cond term -> bool
        self._busy = set()
        self.arrays = set()            # cells known to hold arrays, whatever their (constant) contents

    # ------------------------------------------------------------- helpers
    def fresh(self):
        self.n += 1
        return self.n

    def arr(self, st, t, orig=NOORIG):
        if T.is_scalar(t) and not orig:
            return C(t)
        c = self.fresh()
        st.cells[c] = (t, orig)
        return A(c)

    def newarr(self, st, t, orig=NOORIG):
        c = self.fresh()
        st.cells[c] = (t, orig)
        return A(c)

    def filled(self, st, t):
        a = self.newarr(st, t)
        self.arrays.add(a.cell)
        return a

    def tup(self, st, items, kind='tuple'):
        i = self.fresh()
        st.lists[i] = list(items)
        return Tup(i, kind)

    def obj(self, st, cls, base, symbolic=True):
        return Ob(self.fresh(), cls, base, symbolic)

    def iqobj(self, st, base):
        return self.obj(st, self.iq, base, True)

    def orig(self, v, st):
        if isinstance(v, A):
            return st.cells[v.cell][1]
        if isinstance(v, Tup):
            out = NOORIG
            return out
        return NOORIG

    def term(self, v, st):
        if isinstance(v, C):
            return v.t
        if isinstance(v, A):
            return st.cells[v.cell][0]
        if isinstance(v, Tup):
            return mk(v.kind if v.kind != 'list' else 'list', tuple(self.term(x, st) for x in st.lists[v.id]))
        if isinstance(v, Dct):
            d = st.dicts[v.id]
            return mk('dict', tuple((str(k), self.term(x, st)) for k, x in sorted(d.items(), key=lambda kv: str(kv[0]))))
        if isinstance(v, Ob):
            if v.id in self._busy:
                return v.base       # a cycle in the heap
            self._busy.add(v.id)
            try:
                if v.symbolic and not any(k[0] == v.id and k[1] not in ('',) and self._overridden(k, st, v) for k in st.heap):
                    return v.base
                # constructed object: structural term over its attributes
                items = tuple(sorted(((k[1], self.term(x, st)) for k, x in st.heap.items() if k[0] == v.id),
                                     key=lambda kv: kv[0]))
                return mk('obj', v.cls.name, tuple((k, t) for k, t in items))
            finally:
                self._busy.discard(v.id)
        if isinstance(v, Cl):
            return mk('class', v.cls.qual)
        if isinstance(v, Fn):
            return mk('func', v.func.qual)
        if isinstance(v, Bd):
            return mk('func', v.func.qual, self.term(v.recv, st))
        if isinstance(v, Pt):
            return mk('partial', (self.term(v.f, st),) + tuple(self.term(a, st) for a in v.args), self.kwterm(v.kw, st))
        if isinstance(v, Md):
            return mk('mod', v.mod.name)
        if isinstance(v, Ex):
            return mk('ext', v.name)
        if isinstance(v, Me):
            return mk('meth', self.term(v.recv, st), v.name)
        if isinstance(v, Sup):
            return mk('super')
        raise Giveup(repr(v))

    def _overridden(self, k, st, v, seen=()):
        x = st.heap[k]
        if isinstance(x, A):
            t, o = st.cells[x.cell]
            return t is not mk('attr', v.base, k[1])
        if isinstance(x, Ob) and x.symbolic:
            return x.base is not mk('attr', v.base, k[1]) or (x.id not in seen and any(
                self._overridden(kk, st, x, seen + (v.id, x.id)) for kk in st.heap if kk[0] == x.id))
        if isinstance(x, C):
            return x.t is not mk('attr', v.base, k[1])
        return True

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['func'] = self.stack[-1] if self.stack else None
        kw['stack'] = tuple(self.stack)
        self.events.append(kw)

    # ------------------------------------------------------------- conditions
    def cond(self, v, st):
        """truth value of a value -> boolean term (ONE / ZERO when decided)"""
        if isinstance(v, (Ob, Cl, Fn, Bd, Md, Ex, Me)):
            return ONE
        if isinstance(v, Tup):
            return ONE if st.lists[v.id] else ZERO
        if isinstance(v, Dct):
            return mk('bool', self.term(v, st)) if not st.dicts[v.id] else ONE
        t = self.term(v, st)
        if t.op == 'num':
            return ONE if t.args[0] != 0 else ZERO
        if t.op == 'const':
            if t is TRUE:
                return ONE
            if t is FALSE or t is NONE:
                return ZERO
            if t.args[0] == 'str':
                return ONE if t.args[2] else ZERO
        if t.op in T.IDEMP:
            b = t
        elif t.op == 'poly' and all(a.op in T.IDEMP for m, c in t.args[0] for a, e in m):
            b = t
        else:
            b = T.boolean(t)
        return self.decide(b, st)

    def decide(self, b, st):
        if b is ONE or b is ZERO:
            return b
        if b in st.assume:
            return ONE if st.assume[b] else ZERO
        n = T.notb(b)
        if n in st.assume:
            return ZERO if st.assume[n] else ONE
        if b in self.facts:
            return ONE if self.facts[b] else ZERO
        if n in self.facts:
            return ZERO if self.facts[n] else ONE
        if b.op == 'bool' and b.args[0].op == 'isnone':
            r = self.isnone_fact(b.args[0].args[0])
            if r is not None:
                return ONE if r else ZERO
        if self.interior:
            r = interior_decide(b)
            if r is not None:
                return r
        if b.op == 'poly':
            # substitute decided atoms
            def f(a):
                if a.op in T.IDEMP:
                    if a in st.assume:
                        return ONE if st.assume[a] else ZERO
                    if a in self.facts:
                        return ONE if self.facts[a] else ZERO
                    if a.op == 'bool' and a.args[0].op == 'isnone':
                        r = self.isnone_fact(a.args[0].args[0])
                        if r is not None:
                            return ONE if r else ZERO
                return None
            out = ZERO
            changed = False
            for m, c in b.args[0]:
                r = num(c)
                for a, e in m:
                    x = f(a)
                    if x is not None:
                        changed = True
                        r = T.mul(r, x)
                    else:
                        r = T.mul(r, T.power(a, e))
                out = T.add(out, r)
            if changed:
                return self.decide(out, st) if out is not b else b
        return b

    def isnone_fact(self, t):
        if t.op == 'const':
            return t is NONE
        nm = None
        if t.op == 'attr':
            nm = t.args[1]
        elif t.op == 'sym':
            nm = t.args[0]
        if nm is not None:
            if nm in self.nonnull:
                return False
            if nm in self.none:
                return True
            return None
        if t.op in ('ite',):
            return None
        if t.op == 'getitem' and t.args[0].op == 'sym' and t.args[0].args[0][:2] in ('v_', 'm_') and self.isnone_fact(t.args[0]) is False:
            return False
        if t.op in ('call', 'mcall', 'get', 'elem', 'loopvar', 'undef', 'getitem', 'param'):
            return None
        return False

    def isnone(self, v, st):
        if isinstance(v, (Tup, Dct, Ob, Cl, Fn, Bd, Md, Ex, Me, Sup)):
            return ZERO
        t = self.term(v, st)
        return self._isnone_t(t, st)

    def _isnone_t(self, t, st):
        if t.op == 'ite':
            a, b = self._isnone_t(t.args[1], st), self._isnone_t(t.args[2], st)
            return T.where(T.boolean(t.args[0]), a, b)
        r = self.isnone_fact(t)
        if r is not None:
            return ONE if r else ZERO
        return self.decide(mk('bool', mk('isnone', t)), st)

    # ------------------------------------------------------------- merge
    def merge(self, c, s1, s2):
        """state equal to s1 when c else s2"""
        out = State()
        k = 0
        p = []
        for x, y in zip(s1.path, s2.path):
            if x is y:
                p.append(x)
            else:
                break
        out.path = tuple(p)
        out.cells = dict(s2.cells)
        for cell, (t1, o1) in s1.cells.items():
            if cell in s2.cells:
                t2, o2 = s2.cells[cell]
                if t1 is t2 and o1 == o2:
                    out.cells[cell] = (t1, o1)
                else:
                    out.cells[cell] = (self.ite(c, t1, t2), o1 | o2)
            else:
                out.cells[cell] = (t1, o1)
        out.views = dict(s2.views)
        out.views.update(s1.views)
        out.lists = dict(s2.lists)
        out.dicts = dict(s2.dicts)
        out.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        memo = {}
        for i, l1 in s1.lists.items():
            if i in s2.lists and s2.lists[i] != l1:
                l2 = s2.lists[i]
                if len(l1) == len(l2):
                    out.lists[i] = [self.mergev(c, a, b, s1, s2, out, memo) for a, b in zip(l1, l2)]
                else:
                    k = 0
                    if l1 and isinstance(l1[0], A) or l2 and isinstance(l2[0], A):
                        while k < min(len(l1), len(l2)) and l1[k] is l2[k]:
                            k += 1
                        if not any(self._isrepeat(x, s1) for x in l1[:k]):
                            k = 0
                    out.lists[i] = l1[:k] + [self.arr(out, mk('ite', c, mk('list', tuple(self.term(x, s1) for x in l1[k:])),
                                                              mk('list', tuple(self.term(x, s2) for x in l2[k:]))))]
            else:
                out.lists[i] = l1
        for i, d1 in s1.dicts.items():
            if i in s2.dicts and s2.dicts[i] != d1:
                d2 = s2.dicts[i]
                nd = {}
                for k in set(d1) | set(d2):
                    if k in d1 and k in d2:
                        nd[k] = self.mergev(c, d1[k], d2[k], s1, s2, out, memo)
                    elif k in d1:
                        nd[k] = d1[k]
                    else:
                        nd[k] = d2[k]
                out.dicts[i] = nd
            else:
                out.dicts[i] = d1
        for name in list(s1.env):
            if name in s2.env:
                out.env[name] = self.mergev(c, s1.env[name], s2.env[name], s1, s2, out, memo)
            else:
                # reading it where it was not assigned would raise: only this value can be read
                out.env[name] = s1.env[name]
        for name in s2.env:
            if name not in s1.env:
                out.env[name] = s2.env[name]
        for k in s1.heap:
            if k in s2.heap:
                out.heap[k] = self.mergev(c, s1.heap[k], s2.heap[k], s1, s2, out, memo)
            else:
                out.heap[k] = self.merge_one(c, k, s1.heap[k], s1, out, True)
        for k in s2.heap:
            if k not in s1.heap:
                out.heap[k] = self.merge_one(c, k, s2.heap[k], s2, out, False)
        return out

    def merge_one(self, c, k, v, s, out, first):
        """heap entry present in one branch only: either lazily read (same symbolic
        value in both) or written there only"""
        base = self.basemap.get(k[0])
        if base is None:
            return v
        default = mk('attr', base, k[1])
        if isinstance(v, Ob) and v.symbolic and v.base is default:
            return v
        t = self.term(v, s)
        if t is default:
            return v
        if isinstance(v, (C, A)):
            return self.newarr(out, self.ite(c, t, default) if first else self.ite(c, default, t),
                               self.orig(v, s) | frozenset([('attr', T.show(base), k[1])]))
        return v

    basemap = {}

    def ite(self, c, a, b):
        return T.ite(c, a, b)

    def mergev(self, c, v1, v2, s1, s2, out, memo):
        if v1 is v2:
            return v1
        key = (id(v1), id(v2))
        if key in memo:
            return memo[key]
        r = self._mergev(c, v1, v2, s1, s2, out, memo)
        memo[key] = r
        return r

    def _mergev(self, c, v1, v2, s1, s2, out, memo):
        if type(v1) is type(v2):
            if isinstance(v1, A) and v1.cell == v2.cell:
                return v1
            if isinstance(v1, Tup) and v1.id == v2.id:
                return v1
            if isinstance(v1, Tup) and v1.kind == v2.kind and len(s1.lists[v1.id]) == len(s2.lists[v2.id]):
                items = [self.mergev(c, a, b, s1, s2, out, memo)
                         for a, b in zip(s1.lists[v1.id], s2.lists[v2.id])]
                return self.tup(out, items, v1.kind)
            if isinstance(v1, Ob) and v1.id == v2.id:
                return v1
            if isinstance(v1, Ob) and v1.cls is v2.cls and not v1.symbolic and not v2.symbolic:
                # merge attribute-wise
                o = Ob(self.fresh(), v1.cls, mk('phi', c, v1.base, v2.base), False)
                ks = set(k[1] for k in s1.heap if k[0] == v1.id) | set(k[1] for k in s2.heap if k[0] == v2.id)
                for a in ks:
                    x, y = s1.heap.get((v1.id, a)), s2.heap.get((v2.id, a))
                    if x is None or y is None:
                        out.heap[(o.id, a)] = x or y
                    else:
                        out.heap[(o.id, a)] = self.mergev(c, x, y, s1, s2, out, memo)
                return o
            if isinstance(v1, Ob) and v1.cls is v2.cls and v1.symbolic != v2.symbolic:
                o = Ob(self.fresh(), v1.cls, mk('phi', c, v1.base, v2.base), False)
                ks = set(k[1] for k in s1.heap if k[0] == v1.id) | set(k[1] for k in s2.heap if k[0] == v2.id)
                for a in ks:
                    x = s1.heap.get((v1.id, a))
                    y = s2.heap.get((v2.id, a))
                    if x is None:
                        x = self.getattr(v1, a, s1) if v1.symbolic else None
                    if y is None:
                        y = self.getattr(v2, a, s2) if v2.symbolic else None
                    if x is None or y is None:
                        out.heap[(o.id, a)] = x or y
                    else:
                        out.heap[(o.id, a)] = self.mergev(c, x, y, s1, s2, out, memo)
                        for s in (s1, s2):
                            for cc in s.cells:
                                out.cells.setdefault(cc, s.cells[cc])
                return o
            if isinstance(v1, (Cl, Md, Fn, Ex)) and self.term(v1, s1) is self.term(v2, s2):
                return v1
        t1, t2 = self.term(v1, s1), self.term(v2, s2)
        if t1 is t2:
            return v1
        t = self.ite(c, t1, t2)
        o = self.orig(v1, s1) | self.orig(v2, s2)
        if isinstance(v1, A) and isinstance(v2, A):
            r = self.newarr(out, t, o)
            out.views[r.cell] = ('alts', v1.cell, v2.cell)
            return r
        return self.arr(out, t, o)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        """returns (fallthrough state | None, rets, brks, conts)"""
        rets, brks, conts = [], [], []
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise Giveup('step budget')
            try:
                r = self.exec_stmt(s, st)
            except Bottom:
                return None, rets, brks, conts
            if r is not None:
                fall, rr, bb, cc = r
                rets += rr
                brks += bb
                conts += cc
                if fall is None:
                    return None, rets, brks, conts
                if fall is not st:
                    st = fall
        return st, rets, brks, conts

    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return None
        return m(s, st)

    def st_Expr(self, s, st):
        self.ev(s.value, st)

    def st_Pass(self, s, st):
        return None

    def st_Assert(self, s, st):
        return None

    def st_Raise(self, s, st):
        self.event('raise', node=s, path=st.path)
        raise Bottom()

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else C(NONE)
        return None, [(st.path, v, st, s)], [], []

    def st_Break(self, s, st):
        self.event('break', node=s, path=st.path)
        return None, [], [st], []

    def st_Continue(self, s, st):
        return None, [], [], [st]

    def st_Global(self, s, st):
        return None

    def st_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = Ex(a.name)

    def st_ImportFrom(self, s, st):
        mod = self.stack[-1].module
        base = self.model._rel(mod, s)
        for a in s.names:
            v = None
            if base in self.model.modules:
                r = self.model.resolve(self.model.modules[base], a.name)
                v = self.wrap_resolved(r, a.name, st)
            if v is None:
                v = Ex(base + '.' + a.name)
            st.env[a.asname or a.name] = v

    def st_FunctionDef(self, s, st):
        f = Func(s, self.stack[-1].module if self.stack else None, outer=self.stack[-1] if self.stack else None)
        st.env[s.name] = Fn(f, st.env)

    def st_ClassDef(self, s, st):
        st.env[s.name] = self.arr(st, mk('localclass', s.name))

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            rhs = self.ev(s.value, st)
            st.env[t.id] = self.inplace(cur, s.op, rhs, st, s, lambda nv: st.env.__setitem__(t.id, nv))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            rhs = self.ev(s.value, st)
            nv = self.inplace(cur, s.op, rhs, st, s, None)
            self.setattr(o, t.attr, nv, st, s, aug=True)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.index(t.slice, st)
            cur = self.getitem(base, idx, st, t)
            rhs = self.ev(s.value, st)
            nt = self.binop(s.op, cur, rhs, st, s)
            self.setitem(base, idx, nt, st, s)

    def inplace(self, cur, op, rhs, st, node, rebind):
        if isinstance(cur, Tup):
            if isinstance(op, ast.Add) and cur.kind == 'list':
                if isinstance(rhs, Tup):
                    st.lists[cur.id] = st.lists[cur.id] + st.lists[rhs.id]
                    self.event('mutate', origins=frozenset([('list', cur.id)]), node=node, how='list +=')
                    return cur
        if isinstance(cur, Ob):
            return self.binop(op, cur, rhs, st, node)
        r = self.binop(op, cur, rhs, st, node)
        if isinstance(cur, A):
            t, o = st.cells[cur.cell]
            if not T.is_scalar(t) or cur.cell in self.arrays:
                nt = self.term(r, st)
                self.mutate(cur, nt, st, node, 'augmented assignment')
                return cur
        return r

    def mutate(self, v, newterm, st, node, how):
        """in-place write of array value v"""
        if isinstance(v, A):
            t, o = st.cells[v.cell]
            if T.is_scalar(t) and how == 'augmented assignment' and v.cell not in self.arrays:
                st.cells[v.cell] = (newterm, o)
                return
            self.event('mutate', origins=o, node=node, how=how, path=st.path, term=t)
            st.cells[v.cell] = (newterm, o)
            w = st.views.get(v.cell)
            seen = set()
            while w is not None and w not in seen:
                seen.add(w)
                if w[0] == 'alias':
                    st.cells[w[1]] = (newterm, st.cells[w[1]][1])
                    w = st.views.get(w[1])
                elif w[0] == 'alts':
                    for c in w[1:]:
                        if c in st.cells:
                            tt, oo = st.cells[c]
                            st.cells[c] = (mk('maybe_mutated', tt, newterm) if tt is not newterm else tt, oo)
                    w = None
                elif w[0] == 'view':
                    p = w[1]
                    if p in st.cells:
                        tt, oo = st.cells[p]
                        nt = self.setitem_term(tt, w[2], newterm)
                        st.cells[p] = (nt, oo)
                        newterm = nt
                    w = st.views.get(p)
                else:
                    w = None

    # ---- control flow
    def st_If(self, s, st):
        c = self.cond(self.ev(s.test, st), st)
        if c is ONE:
            return self.exec_block(s.body, st)
        if c is ZERO:
            return self.exec_block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self._assume(s1, c, True)
        self._assume(s2, c, False)
        f1, r1, b1, c1 = self.exec_block(s.body, s1)
        f2, r2, b2, c2 = self.exec_block(s.orelse, s2)
        rets, brks, conts = r1 + r2, b1 + b2, c1 + c2
        if f1 is None and f2 is None:
            return None, rets, brks, conts
        if f1 is None:
            return f2, rets, brks, conts
        if f2 is None:
            return f1, rets, brks, conts
        return self.merge(c, f1, f2), rets, brks, conts

    def _assume(self, st, c, val):
        st.assume[c] = val
        st.path = st.path + ((c if val else T.notb(c)),)
        # conjunctions: a*b = 1 implies both
        if val and c.op == 'poly' and len(c.args[0]) == 1 and c.args[0][0][1] == 1:
            for a, e in c.args[0][0][0]:
                if a.op in T.IDEMP:
                    st.assume[a] = True
        if not val:
            n = T.notb(c)
            if n.op in T.IDEMP:
                st.assume[n] = True
            elif n.op == 'poly' and len(n.args[0]) == 1 and n.args[0][0][1] == 1:
                for a, e in n.args[0][0][0]:
                    if a.op in T.IDEMP:
                        st.assume[a] = True

    def st_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def st_Try(self, s, st):
        pre = st.copy()
        f, r, b, c = self.exec_block(s.body, st)
        if f is not None and s.orelse:
            f, r2, b2, c2 = self.exec_block(s.orelse, f)
            r, b, c = r + r2, b + b2, c + c2
        if f is None and not r and s.handlers:
            # body always raises: take the first handler
            f, r, b, c = self.exec_block(s.handlers[0].body, pre)
        if s.finalbody:
            rr = []
            for (p, v, s2, nd) in r:
                ff, fr, _, _ = self.exec_block(s.finalbody, s2)
                if ff is not None:
                    rr.append((p, v, ff, nd))
                rr += fr
            r = rr
            if f is not None:
                f, fr, fb, fc = self.exec_block(s.finalbody, f)
                r, b, c = r + fr, b + fb, c + fc
        return f, r, b, c

    st_TryStar = st_Try

    # ---- loops
    def st_While(self, s, st):
        return self.loop(s, None, None, st, mk('whilekey', self.loopdepth, self._astkey(s.test)))

    def _astkey(self, n):
        return ast.dump(n, annotate_fields=False)

    def st_For(self, s, st):
        itv = self.ev(s.iter, st)
        items = self.concrete_items(itv, st)
        has_jump = any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b))
        if items is not None and len(items) <= 12 and not has_jump:
            rets = []
            for x in items:
                self.assign(s.target, x, st, s)
                f, r, b, c = self.exec_block(s.body, st)
                rets += r
                if f is None:
                    return None, rets, [], []
                st = f
            if s.orelse:
                f, r, b, c = self.exec_block(s.orelse, st)
                return f, rets + r, b, c
            return st, rets, [], []
        key, elem = self.iter_elem(itv, st)
        return self.loop(s, s.target, elem, st, key)

    def concrete_items(self, v, st):
        if isinstance(v, Tup):
            return list(st.lists[v.id]) if not any(self._isrepeat(x, st) for x in st.lists[v.id]) else None
        if isinstance(v, Me):
            return None
        t = self.term(v, st) if isinstance(v, (A, C)) else None
        if t is not None and t.op in ('zip', 'enumerate'):
            return None
        return None

    def _isrepeat(self, x, st):
        return isinstance(x, A) and st.cells[x.cell][0].op in ('repeat', 'ite')and st.cells[x.cell][0].op == 'repeat'

    def iter_elem(self, v, st):
        """(loop key, factory(st)->Value of one element)"""
        if isinstance(v, Dct):
            t = self.term(v, st)
        elif isinstance(v, Tup):
            t = self.term(v, st)
        else:
            t = self.term(v, st)
        key = mk('loop', self.loopdepth, t)
        return key, lambda s, t=t, v=v: self.elem_of(t, key, s, v)

    def elem_of(self, t, key, st, v=None):
        if t.op == 'zip':
            return self.tup(st, [self.elem_of(x, key, st) for x in t.args[0]])
        if t.op == 'enumerate':
            return self.tup(st, [C(mk('idx', key)), self.elem_of(t.args[0], key, st)])
        if t.op == 'range':
            return C(mk('idx', key))
        if t.op == 'listcomp':
            return self.arr(st, T.subst_fn(t.args[1], lambda a, k=t.args[0]:
                                           mk(a.op, key, *a.args[1:]) if a.op in ('elem', 'idx') and a.args[0] is k else None))
        if t.op == 'items':
            return self.tup(st, [self.arr(st, mk('elem', key, mk('keys', t.args[0]))),
                                 self.arr(st, mk('elem', key, mk('values', t.args[0])))])
        if t.op == 'reversed' or t.op == 'getitem' and False:
            return self.elem_of(t.args[0], key, st)
        if t.op in ('list', 'tuple') and len(t.args[0]) == 1 and t.args[0][0].op == 'repeat':
            return self.elem_of(t.args[0][0].args[0], key, st)
        et = mk('elem', key, t)
        return self.newarr(st, et, frozenset([('elem', T.show(t, 4))]))

    def loop(self, s, target, elem, st, key):
        assigned = self.assigned_names(s.body)
        self.loopdepth += 1
        try:
            pre = st.copy()
            body = st.copy()
            phis = {}
            # havoc loop-carried names
            for n in assigned:
                if n in body.env and isinstance(body.env[n], (A, C)):
                    p = mk('phi', key, n)
                    if T.is_scalar(self.term(body.env[n], pre)) and not isinstance(body.env[n], A):
                        # may become an array (f, g = 0, 0): keep neutral
                        pass
                    phis[n] = p
                    body.env[n] = self.newarr(body, p, self.orig(body.env[n], pre))
                elif n in body.env and isinstance(body.env[n], (Tup, Dct)) and self.rebinds(s.body, n):
                    p = mk('phi', key, n)
                    phis[n] = p
                    body.env[n] = self.newarr(body, p)
            # havoc cells mutated in the body: found by a dry run
            dry = body.copy()
            nev = len(self.events)
            if target is not None:
                self.assign(target, elem(dry), dry, s)
            fd, rd, bd, cd = self.exec_block(s.body, dry)
            del self.events[nev:]
            mutated = set()
            heapw = set()
            listw = set()
            for sx in [x for x in [fd] + bd + cd + [r[2] for r in rd] if x is not None]:
                for c, (t, o) in sx.cells.items():
                    if c in body.cells and body.cells[c][0] is not t:
                        mutated.add(c)
                for k, v in sx.heap.items():
                    if k in body.heap and body.heap[k] is not v or (k not in body.heap and self.basemap_written(k, sx, v)):
                        heapw.add(k)
                for i, l in sx.lists.items():
                    if i in body.lists and body.lists[i] != l:
                        listw.add(i)
            cphi = {}
            used = set()
            for c in sorted(mutated):
                if any(isinstance(v, A) and v.cell == c for v in body.env.values()) and \
                        body.cells[c][0].op == 'phi' and body.cells[c][0].args[0] is key:
                    continue
                p = mk('phi', key, 'cell', body.cells[c][0])
                k = 1
                while p in used:            # another array that starts with the same value
                    k += 1
                    p = mk('phi', key, 'cell%d' % k, body.cells[c][0])
                used.add(p)
                cphi[c] = (p, body.cells[c][0])
                body.cells[c] = (p, body.cells[c][1])
            hphi = {}
            for k in heapw:
                v = body.heap.get(k)
                t0 = self.term(v, body) if v is not None else mk('attr', self.basemap.get(k[0], sym('?')), k[1])
                p = mk('phi', key, 'attr', mk('attr', self.basemap.get(k[0], sym('?')), k[1]))
                hphi[k] = (p, t0)
                if isinstance(v, Ob):
                    body.heap[k] = Ob(self.fresh(), v.cls, p, True)
                    self.basemap[body.heap[k].id] = p
                else:
                    body.heap[k] = self.newarr(body, p, self.orig(v, body) if v is not None else NOORIG)
            lphi = {}
            for i in sorted(listw):
                # what earlier iterations have appended
                lphi[i] = list(body.lists[i]) + [self.arr(body, mk('repeat', mk('phi', key, 'list%d' % len(lphi))))]
                body.lists[i] = lphi[i]
            if target is not None:
                self.assign(target, elem(body), body, s)
            if isinstance(s, ast.While):
                c0 = self.cond(self.ev(s.test, body), body)
                self.event('looptest', node=s, cond=c0, path=st.path)
                if c0 not in (ONE, ZERO):
                    self._assume(body, c0, True)
            f, rets, brks, conts = self.exec_block(s.body, body)
            ends = [x for x in conts + ([f] if f is not None else [])]
            end = None
            if ends:
                end = ends[-1]
                for x in reversed(ends[:-1]):
                    c = self.pathcond(x.path, pre.path)
                    end = self.merge(c, x, end)
            self.carried(s, key, pre, body, end, brks, phis, cphi)
            final = brks + ([end] if end is not None else [])
            if not final:
                # every iteration returns or raises; zero iterations falls through
                f2 = pre
                if rets:
                    return self._after_loop(s, f2, [(p + (mk('bool', mk('loopret', key)),), v, x, nd) for p, v, x, nd in rets])
                return self._after_loop(s, f2, [])
            fin = final[-1]
            for x in reversed(final[:-1]):
                fin = self.merge(self.pathcond(x.path, pre.path), x, fin)
            irregular = bool(brks) or bool(rets) or isinstance(s, ast.While)
            res = pre.copy()
            # new cells etc. become visible
            for c, v in fin.cells.items():
                if c not in res.cells:
                    res.cells[c] = v
            for i, v in fin.lists.items():
                if i not in res.lists:
                    res.lists[i] = v
            for i, v in fin.dicts.items():
                if i not in res.dicts or res.dicts[i] != v:
                    res.dicts[i] = v
            res.views.update(fin.views)
            ctag = T.mk('exit', tuple(self.pathcond(x.path, pre.path) for x in brks)) if irregular else None

            def summarise(p, t0, t1, nm):
                return self.summarise(key, p, t0, t1, nm, irregular, ctag, set(list(phis.values()) + [x[0] for x in cphi.values()] + [x[0] for x in hphi.values()]))
            for n in fin.env:
                v = fin.env[n]
                if n in phis:
                    t1 = self.term(v, fin) if isinstance(v, (A, C)) else None
                    if isinstance(v, (A, C)):
                        v0 = pre.env[n]
                        t0 = self.term(v0, pre)
                        t = summarise(phis[n], t0, t1, n)
                        if isinstance(v0, A) and isinstance(v, A) and v.cell == getattr(body.env.get(n), 'cell', None):
                            res.cells[v0.cell] = (t, pre.cells[v0.cell][1] | fin.cells[v.cell][1])
                            res.env[n] = v0
                        else:
                            res.env[n] = self.arr(res, t, self.orig(v, fin) | self.orig(v0, pre))
                    else:
                        res.env[n] = v
                elif n not in pre.env or pre.env[n] is not v:
                    if isinstance(v, (A, C)):
                        t1 = self.term(v, fin)
                        t = self.last(key, t1, irregular)
                        res.env[n] = self.arr(res, t, self.orig(v, fin))
                    else:
                        res.env[n] = v
            for c in cphi:
                p, t0 = cphi[c]
                t1, o1 = fin.cells[c]
                res.cells[c] = (summarise(p, t0, t1, 'cell'), o1)
            for k, v in fin.heap.items():
                if k in hphi:
                    p, t0 = hphi[k]
                    if isinstance(v, (A, C)):
                        t1 = self.term(v, fin)
                        res.heap[k] = self.newarr(res, summarise(p, t0, t1, 'attr:' + k[1]), self.orig(v, fin))
                    else:
                        res.heap[k] = v
                elif k not in res.heap:
                    res.heap[k] = v
            for i in listw:
                l0, l1 = pre.lists[i], fin.lists[i]
                if i in lphi and len(l1) >= len(lphi[i]) and l1[:len(lphi[i])] == lphi[i]:
                    app = l1[len(lphi[i]):]
                    res.lists[i] = list(l0) + [self.arr(res, mk('repeat', mk('listcomp', key, self.term(x, fin))))
                                               for x in app]
                else:
                    res.lists[i] = [self.arr(res, mk('repeat', mk('loopvar', key, 'list')))]
            if rets:
                rets = [(p + (mk('bool', mk('loopret', key)),), v, x, nd) for p, v, x, nd in rets]
            return self._after_loop(s, res, rets)
        finally:
            self.loopdepth -= 1

    def carried(self, s, key, pre, body, end, brks, phis, cphi):
        """event: what the loop carries from one iteration to the next, and what it is left with"""
        def at(x):
            d = {}
            for n, p in phis.items():
                v = x.env.get(n)
                if isinstance(v, (A, C, Tup, Dct)):
                    d[p] = self.term(v, x)
            for c, (p, t0) in cphi.items():
                if c in x.cells:
                    d[p] = x.cells[c][0]
            return d
        try:
            self.event('carried', node=s, key=key, init=at(pre), next=at(end) if end is not None else {},
                       exits=[(self.pathcond(x.path, pre.path), at(x)) for x in brks])
        except Giveup:
            pass

    def _after_loop(self, s, st, rets):
        if s.orelse:
            f, r, b, c = self.exec_block(s.orelse, st)
            return f, rets + r, b, c
        return st, rets, [], []

    def basemap_written(self, k, sx, v):
        base = self.basemap.get(k[0])
        if base is None:
            return False
        if isinstance(v, Ob) and v.symbolic:
            return v.base is not mk('attr', base, k[1])
        if isinstance(v, (A, C)):
            return self.term(v, sx) is not mk('attr', base, k[1])
        return False

    def last(self, key, t, irregular):
        if not T.mentions_loop(t, key) and not T.mentions(t, lambda s: s.op == 'phi' and s.args[0] is key) and not irregular:
            return t
        return mk('looplast', key, t)

    def summarise(self, key, p, t0, t1, nm, irregular, ctag, allphis):
        if t1 is p:
            return t0
        if T.is_arith(t1) and T.is_arith(t0):
            d = T.sub(t1, p)
            if not any(T.contains(d, q) for q in allphis):
                if not irregular:
                    return T.add(t0, T.loopsum(key, d))
        if not irregular and not any(T.contains(t1, q) for q in allphis) and not T.mentions_loop(t1, key):
            return t1
        if not irregular and t1.op == 'setitem' and t1.args[0] is p and \
                not any(T.contains(x, q) for x in t1.args[1:] for q in allphis):
            return mk('loopset', key, t0, t1.args[1], t1.args[2])
        return mk('loopvar', key, t1, t0, *( [ctag] if ctag is not None else []))

    def pathcond(self, path, base):
        out = ONE
        for c in path[len(base):]:
            out = T.andb(out, c)
        return out

    def assigned_names(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return out

    def rebinds(self, body, name):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                    return True
        return False

    # ---- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.index(t.slice, st)
            self.setitem(base, idx, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, n, st, star=False):
        if isinstance(v, Tup) and len(st.lists[v.id]) == n and not star:
            return list(st.lists[v.id])
        t = self.term(v, st)
        if t.op == 'ite' and t.args[1].op in ('tuple', 'list') and t.args[2].op in ('tuple', 'list') and \
                len(t.args[1].args[0]) == n == len(t.args[2].args[0]):
            return [self.arr(st, self.ite(t.args[0], a, b)) for a, b in zip(t.args[1].args[0], t.args[2].args[0])]
        if t.op in ('tuple', 'list') and len(t.args[0]) == n:
            return [self.arr(st, x) for x in t.args[0]]
        o = self.orig(v, st)
        return [self.newarr(st, mk('getitem', t, num(i)), frozenset(('part',) + x for x in o)) for i in range(n)]

    def setattr(self, o, name, v, st, node, aug=False):
        if isinstance(o, Ob):
            r = o.cls.lookup(name)
            if r and r[0] == 'prop':
                setter = r[1][1]
                self.event('setprop', obj=o.base, attr=name, node=node, value=self.term_safe(v, st))
                if setter is not None:
                    self.call_func(setter, [o, v], {}, st, node)
                    return
                st.heap[(o.id, name)] = v
                return
            self.basemap.setdefault(o.id, o.base)
            old = st.heap.get((o.id, name))
            st.heap[(o.id, name)] = v
            self.event('setattr', obj=o.base, cls=o.cls, symbolic=o.symbolic, attr=name, node=node,
                       value=self.term_safe(v, st), origins=self.orig(v, st), aug=aug, path=st.path)
            return
        if isinstance(o, A):
            t = self.term(o, st)
            if name == 'shape':
                self.mutate(o, t, st, node, 'assignment to .shape')
                return
            if name == 'data' and self.plain and sparse_term(t):
                # the stored entries; the zero pattern stays
                self.mutate(o, unbool(self.term(v, st)), st, node, 'assignment to .data')
                return
            self.basemap.setdefault(('t', t.id), t)
            st.heap[(('t', t.id), name)] = v
            self.event('setattr', obj=t, cls=None, symbolic=True, attr=name, node=node,
                       value=self.term_safe(v, st), origins=self.orig(v, st), oorig=self.orig(o, st), aug=aug, path=st.path)
            return
        if isinstance(o, Cl):
            self.event('setclass', cls=o.cls, attr=name, node=node)
            return
        self.event('setattr', obj=self.term_safe(o, st), cls=None, symbolic=True, attr=name, node=node,
                   value=None, origins=NOORIG, aug=aug, path=st.path)

    def term_safe(self, v, st):
        try:
            return self.term(v, st)
        except (Giveup, RecursionError):
            return mk('opaque')

    # ------------------------------------------------------------- attribute read
    def getattr(self, o, name, st, node=None):
        if isinstance(o, Ob):
            k = (o.id, name)
            if k in st.heap:
                return st.heap[k]
            if name == '__class__':
                return Cl(o.cls)
            r = o.cls.lookup(name)
            if r is not None:
                kind, val, owner = r
                if kind == 'prop':
                    g = val[0]
                    if g is None:
                        return self.arr(st, mk('attr', o.base, name))
                    return self.call_func(g, [o], {}, st, node)
                if kind == 'method':
                    if val.is_static:
                        return Fn(val)
                    if val.is_classmethod:
                        return Bd(Cl(o.cls), val)
                    return Bd(o, val)
                if kind == 'attr':
                    if isinstance(val, ast.ClassDef):
                        return C(mk('localclass', val.name))
                    v = self.ev_in_module(val, owner.module, st)
                    if isinstance(v, A):
                        v = self.newarr(st, self.term(v, st), frozenset([('classattr', owner.qual, name)]))
                    elif isinstance(v, (Tup, Dct)):
                        self.tagclass[v.id] = ('classattr', owner.qual, name)
                    st.heap[k] = v
                    self.basemap.setdefault(o.id, o.base)
                    return v
            v = self.symattr(o.base, name, st)
            self.basemap.setdefault(o.id, o.base)
            if not o.symbolic:
                self.event('missing-attr', obj=o.base, cls=o.cls, attr=name, node=node)
            st.heap[k] = v
            return v
        if isinstance(o, Md):
            r = self.model.resolve(o.mod, name)
            v = self.wrap_resolved(r, name, st)
            return v if v is not None else Ex(o.mod.name + '.' + name)
        if isinstance(o, Ex):
            nm = o.name + '.' + name
            return self.ext_value(nm, st)
        if isinstance(o, Cl):
            r = o.cls.lookup(name)
            if r is not None:
                kind, val, owner = r
                if kind == 'method':
                    if val.is_classmethod:
                        return Bd(o, val)
                    return Fn(val)
                if kind == 'attr':
                    if isinstance(val, ast.ClassDef):
                        return C(mk('localclass', val.name))
                    return self.ev_in_module(val, owner.module, st)
                if kind == 'prop':
                    return C(mk('propobj', owner.qual, name))
            if name == '__name__':
                return C(const(o.cls.name))
            return Me(o, name)
        if isinstance(o, Sup):
            mro = o.recv.cls.mro() if isinstance(o.recv, Ob) else o.cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.methods:
                    return Bd(o.recv, c.methods[name])
                if name in c.props and c.props[name][0] is not None:
                    return self.call_func(c.props[name][0], [o.recv], {}, st, node)
            return Me(o.recv, name)
        if isinstance(o, (A, C)):
            t = self.term(o, st)
            if t is NONE:
                raise Bottom()
            if name == 'data' and self.plain and sparse_term(t):
                return self.newarr(st, t, self.orig(o, st))
            if name == 'ndim' and self.plain and self.plain(t):
                return C(num(self.plain(t)))
            if name in ('shape', 'size', 'ndim', 'dtype', 'nnz'):
                return self.arr(st, mk('attr', t, name)) if name != 'size' else self.arr(st, self.size_of(t))
            if name == 'T':
                r = self.newarr(st, transpose(t), self.orig(o, st))
                return r
            if name == 'real':
                return o
            tk = (('t', t.id), name)
            if tk in st.heap:
                return st.heap[tk]
            if name in ARRAY_METHODS or (isinstance(node, ast.Attribute) and getattr(node, '_called', False)):
                return Me(o, name)
            v = self.symattr(t, name, st, self.orig(o, st))
            self.basemap.setdefault(('t', t.id), t)
            st.heap[tk] = v
            return v
        return Me(o, name)

    tagclass = {}

    def size_of(self, t):
        return mk('attr', t, 'size')

    def symattr(self, base, name, st, borig=NOORIG):
        t = mk('attr', base, name)
        if name in self.none:
            return C(NONE)
        h = self.hints.get(name)
        if h is not None:
            v = h(self, st, t)
            if v is not None:
                return v
        if name in IQ_NAMES and self.iq is not None:
            return self.iqobj(st, t)
        return self.newarr(st, t, frozenset([('attr', T.show(base, 4), name)]))

    def wrap_resolved(self, r, name, st):
        if r is None:
            return None
        if isinstance(r, Class):
            return Cl(r)
        if isinstance(r, Func):
            return Fn(r)
        if isinstance(r, Module):
            return Md(r)
        if r[0] == 'ext':
            return self.ext_value(r[1], st)
        if r[0] == 'cy':
            return Ex(r[1] + '.' + r[2])
        if r[0] == 'var':
            _, m, nm = r
            es = m.assigns.get(nm)
            if es and len(es) == 1:
                e = es[0]
                if isinstance(e, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Lambda)) or (
                        isinstance(e, (ast.Attribute, ast.Name))):
                    return self.ev_in_module(e, m, st)
            return self.newarr(st, mk('global', m.name + '.' + nm), frozenset([('global', m.name, nm)]))
        return None

    def ext_value(self, nm, st):
        if nm in ('numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.infty'):
            return C(sym('inf'))
        if nm in ('numpy.pi', 'math.pi'):
            return C(sym('np.pi'))
        if nm in ('numpy.newaxis',):
            return C(NONE)
        if nm == 'numpy.nan':
            return C(sym('nan'))
        return Ex(nm)

    def ev_in_module(self, e, module, st):
        key = ('modexpr', module.name, id(e))
        env = st.env
        st.env = {}
        f = Func(ast.FunctionDef(name='<module>', args=ast.arguments([], [], None, [], [], None, []),
                                 body=[], decorator_list=[], lineno=1), module)
        self.stack.append(f)
        try:
            return self.ev(e, st)
        finally:
            self.stack.pop()
            st.env = env

    # ------------------------------------------------------------- expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Giveup('step budget')
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            return self.arr(st, mk('expr', type(e).__name__, ast.dump(e)[:80]))
        return m(e, st)

    def ex_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return C(const(v))
        if isinstance(v, (int, float)):
            return C(num(v))
        return C(const(repr(v)))

    def ex_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        f = self.stack[-1] if self.stack else None
        if f is not None:
            r = self.model.resolve(f.module, e.id)
            v = self.wrap_resolved(r, e.id, st)
            if v is not None:
                return v
        return Ex('builtins.' + e.id)

    def ex_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def ex_Tuple(self, e, st):
        return self.tup(st, self.seq(e.elts, st), 'tuple')

    def ex_List(self, e, st):
        return self.tup(st, self.seq(e.elts, st), 'list')

    def seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, Tup):
                    out += st.lists[v.id]
                else:
                    out.append(self.arr(st, mk('repeat', self.term(v, st))))
            else:
                out.append(self.ev(x, st))
        return out

    def ex_Set(self, e, st):
        return self.arr(st, mk('set', tuple(self.term(self.ev(x, st), st) for x in e.elts)))

    def ex_Dict(self, e, st):
        i = self.fresh()
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                if isinstance(vv, Dct):
                    d.update(st.dicts[vv.id])
                else:
                    d['**'] = vv
                continue
            kt = self.term(self.ev(k, st), st)
            d[self.dkey(kt)] = vv
        st.dicts[i] = d
        return Dct(i)

    def dkey(self, kt):
        return kt.args[2] if kt.op == 'const' and kt.args[0] == 'str' else kt

    def ex_JoinedStr(self, e, st):
        return C(mk('fstr', id(e)))

    def ex_Lambda(self, e, st):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        f = Func(node, self.stack[-1].module, outer=self.stack[-1])
        return Fn(f, st.env)

    def ex_IfExp(self, e, st):
        c = self.cond(self.ev(e.test, st), st)
        if c is ONE:
            return self.ev(e.body, st)
        if c is ZERO:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self._assume(s1, c, True)
        self._assume(s2, c, False)
        v1 = v2 = None
        try:
            v1 = self.ev(e.body, s1)
        except Bottom:
            pass
        try:
            v2 = self.ev(e.orelse, s2)
        except Bottom:
            pass
        if v1 is None and v2 is None:
            raise Bottom()
        if v1 is None:
            st.become(s2)
            return v2
        if v2 is None:
            st.become(s1)
            return v1
        s1.env['$ifexp'], s2.env['$ifexp'] = v1, v2
        out = self.merge(c, s1, s2)
        v = out.env.pop('$ifexp')
        st.become(out)
        return v

    def ex_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            c = self.cond(v, st)
            if acc is None:
                acc, accv = c, v
            else:
                accv = None if not (acc in (ONE, ZERO)) else v
                prev = acc
                acc = T.andb(prev, c) if isand else T.orb(prev, c)
                if prev is ONE and isand or prev is ZERO and not isand:
                    accv = v
            if isand and acc is ZERO:
                return v if c is ZERO else C(FALSE)
            if not isand and acc is ONE:
                return v if c is ONE else C(TRUE)
            if not isand and i == 0 and len(e.values) == 2 and c not in (ONE, ZERO) and not self.is_boolterm(v, st):
                # value `a or b`
                w = self.ev(e.values[1], st)
                if not self.is_boolterm(w, st):
                    return self.arr(st, self.ite(c, self.term(v, st), self.term(w, st)), self.orig(v, st) | self.orig(w, st))
                return C(T.orb(c, self.cond(w, st)))
        if accv is not None:
            return accv
        return C(acc)

    def is_boolterm(self, v, st):
        if not isinstance(v, (A, C)):
            return False
        t = self.term(v, st)
        return t in (TRUE, FALSE) or t.op in T.IDEMP or (t.op == 'poly' and all(a.op in T.IDEMP for m, c in t.args[0] for a, x in m))

    def ex_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return C(T.notb(self.cond(v, st)))
        if isinstance(v, Ob):
            m = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(e.op).__name__]
            return self.callmeth(v, m, [], {}, st, e)
        t = self.term(v, st)
        if isinstance(e.op, ast.USub):
            return self.newarr(st, T.neg(t)) if isinstance(v, A) else self.arr(st, T.neg(t))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.newarr(st, T.notb(t))
        return v

    def ex_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        name = type(op).__name__
        if isinstance(a, Ob) or isinstance(b, Ob):
            d = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(name)
            if isinstance(a, Ob) and d and a.cls.method(d):
                return self.callmeth(a, d, [b], {}, st, node)
            if isinstance(a, Ob) and a.cls is self.iq and d:
                # no such operator, and nothing an operand of a quadratic reflects it
                r = d.replace('__', '__r', 1)
                if not isinstance(b, Ob) and self.term(b, st).op in ('attr', 'num', 'const') or isinstance(b, Ob) and b.cls.method(r) is None:
                    raise Bottom()
            return self.arr(st, mk('binop', name, self.term(a, st), self.term(b, st)))
        if isinstance(a, Tup) and isinstance(b, Tup) and name == 'Add':
            return self.tup(st, st.lists[a.id] + st.lists[b.id], a.kind)
        if isinstance(a, Tup) or isinstance(b, Tup):
            if name == 'Mult':
                other = b if isinstance(a, Tup) else a
                tt = a if isinstance(a, Tup) else b
                ot = self.term(other, st)
                if ot.op == 'num' and ot.args[0].denominator == 1 and 0 <= ot.args[0] <= 6:
                    return self.tup(st, st.lists[tt.id] * int(ot.args[0]), tt.kind)
                return self.arr(st, mk('seqrep', self.term(tt, st), ot))
            if name == 'Mod':
                return C(mk('fstr', id(node)))
            return self.arr(st, mk('binop', name, self.term(a, st), self.term(b, st)))
        ta, tb = self.term(a, st), self.term(b, st)
        if name == 'Mod':
            if ta.op == 'const':
                return C(mk('fstr', id(node)))
            return self.arr(st, mk('mod', ta, tb))
        for t in (ta, tb):
            if t.op in T.NONARITH and t not in (TRUE, FALSE):
                if t is NONE:
                    raise Bottom()
                return self.arr(st, mk('binop', name, ta, tb))
        ta, tb = unbool(ta), unbool(tb)
        if name == 'Add':
            r = T.add(ta, tb)
        elif name == 'Sub':
            r = T.sub(ta, tb)
        elif name == 'Mult':
            # `*` of a scipy.sparse matrix is the matrix product
            r = self.dot_term(ta, tb) if sparse_term(ta) and not T.is_scalar(tb) else \
                rmatmul(ta, tb) if sparse_term(tb) and not T.is_scalar(ta) else T.mul(ta, tb)
        elif name == 'Div':
            r = T.div(ta, tb)
        elif name == 'Pow':
            if tb.op == 'num' and tb.args[0].denominator <= 4 and abs(tb.args[0]) <= 8:
                r = T.power(ta, tb.args[0])
            else:
                r = mk('powv', ta, tb)
        elif name == 'BitAnd':
            r = T.andb(ta, tb)
        elif name == 'BitOr':
            r = T.orb(ta, tb)
        elif name == 'MatMult':
            return self.dot(a, b, st)
        elif name == 'FloorDiv':
            r = mk('floordiv', ta, tb)
        else:
            r = mk('binop', name, ta, tb)
        if T.is_scalar(r):
            # an array expression whose normal form is a constant (x * 0) stays an array cell
            if isinstance(a, A) or isinstance(b, A):
                return self.newarr(st, r)
        return self.arr(st, r)

    def ex_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = ONE
        arrayish = self.arrayish(left, st)
        for op, cmp in zip(e.ops, e.comparators):
            right = self.ev(cmp, st)
            arrayish = arrayish or self.arrayish(right, st)
            out = T.andb(out, self.compare(op, left, right, st))
            left = right
        out = self.decide(out, st) if out not in (ONE, ZERO) else out
        if out in (ONE, ZERO) and arrayish and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            return self.newarr(st, out)
        return C(out) if T.is_scalar(out) else self.newarr(st, out)

    def arrayish(self, v, st):
        return isinstance(v, A) and not T.is_scalar(st.cells[v.cell][0])

    def maskconst(self, idx, st):
        """index is a boolean array whose value is known: ONE / ZERO"""
        if isinstance(idx, Tup) and len(st.lists[idx.id]) == 1:
            idx = st.lists[idx.id][0]
        if isinstance(idx, A) and st.cells[idx.cell][0] in (ONE, ZERO):
            return st.cells[idx.cell][0]
        return None

    def compare(self, op, a, b, st):
        name = type(op).__name__
        if name in ('Is', 'IsNot', 'Eq', 'NotEq'):
            neg = name in ('IsNot', 'NotEq')
            if isinstance(b, C) and b.t is NONE:
                r = self.isnone(a, st)
                return T.notb(r) if neg else r
            if isinstance(a, C) and a.t is NONE:
                r = self.isnone(b, st)
                return T.notb(r) if neg else r
            if isinstance(a, Dct) and isinstance(b, Dct) and name in ('Eq', 'NotEq'):
                da, db = st.dicts[a.id], st.dicts[b.id]
                r = None
                if '**' not in da and '**' not in db:
                    if set(da) != set(db):
                        r = ZERO
                    elif not da:
                        r = ONE
                if r is not None:
                    return T.notb(r) if neg else r
            if isinstance(a, Tup) and isinstance(b, Tup) and name in ('Eq', 'NotEq'):
                ta, tb = self.term(a, st), self.term(b, st)
                if ta is tb:
                    r = ONE
                else:
                    r = mk('bool', mk('seqeq', ta, tb))
                return T.notb(r) if neg else r
            ta, tb = self.term(a, st), self.term(b, st)
            if ta.op in T.NONARITH or tb.op in T.NONARITH:
                if ta is tb:
                    r = ONE
                elif ta.op == 'const' and tb.op == 'const':
                    r = ZERO
                elif ta.op == 'class' and tb.op == 'class':
                    r = ZERO
                elif {ta.op, tb.op} & {'const'} and {ta.op, tb.op} & {'tuple', 'num', 'poly', 'obj', 'list'}:
                    r = ZERO
                else:
                    x, y = sorted((ta, tb), key=lambda t: t.id)
                    r = mk('bool', mk('eq', x, y))
                return T.notb(r) if neg else r
            if name in ('Is', 'IsNot'):
                if ta is tb:
                    r = ONE
                else:
                    x, y = sorted((ta, tb), key=lambda t: t.id)
                    r = mk('bool', mk('is', x, y))
            else:
                if ta.op in ('shapeof',) or (ta.op == 'attr' and ta.args[1] in ('shape', 'input_shape', 'output_shape', 'dtype')):
                    x, y = sorted((ta, tb), key=lambda t: t.id)
                    r = ONE if ta is tb else mk('bool', mk('eq', x, y))
                else:
                    r = T.eq0(T.sub(unbool(ta), unbool(tb)))
            return T.notb(r) if neg else r
        if name in ('In', 'NotIn'):
            r = None
            ta = self.term(a, st)
            if isinstance(b, Tup):
                items = [self.term(x, st) for x in st.lists[b.id]]
                if any(x is ta for x in items):
                    r = ONE
                elif ta.op == 'const' and all(x.op in ('const', 'num') for x in items):
                    r = ZERO
                elif ta.op == 'num' and all(x.op in ('const', 'num') for x in items):
                    r = ZERO
                else:
                    # value in [0, None] -> disjunction of equalities
                    r = ZERO
                    for x in items:
                        if x is NONE:
                            c = self.isnone(a, st)
                        elif T.is_arith(x) and T.is_arith(ta):
                            c = T.eq0(T.sub(ta, x))
                        else:
                            c = mk('bool', mk('eq', ta, x))
                        r = T.orb(r, c)
            elif isinstance(b, Dct):
                d = st.dicts[b.id]
                k = self.dkey(ta)
                r = ONE if k in d else (mk('bool', mk('in', ta, self.term(b, st))))
            else:
                r = mk('bool', mk('in', ta, self.term(b, st)))
            return T.notb(r) if name == 'NotIn' else r
        ta, tb = unbool(self.term(a, st)), unbool(self.term(b, st))
        if not (T.is_arith(ta) and T.is_arith(tb)):
            return mk('bool', mk('cmp', name, ta, tb))
        if name in ('Gt', 'Lt', 'GtE', 'LtE'):
            d = T.sub(ta, tb) if name[0] == 'G' else T.sub(tb, ta)
            if self.exact or T.is_int(d):    # ties matter between integers
                half = num(Fraction(1, 2))
                return T.gt0(T.add(d, half) if name.endswith('E') else T.sub(d, half))
        if name == 'Gt':
            return T.gt0(T.sub(ta, tb))
        if name == 'Lt':
            return T.gt0(T.sub(tb, ta))
        if name == 'GtE':
            return T.gt0(T.sub(ta, tb))       # ties ignored
        if name == 'LtE':
            return T.gt0(T.sub(tb, ta))
        return mk('bool', mk('cmp', name, ta, tb))

    def comp(self, e, st, build):
        s2 = st
        saved = dict(st.env)
        self.loopdepth += 1
        try:
            key = None
            conds = ONE
            conc = None
            for i, g in enumerate(e.generators):
                itv = self.ev(g.iter, st)
                items = self.concrete_items(itv, st)
                if items is not None and len(e.generators) == 1 and not g.ifs and len(items) <= 12:
                    out = []
                    for x in items:
                        self.assign(g.target, x, st, e)
                        out.append(build())
                    return 'concrete', out
                k, elem = self.iter_elem(itv, st)
                key = k if key is None else mk('loop2', key, k)
                if len(e.generators) == 1:
                    pass
                self.assign(g.target, elem(st), st, e)
                for c in g.ifs:
                    conds = T.andb(conds, self.cond(self.ev(c, st), st))
            v = build()
            return (k if len(e.generators) == 1 else key, conds), v
        finally:
            self.loopdepth -= 1
            # restore comprehension scope
            for n in list(st.env):
                if n not in saved:
                    del st.env[n]
            st.env.update(saved)

    def ex_ListComp(self, e, st):
        r = self.comp(e, st, lambda: self.ev(e.elt, st))
        if r[0] == 'concrete':
            return self.tup(st, r[1], 'list')
        (key, conds), v = r
        t = self.term(v, st)
        lc = mk('listcomp', key, t) if conds is ONE else mk('listcomp', mk('filter', key, conds), t)
        return self.newarr(st, lc, self.orig(v, st))

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e, st):
        v = self.ex_ListComp(e, st)
        return self.arr(st, mk('setof', self.term(v, st)))

    def ex_DictComp(self, e, st):
        r = self.comp(e, st, lambda: (self.ev(e.key, st), self.ev(e.value, st)))
        if r[0] == 'concrete':
            i = self.fresh()
            st.dicts[i] = {self.dkey(self.term(k, st)): v for k, v in r[1]}
            return Dct(i)
        (key, conds), (k, v) = r
        return self.newarr(st, mk('dictcomp', key, self.term(k, st), self.term(v, st)))

    def ex_Starred(self, e, st):
        return self.ev(e.value, st)

    def ex_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    # ---- subscripts
    def index(self, e, st):
        if isinstance(e, ast.Slice):
            parts = [self.term(self.ev(x, st), st) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
            return C(mk('slice', *parts))
        if isinstance(e, ast.Tuple):
            return self.tup(st, [self.index(x, st) for x in e.elts])
        return self.ev(e, st)

    def ex_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.index(e.slice, st)
        return self.getitem(base, idx, st, e)

    def getitem(self, base, idx, st, node):
        it = self.term(idx, st)
        if isinstance(base, Tup):
            items = st.lists[base.id]
            if it.op == 'num' and it.args[0].denominator == 1 and not any(self._isrepeat(x, st) for x in items):
                i = int(it.args[0])
                if -len(items) <= i < len(items):
                    return items[i]
                raise Bottom()
            if it.op == 'slice' and not any(self._isrepeat(x, st) for x in items):
                p = []
                for x in it.args:
                    if x is NONE:
                        p.append(None)
                    elif x.op == 'num':
                        p.append(int(x.args[0]))
                    else:
                        p = None
                        break
                if p is not None:
                    return self.tup(st, items[slice(*p)], base.kind)
            return self.arr(st, mk('getitem', self.term(base, st), it))
        if isinstance(base, Dct):
            d = st.dicts[base.id]
            k = self.dkey(it)
            if k in d:
                return d[k]
            return self.newarr(st, mk('get', self.term(base, st), it))
        if isinstance(idx, Cl) and isinstance(base, A):
            bt = self.term(base, st)
            if bt.op == 'global':
                d = self.model.class_maps().get(bt.args[0])
                if d is not None and d.get(idx.cls) is not None:
                    return Cl(d[idx.cls])
                if d is not None:
                    self.event('missing-key', dict=bt.args[0], cls=idx.cls, node=node)
        if isinstance(base, Ob):
            if base.cls.method('__getitem__'):
                return self.callmeth(base, '__getitem__', [idx], {}, st, node)
            return self.arr(st, mk('getitem', self.term(base, st), it))
        if isinstance(base, Cl):
            return C(mk('getitem', self.term(base, st), it))
        t = self.term(base, st)
        mc = self.maskconst(idx, st)
        if mc is not None and t.op not in ('tuple', 'list'):
            return self.newarr(st, t if mc is ONE else ZERO)
        if it.op == 'tuple' and len(it.args[0]) == 1:
            it = it.args[0][0]
        if t.op in ('tuple', 'list') and it.op == 'num' and it.args[0].denominator == 1:
            i = int(it.args[0])
            if -len(t.args[0]) <= i < len(t.args[0]) and not any(x.op == 'repeat' for x in t.args[0]):
                return self.arr(st, t.args[0][i])
        if t.op == 'ite' and it.op == 'num' and t.args[1].op in ('tuple', 'list') and t.args[2].op in ('tuple', 'list'):
            i = int(it.args[0])
            try:
                return self.arr(st, self.ite(t.args[0], t.args[1].args[0][i], t.args[2].args[0][i]))
            except IndexError:
                pass
        if is_fullslice(it):
            r = self.newarr(st, t, self.orig(base, st))
            if isinstance(base, A):
                st.views[r.cell] = ('alias', base.cell)
            return r
        r = self.getitem_term(t, it)
        # a view keeps the origin; boolean masks and index arrays copy
        o = self.orig(base, st)
        if is_mask(it) or is_fancy(it):
            o = NOORIG
            return self.newarr(st, r, o)
        if not is_basic(it):
            # unknown index: may be a view or a copy
            return self.newarr(st, r, frozenset(('maybe',) + x if x[0] != 'maybe' else x for x in o))
        rr = self.newarr(st, r, o)
        if isinstance(base, A):
            st.views[rr.cell] = ('view', base.cell, it)
        return rr

    def getitem_term(self, t, it):
        return getitem_term(t, it)

    def setitem_term(self, t, it, val):
        return setitem_term(t, it, val)

    def setitem(self, base, idx, v, st, node):
        it = self.term(idx, st)
        if isinstance(base, Tup):
            items = st.lists[base.id]
            self.event('mutate', origins=frozenset([('list', base.id)] + ([self.tagclass[base.id]] if base.id in self.tagclass else [])), node=node, how='item assignment', path=st.path)
            if it.op == 'num' and -len(items) <= int(it.args[0]) < len(items):
                items = list(items)
                items[int(it.args[0])] = v
                st.lists[base.id] = items
            else:
                st.lists[base.id] = [self.arr(st, mk('setitem', self.term(base, st), it, self.term(v, st)))]
            return
        if isinstance(base, Dct):
            self.event('mutate', origins=frozenset([('dict', base.id)] + ([self.tagclass[base.id]] if base.id in self.tagclass else [])), node=node, how='item assignment', path=st.path)
            st.dicts[base.id] = dict(st.dicts[base.id])
            st.dicts[base.id][self.dkey(it)] = v
            return
        if isinstance(base, Ob):
            if base.cls.method('__setitem__'):
                self.callmeth(base, '__setitem__', [idx, v], {}, st, node)
            return
        t = self.term(base, st)
        mc = self.maskconst(idx, st)
        if it.op == 'tuple' and len(it.args[0]) == 1:
            it = it.args[0][0]
        if mc is not None and isinstance(base, A):
            self.mutate(base, t if mc is ZERO else unbool(self.term(v, st)), st, node, 'item assignment')
            return
        if isinstance(base, A):
            self.mutate(base, self.setitem_term(t, it, unbool(self.term(v, st))), st, node, 'item assignment')
        elif isinstance(base, C):
            self.event('mutate', origins=NOORIG, node=node, how='item assignment', path=st.path)

    # ------------------------------------------------------------- calls
    def ex_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            f = self.stack[-1]
            if not e.args:
                recv = st.env.get(f.params()[0]) if f.params() else None
                return Sup(f.cls, recv)
            args = [self.ev(a, st) for a in e.args]
            return Sup(args[0].cls if isinstance(args[0], Cl) else f.cls, args[1])
        if isinstance(e.func, ast.Attribute):
            e.func._called = True
        fv = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, Tup):
                    args += st.lists[v.id]
                else:
                    t = self.term(v, st)
                    if t.op in ('tuple', 'list'):
                        args += [self.arr(st, x) for x in t.args[0]]
                    else:
                        args.append(self.newarr(st, mk('repeat', t)))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, Dct):
                    for kk, vv in st.dicts[v.id].items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(fv, args, kw, st, e)

    def callmeth(self, o, name, args, kw, st, node):
        f = self.getattr(o, name, st, node)
        return self.call(f, args, kw, st, node)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Fn):
            return self.call_func(f.func, args, kw, st, node, f.env)
        if isinstance(f, Bd):
            return self.call_func(f.func, [f.recv] + args, kw, st, node)
        if isinstance(f, Pt):
            return self.call(f.f, list(f.args) + list(args), dict(f.kw, **kw), st, node)
        if isinstance(f, Cl):
            return self.construct(f.cls, args, kw, st, node)
        if isinstance(f, Ex):
            return self.call_ext(f.name, args, kw, st, node)
        if isinstance(f, Me):
            return self.call_method(f.recv, f.name, args, kw, st, node)
        if isinstance(f, (A, C)):
            t = self.term(f, st)
            if t.op == 'attr':
                base = self.arr(st, t.args[0])
                return self.call_method(base, t.args[1], args, kw, st, node, recv_term=t.args[0])
            if t is NONE:
                raise Bottom()
            if t.op == 'class':
                for c in self.model.all_classes():
                    if c.qual == t.args[0]:
                        return self.construct(c, args, kw, st, node)
            return self.opaque_call(t, args, kw, st, node)
        if isinstance(f, Ob):
            if f.cls.method('__call__'):
                return self.callmeth(f, '__call__', args, kw, st, node)
        return self.opaque_call(self.term(f, st), args, kw, st, node)

    def kwterm(self, kw, st):
        return tuple((k, self.term(v, st)) for k, v in sorted(kw.items()))

    def opaque_call(self, ft, args, kw, st, node):
        self.event('opaque', fterm=ft, args=[self.term_safe(a, st) for a in args], node=node,
                   argorig=[self.orig(a, st) for a in args])
        at = tuple(self.term(a, st) for a in args)
        return self.newarr(st, mk('call', ft, at, self.kwterm(kw, st)))

    def construct(self, cls, args, kw, st, node):
        o = Ob(self.fresh(), cls, mk('new', cls.name, id(node) if node is not None else 0, self.n), False)
        self.basemap[o.id] = None
        r = cls.lookup('__init__')
        self.event('construct', cls=cls, args=[self.term_safe(a, st) for a in args],
                   kw={k: self.term_safe(v, st) for k, v in kw.items()}, node=node, path=st.path,
                   argorig=[self.orig(a, st) for a in args], kworig={k: self.orig(v, st) for k, v in kw.items()})
        if r is not None and r[0] == 'method':
            if self.depth >= MAXDEPTH or ('ctor:' + cls.name) in self.no_inline:
                return self.newarr(st, mk('construct', cls.qual, tuple(self.term(a, st) for a in args), self.kwterm(kw, st)))
            self.call_func(r[1], [o] + args, kw, st, node)
        elif cls.ext_bases():
            pass
        return o

    def call_func(self, f, args, kw, st, node, closure=None):
        if self.stubs:
            h = self.stubs.get(f.qual) or self.stubs.get(f.name)
            if h is not None:
                return h(self, f, args, kw, st, node)
        if self.depth >= MAXDEPTH or self.stack.count_q(f.qual) >= 2 if hasattr(self.stack, 'count_q') else self._recur(f):
            return self.newarr(st, mk('call', mk('func', f.qual), tuple(self.term_safe(a, st) for a in args),
                                      tuple((k, self.term_safe(v, st)) for k, v in sorted(kw.items()))))
        if f.name in self.no_inline or f.qual in self.no_inline:
            return self.protocol_call(f, args, kw, st, node)
        if any(d.split('.')[0] in ('contextmanager',) for d in f.decorators):
            return self.opaque_call(mk('func', f.qual), args, kw, st, node)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return self.opaque_call(mk('func', f.qual), args, kw, st, node)
        env = self.bind(f, args, kw, st, node)
        if env is None:
            return self.opaque_call(mk('func', f.qual), args, kw, st, node)
        if closure is not None:
            e2 = dict(closure)
            e2.update(env)
            env = e2
        self.analysed.add(f.qual)
        caller_env, caller_path, caller_assume = st.env, st.path, st.assume
        st.env = env
        self.stack.append(f)
        self.depth += 1
        try:
            body = f.node.body
            fall, rets, brks, conts = self.exec_block(body, st)
            if fall is not None:
                rets = rets + [(fall.path, C(NONE), fall, None)]
            if not rets:
                raise Bottom()
            # combine the returns
            p, v, s, nd = rets[-1]
            s.env = {'$ret': v}
            cur = s
            for (p, v, s, nd) in reversed(rets[:-1]):
                s.env = {'$ret': v}
                c = self.pathcond(p, caller_path)
                cur = self.merge(c, s, cur)
            st.become(cur)
            r = st.env['$ret']
            return r
        finally:
            self.depth -= 1
            self.stack.pop()
            st.env = caller_env
            st.path = caller_path
            st.assume = caller_assume

    def _recur(self, f):
        return self.depth >= MAXDEPTH or sum(1 for x in self.stack if x.node is f.node) >= 2

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        openkw = kw.pop('**', None)
        if any(isinstance(x, A) and st.cells[x.cell][0].op == 'repeat' for x in args):
            if a.vararg is None or len([x for x in args]) > len(names) + 1:
                return None
            # *args forwarded to *args
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                self.event('bad-call', func_called=f, node=node, why='too many positional arguments')
                raise Bottom()
            env[a.vararg.arg] = self.tup(st, args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = self.tup(st, [])
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in konly:
                if k in env:
                    self.event('bad-call', func_called=f, node=node, why='multiple values for argument %r' % k)
                    raise Bottom()
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            self.event('bad-call', func_called=f, node=node, why='unexpected keyword %s' % sorted(extra))
            raise Bottom()
        if a.kwarg is not None:
            i = self.fresh()
            st.dicts[i] = dict(extra)
            if openkw is not None:
                st.dicts[i]['**'] = openkw
            env[a.kwarg.arg] = Dct(i)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                if openkw is not None and not kw:
                    pass
                env[n] = self.default(f, n, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(f, x.arg, d, st)
        for n in names + konly:
            if n not in env:
                if openkw is not None:
                    env[n] = self.newarr(st, mk('kwarg', self.term_safe(openkw, st), n))
                else:
                    self.event('bad-call', func_called=f, node=node, why='missing argument %r' % n)
                    raise Bottom()
        return env

    def default(self, f, n, d, st):
        v = self.ev_in_module(d, f.module, st)
        if isinstance(v, (Tup, Dct)):
            self.tagclass[v.id] = ('default', f.qual, n)
            if isinstance(v, Dct):
                st.dicts[v.id] = st.dicts[v.id]
        elif isinstance(v, A):
            v = self.newarr(st, self.term(v, st), frozenset([('default', f.qual, n)]))
        return v

    # ---- protocol calls (uninterpreted but structured)
    def protocol_call(self, f, args, kw, st, node):
        recv = args[0] if f.cls is not None else None
        if recv is not None:
            # normalise keywords to positions by the callee's own signature
            env = self.bind(f, args, kw, st, node) or {}
            names = f.params()[1:]
            rest = [env[n] for n in names if n in env]
            return self.call_method(recv, f.name, rest, {k: v for k, v in kw.items() if k not in names}, st, node)
        return self.opaque_call(mk('func', f.qual), args, kw, st, node)

    # ---- methods of symbolic receivers / arrays
    def call_method(self, recv, name, args, kw, st, node, recv_term=None):
        rt = recv_term if recv_term is not None else self.term(recv, st)
        o = self.orig(recv, st)
        # containers
        if isinstance(recv, Tup):
            items = st.lists[recv.id]
            if name == 'append':
                st.lists[recv.id] = items + [args[0]]
                self.event('mutate', origins=frozenset([('list', recv.id)] + ([self.tagclass[recv.id]] if recv.id in self.tagclass else [])), node=node, how='append', path=st.path)
                return C(NONE)
            if name in ('extend', 'insert', 'remove', 'pop', 'sort', 'reverse'):
                self.event('mutate', origins=frozenset([('list', recv.id)] + ([self.tagclass[recv.id]] if recv.id in self.tagclass else [])), node=node, how=name, path=st.path)
                if name == 'extend' and isinstance(args[0], Tup):
                    st.lists[recv.id] = items + st.lists[args[0].id]
                    return C(NONE)
                if name == 'extend' and len(args) == 1:
                    st.lists[recv.id] = items + [self.arr(st, mk('repeat', self.term(args[0], st)))]
                    return C(NONE)
                if name == 'pop' and items and not args:
                    st.lists[recv.id] = items[:-1]
                    return items[-1]
                st.lists[recv.id] = [self.arr(st, mk('listop', name, self.term(recv, st), tuple(self.term(a, st) for a in args)))]
                return C(NONE)
            if name == 'copy':
                return self.tup(st, items, recv.kind)
            return self.arr(st, mk('mcall', name, rt, tuple(self.term(a, st) for a in args), self.kwterm(kw, st)))
        if isinstance(recv, Dct):
            d = st.dicts[recv.id]
            tag = [('dict', recv.id)] + ([self.tagclass[recv.id]] if recv.id in self.tagclass else [])
            if name == 'copy':
                i = self.fresh()
                st.dicts[i] = dict(d)
                return Dct(i)
            if name == 'get' and args:
                k = self.dkey(self.term(args[0], st))
                if k in d:
                    return d[k]
                if '**' not in d:
                    return args[1] if len(args) > 1 else C(NONE)
                return self.newarr(st, mk('get', rt, self.term(args[0], st)))
            if name == 'pop' and args:
                self.event('mutate', origins=frozenset(tag), node=node, how='pop', path=st.path)
                k = self.dkey(self.term(args[0], st))
                if k in d:
                    nd = dict(d)
                    v = nd.pop(k)
                    st.dicts[recv.id] = nd
                    return v
                return args[1] if len(args) > 1 else self.newarr(st, mk('get', rt, self.term(args[0], st)))
            if name in ('update', 'setdefault', 'clear', 'popitem'):
                self.event('mutate', origins=frozenset(tag), node=node, how=name, path=st.path)
                if name == 'update':
                    nd = dict(d)
                    for a in args:
                        if isinstance(a, Dct):
                            nd.update(st.dicts[a.id])
                        else:
                            nd['**'] = a
                    for k, v in kw.items():
                        nd[k] = v
                    st.dicts[recv.id] = nd
                return C(NONE)
            if name in ('items', 'keys', 'values'):
                if '**' not in d:
                    ks = list(d.items())

                    def kv(k):
                        return C(const(k)) if isinstance(k, str) else C(k)
                    if name == 'items':
                        return self.tup(st, [self.tup(st, [kv(k), v]) for k, v in ks], 'list')
                    if name == 'keys':
                        return self.tup(st, [kv(k) for k, v in ks], 'list')
                    return self.tup(st, [v for k, v in ks], 'list')
                return self.arr(st, mk(name, rt))
            return self.arr(st, mk('mcall', name, rt, tuple(self.term(a, st) for a in args), self.kwterm(kw, st)))
        at = [self.term(a, st) for a in args]
        h = METHODS.get(name)
        if h is not None and not (isinstance(recv, Ob)):
            r = h(self, recv, rt, args, at, kw, st, node)
            if r is not None:
                return r
        if name in ('smooth_objective', 'nonsmooth_objective', 'objective', 'linear_map', 'affine_map',
                    'adjoint_map', 'solve', 'proximal', 'dot', 'hessian'):
            r = self.protocol_method(recv, rt, name, args, at, kw, st, node)
            if r is not None:
                return r
        if rt.op == 'const' and rt.args[0] == 'str':
            return C(mk('fstr', name, rt, tuple(at)))
        if self.probe is not None:
            self.probe(name, rt, args, kw, st, node)
        self.event('mcall', name=name, recv=rt, recvorig=o, args=at, kw={k: self.term_safe(v, st) for k, v in kw.items()}, node=node, path=st.path,
                   argorig=[self.orig(a, st) for a in args])
        if name in ('update', 'append', 'pop', 'setdefault', 'clear', 'extend', 'insert', 'sort', 'fill', 'remove', 'add', 'itemset', 'resize') and isinstance(recv, A):
            self.event('mutate', origins=o, node=node, how='.%s()' % name, path=st.path, term=rt)
            nt = mk('mutated', name, rt, tuple(at), self.kwterm(kw, st))
            st.cells[recv.cell] = (nt, o)
        return self.newarr(st, mk('mcall', name, rt, tuple(at), self.kwterm(kw, st)))

    def protocol_method(self, recv, rt, name, args, at, kw, st, node):
        kwt = {k: self.term(v, st) for k, v in kw.items()}
        if self.probe is not None:
            self.probe(name, rt, args, kw, st, node)
        self.event('mcall', name=name, recv=rt, recvorig=self.orig(recv, st), args=at, kw=kwt, node=node, path=st.path,
                   argorig=[self.orig(a, st) for a in args])
        if name == 'smooth_objective':
            mode = at[1] if len(at) > 1 else kwt.pop('mode', None)
            cf = at[2] if len(at) > 2 else kwt.pop('check_feasibility', None)
            kwt.pop('check_feasibility', None)
            x = at[0] if at else kwt.pop('x', kwt.pop('arg', NONE))
            extra = tuple((k, v) for k, v in sorted(kwt.items()) if v is not NONE)
            if len(at) > 3 and at[3] is not NONE:
                extra = extra + (('case_weights', at[3]),)
            F = mk('F', rt, x, extra)
            G = mk('G', rt, x, extra)
            if mode is None or (mode.op == 'const' and mode.args[2] == 'both'):
                return self.tup(st, [C(F), self.newarr(st, G)])
            if mode.op == 'const' and mode.args[2] == 'func':
                return C(F)
            if mode.op == 'const' and mode.args[2] == 'grad':
                return self.newarr(st, G)
            return self.newarr(st, mk('FG', rt, x, mode, extra))
        if name == 'nonsmooth_objective':
            cf = at[1] if len(at) > 1 else kwt.pop('check_feasibility', FALSE)
            return C(mk('N', rt, at[0] if at else NONE, cf))
        if name == 'linear_map' and len(at) == 1:
            return self.newarr(st, T.linop('L', rt, at[0]))
        if name == 'dot' and len(at) == 1 and self.is_transform(rt):
            return self.newarr(st, T.linop('L', rt, at[0]))
        if name == 'adjoint_map' and len(at) == 1:
            return self.newarr(st, T.linop('Lt', rt, at[0]))
        if name == 'affine_map' and len(at) == 1:
            return self.newarr(st, mk('A', rt, at[0]))
        return None

    def is_transform(self, rt):
        return rt.op == 'attr' and ('transform' in rt.args[1] or rt.args[1] in ('T',))

    def dot(self, a, b, st):
        ta, tb = unbool(self.term(a, st)), unbool(self.term(b, st))
        return self.arr(st, self.dot_term(ta, tb))

    def dot_term(self, ta, tb):
        ra, rb = rank(ta), rank(tb)
        if ra == 1 and rb == 1:
            return T.red('sum', T.mul(ta, tb))
        if ra == 0 or rb == 0:
            return T.mul(ta, tb)
        # matrix (left) applied to something
        if ta.op in ('attr', 'sym', 'transpose', 'param', 'elem', 'getitem', 'rowmat') and ra != 1:
            if ta.op == 'transpose':
                return T.linop('Lt', ta.args[0], tb)
            return T.linop('L', ta, tb)
        if ra is None and rb is None or True:
            return mk('dot', ta, tb)

    # ------------------------------------------------------------- external functions
    def call_ext(self, name, args, kw, st, node):
        name = NUMPY_ALIASES.get(name, name)
        h = EXT.get(name)
        self.event('ext', name=name, args=[self.term_safe(a, st) for a in args],
                   kw={k: self.term_safe(v, st) for k, v in kw.items()}, node=node,
                   argorig=[self.orig(a, st) for a in args])
        if self.natives is not None:
            r = self.natives(self, name, args, kw, st, node)
            if r is not None:
                return r
        if 'out' in kw and isinstance(kw['out'], A):
            r = None
            k2 = {k: v for k, v in kw.items() if k != 'out'}
            r = self.call_ext(name, args, k2, st, node)
            self.mutate(kw['out'], self.term(r, st), st, node, 'out= argument')
            return kw['out']
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        cy = self.cython_effect(name, args, kw, st, node)
        if cy is not None:
            return cy
        return self.newarr(st, mk('call', mk('ext', name), tuple(self.term(a, st) for a in args), self.kwterm(kw, st)))

    natives = None          # summaries of compiled functions
    cy_summaries = None

    def cython_effect(self, name, args, kw, st, node):
        """calls into .pyx modules: parameters written by the kernel are in-place updates"""
        if self.cy_summaries is None:
            return None
        s = self.cy_summaries.get(name)
        if s is None:
            return None
        base = mk('call', mk('ext', name), tuple(self.term(a, st) for i, a in enumerate(args) if i not in s['outonly']), ())
        for i in sorted(s['writes']):
            if i < len(args) and isinstance(args[i], A):
                self.mutate(args[i], mk('kernel', num(i), base), st, node, 'written by %s' % name)
        ret = s.get('returns')
        if isinstance(ret, int) and ret < len(args):
            return args[ret]
        return self.newarr(st, base)


def unbool(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def sparse_term(t):
    """sp_ symbols stand for scipy.sparse matrices"""
    if t.op == 'transpose':
        t = t.args[0]
    return t.op == 'sym' and t.args[0].startswith('sp_')


def rmatmul(x, m):
    """x * M for a vector x and a sparse matrix M"""
    return T.linop('L', m.args[0], x) if m.op == 'transpose' else T.linop('Lt', m, x)


COLIDX = mk('tuple', (mk('slice', NONE, NONE, NONE), NONE))


def transpose(t):
    if t.op == 'transpose':
        return t.args[0]
    if rank(t) == 1:
        return t
    if t.op == 'poly' and all(any(a.op == 'transpose' for a, e in m) for m, c in t.args[0]):
        # (v * M^T)^T = v[:,None] * M
        out = ZERO
        for m, c in t.args[0]:
            r = num(c)
            for a, e in m:
                r = T.mul(r, T.power(a.args[0] if a.op == 'transpose' else _gi(a, COLIDX), e))
            out = T.add(out, r)
        return out
    return mk('transpose', t)


RANK1_NAMES = {'case_weights', 'response', 'successes', 'trials', 'counts', 'coefs', 'linear_term', 'center',
               'weights', '_offset', 'offset'}
RANK1_SYMS = {'x', 'arg', 'beta', 'natural_param', 'case_weights', 'eta', 'u', 'v'}


RANK2 = set()


def rank(t):
    if T.is_scalar(t):
        return 0
    if t.op == 'sym' and t.args[0] in RANK2 or t.op == 'attr' and t.args[1] in RANK2:
        return 2
    if t.op == 'sym':
        return 1 if t.args[0] in RANK1_SYMS or t.args[0].startswith('v_') else None
    if t.op == 'attr':
        return 1 if t.args[1] in RANK1_NAMES else None
    if t.op == 'poly':
        r = 0
        for m, c in t.args[0]:
            for a, e in m:
                k = rank(a)
                if k is None:
                    return None
                r = max(r, k)
        return r
    if t.op == 'fn':
        rs = [rank(a) for a in t.args[1:]]
        return None if any(r is None for r in rs) else max(rs + [0])
    if t.op in ('gt0', 'eq0', 'powbase'):
        return rank(t.args[0])
    if t.op == 'sumax' and t.args[0].op == 'axis' and t.args[0].args[0] is ONE:
        return 1
    if t.op in ('L', 'Lt', 'G'):
        return 1
    return None


def is_fullslice(it):
    return it.op == 'slice' and all(a is NONE for a in it.args)


def is_mask(it):
    return it.op in T.IDEMP or (it.op == 'poly' and it.args[0] and all(a.op in T.IDEMP for m, c in it.args[0] for a, e in m)
                                and any(m for m, c in it.args[0]))


def is_fancy(it):
    return it.op in ('list', 'argsort') or (it.op == 'call' and it.args[0].op == 'ext' and
                                            it.args[0].args[0] in ('numpy.argsort', 'numpy.nonzero', 'numpy.where', 'numpy.random.choice', 'numpy.arange'))


def is_basic(it):
    if it.op == 'slice' or it.op == 'num' or it is NONE or it.op == 'idx':
        return True
    if it.op == 'tuple':
        return all(is_basic(x) for x in it.args[0])
    return False


def getitem_term(t, it):
    if t.op == 'setitem' and t.args[1] is it:
        return t.args[2]
    if t.op == 'transpose' and t.args[0].op == 'list' and it.op == 'tuple' and len(it.args[0]) == 2 \
            and it.args[0][0] is const(Ellipsis) and it.args[0][1].op == 'num':
        l, i = t.args[0].args[0], int(it.args[0][1].args[0])
        if -len(l) <= i < len(l):
            return transpose(l[i])       # array(l).T[..., i]
    if is_mask(it) and T.is_arith(t):
        return _mask_get(t, it)
    if not T.is_arith(t) or t.op in ('tuple', 'list'):
        return mk('getitem', t, it)
    return _gi(t, it)


def _gi(t, it):
    if T.is_scalar(t):
        return t
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            r = num(c)
            for a, e in m:
                r = T.mul(r, T.power(_gi(a, it), e))
            out = T.add(out, r)
        return out
    if t.op == 'fn' and t.args[0] in T.ELEMENTWISE:
        return T.remake('fn', [t.args[0]] + [_gi(a, it) for a in t.args[1:]])
    if t.op in ('gt0', 'eq0', 'powbase'):
        return T.remake(t.op, [_gi(t.args[0], it)])
    return mk('getitem', t, it)


_mask_get = _gi


def setitem_term(t, it, val):
    if is_fullslice(it):
        return val
    if is_mask(it):
        def un(a):
            if a.op == 'getitem' and a.args[1] is it:
                return a.args[0]
            if a.op in ('poly', 'powbase', 'gt0', 'eq0', 'pow') or (a.op == 'fn' and a.args[0] in T.ELEMENTWISE):
                return None
            return a            # not elementwise: the selection inside is another vector
        v = T.subst_fn(val, un)
        if T.is_arith(v) and T.is_arith(t):
            return T.where(it, v, t)
    if t.op == 'setitem' and t.args[1] is it:
        t = t.args[0]
    return mk('setitem', t, it, val)


def masked_sum(t):
    """sum over x[mask]-style terms -> sum of mask*x"""
    masks = set()
    for m, c in T.poly_items(t):
        vec = False
        for a, e in m:
            if T.is_scalar(a):
                continue
            here = set(s.args[1] for s in T.subterms(a).values() if s.op == 'getitem' and is_mask(s.args[1]))
            if not here:
                return t            # a full-length factor: not a compressed vector
            vec = True
            masks |= here
        if not vec:
            return t
    if len(masks) == 1:
        it = masks.pop()
        u = T.subst_fn(t, lambda a: a.args[0] if a.op == 'getitem' and a.args[1] is it else None)
        return T.mul(it, u)
    return t


def interior_decide(b):
    """conditions that compare against large constants (overflow guards) are
    decided for arguments of moderate size"""
    if b.op == 'gt0':
        p = b.args[0]
        c0 = None
        small = True
        for m, c in T.poly_items(p):
            if not m:
                c0 = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'red', 'attr'):
                if abs(c) != 1 and c0 is None:
                    pass
            else:
                small = False
        if c0 is not None and small:
            others = [abs(c) for m, c in T.poly_items(p) if m]
            if others and abs(c0) >= 5 * max(others):
                return ONE if c0 > 0 else ZERO
    if b.op == 'bool' and b.args[0].op == 'red':
        r = b.args[0].args[1]
        d = interior_decide(r) if r.op in ('gt0',) else None
        if d is not None:
            return d
    if b.op == 'poly':
        n = T.notb(b)
        if n.op in T.IDEMP:
            d = interior_decide(n)
            if d is not None:
                return ZERO if d is ONE else ONE
    return None


# =============================================================== library models

EXT = {}
METHODS = {}
ARRAY_METHODS = {'sum', 'mean', 'max', 'min', 'any', 'all', 'copy', 'reshape', 'dot', 'astype', 'ravel', 'flatten',
                 'squeeze', 'toarray', 'todense', 'argmax', 'argmin', 'argsort', 'cumsum', 'items', 'keys', 'values',
                 'append', 'update', 'get', 'pop', 'std', 'var', 'round', 'clip', 'transpose', 'tolist', 'index',
                 'smooth_objective', 'nonsmooth_objective', 'objective', 'linear_map', 'affine_map', 'adjoint_map',
                 'sort', 'fill', 'prod', 'nonzero', 'repeat', 'swapaxes', 'solve', 'proximal', 'fit', 'split'}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def axis_of(args, kw, st, I, pos=1):
    v = kw.get('axis')
    if v is None and len(args) > pos:
        v = args[pos]
    if v is None:
        return None
    t = I.term(v, st)
    return None if t is NONE else t


def reduction(kind):
    def h(I, args, kw, st, node):
        v = args[0]
        if isinstance(v, Tup):
            if kind == 'sum':
                items = [unbool(I.term(x, st)) for x in st.lists[v.id]]
                out = ZERO
                for x in items:
                    if x.op == 'repeat' and x.args[0].op == 'listcomp':
                        lc = x.args[0]
                        out = T.add(out, T.loopsum(lc.args[0], T.red('sum', lc.args[1]) if not T.is_scalar(lc.args[1]) else lc.args[1]))
                    elif x.op == 'repeat':
                        out = T.add(out, T.red('sum', x.args[0]))
                    else:
                        out = T.add(out, x if T.is_scalar(x) else T.red('sum', x))
                return I.arr(st, out)
            items = [unbool(I.term(x, st)) for x in st.lists[v.id]]
            if items and all(T.is_arith(x) and x.op != 'repeat' for x in items) and axis_of(args, kw, st, I) is None:
                if kind in ('max', 'min'):
                    f = T.maximum if kind == 'max' else T.minimum
                    r = items[0]
                    for x in items[1:]:
                        r = f(r, x)
                    return I.arr(st, r)
                if kind in ('any', 'all'):
                    r = ZERO if kind == 'any' else ONE
                    for x in items:
                        r = (T.orb if kind == 'any' else T.andb)(r, x)
                    return I.arr(st, r)
            if kind in ('any', 'all') and all(x.op != 'repeat' for x in items):
                r = ZERO if kind == 'any' else ONE
                for x in st.lists[v.id]:
                    r = (T.orb if kind == 'any' else T.andb)(r, I.cond(x, st))
                return I.arr(st, r)
        t = unbool(I.term(v, st))
        ax = axis_of(args, kw, st, I)
        if ax is not None:
            if kind == 'sum':
                return I.newarr(st, T.linop('sumax', mk('axis', ax), t))
            return I.newarr(st, mk('redax', kind, ax, t))
        if t.op == 'listcomp':
            if kind == 'sum':
                b = t.args[1]
                return I.arr(st, T.loopsum(t.args[0], b if T.is_scalar(b) else T.red('sum', b)))
            return I.arr(st, T.red(kind, t) if kind not in ('any', 'all') else mk('bool', mk('red', kind, t)))
        t = masked_sum(t) if kind == 'sum' else t
        if not T.is_arith(t):
            return I.arr(st, mk('red', kind, t))
        if kind == 'sum' and T.is_scalar(t) and isinstance(v, C) and t.op != 'num':
            return I.arr(st, t)
        return I.arr(st, T.red(kind, t))
    return h


for _k in ('sum', 'mean', 'max', 'min', 'any', 'all'):
    EXT['numpy.' + _k] = reduction(_k)

    def _m(I, recv, rt, args, at, kw, st, node, _k=_k):
        return EXT['numpy.' + _k](I, [recv] + args, kw, st, node)
    METHODS[_k] = _m
EXT['builtins.sum'] = EXT['numpy.sum']
EXT['builtins.any'] = EXT['numpy.any']
EXT['builtins.all'] = EXT['numpy.all']


@ext('builtins.max', 'builtins.min')
def _bmax(I, args, kw, st, node):
    kind = 'max' if node.func.id == 'max' else 'min'
    if len(args) == 1:
        return EXT['numpy.' + kind](I, args, kw, st, node)
    f = T.maximum if kind == 'max' else T.minimum
    ts = [unbool(I.term(a, st)) for a in args]
    if not all(T.is_arith(t) for t in ts):
        return None
    r = ts[0]
    for t in ts[1:]:
        r = f(r, t)
    return I.arr(st, r)


def unary(name, f):
    def h(I, args, kw, st, node):
        if isinstance(args[0], (Ob,)):
            return None
        t = unbool(I.term(args[0], st))
        if not T.is_arith(t):
            return I.newarr(st, mk('fn', name, t))
        r = f(t)
        return I.newarr(st, r) if isinstance(args[0], A) and not T.is_scalar(t) else I.arr(st, r)
    return h


EXT['numpy.abs'] = unary('abs', T.absv)
EXT['numpy.exp'] = unary('exp', T.exp)
EXT['numpy.log'] = unary('log', T.log)
EXT['numpy.log1p'] = unary('log1p', lambda t: T.log(T.add(ONE, t)))
EXT['numpy.expm1'] = unary('expm1', lambda t: T.sub(T.exp(t), ONE))
EXT['numpy.sqrt'] = unary('sqrt', lambda t: T.power(t, Fraction(1, 2)))
EXT['numpy.square'] = unary('square', lambda t: T.power(t, 2))
EXT['numpy.sign'] = unary('sign', T.sign)
EXT['numpy.negative'] = unary('neg', T.neg)
EXT['numpy.isnan'] = unary('isnan', lambda t: T.boolean(mk('fn', 'isnan', t)))
EXT['numpy.isfinite'] = unary('isfinite', lambda t: T.boolean(mk('fn', 'isfinite', t)))
EXT['numpy.round'] = unary('round', lambda t: mk('fn', 'round', t))
EXT['scipy.stats.norm.cdf'] = unary('Phi', lambda t: mk('fn', 'Phi', t))
EXT['scipy.stats.norm.sf'] = unary('sf', lambda t: T.sub(ONE, mk('fn', 'Phi', t)))
EXT['scipy.stats.norm.pdf'] = unary('phi', lambda t: mk('fn', 'phi', t))
EXT['scipy.stats.norm.logcdf'] = unary('logcdf', lambda t: T.log(mk('fn', 'Phi', t)))
EXT['scipy.stats.norm.logsf'] = unary('logsf', lambda t: T.log(T.sub(ONE, mk('fn', 'Phi', t))))
EXT['scipy.special.ndtr'] = EXT['scipy.stats.norm.cdf']
EXT['scipy.special.expit'] = unary('expit', lambda t: T.div(T.exp(t), T.add(ONE, T.exp(t))))
EXT['scipy.special.gammaln'] = unary('gammaln', lambda t: mk('fn', 'gammaln', t))


def binary(f):
    def h(I, args, kw, st, node):
        if len(args) < 2:
            return None
        a, b = unbool(I.term(args[0], st)), unbool(I.term(args[1], st))
        if not (T.is_arith(a) and T.is_arith(b)):
            return None
        return I.newarr(st, f(a, b)) if not (isinstance(args[0], C) and isinstance(args[1], C)) else I.arr(st, f(a, b))
    return h


EXT['numpy.maximum'] = EXT['numpy.fmax'] = binary(T.maximum)
EXT['numpy.minimum'] = EXT['numpy.fmin'] = binary(T.minimum)
EXT['numpy.add'] = binary(T.add)
EXT['operator.add'] = EXT['numpy.add']
EXT['operator.mul'] = binary(T.mul)
EXT['numpy.subtract'] = binary(T.sub)
EXT['numpy.multiply'] = binary(T.mul)
EXT['numpy.divide'] = binary(T.div)
EXT['numpy.logical_and'] = binary(T.andb)
EXT['numpy.logical_or'] = binary(T.orb)
EXT['numpy.logaddexp'] = binary(lambda a, b: T.log(T.add(T.exp(a), T.exp(b))))
EXT['numpy.greater'] = binary(lambda a, b: T.gt0(T.sub(a, b)))
EXT['numpy.less'] = binary(lambda a, b: T.gt0(T.sub(b, a)))
EXT['numpy.mod'] = binary(lambda a, b: mk('mod', a, b))


@ext('numpy.power')
def _power(I, args, kw, st, node):
    b = I.term(args[1], st)
    if b.op == 'num' and b.args[0].denominator <= 4:
        return I.newarr(st, T.power(unbool(I.term(args[0], st)), b.args[0]))


@ext('numpy.clip')
def _clip(I, args, kw, st, node):
    if len(args) < 3:
        return None
    x, lo, hi = [unbool(I.term(a, st)) for a in args[:3]]
    if not T.is_arith(x):
        return None
    r = x
    if lo is not NONE:
        r = T.maximum(r, lo)
    if hi is not NONE:
        r = T.minimum(r, hi)
    return I.newarr(st, r)


@meth('clip')
def _mclip(I, recv, rt, args, at, kw, st, node):
    a = list(args)
    lo = a[0] if a else kw.get('min', C(NONE))
    hi = a[1] if len(a) > 1 else kw.get('max', C(NONE))
    return _clip(I, [recv, lo, hi], {}, st, node)


@ext('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')
def _where(I, args, kw, st, node):
    c = unbool(I.term(args[0], st))
    if len(args) == 3:
        a, b = unbool(I.term(args[1], st)), unbool(I.term(args[2], st))
        if T.is_arith(a) and T.is_arith(b):
            return I.newarr(st, T.where(T.boolean(c), a, b))
        return I.newarr(st, mk('ite', T.boolean(c), a, b))
    m = T.boolean(c) if T.is_arith(c) else mk('bool', c)
    v = I.newarr(st, m)
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
    if nm == 'flatnonzero':
        return v
    return I.tup(st, [v])


@ext('numpy.zeros', 'numpy.zeros_like')
def _zeros(I, args, kw, st, node):
    return I.filled(st, ZERO)


@ext('numpy.ones', 'numpy.ones_like')
def _ones(I, args, kw, st, node):
    return I.filled(st, ONE)


@ext('numpy.empty', 'numpy.empty_like')
def _empty(I, args, kw, st, node):
    return I.newarr(st, mk('empty'))


@ext('numpy.full', 'numpy.full_like')
def _full(I, args, kw, st, node):
    if len(args) > 1:
        return I.newarr(st, unbool(I.term(args[1], st)))


@ext('numpy.asarray', 'numpy.atleast_1d', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.squeeze', 'numpy.ravel', 'numpy.reshape',
     'numpy.atleast_2d')
def _asarray(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, A):
        t, o = st.cells[v.cell]
        r = I.newarr(st, t, o)
        if v.cell in I.arrays:
            I.arrays.add(r.cell)
        st.views[r.cell] = ('alias', v.cell)
        return r
    if isinstance(v, Ob):
        return None
    t = I.term(v, st)
    return I.newarr(st, t)


@ext('numpy.array', 'copy.copy', 'copy.deepcopy', 'numpy.copy')
def _copy(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, Ob):
        m = v.cls.method('__copy__')
        if m is not None:
            return I.call_func(m, [v], {}, st, node)
        # shallow copy: new object sharing attribute values
        o = Ob(I.fresh(), v.cls, mk('shallowcopy', v.base, I.n), v.symbolic)
        I.basemap[o.id] = v.base
        for (i, a), x in list(st.heap.items()):
            if i == v.id:
                st.heap[(o.id, a)] = x
        if v.symbolic:
            o.base = v.base
        I.event('shallow-copy', obj=v.base, cls=v.cls, node=node)
        return o
    if isinstance(v, Tup):
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'array':
            return I.newarr(st, I.term(v, st))
        return I.tup(st, st.lists[v.id], v.kind)
    if isinstance(v, Dct):
        i = I.fresh()
        st.dicts[i] = dict(st.dicts[v.id])
        return Dct(i)
    if isinstance(v, C):
        return v
    t = I.term(v, st)
    if kw.get('copy') is not None and I.term(kw['copy'], st) is FALSE:
        return _asarray(I, args, kw, st, node)
    if t.op in ('attr', 'sym', 'elem', 'param') and node is not None and isinstance(node.func, ast.Name):
        r = I.newarr(st, t)
        I.event('copied', term=t, node=node)
        return r
    return I.filled(st, t) if isinstance(v, A) and v.cell in I.arrays else I.newarr(st, t)


@meth('copy')
def _mcopy(I, recv, rt, args, at, kw, st, node):
    if isinstance(recv, C):
        return recv
    return I.filled(st, rt) if isinstance(recv, A) and recv.cell in I.arrays else I.newarr(st, rt)


@meth('astype', 'flatten', 'toarray', 'todense', 'tolist')
def _mastype(I, recv, rt, args, at, kw, st, node):
    cp = kw.get('copy')
    if cp is not None and I.term(cp, st) is FALSE:
        return _asarray(I, [recv], {}, st, node)
    return I.filled(st, rt) if isinstance(recv, A) and recv.cell in I.arrays else I.newarr(st, rt)


@meth('reshape', 'ravel', 'squeeze')
def _mreshape(I, recv, rt, args, at, kw, st, node):
    if I.plain and I.plain(rt) == 1 and len(at) == 1 and at[0].op == 'tuple' and at[0].args[0] == (ONE, num(-1)):
        return I.newarr(st, mk('rowmat', rt))
    r = I.newarr(st, rt, I.orig(recv, st))
    if isinstance(recv, A):
        st.views[r.cell] = ('alias', recv.cell)
    return r


@meth('transpose')
def _mtrans(I, recv, rt, args, at, kw, st, node):
    if not args:
        return I.newarr(st, transpose(rt), I.orig(recv, st))


@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(I, args, kw, st, node):
    t = unbool(I.term(args[0], st))
    if not T.is_arith(t):
        return None
    o = kw.get('ord', args[1] if len(args) > 1 else None)
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    if ax is not None and I.term(ax, st) is not NONE:
        at = I.term(ax, st)
        return I.newarr(st, mk('normax', t, at, I.term(o, st) if o is not None else NONE))
    ot = I.term(o, st) if o is not None else num(2)
    if ot is NONE or ot is num(2):
        return I.arr(st, T.norm2(masked_sum_sq(t)))
    if ot is num(1):
        return I.arr(st, T.red('sum', T.absv(t)))
    if ot is sym('inf'):
        return I.arr(st, T.red('max', T.absv(t)))
    return I.arr(st, mk('norm', t, ot))


def masked_sum_sq(t):
    return t


@ext('numpy.dot', 'numpy.inner', 'numpy.vdot')
def _dot(I, args, kw, st, node):
    a, b = args[0], args[1]
    if isinstance(a, Ob):
        return I.callmeth(a, 'dot', [b], {}, st, node)
    return I.dot(a, b, st)


@meth('dot')
def _mdot(I, recv, rt, args, at, kw, st, node):
    if isinstance(recv, (Ob, Ex)):
        return None
    if I.is_transform(rt):
        return None
    if args and isinstance(args[0], (A, C)):
        return I.dot(recv, args[0], st)


@ext('numpy.outer', 'numpy.multiply.outer')
def _outer(I, args, kw, st, node):
    a, b = I.term(args[0], st), I.term(args[1], st)
    return I.newarr(st, mk('outer', a, b))


@ext('numpy.cumsum')
def _cumsum(I, args, kw, st, node):
    if len(args) == 1 and not kw:
        return I.newarr(st, T.linop('cumsum', unbool(I.term(args[0], st))))


@meth('cumsum')
def _mcumsum(I, recv, rt, args, at, kw, st, node):
    return _cumsum(I, [recv] + args, kw, st, node)


@ext('builtins.float', 'builtins.int')
def _float(I, args, kw, st, node):
    if len(args) == 1:
        t = I.term(args[0], st)
        if t.op == 'num' or T.is_arith(t):
            return I.arr(st, t)


@ext('builtins.bool')
def _bool(I, args, kw, st, node):
    return C(I.cond(args[0], st))


@ext('builtins.len')
def _len(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, Tup) and not any(I._isrepeat(x, st) for x in st.lists[v.id]):
        return C(num(len(st.lists[v.id])))
    t = I.term(v, st)
    if I.plain and t.op == 'attr' and t.args[1] == 'shape' and I.plain(t.args[0]):
        return C(num(I.plain(t.args[0])))
    return C(mk('len', t))


@ext('builtins.zip')
def _zip(I, args, kw, st, node):
    its = [I.concrete_items(a, st) for a in args]
    known = [x for x in its if x is not None]
    if known and len(known) < len(its):
        # a constant array has that constant at every position
        n = min(len(x) for x in known)
        its = [x if x is not None else [C(st.cells[a.cell][0])] * n if isinstance(a, A) and st.cells[a.cell][0].op == 'num' else None
               for x, a in zip(its, args)]
    if its and all(x is not None for x in its):
        n = min(len(x) for x in its)
        return I.tup(st, [I.tup(st, [x[i] for x in its]) for i in range(n)], 'list')
    return I.newarr(st, mk('zip', tuple(I.term(a, st) for a in args)))


@ext('builtins.enumerate')
def _enum(I, args, kw, st, node):
    its = I.concrete_items(args[0], st)
    if its is not None:
        return I.tup(st, [I.tup(st, [C(num(i)), x]) for i, x in enumerate(its)], 'list')
    return I.newarr(st, mk('enumerate', I.term(args[0], st)))


@ext('builtins.range', 'builtins.xrange')
def _range(I, args, kw, st, node):
    ts = [I.term(a, st) for a in args]
    if all(t.op == 'num' for t in ts):
        r = range(*[int(t.args[0]) for t in ts])
        if len(r) <= 12:
            return I.tup(st, [C(num(i)) for i in r], 'list')
    return I.newarr(st, mk('range', tuple(ts)))


@ext('builtins.list', 'builtins.tuple', 'builtins.iter')
def _list(I, args, kw, st, node):
    kind = node.func.id if isinstance(node.func, ast.Name) else 'list'
    kind = 'tuple' if kind == 'tuple' else 'list'
    if not args:
        return I.tup(st, [], kind)
    v = args[0]
    if isinstance(v, Tup):
        return I.tup(st, st.lists[v.id], kind)
    return I.newarr(st, I.term(v, st))


@ext('builtins.dict')
def _dict(I, args, kw, st, node):
    i = I.fresh()
    d = {}
    if args and isinstance(args[0], Dct):
        d.update(st.dicts[args[0].id])
    elif args:
        d['**'] = args[0]
    for k, v in kw.items():
        d[k] = v
    st.dicts[i] = d
    return Dct(i)


@ext('builtins.reversed')
def _rev(I, args, kw, st, node):
    if isinstance(args[0], Tup):
        return I.tup(st, list(reversed(st.lists[args[0].id])), 'list')
    return I.newarr(st, mk('reversed', I.term(args[0], st)))


@ext('builtins.isinstance')
def _isinst(I, args, kw, st, node):
    v, k = args[0], args[1]
    ks = [k] if not isinstance(k, Tup) else st.lists[k.id]
    if isinstance(v, Ob) and all(isinstance(x, (Cl, Ex)) for x in ks):
        return C(ONE if any(isinstance(x, Cl) and v.cls.is_sub(x.cls) for x in ks) else ZERO)
    if isinstance(v, C) and v.t is NONE:
        return C(ZERO)
    if isinstance(v, (C, Tup, Dct)) and all(isinstance(x, Cl) for x in ks):
        return C(ZERO)
    if I.plain and isinstance(v, (A, C)) and I.plain(I.term(v, st)) and all(isinstance(x, Cl) for x in ks):
        return C(ZERO)
    return C(mk('bool', mk('isinstance', I.term(v, st), tuple(I.term(x, st) for x in ks))))


@ext('builtins.hasattr')
def _hasattr(I, args, kw, st, node):
    o = args[0]
    nm = I.term(args[1], st)
    if isinstance(o, Ob) and nm.op == 'const':
        a = nm.args[2]
        if (o.id, a) in st.heap or o.cls.lookup(a) is not None:
            return C(ONE)
        if o.symbolic and a in assigned_attrs(o.cls):
            return C(ONE)
        if not o.symbolic:
            return C(ZERO)
    if isinstance(o, (A, C)) and I.plain and nm.op == 'const':
        t = I.term(o, st)
        if I.plain(t):
            return C(ONE if nm.args[2] in ARRAY_METHODS or nm.args[2] in ('shape', 'ndim', 'size', 'dtype', 'T') else ZERO)
        if t.op == 'sym' and t.args[0].startswith('o_'):
            return C(ONE)
    return C(mk('bool', mk('hasattr', I.term(o, st), nm)))


def shapely(t):
    if t.op in ('poly', 'powbase', 'pow') and not T.is_scalar(t):
        if t.op == 'poly':
            return all(T.is_scalar(a) or shapely(a) for m, c in t.args[0] for a, e in m)
        return shapely(t.args[0])
    return t.op == 'getitem' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape'


def plain_dim(t):
    """v_*, m_*, sp_* are plain arrays of 1, 2, 2 dimensions; 0 when unknown"""
    if t.op == 'sym':
        return 1 if t.args[0].startswith('v_') else 2 if t.args[0].startswith(('m_', 'sp_')) else 0
    if t.op == 'rowmat':
        return 2
    if t.op in ('sumax', 'redax'):
        return 1
    if t.op in ('powbase', 'pow', 'gt0', 'eq0'):
        return plain_dim(t.args[0])
    if t.op == 'poly':
        ds = [plain_dim(a) for m, c in t.args[0] for a, e in m if not T.is_scalar(a) and not shapely(a)]
        return max(ds) if ds and all(ds) else 0
    return 0


_aa = {}


def assigned_attrs(cls):
    if cls not in _aa:
        out = set()
        for c in cls.mro():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == 'self':
                    out.add(n.attr)
        _aa[cls] = out
    return _aa[cls]


@ext('builtins.getattr')
def _getattr(I, args, kw, st, node):
    nm = I.term(args[1], st)
    if nm.op == 'const' and nm.args[2]:
        return I.getattr(args[0], nm.args[2], st, node)


@ext('builtins.setattr')
def _setattr(I, args, kw, st, node):
    nm = I.term(args[1], st)
    if nm.op == 'const' and nm.args[2]:
        I.setattr(args[0], nm.args[2], args[2], st, node)
        return C(NONE)


@ext('builtins.type')
def _type(I, args, kw, st, node):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ob):
            return Cl(v.cls)
        if isinstance(v, C) and v.t.op == 'num':
            return C(mk('const', 'type', 'int' if v.t.args[0].denominator == 1 else 'float', None))
        if isinstance(v, Tup):
            return C(mk('const', 'type', v.kind, None))
        if I.plain and I.plain(I.term(v, st)):
            return C(mk('const', 'type', 'ndarray', None))
        return C(mk('typeof', I.term(v, st)))


@ext('builtins.print', 'warnings.warn')
def _print(I, args, kw, st, node):
    return C(NONE)


@ext('scipy.sparse.issparse', 'scipy.sparse.isspmatrix', 'scipy.sparse.isspmatrix_csr')
def _issparse(I, args, kw, st, node):
    if isinstance(args[0], (Ob, C, Tup)):
        return C(ZERO)
    if sparse_term(I.term(args[0], st)):
        return C(ONE)
    if I.plain and I.plain(I.term(args[0], st)):
        return C(ZERO)
    return C(mk('bool', mk('issparse', I.term(args[0], st))))


@ext('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix')
def _csr(I, args, kw, st, node):
    if len(args) == 1 and sparse_term(I.term(args[0], st)):
        return I.newarr(st, I.term(args[0], st))


@meth('tocsr', 'tocsc', 'tocoo')
def _tocsr(I, recv, rt, args, at, kw, st, node):
    if sparse_term(rt):
        return I.newarr(st, rt)


@ext('numpy.add.at')
def _addat(I, args, kw, st, node):
    if len(args) == 3 and isinstance(args[0], A):
        b = unbool(I.term(args[0], st))
        v = unbool(I.term(args[2], st))
        if T.is_arith(b) and T.is_arith(v):
            I.mutate(args[0], T.add(b, T.linop('scatter', I.term(args[1], st), v)), st, node, 'numpy.add.at')
            return C(NONE)
    return _inplace(I, args, kw, st, node)


@ext('numpy.subtract.at', 'numpy.multiply.at', 'numpy.maximum.at', 'numpy.minimum.at', 'numpy.put', 'numpy.place', 'numpy.copyto',
     'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'numpy.put_along_axis')
def _inplace(I, args, kw, st, node):
    nm = '.'.join(ast.unparse(node.func).split('.')[-2:]) if node is not None and isinstance(node.func, (ast.Name, ast.Attribute)) else ''
    if args and isinstance(args[0], A):
        I.mutate(args[0], mk('written', I.term(args[0], st), nm, tuple(I.term(a, st) for a in args[1:]), I.kwterm(kw, st)), st, node, 'in-place function')
    return C(NONE)


@ext('numpy.hstack', 'numpy.vstack')
def _hstack(I, args, kw, st, node):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else 'hstack'
    v = args[0]
    return I.newarr(st, mk('stack', nm, I.term(v, st), I.kwterm(kw, st)))


@ext('functools.partial')
def _partial(I, args, kw, st, node):
    if not args:
        raise Bottom()
    return Pt(args[0], list(args[1:]), dict(kw))


@ext('numpy.allclose')
def _allclose(I, args, kw, st, node):
    a, b = unbool(I.term(args[0], st)), unbool(I.term(args[1], st))
    if T.is_arith(a) and T.is_arith(b):
        if a is b:
            return C(ONE)
        return C(mk('bool', mk('allclose', T.sub(a, b))))


@ext('numpy.equal')
def _equal(I, args, kw, st, node):
    a, b = unbool(I.term(args[0], st)), unbool(I.term(args[1], st))
    if T.is_arith(a) and T.is_arith(b):
        return I.newarr(st, T.eq0(T.sub(a, b)))


def _cmp(f):
    def h(I, args, kw, st, node):
        a, b = unbool(I.term(args[0], st)), unbool(I.term(args[1], st))
        if T.is_arith(a) and T.is_arith(b):
            return I.newarr(st, f(a, b))
    return h


EXT['numpy.greater'] = _cmp(lambda a, b: T.gt0(T.sub(a, b)))
EXT['numpy.less'] = _cmp(lambda a, b: T.gt0(T.sub(b, a)))
EXT['numpy.greater_equal'] = _cmp(lambda a, b: T.notb(T.gt0(T.sub(b, a))))
EXT['numpy.less_equal'] = _cmp(lambda a, b: T.notb(T.gt0(T.sub(a, b))))
EXT['numpy.not_equal'] = _cmp(lambda a, b: T.notb(T.eq0(T.sub(a, b))))


def idempotent(t):
    return t.op in T.IDEMP or (t.op == 'poly' and all(a.op in T.IDEMP for m, c in t.args[0] for a, e in m))


@ext('numpy.product', 'numpy.prod')
def _product(I, args, kw, st, node):
    t = unbool(I.term(args[0], st))
    if len(args) == 1 and not kw and idempotent(t) and not T.is_scalar(t):
        return I.arr(st, T.red('all', t))


def _mprod(I, recv, rt, args, at, kw, st, node):
    if not args and not kw:
        return _product(I, [recv], kw, st, node)


METHODS['prod'] = _mprod


def _logical(f):
    def h(I, args, kw, st, node):
        ts = [unbool(I.term(a, st)) for a in args]
        if all(idempotent(t) for t in ts) and not kw:
            return I.newarr(st, f(*ts))
    return h


EXT['numpy.logical_and'] = _logical(T.andb)
EXT['numpy.logical_or'] = _logical(T.orb)
EXT['numpy.logical_not'] = _logical(T.notb)
EXT['numpy.isinf'] = unary('isinf', lambda t: T.notb(T.boolean(mk('fn', 'isfinite', t))))
EXT['numpy.count_nonzero'] = lambda I, args, kw, st, node: I.arr(st, T.red('sum', unbool(I.term(args[0], st)))) if len(args) == 1 and not kw and idempotent(unbool(I.term(args[0], st))) else None


# =============================================================== entry points

class Run(object):
    """one analysis of one method"""

    def __init__(self, I, st, value, selfv):
        self.I, self.st, self.value, self.self = I, st, value, selfv

    @property
    def term(self):
        return self.I.term(self.value, self.st) if self.value is not None else None

    @property
    def events(self):
        return self.I.events


def new_interp(model, **kw):
    I = Interp(model, **kw)
    I.basemap = {}
    I.tagclass = {}
    return I


def run_method(model, cls, name, params=None, setup=None, fn=None, rank2=(), **opts):
    global RANK2
    saved, RANK2 = RANK2, set(rank2)
    try:
        return _run_method(model, cls, name, params, setup, fn, **opts)
    finally:
        RANK2 = saved


def _run_method(model, cls, name, params=None, setup=None, fn=None, **opts):
    """abstractly run method `name` of an arbitrary instance of cls.
    params: name -> Term | Value factory | python constant; missing params are
    symbolic (defaults are NOT taken unless given as ...)"""
    I = new_interp(model, **opts)
    st = State()
    selfv = Ob(I.fresh(), cls, sym('self'), True)
    I.basemap[selfv.id] = sym('self')
    if setup is not None:
        setup(I, st, selfv)
    f = fn or cls.method(name)
    if f is None:
        r = cls.lookup(name)
        if r and r[0] == 'prop':
            f = r[1][0]
    if f is None:
        return None
    args, kw = [], {}
    params = params or {}
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    start = 0
    if f.cls is not None and not f.is_static:
        args.append(Cl(cls) if f.is_classmethod else selfv)
        start = 1
    nd = len(a.defaults)
    hasdef = set(names[len(names) - nd:]) if nd else set()
    for n in names[start:] + [x.arg for x in a.kwonlyargs]:
        if n in params:
            v = params[n]
            if v is Ellipsis:
                continue
            if callable(v):
                v = v(I, st)
            elif isinstance(v, Term):
                v = I.newarr(st, v, frozenset([('param', n)])) if not T.is_scalar(v) else C(v)
            elif not isinstance(v, Value):
                v = C(const(v)) if isinstance(v, (str, bool, type(None))) else C(num(v))
            kw[n] = v
        elif n in IQ_NAMES and I.iq is not None and cls is not None:
            kw[n] = I.iqobj(st, sym(n))
            I.basemap[kw[n].id] = sym(n)
        else:
            kw[n] = I.newarr(st, sym(n), frozenset([('param', n)]))
    try:
        v = I.call_func(f, args, kw, st, None)
    except Bottom:
        return Run(I, st, None, selfv)
    return Run(I, st, v, selfv)
