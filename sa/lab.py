"""A small driver for abstract runs: build objects, call methods, read terms, step by step.

Everything is abstract interpretation of the source (absint); `BOTTOM` is returned when every path
of a call raises, `None` when the interpreter gives up."""
from . import terms as T
from .terms import mk, sym, num, const
from .absint import new_interp, State, C, Ob, Tup, Dct, Cl, Fn, A, Value, Giveup, Bottom

BOTTOM = 'bottom'


class Lab:
    def __init__(self, ctx, **opts):
        self.ctx = ctx
        self.I = new_interp(ctx.model, **opts)
        self.st = State()

    # ---- values
    def vec(self, name, tag=None):
        t = sym(name) if isinstance(name, str) else name
        return self.I.newarr(self.st, t, frozenset([('param', tag or name)]))

    def val(self, x):
        if isinstance(x, Value):
            return x
        if isinstance(x, T.Term):
            return C(x) if T.is_scalar(x) or x is T.NONE or x.op == 'const' else self.vec(x)
        if x is None or isinstance(x, (str, bool)):
            return C(const(x))
        if isinstance(x, dict):
            i = self.I.fresh()
            self.st.dicts[i] = {self.I.dkey(const(k)): self.val(v) for k, v in x.items()}
            return Dct(i)
        if isinstance(x, (list, tuple)):
            return self.I.tup(self.st, [self.val(v) for v in x], 'list' if isinstance(x, list) else 'tuple')
        return C(num(x))

    def quad(self, coef, center, lin, cst):
        return self.I.construct(self.I.iq, [self.val(z) for z in (coef, center, lin, cst)], {}, self.st, None)

    def cls(self, qual):
        for c in self.ctx.model.all_classes():
            if c.qual == qual:
                return c
        return None

    def blank(self, cls, name='self', **attrs):
        """an arbitrary instance of cls with the given attributes"""
        o = Ob(self.I.fresh(), cls, sym(name), True)
        self.I.basemap[o.id] = sym(name)
        return self.put(o, **attrs)

    def put(self, o, **attrs):
        for k, v in attrs.items():
            v = self.val(v)
            self.st.heap[(o.id, k)] = v
        return o

    # ---- actions
    def guard(self, f, *a):
        try:
            return f(*a)
        except Bottom:
            return BOTTOM
        except (Giveup, RecursionError):
            return None
        finally:
            self.ctx.funcs.update(self.I.analysed)

    def new(self, cls, *args, **kw):
        return self.guard(self.I.construct, cls, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.st, None)

    def init(self, o, *args, **kw):
        f = o.cls.method('__init__')
        return self.guard(self.I.call_func, f, [o] + [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.st, None)

    def call(self, o, name, *args, **kw):
        return self.guard(self.I.callmeth, o, name, [self.val(x) for x in args], {n: self.val(v) for n, v in kw.items()}, self.st, None)

    def clsmeth(self, cls, name, *args, **kw):
        f = cls.method(name)
        if f is None:
            return None
        a = [self.val(x) for x in args]
        if f.is_classmethod:
            a = [Cl(cls)] + a
        return self.guard(self.I.call_func, f, a, {n: self.val(v) for n, v in kw.items()}, self.st, None)

    def func(self, f, *args, **kw):
        return self.guard(self.I.call_func, f, [self.val(x) for x in args], {n: self.val(v) for n, v in kw.items()}, self.st, None)

    def get(self, o, name):
        return self.guard(self.I.getattr, o, name, self.st)

    def set(self, o, name, v):
        return self.guard(self.I.setattr, o, name, self.val(v), self.st, None)

    def term(self, v):
        if v is None or v is BOTTOM:
            return None
        try:
            return self.I.term(v, self.st)
        except (Giveup, RecursionError, Bottom):
            return None

    def items(self, v):
        if isinstance(v, Tup):
            return self.st.lists.get(v.id)
        t = self.term(v)
        return None

    @property
    def events(self):
        return self.I.events
