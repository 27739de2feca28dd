"""Counted loops over the positions of arrays, as operations on whole arrays.

The interpreter leaves `loopvar(key, body, init)` for what a loop computes, where body is the
value after one iteration in terms of phi(key, ..), the value before it.  For loops over
range(N) whose bodies write one position each, the result is an array expression:

    a[i] = f(b[i], c[g[i]])        f(b, c at g)
    a[g[i]] = a[g[i]] + f(b[i])    a + gsum(g, f(b))
    s = s + f(b[i])                s + sum(f(b))
    s = max(s, f(b[i])) if c       max(s, max of f(b) where c)
"""
from . import terms as T
from .terms import mk, num, sym, ZERO, ONE
from .absint import getitem_term


class Odd(Exception):
    pass


class Loops(object):
    def __init__(self, family):
        self.family = family      # name of a symbol -> the length it has
        self.bounds = []          # (loop key, range, lengths of the arrays indexed by the position)
        self.memo = {}
        self.cells = {}           # (key, phi) -> how the loop changes it
        self.reads = []           # (key, phi) read at the position

    # ------------------------------------------------------------ terms
    def vec(self, t):
        if t.id not in self.memo:
            if t.op == 'loopvar':
                self.memo[t.id] = self.loop(t)
            elif t.op == 'loopsum':
                self.memo[t.id] = self.total(t)
            else:
                self.memo[t.id] = T.rebuild(t, self.vec)
        return self.memo[t.id]

    def check(self):
        for key, phi in self.reads:
            if self.cells.get((key, phi), 'position') != 'position':
                raise Odd('%s is read while it changes' % T.show(phi, 2))

    # ------------------------------------------------------------ loops
    def over(self, key):
        if key.op != 'loop' or key.args[1].op != 'range':
            raise Odd('loop over %s' % T.show(key, 3))
        return key.args[1].args[0]

    def lift(self, u, key, own=None, init=None):
        """the expression at every position"""
        ix = mk('idx', key)

        def f(v):
            if v is ix:
                return mk('arange')
            if v.op == 'getitem' and v.args[1] is ix:
                a = v.args[0]
                if a is own:
                    return init
                if a.op == 'phi' and a.args[0] is key:
                    if len(a.args) < 3:
                        raise Odd('item of %s' % T.show(a, 2))
                    self.reads.append((key, a))
                    a = a.args[2]
                elif T.mentions(a, lambda x: x.op == 'phi' and x.args[0] is key):
                    raise Odd('%s is read while it changes' % T.show(a, 2))
                w = self.vec(a)
                self.bounds.append((key, w))
                return w
            if v.op == 'getitem' and v.args[1].op == 'getitem' and v.args[1].args[1] is ix and not T.mentions(v.args[0], lambda x: x.op == 'phi' and x.args[0] is key):
                g = self.vec(v.args[1].args[0])
                self.bounds.append((key, g))
                return gather(self.vec(v.args[0]), g)
            if v.op == 'phi' and v.args[0] is key:
                raise Odd('carried %s' % T.show(v, 2))
            if v.op in ('loopvar', 'loopsum'):
                return self.vec(v)
            return None
        return T.subst_fn(u, f)

    def loop(self, t):
        key, body, init = t.args
        self.over(key)
        init = self.vec(init)
        phis = []
        T.mentions(body, lambda u: u.op == 'phi' and u.args[0] is key and u not in phis and phis.append(u))
        sets = []
        T.mentions(body, lambda u: u.op == 'setitem' and u.args[0] in phis and u not in sets and sets.append(u))
        if sets:
            return self.array(key, body, init, sets)
        named = [p for p in phis if len(p.args) < 3 or p.args[2] is t.args[2] and not T.mentions(body, lambda u: u.op == 'getitem' and u.args[0] is p)]
        if len(named) == 1:
            return self.scalar(key, body, init, named[0])
        raise Odd('loop body %s' % T.show(body, 4))

    def array(self, key, body, init, sets):
        ix = mk('idx', key)
        own = sets[0].args[0]
        items = [(m, c) for m, c in T.poly_items(body)]
        out, rest, add = ZERO, ZERO, None
        total = ZERO
        for m, c in items:
            coef, target = num(c), None
            for a, e in m:
                if (a is own or a.op == 'setitem' and a.args[0] is own) and e == 1 and target is None:
                    target = a
                else:
                    coef = T.mul(coef, T.power(a, e))
            if target is None:
                raise Odd('not an update: %s' % T.show(body, 4))
            total = T.add(total, coef)
            if target is own:
                rest = T.add(rest, coef)
                continue
            at, val = target.args[1], target.args[2]
            if at is ix:
                out = T.add(out, T.mul(self.lift(coef, key, own, init), self.lift(val, key, own, init)))
                self.cells[(key, own)] = 'position'
                self.bounds.append((key, init))
            elif at.op == 'getitem' and at.args[1] is ix:
                inc = T.sub(val, mk('getitem', own, at))
                g = self.vec(at.args[0])
                self.bounds.append((key, g))
                add = (g, T.add(add[1] if add else ZERO, T.mul(self.lift(coef, key), self.lift(inc, key))))
                self.cells[(key, own)] = 'anywhere'
            else:
                raise Odd('position %s' % T.show(at, 3))
        if total is not ONE:
            raise Odd('not an update: %s' % T.show(body, 4))
        if add is not None:
            if out is not ZERO:
                raise Odd('positions of two kinds')
            return T.add(init, mk('gsum', add[0], add[1]))
        return T.add(out, T.mul(self.lift(rest, key, own, init), init))

    def scalar(self, key, body, init, phi):
        free = lambda u: not T.mentions(u, lambda x: x is phi)
        top = sym('inf')
        if T.mentions(body, lambda u: u is top):
            # once infinite it stays so: only maxima follow
            hit = ZERO
            for m, c in T.poly_items(body):
                if any(a is top and e == 1 for a, e in m):
                    k = num(c)
                    for a, e in m:
                        if a is not top:
                            k = T.mul(k, T.power(a, e))
                    hit = T.add(hit, k)
            rest = T.subst_fn(body, lambda u: phi if u is top else None)
            if not free(hit) or T.where(hit, top, rest) is not body and T.subst_fn(T.where(hit, top, rest), lambda u: None) is not body:
                raise Odd('infinite in %s' % T.show(body, 4))
            out = self.scalar(key, rest, init, phi)
            if T.mentions(out, lambda u: u.op == 'redmin'):
                raise Odd('minima of infinities')
            return T.where(mk('redany', self.lift(hit, key)), top, out)
        d = T.sub(body, phi)
        if free(d):
            return T.add(init, T.red('sum', self.lift(d, key)))
        conds, gts = [ONE], []
        T.mentions(body, lambda u: u.op in T.IDEMP and (conds if free(u) else gts).append(u))
        for g in gts:
            if g.op != 'gt0':
                continue
            q = T.subst_fn(g.args[0], lambda u: ZERO if u is phi else None)
            k = T.sub(g.args[0], q)
            k = T.div(k, phi)
            if not free(k):
                continue
            e = T.neg(T.div(q, k))
            for c in conds:
                for x in (c, T.notb(c)):
                    if x is ZERO:
                        continue
                    for name, op in (('max', T.maximum), ('min', T.minimum)):
                        if T.where(x, op(phi, e), phi) is body:
                            return op(init, mk('red' + name, self.lift(x, key), self.lift(e, key)))
        raise Odd('accumulates %s' % T.show(body, 4))

    def total(self, t):
        key, body = t.args
        self.over(key)
        return T.red('sum', self.lift(body, key))

    # ------------------------------------------------------------ lengths
    def lengths(self):
        """(loop key, what it runs over, names of lengths of the arrays at its positions)"""
        out = {}
        for key, w in self.bounds:
            names = set()
            self.length(w, names)
            out.setdefault(key, set()).update(names)
        return out

    def length(self, w, names):
        if w.op == 'sym':
            if w.args[0] in self.family:
                names.add(self.family[w.args[0]])
        elif w.op == 'gsum':
            pass
        elif w.op == 'getitem':
            self.length(w.args[1], names)
        elif w.op in ( 'red', 'mcall', 'call'):
            pass
        else:
            T.rebuild(w, lambda a: (self.length(a, names), a)[1])


def gather(t, g):
    """entries of t at g"""
    return getitem_term(t, g)
