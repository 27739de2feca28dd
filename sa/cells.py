"""Equality of piecewise terms.

A term with indicators [p > 0] is a different normal form on every cell of the
arrangement of the p's.  Two such terms are equal when they have the same normal
form on every non-empty cell.  The conditions are linear in their monomials, so a
cell is non-empty unless Fourier-Motzkin elimination over the rationals derives
0 < 0 (monomials are treated as independent variables: a cell that is empty for
non-linear reasons is still examined, which can only make the answer 'unknown')."""
from fractions import Fraction
from . import terms as T
from .terms import ZERO, ONE, add, sub, mul

LIMIT = 4000


class Budget(Exception):
    pass


def _innermost(t, dead):
    """an indicator of t without indicators inside (skipping reductions)"""
    best = [None]
    seen = set()

    def go(u):
        if best[0] is not None or u.id in seen:
            return
        seen.add(u.id)
        if u.op in RED:
            return
        for c in T.children(u):
            go(c)
            if best[0] is not None:
                return
        if u.op in T.IDEMP and u not in dead:
            best[0] = u
    go(t)
    return best[0]


def _canon_reductions(t, table):
    """replace equal-by-cells reductions by one representative"""
    def f(u):
        if u.op in ('red', 'sumax', 'redax'):
            args = [a for a in u.args]
            body = args[-1]
            if not isinstance(body, T.Term):
                return None
            body = _canon_reductions(body, table)
            key = (u.op,) + tuple(args[:-1])
            for rep, out in table.setdefault(key, []):
                if rep is body or same(rep, body, table) == 'same':
                    return out
            args[-1] = body
            new = T.remake(u.op, args)
            table[key].append((body, new))
            return new
        return None
    return T.subst_fn(t, f)


def linear(p):
    """poly -> ({monomial: coefficient}, constant)"""
    d, c = {}, Fraction(0)
    for m, k in T.poly_items(p):
        if not m:
            c += k
        else:
            d[m] = d.get(m, 0) + k
    return d, c


def positive_mono(m):
    return all(T.is_nonneg(a) or (e.denominator == 1 and e % 2 == 0) for a, e in m)


def feasible(cons, cell=()):
    """cons: list of ({var: coef}, const) meaning form > 0"""
    vs = set()
    for d, c in cons:
        vs |= set(d)
    work = [(dict(d), c, True) for d, c in cons]
    for v in sorted(vs, key=lambda m: tuple((a.id, e) for a, e in m)):
        if positive_mono(v):
            work.append(({v: Fraction(1)}, Fraction(0), True))
        if len(v) == 1 and v[0][1] == 1 and v[0][0].op == 'red' and v[0][0].args[0] == 'max':
            # the maximum is at least the element looked at
            d, c = linear(T.sub(v[0][0], _at(v[0][0].args[1], cell)))
            work.append((d, c, False))
            vs |= set(d)
    vs = sorted(vs, key=lambda m: tuple((a.id, e) for a, e in m))
    for v in vs:
        pos, neg, rest = [], [], []
        for d, c, s in work:
            k = d.get(v, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((d, c, s))
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg:
                a, b = d1[v], -d2[v]
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * b
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * a
                d = {x: k for x, k in d.items() if k != 0}
                rest.append((d, c1 * b + c2 * a, s1 or s2))
        seen = set()
        work = []
        for d, c, s in rest:
            if not d:
                if c < 0 or (s and c == 0):
                    return False
                continue
            m = max(abs(k) for k in d.values())
            key = (tuple(sorted(((tuple((a.id, e) for a, e in x), k / m) for x, k in d.items()))), c / m, s)
            if key not in seen:
                seen.add(key)
                work.append((d, c, s))
        if len(work) > 600:
            return True
    return True


def _at(t, cell):
    t = _abs_out(t)
    for g, val in cell:
        t = _subst(t, g, val)
    return t


RED = ('red', 'sumax', 'redax', 'loopsum', 'loopset', 'setitem')


def _is_inf(a):
    return a.op == 'sym' and a.args[0] == 'inf'


def _abs_out(t):
    """|x| -> x*(2[x>0]-1), outside reductions"""
    def f(u):
        if u.op in RED:
            return u
        if u.op == 'fn' and u.args[0] == 'abs':
            y = T.subst_fn(u.args[1], f)
            return mul(y, sub(T.scale(T.gt0(y), Fraction(2)), ONE))
        return None
    return T.subst_fn(t, f)


def _infinite(t):
    """comparisons with infinity"""
    def f(u):
        if u.op == 'gt0':
            sign, clean = 0, True
            for m, c in T.poly_items(u.args[0]):
                here = [a for a, e in m if _is_inf(a)]
                if here:
                    if len(m) == 1 and m[0][1] == 1:
                        sign = 1 if c > 0 else -1
                    else:
                        clean = False
            if sign and clean:
                return ONE if sign > 0 else ZERO
        return None
    return T.subst_fn(t, f)


def _any_to_max(t):
    """any(p > 0) is max(p) > 0"""
    def f(u):
        if u.op == 'bool' and u.args[0].op == 'red' and u.args[0].args[0] == 'any':
            b = u.args[0].args[1]
            if b.op == 'gt0':
                return T.gt0(_max(T.subst_fn(b.args[0], f)))
            n = T.sub(ONE, b)
            if n.op == 'gt0':
                return T.gt0(_max(T.neg(T.subst_fn(n.args[0], f))))
        if u.op == 'red' and u.args[0] == 'max':
            return _max(T.subst_fn(u.args[1], f))
        return None
    return T.subst_fn(t, f)


def _max(p):
    out, vec = ZERO, ZERO
    for m, c in T.poly_items(p):
        term = T.scale(T._mono_term(m) if m else ONE, c)
        if T.is_scalar(term):
            out = add(out, term)
        else:
            vec = add(vec, term)
    if vec is ZERO:
        return out
    return add(out, T.red('max', vec))


def _subst(t, atom, val):
    """the indicator takes a value at the element looked at; reductions over all
    elements keep it, except that any(...) of a true indicator is true"""
    true = atom if val is ONE else sub(ONE, atom)

    def f(u):
        if u is atom:
            return val
        if u.op == 'bool' and u.args[0].op == 'red' and u.args[0].args[0] == 'any' and u.args[0].args[1] is true:
            return ONE
        if u.op in RED:
            return u
        return None
    return T.subst_fn(t, f)


def same(a, b, table=None, assume=()):
    """'same' | 'cell' (differs on a non-empty cell) | 'unknown'"""
    if a is b:
        return 'same'
    try:
        table = {} if table is None else table
        a, b = _abs_out(_any_to_max(a)), _abs_out(_any_to_max(b))
        a, b = _canon_reductions(a, table), _canon_reductions(b, table)
        if T.equal(a, b):
            return 'same'
        budget = [LIMIT]
        return 'same' if _go(a, b, [linear(p) for p in assume], (), budget) else 'cell'
    except (Budget, RecursionError):
        return 'unknown'


def _go(a, b, cons, cell, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    a, b = _infinite(a), _infinite(b)
    if a is b:
        return True
    g = None
    for t in (a, b):
        g = _innermost(t, ())
        if g is not None:
            break
    if g is None:
        return T.equal(a, b)
    yes, no = cell + ((g, ONE),), cell + ((g, ZERO),)
    if g.op == 'eq0':
        # ties have measure zero
        return _go(_subst(a, g, ZERO), _subst(b, g, ZERO), cons, no, budget)
    if g.op == 'bool':
        return (_go(_subst(a, g, ONE), _subst(b, g, ONE), cons, yes, budget) and
                _go(_subst(a, g, ZERO), _subst(b, g, ZERO), cons, no, budget))
    d, c = linear(g.args[0])
    pos = cons + [(d, c)]
    neg = cons + [({v: -k for v, k in d.items()}, -c)]
    if feasible(pos, yes) and not _go(_subst(a, g, ONE), _subst(b, g, ONE), pos, yes, budget):
        return False
    if feasible(neg, no) and not _go(_subst(a, g, ZERO), _subst(b, g, ZERO), neg, no, budget):
        return False
    return True


def compare(a, b, assume=()):
    """the verdict used by rules: 'same' | 'diff' | 'unknown'"""
    if a is None or b is None:
        return 'unknown'
    s = same(a, b, assume=assume)
    if s == 'same':
        return 'same'
    r = T.separated(a, b)
    if r == 'same':
        return 'same'
    return 'diff' if (s == 'cell' and r == 'diff') else 'unknown'
