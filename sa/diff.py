"""Reverse-mode differentiation of value graphs.

`grad(f, x)` is the transposed derivative of the scalar term f with respect to
the vector symbol x, as a term.  Non-smooth points have measure zero and are
ignored (indicators are locally constant).  Raises Unsupported when an operator
on the path from x to f has no rule."""
from fractions import Fraction
from . import terms as T
from .terms import mk, ZERO, ONE


class Unsupported(Exception):
    pass


HALF = Fraction(1, 2)


def depends(t, x):
    return T.contains(t, x)


def grad(f, x):
    acc = []
    back(f, ONE, x, acc)
    return T.add(*acc) if acc else ZERO


def contract(adj, t):
    """adjoint arriving at a scalar-valued node t must be a scalar"""
    if T.is_scalar(t) and not T.is_scalar(adj):
        return T.red('sum', adj)
    return adj


def back(t, adj, x, acc):
    if t is x:
        acc.append(adj)
        return
    if not depends(t, x):
        return
    op = t.op
    if op == 'poly':
        groups = {}
        order = []
        for m, c in t.args[0]:
            for i, (a, e) in enumerate(m):
                if not depends(a, x):
                    continue
                rest = [(b, k) for j, (b, k) in enumerate(m) if j != i]
                d = T.num(c * e)
                if e != 1:
                    if a.op in T.IDEMP:
                        continue
                    d = T.mul(d, T.power(a, e - 1))
                for b, k in rest:
                    d = T.mul(d, T.power(b, k))
                g = T.mul(adj, d)
                if a in groups:
                    groups[a] = T.add(groups[a], contract(g, a))
                else:
                    groups[a] = contract(g, a)
                    order.append(a)
        for a in order:
            back(a, groups[a], x, acc)
        return
    if op in ('gt0', 'eq0', 'bool', 'size', 'len'):
        return
    if op == 'attr' and t.args[1] in ('shape', 'size', 'ndim', 'dtype'):
        return
    if op == 'red' and t.args[0] == 'sum':
        back(t.args[1], adj, x, acc)
        return
    if op == 'red' and t.args[0] == 'mean':
        back(t.args[1], T.div(adj, mk('size')), x, acc)
        return
    if op == 'loopsum':
        sub = []
        back(t.args[1], adj, x, sub)
        for s in sub:
            acc.append(T.loopsum(t.args[0], s))
        return
    if op == 'powbase':
        back(t.args[0], adj, x, acc)
        return
    if op == 'pow':
        e = t.args[1]
        back(t.args[0], T.mul(adj, T.num(e), mk('pow', t.args[0], e - 1)), x, acc)
        return
    if op == 'fn':
        f = t.args[0]
        u = t.args[1]
        if f == 'exp':
            d = t
        elif f == 'log':
            d = T.power(u, -1)
        elif f == 'abs':
            d = T.sign(u)
        elif f == 'Phi':
            d = mk('fn', 'phi', u)
        elif f == 'phi':
            d = T.neg(T.mul(u, t))
        elif f == 'sin':
            d = mk('fn', 'cos', u)
        elif f == 'cos':
            d = T.neg(mk('fn', 'sin', u))
        elif f == 'tanh':
            d = T.sub(ONE, T.power(t, 2))
        elif f in ('round', 'floor', 'ceil', 'isnan', 'isfinite'):
            return
        else:
            raise Unsupported('d/dx %s' % f)
        back(u, contract(T.mul(adj, d), u), x, acc)
        return
    if op == 'F':
        # value of a smooth objective; its gradient protocol term is G
        back(t.args[1], T.mul(adj, mk('G', *t.args)), x, acc)
        return
    if op == 'L':
        if depends(t.args[0], x):
            raise Unsupported('operator depends on x')
        back(t.args[1], T.linop('Lt', t.args[0], adj), x, acc)
        return
    if op == 'Lt':
        if depends(t.args[0], x):
            raise Unsupported('operator depends on x')
        back(t.args[1], T.linop('L', t.args[0], adj), x, acc)
        return
    if op == 'A':
        if depends(t.args[0], x):
            raise Unsupported('operator depends on x')
        back(t.args[1], T.linop('Lt', t.args[0], adj), x, acc)
        return
    if op == 'getitem':
        if depends(t.args[1], x):
            raise Unsupported('index depends on x')
        back(t.args[0], T.linop('scatter', t.args[1], adj), x, acc)
        return
    if op == 'setitem':
        base, it, val = t.args
        if depends(it, x):
            raise Unsupported('index depends on x')
        back(base, mk('setitem', adj, it, ZERO), x, acc)
        back(val, _getitem(adj, it), x, acc)
        return
    if op == 'sumax':
        from .absint import COLIDX
        if t.args[0].args[0] is ONE:
            adj = _getitem(adj, COLIDX)
        else:
            adj = mk('expandax', t.args[0], adj)
        back(t.args[1], adj, x, acc)
        return
    if op == 'ite':
        c, a, b = t.args
        back(a, T.mul(c, adj), x, acc)
        back(b, T.mul(T.notb(c), adj), x, acc)
        return
    raise Unsupported(op)


def _getitem(t, it):
    from .absint import getitem_term
    return getitem_term(t, it)
