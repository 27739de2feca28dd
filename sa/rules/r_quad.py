"""The algebra of identity_quadratic: objective and gradient, collapsed form, sums,
recentring, conjugate, restriction.

The represented function is  value(q)(x) = coef/2 |x - center|^2 + <linear, x> + constant  (absent
parts are 0).  Every operation is run on every combination of absent and present parts, and the
function represented by its result is compared with the specified function as polynomial terms."""
import itertools
from fractions import Fraction
from .. import terms as T, cells, diff
from ..terms import mk, num, sym, ZERO, ONE, add, sub, mul, div, neg, power
from ..check import OK, BAD, UND
from ..absint import Giveup, Ob, C, Tup, Bottom

X = sym('v_x')
HALF = num(Fraction(1, 2))
COEF, CEN, LIN, CONST = sym('s_coef++'), sym('v_center'), sym('v_lin'), sym('s_const')
COEF2, CEN2, LIN2, CONST2 = sym('s_coef2++'), sym('v_center2'), sym('v_lin2'), sym('s_const2')
OFF = sym('v_off')
PARTS = ('coef', 'center', 'linear_term', 'constant_term')
NONNULL = ['s_coef++', 'v_center', 'v_lin', 's_const', 's_coef2++', 'v_center2', 'v_lin2', 's_const2', 'v_off', 'v_x']


def val(q, x):
    """the function represented by (coef, center, linear, constant), with None for absent parts"""
    co, ce, li, cn = q
    out = []
    if co is not None:
        r = x if ce is None else sub(x, ce)
        out.append(mul(HALF, co, T.red('sum', power(r, 2))))
    if li is not None:
        out.append(T.red('sum', mul(li, x)))
    if cn is not None:
        out.append(cn)
    return add(*out) if out else ZERO


def gradient(q, x):
    co, ce, li, cn = q
    out = []
    if co is not None:
        out.append(mul(co, x if ce is None else sub(x, ce)))
    if li is not None:
        out.append(li)
    return add(*out) if out else ZERO


def configs():
    for ce, li, cn in itertools.product((None, CEN), (None, LIN), (None, CONST)):
        yield (COEF, ce, li, cn)


def value_of(I, st, t):
    if t is None:
        return C(T.NONE)
    return C(t) if T.is_scalar(t) else I.newarr(st, t, frozenset([('param', T.show(t))]))


def install(q):
    def setup(I, st, selfv):
        for n, t in zip(PARTS, q):
            # (the constructor stores 0 for an absent coefficient or constant)
            st.heap[(selfv.id, n)] = value_of(I, st, ZERO if t is None and n in ('coef', 'constant_term') else t)
    return setup


def fields(r, o):
    """(coef, center, linear, constant) of an abstract identity_quadratic, or None"""
    out = []
    for n in PARTS:
        try:
            t = r.I.term(r.I.getattr(o, n, r.st), r.st)
        except (Giveup, Bottom, RecursionError):
            return None
        out.append(None if t is T.NONE else t)
    return tuple(out)


def generic(t, zero=None):
    """the term for vectors none of whose entries is 0 (or, for the vector `zero`, all of them);
    vectors are not 0-dimensional"""
    def inner(u):
        return ZERO if u.op == 'eq0' else None

    def f(u):
        if u.op == 'bool' and u.args[0].op in ('eq', 'cmp') and T.mentions(u, lambda s: s.op == 'attr' and s.args[1] == 'shape') \
                and T.mentions(u, lambda s: s.op == 'tuple' and not s.args[0]):
            return ZERO
        if u.op == 'bool' and u.args[0].op == 'red' and u.args[0].args[0] in ('any', 'all'):
            body = T.subst_fn(u.args[0].args[1], inner)
            if body in (ZERO, ONE):
                return body
        return None
    if zero is not None:
        t = T.subst_fn(t, lambda u: ONE if u.op == 'eq0' and u.args[0] is zero else (ZERO if u is zero else None))
    return T.subst_fn(t, f)


def same(a, b):
    out = []
    for z in (None, OFF):
        if z is None or T.contains(a, z):
            out.append(cells.compare(generic(a, z), generic(b, z)))
    return 'diff' if 'diff' in out else 'unknown' if 'unknown' in out else 'same'


def shaped(t):
    """v_* are vectors, zero is a scalar: which shapes are empty"""
    def f(u):
        if u.op == 'bool' and u.args[0].op == 'eq':
            a, b = u.args[0].args
            if b.op == 'attr':
                a, b = b, a
            if a.op == 'attr' and a.args[1] == 'shape' and b.op == 'tuple' and not b.args[0]:
                z = a.args[0]
                return ONE if z.op == 'num' else ZERO if z.op == 'sym' and z.args[0].startswith('v_') else None
        return None
    return T.subst_fn(t, f)


def judge(obs, rule, cons, a, b, what, where):
    if a is None or b is None:
        obs.add(rule, cons, UND, what, where)
        return
    v = same(a, b)
    obs.add(rule, cons, OK if v == 'same' else BAD if v == 'diff' else UND,
            '' if v == 'same' else '%s: %s instead of %s' % (what, T.show(a, 7), T.show(b, 7)), where)


def show(q):
    return 'parts ' + '/'.join(n for n, t in zip(PARTS, q) if t is not None)


def is_quadratic(o):
    return isinstance(o, Ob) and o.cls is not None and o.cls.name == 'identity_quadratic'


def quadratics(ctx, obs):
    cls = next(c for c in ctx.model.all_classes() if c.qual == 'regreg.identity_quadratic.identity_quadratic')

    def run(meth, params, q, **kw):
        r = ctx.run(cls, meth, params, setup=install(q), nonnull=NONNULL, **kw)
        if r is None or r.value is None:
            return r, None
        return r, r.value

    def where(m):
        f = cls.method(m) or (cls.lookup(m)[1][0] if cls.lookup(m) and cls.lookup(m)[0] == 'prop' else None)
        return f.where if f else ''
    for q in configs():
        s = show(q)
        # value and gradient
        w = where('objective')
        for mode, spec in (('func', val(q, X)), ('grad', gradient(q, X)), ('both', None)):
            r, v = run('objective', {'x': X, 'mode': mode}, q)
            t = r.term if r is not None and v is not None else None
            if r is not None and v is None and any(e['kind'] == 'raise' for e in r.events):
                obs.add('objective', 'objective:' + mode, BAD, s + ': every path raises', w)
                continue
            if mode == 'both':
                if t is None or t.op != 'tuple' or len(t.args[0]) != 2:
                    obs.add('objective', 'objective:both', UND if t is None else BAD, 'not a pair', w)
                    continue
                judge(obs, 'objective', 'objective:both', t.args[0][0], val(q, X), s + ', value', w)
                judge(obs, 'objective', 'objective:both', t.args[0][1], gradient(q, X), s + ', gradient', w)
            else:
                judge(obs, 'objective', 'objective:' + mode, t, spec, s, w)
        # collapsed form
        w = where('collapsed')
        r, v = run('collapsed', {}, q)
        if is_quadratic(v) and fields(r, v) is not None:
            g = fields(r, v)
            judge(obs, 'collapsed', 'collapsed', val(g, X), val(q, X), s + ', represents', w)
            judge(obs, 'collapsed', 'collapsed', g[1] if g[1] is not None else ZERO, ZERO, s + ', center', w)
        else:
            obs.add('collapsed', 'collapsed', UND, s, w)
        # recentring: q'(x) and q(x + offset) differ by a constant
        w = where('recenter')
        r, v = run('recenter', {'offset': OFF}, q)
        pair(obs, r, v, q, s, w, OFF, True)
        r, v = run('recenter', {'offset': None}, q)
        pair(obs, r, v, q, s + ', no offset', w, ZERO, False)
        # conjugate
        w = where('conjugate')
        r, v = run('conjugate', {}, q)
        if is_quadratic(v) and fields(r, v) is not None:
            g = gradient(q, X)
            judge(obs, 'conjugate', 'conjugate', add(val(fields(r, v), g), val(q, X)), T.red('sum', mul(g, X)),
                  s + ': conjugate(gradient(x)) + value(x)', w)
        else:
            obs.add('conjugate', 'conjugate', UND, s, w)
        # center of the collapsed form
        w = where('true_center')
        r, v = run('true_center', {}, q)
        judge(obs, 'center', 'true_center', gradient(q, r.term) if r is not None and v is not None and r.term is not T.NONE else None, ZERO,
              s + ', gradient at true_center', w)
        # sums
        w = where('__add__')
        for p in ((COEF2, CEN2, LIN2, CONST2), (COEF2, None, LIN2, None), (COEF2, CEN2, None, CONST2), (COEF2, None, None, None)):
            def other(I, st, p=p):
                return I.construct(I.iq, [value_of(I, st, z) for z in p], {}, st, None)
            r, v = run('__add__', {'other': other}, q)
            if is_quadratic(v) and fields(r, v) is not None:
                judge(obs, 'sum', '__add__', val(fields(r, v), X), add(val(q, X), val(p, X)), s + ' + ' + show(p), w)
            else:
                obs.add('sum', '__add__', UND, s, w)
        r, v = run('__add__', {'other': None}, q)
        if is_quadratic(v) and fields(r, v) is not None:
            judge(obs, 'sum', '__add__', val(fields(r, v), X), val(q, X), s + ' + None', w)
        # copies and normalisations keep the function
        for m in ('__copy__', 'zeroify', 'noneify'):
            r, v = run(m, {}, q)
            if r is None:
                obs.add('keeps', m, UND, s, where(m))
                continue
            o = v if m == '__copy__' else r.self
            g = fields(r, o) if isinstance(o, Ob) else None
            if g is None:
                obs.add('keeps', m, UND, s, where(m))
                continue
            if m == 'zeroify':
                obs.add('keeps', m, OK if None not in g else BAD, s + ': a part is still None', where(m))
            judge(obs, 'keeps', m, val(g, X), val(q, X), s, where(m))
        # the constructor
        w = where('__init__')
        r = ctx.run(cls, '__init__', {n: (lambda I, st, t=t: value_of(I, st, t)) for n, t in zip(PARTS, q)}, nonnull=NONNULL)
        g = fields(r, r.self) if r is not None else None
        judge(obs, 'constructor', '__init__', val(g, X) if g else None, val(q, X), s, w)
    # iszero: false as soon as a part of the function is not zero, true without parts
    w = where('iszero')
    for q, expect in (((COEF, None, None, None), ZERO), ((ZERO, None, LIN, None), ZERO), ((ZERO, None, None, CONST), ZERO),
                      ((COEF, CEN, LIN, CONST), ZERO), ((ZERO, None, None, None), ONE), ((ZERO, ZERO, ZERO, None), ONE)):
        r, v = run('iszero', {}, q)
        t = truth(r.term) if r is not None and v is not None else None
        obs.add('iszero', 'iszero', OK if t is expect else BAD if t in (ZERO, ONE) else UND, show(q), w)
    # restriction
    w = where('__getitem__')
    for q in configs():
        SL = mk('slice', num(1), num(3), T.NONE)
        f = cls.method('__getitem__')
        r, v = run('__getitem__', {f.params()[1]: (lambda I, st: C(SL))}, q)
        if is_quadratic(v) and fields(r, v) is not None:
            g = fields(r, v)
            y = T_getitem(X, SL)
            spec = add(mul(COEF, sub(y, T_getitem(CEN, SL)) if q[1] is not None else y), T_getitem(LIN, SL) if q[2] is not None else ZERO)
            judge(obs, 'restriction', '__getitem__', shaped(gradient(g, y)), spec, show(q) + ', gradient of the restriction', w)
        else:
            obs.add('restriction', '__getitem__', UND, show(q), w)
    # the conjugate of a linear function: the indicator of its linear term
    w = where('conjugate')
    q = (ZERO, None, LIN, CONST)
    r, v = run('conjugate', {}, q)
    if isinstance(v, Ob) and v.cls is not None and not is_quadratic(v):
        off = get(r, v, '_offset')
        if off is T.NONE:
            off = ZERO
        obs.add('conjugate', 'conjugate:linear', OK if v.cls.name == 'zero_constraint' else BAD,
                'the conjugate of a linear function is a %s' % v.cls.name, w)
        judge(obs, 'conjugate', 'conjugate:linear', off, LIN, 'offset', w)
        oq = getv(r, v, '_quadratic')
        if is_quadratic(oq) and fields(r, oq) is not None:
            judge(obs, 'conjugate', 'conjugate:linear', val(fields(r, oq), X), neg(CONST), 'quadratic', w)
    else:
        obs.add('conjugate', 'conjugate:linear', UND if v is None else UND, '', w)
    # unknown modes
    r, v = run('objective', {'x': X, 'mode': 'nomode'}, (COEF, CEN, LIN, CONST))
    if r is not None:
        obs.add('mode', 'objective', OK if v is None else BAD, 'an unknown mode does not raise', where('objective'))


def truth(t):
    def f(u):
        if u in (T.TRUE, T.FALSE):
            return ONE if u is T.TRUE else ZERO
        if u.op in ('eq', 'cmp', 'in') or u.op == 'bool' and u.args[0].op in ('eq', 'cmp', 'in'):
            return None
        if u.op == 'eq0' and u.args[0] in (COEF, CONST):
            return ZERO
        return None
    t = T.subst_fn(t, f)
    return generic(t)


def getv(r, o, n):
    try:
        return r.I.getattr(o, n, r.st)
    except (Giveup, Bottom, RecursionError):
        return None


def get(r, o, n):
    v = getv(r, o, n)
    try:
        return None if v is None else r.I.term(v, r.st)
    except (Giveup, Bottom, RecursionError):
        return None


def T_getitem(t, i):
    from ..absint import getitem_term
    return getitem_term(t, i)


def pair(obs, r, v, q, s, w, off, given):
    if not isinstance(v, Tup):
        obs.add('recenter', 'recenter', UND, s, w)
        return
    items = r.st.lists.get(v.id)
    if not items or len(items) != 2 or not is_quadratic(items[1]) or fields(r, items[1]) is None:
        obs.add('recenter', 'recenter', UND, s, w)
        return
    g = fields(r, items[1])
    try:
        o = r.I.term(items[0], r.st)
    except Giveup:
        o = None
    if given:
        if o is None:
            obs.add('recenter', 'recenter', UND, s + ', returned offset', w)
        else:
            # a zero offset may be reported as None
            a, z = generic(o), generic(o, OFF)
            obs.add('recenter', 'recenter', OK if a is off and z in (ZERO, T.NONE) else
                    BAD if T.is_arith(a) and cells.compare(a, off) == 'diff' else UND, s + ', returned offset ' + T.show(o, 4), w)
    else:
        obs.add('recenter', 'recenter', OK if o is T.NONE else BAD, s + ', returned offset', w)
    judge(obs, 'recenter', 'recenter', gradient(g, X), gradient(q, add(X, off)), s + ', gradient of the recentred quadratic', w)


PROPS = {
    'Q01': dict(run=quadratics, floor=100,
                rule='each operation of identity_quadratic is run on all combinations of absent and present parts; the function '
                     'represented by its result equals the specified function as a polynomial term.'),
}
