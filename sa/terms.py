"""Value-graph terms.

A Term is a hash-consed node of the value graph that the abstract interpreter
(absint.py) builds from the source.  Arithmetic is kept in a normal form:
multivariate Laurent polynomials with rational coefficients over *atoms*
(symbols, attribute reads, elementwise functions, reductions, indicator
functions, opaque calls).  Two expressions that have the same normal form
denote the same value, however they are spelled in the source.

`separated` is used only to *withhold* alarms: two normal forms that differ
are reported as different only when they are also told apart by random
interpretation of the value graph (Gulwani & Necula, POPL'04), so that
incompleteness of the algebra never turns into a report.
"""
from fractions import Fraction
import decimal, hashlib, math

_table = {}


class Term(object):
    __slots__ = ('op', 'args', 'id', '_sc', '_syms')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(('#', a.id) if isinstance(a, Term) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_table)
        t._sc = None
        t._syms = None
        _table[key] = t
    return t


def num(c):
    if isinstance(c, Fraction):
        return mk('num', c)
    if isinstance(c, bool):
        return mk('num', Fraction(int(c)))
    if isinstance(c, int):
        return mk('num', Fraction(c))
    if isinstance(c, float):
        if c != c:
            return mk('sym', 'nan')
        if c in (float('inf'),):
            return mk('sym', 'inf')
        if c == float('-inf'):
            return neg(mk('sym', 'inf'))
        return mk('num', Fraction(c).limit_denominator(10 ** 12)
                  if abs(c) > 1e-6 else Fraction(repr(c)))
    raise TypeError(c)


def const(c):
    """python constant that is not arithmetic (None, strings, bools, ...)"""
    return mk('const', type(c).__name__, repr(c), c if isinstance(c, (str, bool, type(None))) else None)


ZERO = num(0)
ONE = num(1)
NONE = const(None)
TRUE = const(True)
FALSE = const(False)

IDEMP = {'gt0', 'eq0', 'bool'}       # {0,1}-valued atoms


def sym(name):
    return mk('sym', name)


def isnum(t):
    return t.op == 'num'


# ---------------------------------------------------------------- polynomials

def poly_items(t):
    if t.op == 'poly':
        return t.args[0]
    if t.op == 'num':
        return (((), t.args[0]),) if t.args[0] != 0 else ()
    return ((((t, Fraction(1)),), Fraction(1)),)


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_items(d):
    """d: dict mono_key -> (mono, coef)"""
    items = [(m, c) for (m, c) in d.values() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: mono_key(mc[0]))
    items = tuple(items)
    key = ('poly',) + tuple((mono_key(m), c) for m, c in items)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = 'poly', (items,), len(_table)
        t._sc = None
        t._syms = None
        _table[key] = t
    return t


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly_items(t):
            k = mono_key(m)
            if k in d:
                d[k] = (m, d[k][1] + c)
            else:
                d[k] = (m, c)
    return from_items(d)


def neg(t):
    return scale(t, Fraction(-1))


def scale(t, c):
    return from_items({mono_key(m): (m, k * c) for m, k in poly_items(t)})


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op in IDEMP and e > 0:
            e = Fraction(1)
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out)


MAXITEMS = 400


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    ia, ib = poly_items(a), poly_items(b)
    if len(ia) * len(ib) > MAXITEMS:
        # keep product of sums opaque
        return _norm_mono(_mul_mono(_as_mono(a), _as_mono(b)), Fraction(1), expand=False)
    d = {}
    for m1, c1 in ia:
        for m2, c2 in ib:
            m = _mul_mono(m1, m2)
            c = c1 * c2
            if any(x.op in ('poly', 'num') for x, _e in m):
                its = poly_items(_norm_mono(m, c))
            else:
                its = ((m, c),)
            for mm, cc in its:
                k = mono_key(mm)
                if k in d:
                    d[k] = (mm, d[k][1] + cc)
                else:
                    d[k] = (mm, cc)
    return from_items(d)


def _norm_mono(m, c, expand=True):
    """term for c*m, folding constants and re-expanding sums that became
    positive integer powers"""
    plain, extra = [], []
    for a, e in m:
        if a.op == 'num' and e.denominator == 1:
            c = c * a.args[0] ** int(e)
        elif a.op == 'num':
            k = e.numerator // e.denominator
            if k:
                c = c * a.args[0] ** k
            plain.append((a, e - k))
        elif expand and a.op == 'poly' and e > 0 and e.denominator == 1 and e <= 4:
            extra.append((a, int(e)))
        else:
            plain.append((a, e))
    plain = tuple(x for x in plain if x[1] != 0)
    t = from_items({mono_key(plain): (plain, c)})
    for a, e in extra:
        for _ in range(e):
            if len(poly_items(t)) * len(poly_items(a)) > MAXITEMS:
                t = _mul2(t, mk('sumatom', a)) if False else from_items(
                    {0: (_mul_mono(_as_mono(t), ((a, Fraction(1)),)), Fraction(1))})
            else:
                t = _mul2(t, a)
    return t


def _as_mono(t):
    if t.op == 'poly' and len(t.args[0]) == 1 and t.args[0][0][1] == 1:
        return t.args[0][0][0]
    return ((t, Fraction(1)),)


def _mono_term(m):
    return from_items({mono_key(m): (m, Fraction(1))})


def content(t):
    """common monomial factor of poly t (min exponents), returns (mono, rest)"""
    items = poly_items(t)
    if len(items) < 2:
        return (), t
    mins = None
    for m, c in items:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a in d:
                if a not in mins:
                    mins[a] = min(Fraction(0), d[a])
    mins = {a: e for a, e in mins.items() if e != 0 and a.op not in IDEMP}
    if not mins:
        return (), t
    inv = tuple(sorted(((a, -e) for a, e in mins.items()), key=lambda ae: ae[0].id))
    rest = _mul2(t, _mono_term(inv))
    return tuple(sorted(mins.items(), key=lambda ae: ae[0].id)), rest


def power(t, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == 'num':
        c = t.args[0]
        if e.denominator == 1:
            if c == 0:
                return ZERO if e > 0 else mk('div0')
            return num(c ** int(e))
        if c >= 0:
            v = float(c) ** float(e)
            r = Fraction(v).limit_denominator(1000)
            if r ** e.denominator == c ** e.numerator:
                return num(r)
        return _mono_term(((t, e),))
    items = poly_items(t)
    if len(items) == 1:
        m, c = items[0]
        if e.denominator == 1:
            nm = []
            for a, k in m:
                if a.op in IDEMP and e > 0:
                    nm.append((a, k))
                else:
                    nm.append((a, k * e))
            if c == 0:
                return ZERO
            return _norm_mono(tuple(nm), Fraction(c) ** int(e))
        # fractional power: pull out what is known to be non-negative
        out = ONE
        rest = ONE
        for a, k in m:
            if is_nonneg(a) or (k.denominator == 1 and k % 2 == 0):
                if is_nonneg(a):
                    out = mul(out, _mono_term(((a, k * e),)))
                else:
                    # (a^2k)^e = |a|^(2k e)
                    out = mul(out, power(absv(a), k * e))
            else:
                rest = mul(rest, _mono_term(((a, k),)))
        if rest is ONE:
            if c > 0:
                return mul(out, power(num(c), e))
            return mk('pow', t, e)
        ck = power(num(c), e) if c > 0 else ONE
        if c < 0:
            rest = scale(rest, c)
        return mul(out, ck, _mono_term(((mk('powbase', rest), e),)))
    # a sum
    if e.denominator == 1 and 0 < e <= 4 and len(items) ** int(e) <= MAXITEMS:
        r = ONE
        for _ in range(int(e)):
            r = _mul2(r, t)
        return r
    cm, rest = content(t)
    if rest.op != 'poly':
        return mul(power(_mono_term(cm), e) if cm else ONE, power(rest, e))
    # monic w.r.t. first item, keeps sign
    lead = rest.args[0][0][1]
    k = abs(lead)
    if e.denominator == 1 and lead < 0:
        k = lead
    rest = scale(rest, 1 / k)
    base = _mono_term(((rest, e),)) if rest.op == 'poly' else power(rest, e)
    if e.denominator != 1 and any(not is_nonneg(a) and not (x.denominator == 1 and x % 2 == 0) for a, x in cm):
        return mk('pow', t, e)
    pm = power(_mono_term(cm), e) if cm else ONE
    return mul(base, pm, power(num(k), e))


def div(a, b):
    return mul(a, power(b, -1))


# ------------------------------------------------------------- sign facts

POSITIVE_NAMES = set(['coef', 'lagrange', '_lagrange', '_bound', 'bound',
                      'lipschitz', 'trials', 'weights', 'case_weights', '_weights',
                      'smoothing_parameter', 'epsilon', 'tol', 'augmented_param',
                      'successes', 'counts', 'l1_weight', 'step', 'alpha', 'scalar_pos'])
POSITIVE_SYMS = set(['coef', 'lagrange', 'bound', 'lipschitz', 'case_weights', 'inf',
                     'np.pi', 'np.e', 'tol'])


INT_RESULTS = ('check_KKT',)          # methods whose results are counted, not measured


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in ('idx', 'len'):
        return True
    if t.op == 'sym':
        return t.args[0].startswith('i_')
    if t.op == 'getitem':
        return is_int(t.args[0])
    if t.op == 'elem':
        return t.args[1].op == 'sym' and t.args[1].args[0].startswith('oi_')
    if t.op == 'mcall':
        return t.args[0] in INT_RESULTS
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m) for m, c in t.args[0])
    return False


def is_nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in IDEMP:
        return True
    if t.op == 'fn' and t.args[0] in ('exp', 'Phi', 'phi', 'Gamma', 'abs'):
        return True
    if t.op == 'sym':
        return t.args[0] in POSITIVE_SYMS or t.args[0] == 'inf' or t.args[0].endswith('+')
    if t.op == 'attr':
        return t.args[1] in POSITIVE_NAMES
    if t.op == 'red' and t.args[0] in ('sum', 'mean', 'max', 'min'):
        return is_nonneg(t.args[1])
    if t.op in ('norm',):
        return True
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c < 0:
                return False
            for a, e in m:
                if not (is_nonneg(a) or (e.denominator == 1 and e % 2 == 0)):
                    return False
        return True
    return False


def is_pos(t):
    if t.op == 'num':
        return t.args[0] > 0
    if t.op == 'fn' and t.args[0] in ('exp', 'Phi', 'phi'):
        return True
    if t.op == 'attr':
        return t.args[1] in ('coef', 'lipschitz', 'smoothing_parameter', 'epsilon', 'trials')
    if t.op == 'sym':
        return t.args[0] in ('coef', 'lipschitz', 'np.pi', 'np.e') or t.args[0].endswith('++')
    if t.op == 'poly':
        if not is_nonneg(t):
            return False
        return any(all(is_pos(a) for a, e in m) for m, c in t.args[0])
    return False


# ---------------------------------------------------------------- functions

def fn(name, *args):
    if name == 'exp':
        return exp(args[0])
    if name == 'log':
        return log(args[0])
    return mk('fn', name, *args)


def exp(t):
    r = ONE
    for m, c in poly_items(t):
        if not m:
            a = mk('fn', 'exp', ONE)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log':
            r = mul(r, power(m[0][0].args[1], c))
            continue
        else:
            a = mk('fn', 'exp', _mono_term(m))
        r = mul(r, _mono_term(((a, c),)))
    return r


def log(t):
    if t is ONE:
        return ZERO
    items = poly_items(t)
    if len(items) == 0:
        return mk('fn', 'log', t)
    if len(items) > 1:
        cm, rest = content(t)
        cm2 = [(a, e) for a, e in cm if a.op == 'fn' and a.args[0] == 'exp']
        if not cm2:
            lead = t
            return mk('fn', 'log', t)
        inv = _mono_term(tuple((a, -e) for a, e in cm2))
        rest = _mul2(t, inv)
        out = mk('fn', 'log', rest)
        for a, e in cm2:
            out = add(out, scale(a.args[1], e))
        return out
    m, c = items[0]
    out = ZERO
    rest = []
    for a, e in m:
        if a.op == 'fn' and a.args[0] == 'exp':
            out = add(out, scale(a.args[1], e))
        elif is_pos(a):
            out = add(out, scale(mk('fn', 'log', a), e))
        else:
            rest.append((a, e))
    if rest:
        return add(out, mk('fn', 'log', scale(_mono_term(tuple(rest)), c)))
    if c == 1:
        return out
    return add(out, mk('fn', 'log', num(c)))


def gt0(p):
    """indicator of p > 0 (ties are ignored: equality has measure zero)"""
    if p.op == 'num':
        return ONE if p.args[0] > 0 else ZERO
    if p.op == 'sym' and p.args[0] == 'inf':
        return ONE
    items = poly_items(p)
    # infinite bound
    for m, c in items:
        if len(m) == 1 and m[0][0].op == 'sym' and m[0][0].args[0] == 'inf' and m[0][1] > 0:
            if all(m2 == m or (c2 > 0) == (c > 0) and all(is_nonneg(a) for a, e in m2) for m2, c2 in items
                   if any(a.op == 'sym' and a.args[0] == 'inf' for a, e in m2)):
                return ONE if c > 0 else ZERO
    cm, rest = content(p)
    if cm:
        # strip positive content
        strip = [(a, e) for a, e in cm if is_pos(a)]
        if strip:
            p = _mul2(p, _mono_term(tuple((a, -e) for a, e in strip)))
            items = poly_items(p)
    if len(items) == 1:
        m, c = items[0]
        m2 = tuple((a, e) for a, e in m if not is_pos(a))
        if not m2:
            return ONE if c > 0 else ZERO
        p = scale(_mono_term(m2), c)
        items = poly_items(p)
    lead = items[0][1]
    p = scale(p, 1 / abs(lead))
    if lead < 0:
        return sub(ONE, mk('gt0', neg(p)))
    return mk('gt0', p)


def eq0(p):
    if p.op == 'num':
        return ONE if p.args[0] == 0 else ZERO
    if is_pos(p) or is_pos(neg(p)):
        return ZERO
    items = poly_items(p)
    lead = items[0][1]
    p = scale(p, 1 / lead)
    return mk('eq0', p)


def absv(t):
    if is_nonneg(t):
        return t
    if is_nonneg(neg(t)):
        return neg(t)
    items = poly_items(t)
    if len(items) == 1:
        m, c = items[0]
        out = num(abs(c))
        for a, e in m:
            if e.denominator == 1 and e % 2 == 0 or is_nonneg(a):
                out = mul(out, _mono_term(((a, e),)))
            else:
                out = mul(out, power(_abs_atom(a), e) if e > 0 else power(_abs_atom(a), e))
        return out
    lead = items[0][1]
    if lead < 0:
        t = neg(t)
    return mk('fn', 'abs', t)


def _abs_atom(a):
    return mk('fn', 'abs', a)


def expand_abs(t):
    """|x| -> x*(2*gt0(x)-1) inside t (for differentiation / zero tests)"""
    return subst_fn(t, lambda a: mul(a.args[1], sub(scale(gt0(a.args[1]), Fraction(2)), ONE))
                    if a.op == 'fn' and a.args[0] == 'abs' else None)


def sign(t):
    return sub(scale(gt0(t), Fraction(2)), ONE)


def maximum(a, b):
    d = sub(b, a)
    return add(a, mul(d, gt0(d)))


def minimum(a, b):
    d = sub(b, a)
    return add(b, neg(mul(d, gt0(d))))


def where(c, a, b):
    if a is b:
        return a
    return add(mul(c, a), mul(sub(ONE, c), b))


# boolean terms are {0,1}-valued polys
def boolean(t):
    """coerce to a {0,1} valued term"""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == 'ite' and all(a in (TRUE, FALSE, ONE, ZERO) for a in t.args[1:]):
        return where(boolean(t.args[0]), boolean(t.args[1]), boolean(t.args[2]))
    if t.op in IDEMP or (t.op == 'num' and t.args[0] in (0, 1)):
        return t
    if t.op == 'poly' and all(a.op in IDEMP for m, c in t.args[0] for a, e in m):
        return t
    if t.op == 'poly' or (t.op == 'red' and t.args[0] == 'sum'):
        # a count is true when some element is
        p = ZERO
        for m, c in poly_items(t):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'red' and m[0][0].args[0] == 'sum':
                p = add(p, scale(m[0][0].args[1], c))
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'size':
                p = add(p, num(c))
            else:
                p = None
                break
        if p is not None and not is_scalar(p) and (p.op in IDEMP or p.op == 'poly') and mul(p, p) is p and \
                all(a.op in IDEMP for m, c in poly_items(p) for a, e in m):
            return red('any', p)
    return mk('bool', t)


def notb(t):
    return sub(ONE, boolean(t))


def andb(a, b):
    return mul(boolean(a), boolean(b))


def orb(a, b):
    a, b = boolean(a), boolean(b)
    return add(a, b, neg(mul(a, b)))


# ------------------------------------------------------------- scalars

SCALAR_NAMES = set(['coef', 'lagrange', '_lagrange', '_bound', 'bound', 'lipschitz',
                    'tol', 'smoothing_parameter', 'epsilon', 'constant_term', 'step',
                    'augmented_param', 'scalar', 'l1_weight', 'alpha', 'size', 'ndim',
                    'l1_alpha', '_lipschitz', 'delta'])
SCALAR_SYMS = set(['coef', 'lagrange', 'bound', 'lipschitz', 'np.pi', 'np.e', 'inf', 'tol', 'nan'])
ELEMENTWISE = set(['exp', 'log', 'abs', 'Phi', 'phi', 'sin', 'cos', 'tanh', 'gammaln', 'Gamma',
                   'round', 'floor', 'ceil', 'isnan', 'isfinite', 'Phiinv'])


def is_scalar(t):
    if t._sc is None:
        t._sc = _is_scalar(t)
    return t._sc


def _is_scalar(t):
    op = t.op
    if op in ('num', 'const'):
        return True
    if op == 'sym':
        return t.args[0] in SCALAR_SYMS or t.args[0].startswith('s_')
    if op == 'attr':
        return t.args[1] in SCALAR_NAMES
    if op == 'red':
        return True
    if op in ('norm', 'F', 'N', 'idx', 'len', 'wt'):
        return True
    if op == 'loopsum':
        return is_scalar(t.args[1])
    if op == 'poly':
        return all(is_scalar(a) for m, c in t.args[0] for a, e in m)
    if op in ('gt0', 'eq0', 'powbase'):
        return is_scalar(t.args[0])
    if op == 'bool':
        return t.args[0].op in ('isnone', 'isinstance', 'eq', 'is', 'in', 'hasattr', 'issparse', 'cmp', 'seqeq',
                                'red', 'allclose', 'loopret')
    if op == 'elem':
        # an element of a vector is a number
        return t.args[1].op == 'attr' and t.args[1].args[1] in ('weights', 'bounds', 'lagranges')
    if op == 'fn':
        return t.args[0] in ELEMENTWISE and all(is_scalar(a) for a in t.args[1:])
    if op == 'ite':
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    return False


# ------------------------------------------------------------- reductions

def red(kind, t):
    """full reduction: kind in sum,max,min,mean,any,all"""
    if kind == 'sum':
        if is_scalar(t) and t.op == 'num':
            if t is ZERO:
                return ZERO
            return mul(t, mk('size'))
        out = ZERO
        for m, c in poly_items(t):
            sc, ve = [], []
            for a, e in m:
                (sc if is_scalar(a) else ve).append((a, e))
            if not ve:
                out = add(out, scale(mul(_mono_term(tuple(sc)) if sc else ONE, mk('size')), c))
                continue
            v = _mono_term(tuple(ve))
            if v.op == 'listcomp':
                atom = loopsum(v.args[0], red('sum', v.args[1]))
            else:
                atom = mk('red', 'sum', v)
            out = add(out, scale(mul(_mono_term(tuple(sc)) if sc else ONE, atom), c))
        return out
    if kind in ('any', 'all', 'max', 'min') and is_scalar(t):
        return t
    if kind == 'min':
        return neg(red('max', neg(t)))
    if kind == 'max':
        # pull positive scalar factors
        items = poly_items(t)
        if len(items) == 1:
            m, c = items[0]
            sc = [(a, e) for a, e in m if is_scalar(a) and is_nonneg(a)]
            ve = [(a, e) for a, e in m if not (is_scalar(a) and is_nonneg(a))]
            k = abs(c)
            if sc or k != 1:
                return scale(mul(_mono_term(tuple(sc)) if sc else ONE,
                                 red('max', scale(_mono_term(tuple(ve)), c / k))), k)
        return mk('red', 'max', t)
    if kind == 'all':
        return sub(ONE, red('any', notb(t)))
    if kind == 'any':
        t = boolean(t)
        return mk('bool', mk('red', 'any', t))
    return mk('red', kind, t)


def loopsum(key, t):
    """sum over the iterations of an abstract loop"""
    out = ZERO
    for m, c in poly_items(t):
        inv, var = [], []
        for a, e in m:
            (var if mentions_loop(a, key) else inv).append((a, e))
        v = _mono_term(tuple(var)) if var else ONE
        out = add(out, scale(mul(_mono_term(tuple(inv)) if inv else ONE, mk('loopsum', key, v)), c))
    return out


def norm2(t):
    """euclidean norm"""
    return power(red('sum', power(t, 2)), Fraction(1, 2))


# ------------------------------------------------------------- traversal

def subterms(t, seen=None):
    if seen is None:
        seen = {}
    if t.id in seen:
        return seen
    seen[t.id] = t
    for ch in children(t):
        subterms(ch, seen)
    return seen


def children(t):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, Term):
                yield a
            elif isinstance(a, tuple):
                for x in _walk_tuple(a):
                    yield x


def _walk_tuple(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in _walk_tuple(x):
                yield y


def syms(t):
    if t._syms is None:
        s = set()
        if t.op == 'sym':
            s.add(t)
        elif t.op == 'attr':
            s.add(t)
        for ch in children(t):
            s |= syms(ch)
        t._syms = frozenset(s)
    return t._syms


def mentions(t, pred):
    return any(pred(s) for s in subterms(t).values())


def contains(t, u):
    return u.id in subterms(t)


def mentions_loop(t, key):
    return any(s.op in ('elem', 'idx') and s.args[0] == key for s in subterms(t).values())


def rebuild(t, f):
    """apply f to children and rebuild through the smart constructors"""
    op = t.op
    if op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            r = num(c)
            for a, e in m:
                r = mul(r, power(f(a), e))
            out = add(out, r)
        return out
    if op in ('num', 'const', 'sym'):
        return t
    args = [f(a) if isinstance(a, Term) else (_map_tuple(a, f) if isinstance(a, tuple) else a)
            for a in t.args]
    return remake(op, args)


def _map_tuple(a, f):
    return tuple(f(x) if isinstance(x, Term) else (_map_tuple(x, f) if isinstance(x, tuple) else x)
                 for x in a)


def remake(op, args):
    if op == 'fn':
        if args[0] == 'abs':
            return absv(args[1])
        return fn(*args)
    if op == 'red':
        return red(args[0], args[1])
    if op == 'gt0':
        return gt0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'powbase':
        return args[0]
    if op == 'loopsum':
        return loopsum(args[0], args[1])
    if op == 'bool':
        a = args[0]
        if a.op == 'red' and a.args[0] == 'any':
            return mk('bool', a)
        return boolean(a)
    if op == 'ite':
        return ite(*args)
    if op in LINEAR_OPS:
        return linop(op, *args)
    return mk(op, *args)


# operators linear in their last argument: L(T,x), Lt(T,x), ...
LINEAR_OPS = {'scatter': 1, 'L': 1, 'Lt': 1, 'sumax': 1, 'getitem': 0, 'reshape': 0, 'cumsum': 0, 'elemof': 0}


def linop(op, *args):
    """normalise an operator that is linear in one argument"""
    pos = LINEAR_OPS[op]
    x = args[pos]
    out = ZERO
    for m, c in poly_items(x):
        sc, ve = [], []
        for a, e in m:
            (sc if is_scalar(a) else ve).append((a, e))
        if not m or not ve:
            # scalar constant: broadcast; keep opaque
            v = _mono_term(m) if m else ONE
            if op in ('getitem', 'reshape', 'elemof') and not ve:
                out = add(out, scale(v, c))
                continue
            aa = list(args)
            aa[pos] = v
            out = add(out, scale(mk(op, *aa), c))
            continue
        aa = list(args)
        aa[pos] = _mono_term(tuple(ve))
        if op == 'getitem' and len(ve) > 1 or (op == 'getitem' and ve[0][1] != 1):
            # indexing distributes over products
            r = ONE
            for a, e in ve:
                bb = list(args)
                bb[pos] = a
                r = mul(r, power(mk(op, *bb), e))
        else:
            r = mk(op, *aa)
        out = add(out, scale(mul(_mono_term(tuple(sc)) if sc else ONE, r), c))
    return out


def ite(c, a, b):
    """gated phi: c is a boolean term"""
    if a is b:
        return a
    if c is TRUE or c is ONE:
        return a
    if c is FALSE or c is ZERO:
        return b
    # polarity
    if c.op == 'poly':
        n = notb(c)
        if n.op in IDEMP:
            return ite(n, b, a)
    # nested with the same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # if (s == k): A else B   with B[s:=k] == A   ->  B
    if c.op == 'eq0':
        try:
            if _agree_under(c.args[0], a, b):
                return b
        except RecursionError:
            pass
    if is_arith(a) and is_arith(b) and (c.op in IDEMP or c.op == 'poly') and is_scalar_cond(c):
        if c.op in IDEMP:
            # each side is only used where the condition has that value
            a, b = under(a, c, ONE), under(b, c, ZERO)
        return where(c, a, b)
    return mk('ite', c, a, b)


def is_scalar_cond(c):
    return True


NONARITH = set(['const', 'tuple', 'list', 'dict', 'obj', 'class', 'func', 'undef', 'slice', 'fstr', 'closure'])


def is_arith(t):
    return t.op not in NONARITH and not (t.op == 'ite' and not (is_arith(t.args[1]) and is_arith(t.args[2])))


def _agree_under(p, a, b):
    """p == 0 implies a == b ?  (p linear in some atom)"""
    for m, c in poly_items(p):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('attr', 'sym'):
            x = m[0][0]
            rest = sub(p, scale(x, c))
            if contains(rest, x):
                continue
            val = scale(rest, -1 / c)
            if substitute(b, x, val) is substitute(a, x, val):
                return True
    return False


def substitute(t, x, val):
    return subst_fn(t, lambda a: val if a is x else None)


BINDERS = ('loopvar', 'looplast', 'loopsum', 'loopset', 'listcomp')


def under(t, c, val):
    """t where the condition c has a value; inside a loop over the same range c is another condition"""
    if not contains(t, c):
        return t
    keys = set()
    mentions(c, lambda u: u.op in ('idx', 'phi', 'elem') and keys.add(u.args[0]))
    return subst_fn(t, lambda u: val if u is c else u if keys and u.op in BINDERS and u.args[0] in keys else None)


def subst_fn(t, f, memo=None):
    if memo is None:
        memo = {}

    def go(u):
        if u.id in memo:
            return memo[u.id]
        r = f(u)
        if r is None:
            r = rebuild(u, go)
        else:
            if r is not u and u.op == 'fn' and u.args[0] == 'abs':
                r = go2(r, u)
        memo[u.id] = r
        return r

    def go2(r, u):
        return r
    return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=6):
    if depth == 0:
        return '..'
    if t is None:
        return '?'
    op = t.op
    if op == 'num':
        c = t.args[0]
        if c.denominator == 1:
            return str(c.numerator)
        if c.denominator <= 1000:
            return '%d/%d' % (c.numerator, c.denominator)
        return '%.6g' % float(c)
    if op == 'const':
        return t.args[1]
    if op == 'sym':
        return t.args[0]
    if op == 'attr':
        return '%s.%s' % (show(t.args[0], depth - 1), t.args[1])
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                s = show(a, depth - 1)
                if a.op == 'poly':
                    s = '(' + s + ')'
                if e != 1:
                    s += '^' + (str(e) if e > 0 and e.denominator == 1 else '(%s)' % e)
                fs.append(s)
            if c == -1 and fs:
                out.append('-' + '*'.join(fs))
            elif c == 1 and fs:
                out.append('*'.join(fs))
            else:
                out.append('*'.join([show(num(c))] + fs))
        return ' + '.join(out).replace('+ -', '- ')
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth - 1) for a in t.args[1:]))
    if op == 'gt0':
        return '[%s > 0]' % show(t.args[0], depth - 1)
    if op == 'eq0':
        return '[%s == 0]' % show(t.args[0], depth - 1)
    if op == 'red':
        return '%s(%s)' % (t.args[0], show(t.args[1], depth - 1))
    return '%s(%s)' % (op, ', '.join(show(a, depth - 1) if isinstance(a, Term) else
                                     (_show_tuple(a, depth - 1) if isinstance(a, tuple) else str(a))
                                     for a in t.args))


def _show_tuple(a, depth):
    return '(' + ', '.join(show(x, depth) if isinstance(x, Term) else
                           (_show_tuple(x, depth) if isinstance(x, tuple) else str(x)) for x in a) + ')'


# ------------------------------------------------- zero test by clearing denominators

def clear(t, rounds=6):
    """expand indicator/abs and clear sum-denominators; returns a poly that is
    zero iff t is (where defined)"""
    t = expand_abs(t)
    for _ in range(rounds):
        neg_e = {}
        pos = False
        for m, c in poly_items(t):
            for a, e in m:
                if a.op == 'poly' and e.denominator == 1:
                    if e < 0:
                        neg_e[a] = min(neg_e.get(a, 0), e)
                    else:
                        pos = True
        if not neg_e and not pos:
            return t
        mlt = _mono_term(tuple(sorted(((a, -e) for a, e in neg_e.items()), key=lambda x: x[0].id))) if neg_e else ONE
        out = ZERO
        for m, c in poly_items(t):
            mm = dict(m)
            for a, e in neg_e.items():
                mm[a] = mm.get(a, 0) - e
            r = num(c)
            base = tuple(sorted(((a, e) for a, e in mm.items()
                                 if e != 0 and not (a.op == 'poly' and e > 0 and e.denominator == 1)),
                                key=lambda x: x[0].id))
            if base:
                r = mul(r, _mono_term(base))
            for a, e in mm.items():
                if a.op == 'poly' and e > 0 and e.denominator == 1:
                    for _i in range(int(e)):
                        r = _mul2(r, a)
            out = add(out, r)
        t = out
    return t


def equal(a, b):
    """normal-form equality"""
    if a is b:
        return True
    if not (is_arith(a) and is_arith(b)):
        return False
    d = sub(a, b)
    if d is ZERO:
        return True
    try:
        return clear(d) is ZERO
    except (RecursionError, OverflowError, ZeroDivisionError):
        return False


# ---------------------------------------------- random interpretation (alarm filter)

class _Undef(Exception):
    pass


N = 3
_CTX = decimal.Context(prec=50, Emax=999999, Emin=-999999)
D = decimal.Decimal
_ZERO, _ONE = D(0), D(1)
_ERR = (decimal.DecimalException, ValueError, OverflowError, ZeroDivisionError, RecursionError)


def _h(*xs):
    s = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(s[:7], 'big') / float(1 << 56)


class Interp(object):
    """random interpretation of a value graph in 50-digit arithmetic.  Vectors have
    N entries; uninterpreted operators are random functions of their (rounded)
    arguments.  scale: 0 - values of order one; 1 - values of mixed moderate
    magnitude; 2 - also values of several hundred."""

    def __init__(self, seed, mag=0):
        self.seed = seed
        self.mag = mag
        self.memo = {}
        self.uninterpreted = set()

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._ev(t)
            for x in (r if isinstance(r, list) else [r]):
                if not x.is_finite():
                    raise _Undef()
            self.memo[t.id] = r
        return r

    def lift(self, f, *vs):
        if any(isinstance(v, list) for v in vs):
            return [f(*[v[i] if isinstance(v, list) else v for v in vs]) for i in range(N)]
        return f(*vs)

    def rnd(self, t, key, positive, scalar):
        def one(i):
            u = _h(self.seed, key, i)
            if self.mag:
                # log-uniform magnitude
                e = _h(self.seed, key, i, 'e')
                m = 10 ** (-2.6 + (3.4 if self.mag == 1 else 5.2) * e)
                if positive or u < 0.5:
                    return D(m)
                return D(-m)
            if positive:
                return D(0.2 + 1.6 * u)
            return D(-1.7 + 3.4 * u)
        if scalar:
            return one(0)
        return [one(i) for i in range(N)]

    def _ev(self, t):
        op = t.op
        if op == 'num':
            q = t.args[0]
            return D(q.numerator) / D(q.denominator)
        if op == 'sym' or op == 'attr':
            if op == 'sym' and t.args[0] == 'np.pi':
                return _PI
            if op == 'sym' and t.args[0] == 'inf':
                return D('1e100')
            return self.rnd(t, show(t), is_nonneg(t), is_scalar(t))
        if op == 'size':
            return D(N)
        if op == 'poly':
            tot = _ZERO
            for m, c in t.args[0]:
                v = D(c.numerator) / D(c.denominator)
                for a, e in m:
                    x = self.ev(a)

                    def pw(b, e=e):
                        if e.denominator == 1:
                            if b == 0 and e < 0:
                                raise _Undef()
                            return b ** int(e)
                        if b < 0 or (b == 0 and e < 0):
                            raise _Undef()
                        return b ** (D(e.numerator) / D(e.denominator))
                    v = self.lift(lambda p, q: p * q, v, self.lift(pw, x))
                tot = self.lift(lambda p, q: p + q, tot, v)
            return tot
        if op == 'powbase':
            return self.ev(t.args[0])
        if op == 'pow':
            q = Fraction(t.args[1])
            e = D(q.numerator) / D(q.denominator)

            def pw(b):
                if b < 0 or (b == 0 and e < 0):
                    raise _Undef()
                return b ** e
            return self.lift(pw, self.ev(t.args[0]))
        if op == 'fn':
            f = _FNS.get(t.args[0])
            if f is not None:
                return self.lift(f, *[self.ev(a) for a in t.args[1:]])
        if op == 'gt0':
            return self.lift(lambda p: _ONE if p > 0 else _ZERO, self.ev(t.args[0]))
        if op == 'eq0':
            return self.lift(lambda p: _ONE if abs(p) < D('1e-25') else _ZERO, self.ev(t.args[0]))
        if op == 'bool':
            return self.lift(lambda p: _ONE if p != 0 else _ZERO, self.ev(t.args[0]))
        if op == 'red':
            v = self.ev(t.args[1])
            if not isinstance(v, list):
                v = [v] * N
            k = t.args[0]
            if k == 'sum':
                return sum(v, _ZERO)
            if k == 'mean':
                return sum(v, _ZERO) / D(N)
            if k == 'max':
                return max(v)
            if k == 'min':
                return min(v)
            if k == 'any':
                return _ONE if any(x != 0 for x in v) else _ZERO
            if k == 'all':
                return _ONE if all(x != 0 for x in v) else _ZERO
        if op == 'ite':
            c = self.ev(t.args[0])
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            return self.lift(lambda p, q, r: q if p != 0 else r, c, a, b)
        if op == 'cumsum':
            v = self.ev(t.args[0])
            if isinstance(v, list):
                o, s = [], _ZERO
                for x in v:
                    s += x
                    o.append(s)
                return o
        # uninterpreted
        self.uninterpreted.add(t)
        key = [op]
        for a in t.args:
            if isinstance(a, Term):
                key.append(self._key(a))
            elif isinstance(a, tuple):
                key.append(repr(tuple(self._key(x) if isinstance(x, Term) else str(x) for x in _flat(a))))
            else:
                key.append(str(a))
        return self.rnd(t, repr(key), is_nonneg(t), is_scalar(t))

    def _key(self, a):
        if a.op in NONARITH or a.op == 'const':
            return show(a, 12)
        v = self.ev(a)
        if isinstance(v, list):
            return tuple(_rd(x) for x in v)
        return _rd(v)


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            for y in _flat(x):
                yield y
        else:
            yield x


def _rd(x):
    return '%.12g' % x if isinstance(x, D) else x


_PI = D('3.14159265358979323846264338327950288419716939937510582')


def _phi(x):
    return (-x * x / 2).exp() / (2 * _PI).sqrt()


def _ndtr(x):
    """normal distribution function: alternating-free Taylor series, continued
    fraction in the tails"""
    if abs(x) > 40:
        raise _Undef()
    if abs(x) < 7:
        s = t = x
        k = 1
        while t != 0 and abs(t) > abs(s) * D('1e-55'):
            k += 2
            t = t * x * x / k
            s += t
        return D('0.5') + s * _phi(x)
    a = abs(x)
    f = a
    for k in range(160, 0, -1):
        f = a + D(k) / f
    q = _phi(a) / f
    return q if x < 0 else 1 - q


def _viaf(f):
    return lambda x: D(f(float(x)))


_FNS = {'exp': lambda x: x.exp(), 'log': lambda x: x.ln(), 'abs': abs, 'Phi': _ndtr, 'phi': _phi,
        'sin': _viaf(math.sin), 'cos': _viaf(math.cos), 'tanh': _viaf(math.tanh), 'gammaln': _viaf(math.lgamma),
        'floor': _viaf(math.floor), 'ceil': _viaf(math.ceil), 'isnan': lambda x: _ZERO, 'isfinite': lambda x: _ONE}

SEEDS = [(0, s) for s in range(6)] + [(1, s) for s in range(10)]
WIDE = SEEDS + [(2, s) for s in range(12)]


def separated(a, b, wide=False, tol=D('1e-9')):
    """'same' (equal normal forms) | 'agree' (normal forms differ but no
    interpretation tells them apart: undecided) | 'diff' | 'unknown'.
    diff only when the two graphs are told apart and both sides use the same
    uninterpreted operators (so the difference is expressed in a common
    vocabulary)."""
    if equal(a, b):
        return 'same'
    agree = disagree = 0
    ua, ub = set(), set()
    with decimal.localcontext(_CTX):
        for m, s in (WIDE if wide else SEEDS):
            ia, ib = Interp(s, m), Interp(s, m)
            try:
                va, vb = ia.ev(a), ib.ev(b)
                la = va if isinstance(va, list) else [va] * N
                lb = vb if isinstance(vb, list) else [vb] * N
                ok = all(abs(x - y) <= tol * (D('1e-20') + abs(x) + abs(y)) for x, y in zip(la, lb))
            except _ERR + (_Undef,):
                continue
            ua |= ia.uninterpreted
            ub |= ib.uninterpreted
            if ok:
                agree += 1
            else:
                disagree += 1
    if agree + disagree == 0:
        return 'unknown'
    if disagree == 0:
        return 'agree'
    ka = set(_vocab(t) for t in ua) - set([None])
    kb = set(_vocab(t) for t in ub) - set([None])
    return 'diff' if ka == kb else 'unknown'


# operators whose meaning is part of the rules' vocabulary: a term with one of them
# and a term without it may be told apart; anything else uninterpreted is opaque
KNOWN_OPS = set(['L', 'Lt', 'A', 'F', 'G', 'N', 'FG', 'size'])


def _vocab(t):
    if t.op in KNOWN_OPS:
        return None
    if t.op in ('call', 'mcall') and t.args and isinstance(t.args[0], Term):
        return (t.op, show(t.args[0], 4) if t.args[0].op in ('ext', 'const', 'func', 'class') else '')
    return (t.op,) + tuple(x for x in t.args[:1] if isinstance(x, str))
