"""Atoms (seminorms, constraints, cones): closed forms of values and proximal maps,
Moreau's identity between conjugate pairs, constraint/seminorm agreement, the
recentring of proximal problems, and conjugates.

Value graphs are compared as piecewise polynomials (sa/cells.py): every cell of the
arrangement of their comparisons must carry the same polynomial."""
import ast
from fractions import Fraction
from .. import terms as T, cells
from ..terms import mk, num, sym, ZERO, ONE, add, sub, mul, div, neg, power
from ..check import OK, BAD, UND
from ..absint import Giveup, Ob, C, A, getitem_term

X = sym('x')
SELF = sym('self')
LAM, LIPS, BND = sym('s_lam++'), sym('s_lips++'), sym('s_bnd++')
NONNULL = ['s_lam++', 's_lips++', 's_bnd++', 's_step++']
STEP = sym('s_step++')
LAML = mul(STEP, LIPS)          # the multiplier given to lagrange_prox: step size = LAML / LIPS
INF = sym('inf')
W, INVW = mk('attr', SELF, 'weights'), mk('attr', SELF, 'invweights')
TOL = Fraction(1, 4)            # constraints are analysed with this tolerance


def where_(f):
    return f.where


# ---------------------------------------------------------------- kernels
FIND = 'regreg.atoms.piecewise_linear.find_solution_piecewise_linear'
PROJ = 'regreg.atoms.projl1_cython.projl1'
EPI = 'regreg.atoms.projl1_cython.projl1_epigraph'


def callee(t):
    if t.op == 'call' and t.args[0].op == 'ext':
        return t.args[0].args[0]
    return None


class Kernels:
    """names for the root c >= 0 of  sum_i (|v_i| - c w_i)_+ = b  (entries equal to 0
    do not matter, so a selection v[m] is the same as v*m)"""

    def __init__(self):
        self.known = []         # (args tuple, symbol)

    def cut(self, b, v, w=None):
        v = absmask(v)
        if w is not None:
            w = absmask(w)
        args = (b, v) if w is None else (b, v, w)
        for k, s in self.known:
            if not isinstance(k[0], str) and len(k) == len(args) and all(cells.same(p, q) == 'same' for p, q in zip(k, args)):
                return s
        s = sym('s_cut%d+' % len(self.known))
        self.known.append((args, s))
        return s

    def uncon(self, b, v):
        # root of sum (v_i - c)_+ = b; homogeneous: root(L b, L v) = L root(b, v)
        k = ONE
        if LIPS in set(T.subterms(v).values()):
            y = div(v, LIPS)
            if not T.contains(y, LIPS):
                b, v, k = div(b, LIPS), y, LIPS
        args = ('uncon', b, v)
        for q, s in self.known:
            if len(q) == 3 and q[0] == 'uncon' and cells.same(q[1], b) == 'same' and cells.same(q[2], v) == 'same':
                return mul(k, s)
        s = sym('s_cut%d' % len(self.known))
        self.known.append((args, s))
        return mul(k, s)

    def epigraph(self, v):
        """the projection of v on the l1 epigraph, in parts"""
        for q, s in self.known:
            if q[0] == 'epi' and cells.same(q[1], v) == 'same':
                break
        else:
            s = sym('s_cut%d' % len(self.known))
            self.known.append((('epi', v), s))
        return mk('setitem', mk('setitem', ZERO, LAST, s), HEAD, sym('v_head_' + s.args[0]))

    def canon(self, t):
        if t is None:
            return None

        def f(u):
            if u.op == 'call' and u.args[0].op == 'ext':
                n = u.args[0].args[0]
                a = u.args[1]
                if isinstance(a, T.Term):
                    a = a.args[0]
                if n in (FIND + '_c',) and len(a) >= 3 and a[1] is ZERO:
                    return self.cut(self.canon(a[0]), self.canon(a[2]))
                if n == FIND and len(a) >= 4 and a[1] is ZERO:
                    return self.cut(self.canon(a[0]), self.canon(a[2]), self.canon(a[3]))
                if n == FIND + '_uncon' and len(a) == 2:
                    return self.uncon(self.canon(a[0]), self.canon(a[1]))
                if n == EPI and len(a) == 1:
                    return self.epigraph(self.canon(a[0]))
                if n == PROJ and len(a) == 2:
                    v = self.canon(a[0])
                    c = self.cut(self.canon(a[1]), v)
                    # scattered at its mask by an assignment x[mask] = projl1(v[mask])
                    if v.op == 'getitem':
                        v = v.args[0]
                    return soft(v, c)
            return None
        return T.subst_fn(t, f)

    def apart(self, a, b):
        """may a difference between a and b be due to kernels applied to arguments
        that are equal for reasons out of reach?"""
        sa = {s for s in T.subterms(a).values() if is_cut(s)}
        sb = {s for s in T.subterms(b).values() if is_cut(s)}
        if sa == sb:
            return True
        by = {s: k for k, s in self.known}
        for p in sa - sb:
            for q in sb - sa:
                kp, kq = by.get(p), by.get(q)
                if kp is None or kq is None or len(kp) != len(kq):
                    return False
                if not any(isinstance(x, T.Term) and isinstance(y, T.Term) and T.separated(x, y) == 'diff' for x, y in zip(kp, kq)):
                    return False
        return bool(sa) == bool(sb) or not (sa and sb)


def absmask(v):
    """|v[m]| -> |v| * m"""
    def f(u):
        if u.op == 'getitem' and u.args[1].op in ('gt0', 'eq0', 'bool', 'poly'):
            return mul(T.subst_fn(u.args[0], f), u.args[1])
        return None
    v = T.subst_fn(v, f)
    return T.absv(v) if not v.op == 'bool' else v


KERN = [None]


def kern():
    if KERN[0] is None:
        KERN[0] = Kernels()
    return KERN[0]


def canon(t):
    if t is None:
        return None
    return kern().canon(t)


def cut(b, v, w=None):
    return kern().cut(b, v, w)


def verdict(a, b, assume=()):
    if a is None or b is None:
        return 'unknown'
    a, b = T.expand_abs(a) if False else a, b
    s = cells.compare(a, b, assume)
    if s == 'diff' and not kern().apart(a, b):
        return 'unknown'
    return s


# ------------------------------------------------------------- building blocks
def gt(a, b):
    return T.gt0(sub(a, b))


def pos(t):
    return T.maximum(t, ZERO)


def soft(x, t):
    return mul(T.sign(x), pos(sub(T.absv(x), t)))


def clip(x, lo, hi):
    return T.minimum(T.maximum(x, lo), hi)


def isfin(t):
    return T.boolean(mk('fn', 'isfinite', t))


def rows(t):
    return getitem_term(t, mk('tuple', (mk('slice', T.NONE, T.NONE, T.NONE), T.NONE)))


def rownorm():
    return power(T.linop('sumax', mk('axis', ONE), power(X, 2)), Fraction(1, 2))


# --------------------------------------------------------------------- running
ARGNAMES = ('arg', 'prox_arg', 'x', 'X', 'normX')


def params_for(f, arg=X, lam=LAM, lips=LIPS, bound=BND, cf=None):
    p = {}
    for n in f.params()[1:]:
        if n in ARGNAMES:
            p[n] = arg
        elif n == 'lagrange':
            p[n] = lam
        elif n == 'lipschitz':
            p[n] = lips
        elif n == 'bound':
            p[n] = bound
        elif n == 'check_feasibility':
            p[n] = bool(cf)
    return p


def result(ctx, c, m, rank2=(), tol=None, **kw):
    """(Func, canonical term or None)"""
    f = c.method(m)
    if f is None:
        return None, None

    def setup(I, st, selfv):
        if tol is not None:
            st.heap[(selfv.id, 'tol')] = C(num(tol))
    if m == 'lagrange_prox':
        kw.setdefault('lam', LAML)
    r = ctx.run(c, m, params_for(f, **kw), nonnull=NONNULL + ['_weights', 'weights', '_weight_array'], rank2=rank2, setup=setup)
    if r is None or r.value is None:
        return f, None
    try:
        return f, canon(spectral(r.term) if spectral_ok(c) else r.term)
    except (Giveup, RecursionError):
        return f, None


# matrices through their singular values: U diag(p) V' is represented by p, a function of D >= 0
SV_D = sym('v_D+')
SVD = 'numpy.linalg.svd'


def svd_part(u, k):
    return u.op == 'getitem' and u.args[1] is num(k) and callee(u.args[0]) == SVD


def factor(t, k):
    """t == (svd part k) * p with p free of the svd factors (columns of U and rows of
    V may be selected by a mask, which is then a factor of p)"""
    if svd_part(t, k):
        return ONE
    if t.op == 'getitem':
        idx = t.args[1]
        if idx.op == 'tuple' and k == 0:
            parts_ = idx.args if not isinstance(idx.args[0], tuple) else idx.args[0]
            if len(parts_) != 2 or parts_[0].op != 'slice':
                return None
            idx = parts_[1]
        p = factor(t.args[0], k)
        return None if p is None or idx.op in ('slice', 'tuple') else mul(p, unrow(idx))
    if t.op == 'poly':
        out = ZERO
        for m, c in T.poly_items(t):
            f, hit = num(c), 0
            for a, e in m:
                p = factor(a, k)
                if p is not None and e == 1:
                    f, hit = mul(f, p), hit + 1
                elif T.mentions(a, lambda u: svd_part(u, 0) or svd_part(u, 2)):
                    return None
                else:
                    f = mul(f, power(unrow(a), e))
            if hit != 1:
                return None
            out = add(out, f)
        return out
    return None


def unrow(t):
    """D[:, None] and D are the same coefficients"""
    def f(u):
        if svd_part(u, 1):
            return SV_D
        if u.op == 'getitem' and u.args[1].op == 'tuple':
            parts_ = u.args[1].args if not isinstance(u.args[1].args[0], tuple) else u.args[1].args[0]
            if len(parts_) == 2 and parts_[0].op == 'slice' and parts_[1] is T.NONE:
                return T.subst_fn(u.args[0], f)
        if u.op == 'getitem' and u.args[1].op in ('gt0', 'eq0', 'bool', 'poly') and \
                T.mentions(u.args[0], lambda w: svd_part(w, 1)):
            return T.subst_fn(u.args[0], f)     # only entries in the mask matter
        return None
    return T.subst_fn(t, f)


def spectral(t):
    def f(u):
        if u.op == 'L':
            a, b = u.args
            p, q = factor(a, 0), factor(b, 2)
            if p is not None and q is not None:
                return mul(p, q)
        return None
    return unrow(T.subst_fn(t, f))


def judge(obs, rule, cons, v, detail, where):
    if v == 'same':
        obs.add(rule, cons, OK, '', where)
    elif v == 'diff':
        obs.add(rule, cons, BAD, detail, where)
    else:
        obs.add(rule, cons, UND, detail[:160], where)


def atoms(ctx):
    return [c for c in ctx.model.all_classes() if any(b.qual == 'regreg.atoms.atom' for b in c.mro())]


def cname(c):
    return c.qual.replace('regreg.', '')


# --------------------------------------------------------- closed forms (A05)
def any_(b):
    return T.boolean(T.red('any', b))


def forms(c, two):
    """documented closed forms: {method: term}"""
    n = c.qual.replace('regreg.atoms.', '')
    X = SV_D if n.startswith('svd_norms.') else globals()['X']
    absx = T.absv(X)
    n2 = power(T.red('sum', power(X, 2)), Fraction(1, 2))
    S = {}
    k = kern()
    if n in ('seminorms.l1norm', 'block_norms.l1_l1', 'svd_norms.nuclear_norm'):
        S['seminorm'] = mul(LAM, T.red('sum', absx))
        S['lagrange_prox'] = soft(X, STEP)
        S['bound_prox'] = soft(X, cut(BND, absx))
    elif n in ('seminorms.supnorm', 'block_norms.linf_linf', 'svd_norms.operator_norm'):
        S['seminorm'] = mul(LAM, T.red('max', absx))
        S['lagrange_prox'] = mul(T.sign(X), T.minimum(absx, cut(STEP, absx)))
        S['bound_prox'] = clip(X, neg(BND), BND)
    elif n == 'seminorms.l2norm':
        S['seminorm'] = mul(LAM, n2)
        S['lagrange_prox'] = mul(T.gt0(sub(n2, STEP)), sub(X, div(mul(STEP, X), n2)))
        S['bound_prox'] = T.where(T.gt0(sub(n2, BND)), div(mul(BND, X), n2), X)
    elif n == 'seminorms.positive_part':
        S['seminorm'] = mul(LAM, T.red('sum', pos(X)))
        S['lagrange_prox'] = T.where(T.gt0(X), pos(sub(X, STEP)), X)
        S['bound_prox'] = T.where(T.gt0(X), pos(sub(X, cut(BND, pos(X)))), X)
    elif n == 'seminorms.constrained_max':
        S['seminorm'] = mul(LAM, T.red('max', X))
        S['lagrange_prox'] = mul(T.gt0(X), T.minimum(X, cut(STEP, pos(X))))
        S['bound_prox'] = clip(X, ZERO, BND)
    elif n == 'seminorms.constrained_positive_part':
        S['seminorm'] = mul(LAM, T.red('sum', pos(X)))
        S['lagrange_prox'] = pos(sub(X, STEP))
        S['bound_prox'] = mul(T.gt0(X), pos(sub(X, cut(BND, pos(X)))))
    elif n == 'seminorms.max_positive_part':
        S['seminorm'] = mul(LAM, T.red('max', pos(X)))
        S['lagrange_prox'] = T.where(T.gt0(X), T.minimum(X, cut(STEP, pos(X))), X)
        S['bound_prox'] = T.minimum(X, BND)
    elif n == 'weighted_atoms.l1norm':
        m = isfin(W)
        S['seminorm'] = mul(LAM, T.red('sum', mul(absx, W, m)))
        S['lagrange_prox'] = soft(X, mul(STEP, W))
        mm = mul(m, sub(ONE, T.eq0(W)))
        S['bound_prox'] = mul(m, soft(X, mul(W, cut(BND, mul(absx, mm), mul(W, mm)))))
    elif n == 'weighted_atoms.supnorm':
        S['bound_prox'] = clip(X, neg(mul(BND, INVW)), mul(BND, INVW))
    elif n == 'block_norms.l1_l2':
        r = rownorm()
        R = rows(r)
        S['seminorm'] = mul(LAM, T.red('sum', r))
        S['lagrange_prox'] = mul(T.gt0(sub(R, STEP)), sub(X, div(mul(STEP, X), R)))
        cc = cut(BND, r)
        S['bound_prox'] = mul(T.gt0(sub(R, cc)), sub(X, div(mul(cc, X), R)))
    elif n == 'block_norms.linf_l2':
        r = rownorm()
        R = rows(r)
        S['seminorm'] = mul(LAM, T.red('max', r))
        S['bound_prox'] = T.where(T.gt0(sub(R, BND)), div(mul(BND, X), R), X)
        cc = cut(STEP, r)
        S['lagrange_prox'] = T.where(T.gt0(sub(R, cc)), div(mul(cc, X), R), X)
    elif n == 'simplex.simplex_constraint':
        S['_basic_prox'] = pos(sub(X, k.uncon(ONE, X)))
    elif n == 'simplex.maximum':
        S['_basic_prox'] = T.minimum(X, k.uncon(power(LIPS, -1), X))
        S['constraint'] = ZERO
    elif n == 'cones.nonnegative':
        S['cone_prox'] = pos(X)
    elif n == 'cones.nonpositive':
        S['cone_prox'] = T.minimum(X, ZERO)
    elif n == 'cones.zero':
        S['cone_prox'] = X
        S['constraint'] = ZERO
    elif n == 'cones.zero_constraint':
        S['cone_prox'] = ZERO
    return S


def split_weights(a, b, assume=()):
    """weights may be infinite: compare where they are finite and where they are not"""
    fin = isfin(W)
    if not (T.contains(a, fin) or T.contains(b, fin)):
        return verdict(a, b, assume)
    out = []
    # the multiplier found by the root finder may be 0 (argument inside the ball): then 0 * inf must not appear
    for v, w, z in ((ONE, W, None), (ZERO, INF, None), (ZERO, INF, ZERO)):
        def at(t):
            return T.subst_fn(t, lambda u: v if u is fin else (w if u is W else ((z or u) if is_cut(u) else None)))
        out.append(verdict(at(a), at(b), assume))
    return 'diff' if 'diff' in out else ('unknown' if 'unknown' in out else 'same')


def is_cut(u):
    return u.op == 'sym' and u.args[0].startswith('s_cut')


LAST = num(-1)
HEAD = mk('slice', T.NONE, num(-1), T.NONE)


TWO = ('l1_l2', 'linf_l2')


def closed_forms(ctx, obs):
    for c in atoms(ctx):
        S = forms(c, c.name in TWO)
        for m, spec in sorted(S.items()):
            f, t = result(ctx, c, m, rank2=('x',) if c.name in TWO else ())
            if f is None:
                continue
            cons = cname(c) + '.' + m
            if t is None or spec is None:
                obs.add('closed-form', cons, UND, 'no value', f.where)
                continue
            t, spec = normal_rows(t), normal_rows(canon(spec))
            v = split_weights(t, spec, [rows(rownorm())] if c.name in TWO else ())
            judge(obs, 'closed-form', cons, v,
                  'computes %s ; the documented closed form is %s' % (T.show(t, 7), T.show(spec, 7)), f.where)


def normal_rows(t):
    """v[m][:, None] inside rows selected by m is v[:, None]"""
    def f(u):
        if u.op == 'getitem' and u.args[1].op == 'tuple' and u.args[0].op == 'getitem' and \
                u.args[0].args[1].op in ('gt0', 'poly', 'eq0'):
            return rows(u.args[0].args[0])
        if u.op == 'getitem' and u.args[1].op == 'tuple' and u.args[0].op == 'poly':
            return getitem_term(u.args[0], u.args[1])
        return None
    t = T.subst_fn(t, f)
    # a condition on rows used as a row mask of a matrix
    def g(u):
        if u.op in ('getitem', 'red', 'call', 'sumax', 'mcall'):
            return u
        if u.op == 'gt0' and T.mentions(u, lambda s: s.op == 'sumax') and not T.mentions(u, lambda s: s.op == 'getitem'):
            return rows(u)
        return None
    return name_rows(T.subst_fn(t, g))


# row norms of the argument, as a vector and as a column to be broadcast
RN, RNB = sym('v_rn++'), sym('v_rnb++')


def name_rows(t):
    base = T.linop('sumax', mk('axis', ONE), power(X, 2))
    g = {base: power(RN, 2)}
    for p in (rows(rownorm()), rows(base)):
        for m, c in T.poly_items(p):
            for a, e in m:
                g[a] = power(RNB, Fraction(2) if a is rows(base) else Fraction(1) / e)

    def f(u):
        if u in g:
            return g[u]
        return recut(u, name_rows) if is_cut(u) else None
    return T.subst_fn(t, f)



# ------------------------------------------------------------ conjugates (A03)
def self_quadratic(coef, center, linear, const, offset=None, bound_form=False):
    """setup: self.quadratic = coef/2 |x-center|^2 + linear.x + const, self.offset, and the
    Lagrange or the bound form"""
    def setup(I, st, selfv):
        iq = I.construct(I.iq, [value(I, st, coef), value(I, st, center), value(I, st, linear), value(I, st, const)],
                         {}, st, None)
        st.heap[(selfv.id, '_quadratic')] = iq
        st.heap[(selfv.id, '_offset')] = C(T.NONE) if offset is None else value(I, st, offset)
        for n in ('_bound', '_lagrange'):
            st.heap[(selfv.id, n)] = C(T.NONE) if (n == '_bound') != bound_form else C(BND if bound_form else LAM)
    return setup


def value(I, st, t):
    if t is None:
        return C(T.NONE)
    if T.is_scalar(t):
        return C(t)
    return I.newarr(st, t, frozenset())


VECS = ['v_center_self', 'v_linear_self', 'v_center_given', 'v_linear_given', 's_const_given']
V_LIN, V_OFF, S_CONST = sym('v_linear'), sym('v_offset'), sym('s_const')


def conjugate_object(ctx, c, bound_form=False):
    """the abstract object returned by get_conjugate for an atom without quadratic part"""
    f = c.method('get_conjugate')
    if f is None:
        return None, None, None
    r = ctx.run(c, 'get_conjugate', {}, setup=self_quadratic(ZERO, ZERO, V_LIN, S_CONST, V_OFF, bound_form),
                nonnull=NONNULL + ['linear_term', 'constant_term', 'center', 'coef', 'v_offset', 'v_linear', 's_const',
                                   'weights', '_weights'])
    if r is None or not isinstance(r.value, Ob):
        return f, r, None
    return f, r, r.value


def read(r, o, name):
    try:
        v = r.I.getattr(o, name, r.st)
        if isinstance(v, Ob):
            return v
        return r.I.term(v, r.st)
    except (Giveup, RecursionError):
        return None


def conjugates(ctx, obs):
    for c in atoms(ctx):
        f, r, o = conjugate_object(ctx, c)
        if f is None or abstract(c):
            continue
        cons = cname(c) + '.get_conjugate'
        if o is None or 'atom' not in [b.name for b in o.cls.mro()]:
            obs.add('conjugate', cons, UND, 'no abstract value', f.where)
            continue
        f2, r2, o2 = conjugate_object(ctx, o.cls)
        if o2 is None:
            obs.add('conjugate-pairing', cons, UND, '', f.where)
        else:
            obs.add('conjugate-pairing', cons, OK if o2.cls is c else BAD,
                    'the conjugate of the conjugate (%s) is a %s' % (o.cls.name, o2.cls.name), f.where)
        q = read(r, o, '_quadratic')
        want = [('offset', read(r, o, '_offset'), V_LIN)]
        if isinstance(q, Ob):
            cst = neg(add(S_CONST, T.red('sum', mul(V_OFF, V_LIN))))
            want += [('quadratic.coef', read(r, q, 'coef'), ZERO), ('quadratic.linear_term', read(r, q, 'linear_term'), V_OFF),
                     ('quadratic.constant_term', read(r, q, 'constant_term'), cst)]
        seminorm_like = read_has(c, 'lagrange')
        if seminorm_like:
            want += [('bound', read(r, o, '_bound'), LAM), ('lagrange', read(r, o, '_lagrange'), T.NONE)]
        if 'weighted_atoms' in c.qual:
            want += [('weights', read(r, o, 'weights'), INVW)]
        elif 'weights' in [p for p in (o.cls.method('__init__').params() if o.cls.method('__init__') else [])]:
            want += [('weights', read(r, o, 'weights'), W)]
        for what, got, spec in want:
            compare_attr(obs, 'conjugate', cons, what, got, spec, f)
        if seminorm_like:
            fb, rb, ob = conjugate_object(ctx, c, True)
            if ob is not None and 'atom' in [b.name for b in ob.cls.mro()]:
                for what, got, spec in (('lagrange', read(rb, ob, '_lagrange'), BND), ('bound', read(rb, ob, '_bound'), T.NONE)):
                    compare_attr(obs, 'conjugate', cons, what + ' (bound form)', got, spec, f)


def zero_offset(t):
    for _ in range(4):
        def f(u):
            z = zero_offset1(u) if u.op == 'ite' else u
            return None if z is u else z
        n = T.subst_fn(t, f)
        if n is t:
            break
        t = n
    return t


def zero_offset1(t):
    """an offset that is dropped when it is zero is that offset: ite(any(X != 0), X, None) -> X"""
    if t.op == 'ite' and len(t.args) == 3 and t.args[2] is T.NONE:
        c, x = t.args[0], t.args[1]
        if c.op == 'bool':
            c = c.args[0]
        if c.op == 'red' and c.args[0] == 'any' and T.is_arith(x) and c.args[1] in (T.notb(T.eq0(x)), T.notb(T.eq0(neg(x)))):
            return x
    return t


def compare_attr(obs, rule, cons, what, got, spec, f):
    if got is None or isinstance(got, Ob):
        obs.add(rule, cons, UND, what, f.where)
        return
    got = zero_offset(got)
    if got is spec or (T.is_arith(got) and T.is_arith(spec) and verdict(got, spec) == 'same'):
        obs.add(rule, cons, OK, what, f.where)
    elif (got is T.NONE) != (spec is T.NONE) and (got is T.NONE or T.is_arith(got)):
        obs.add(rule, cons, BAD, '%s of the conjugate is %s, expected %s' % (what, T.show(got, 5), T.show(spec, 5)), f.where)
    elif T.is_arith(got) and T.is_arith(spec) and verdict(got, spec) == 'diff':
        obs.add(rule, cons, BAD, '%s of the conjugate is %s, expected %s' % (what, T.show(got, 5), T.show(spec, 5)), f.where)
    else:
        obs.add(rule, cons, UND, '%s: %s' % (what, T.show(got, 4)), f.where)


def read_has(c, name):
    r = c.lookup(name)
    return bool(r and r[0] == 'prop')


def abstract(c):
    return c.name in ('atom', 'seminorm', 'cone', 'svd_atom', 'svd_cone', 'linear_constraint', 'group_lasso_cone', 'separable',
                      'mixed_lasso', 'mixed_lasso_dual')


# ---------------------------------------------------------------- Moreau (A01)
def swap_weights(t):
    return T.subst_fn(t, lambda u: INVW if u is W else (W if u is INVW else None))


def inverse_normal(t):
    """invweights = 1/weights with 1/0 = inf"""
    if t is None:
        return None

    def f(u):
        if u.op == 'fn' and u.args[0] == 'isfinite' and u.args[1] is INVW or \
                (u.op == 'bool' and u.args[0].op == 'fn' and u.args[0].args[0] == 'isfinite' and u.args[0].args[1] is INVW):
            return sub(ONE, T.eq0(W))
        if u.op == 'eq0' and u.args[0] is INVW:
            return sub(ONE, isfin(W))
        return None
    return T.subst_fn(t, f)


def moreau(ctx, obs):
    done = set()
    for c in atoms(ctx):
        if abstract(c):
            continue
        f, r, o = conjugate_object(ctx, c)
        if o is None or 'atom' not in [b.name for b in o.cls.mro()]:
            continue
        d = o.cls
        weighted = 'weighted_atoms' in c.qual
        if c.method('cone_prox') is not None and d.method('cone_prox') is not None:
            if (d, c) in done:
                continue
            done.add((c, d))
            steps = [('cone_prox', 'cone_prox')]
        elif c.method('lagrange_prox') is not None and d.method('bound_prox') is not None:
            steps = [('lagrange_prox', 'bound_prox')]
        elif c.method('_basic_prox') is not None and d.method('_basic_prox') is not None:
            if (d, c) in done:
                continue
            done.add((c, d))
            steps = [('_basic_prox', '_basic_prox')]
        else:
            continue
        for m1, m2 in steps:
            cons = '%s.%s + %s.%s' % (cname(c), m1, cname(d), m2)
            fixed = ctx_fixed(c)
            r2 = ('x',) if fixed else ()
            if m1 == '_basic_prox':
                # prox of f at v with step 1/L  +  (1/L) prox of f* at Lv with step L  =  v
                g1, t1 = basic(ctx, c, X, LIPS)
                g2, t2 = basic(ctx, d, mul(LIPS, X), power(LIPS, -1))
                t2 = None if t2 is None else div(t2, LIPS)
            else:
                g1, t1 = result(ctx, c, m1, rank2=r2)
                g2, t2 = result(ctx, d, m2, rank2=r2, bound=STEP)
            if t1 is None or t2 is None:
                obs.add('moreau', cons, UND, 'no value', (g1 or g2).where if (g1 or g2) else '')
                continue
            if weighted:
                t1 = recanon_weights(t1)
                t2 = recanon_weights(swap_weights_cut(t2))
            if not spectral_ok(c):
                t1, t2 = normal_rows(t1), normal_rows(t2)
            done_parts = parts(c, t1, t2)
            if done_parts is None:
                obs.add('moreau', cons, UND, 'not decomposed', g1.where)
                continue
            for what, a, b, x in done_parts:
                assume = [rows(rownorm())] if fixed and not spectral_ok(c) else ()
                tot = add(a, b)
                v = verdict(tot, x, assume)
                judge(obs, 'moreau', cons, v, 'the two proximal maps do not add up to the identity%s: sum is %s' %
                      (what, T.show(tot, 7)), g1.where)


def ctx_fixed(c):
    return c.name in TWO


def spectral_ok(c):
    return 'svd' in c.module.name


def basic(ctx, c, v, lips):
    f = c.method('_basic_prox')
    ps = f.params()
    r = ctx.run(c, '_basic_prox', {ps[1]: v, ps[2]: lips} if len(ps) > 2 else {ps[1]: v}, nonnull=NONNULL)
    if r is None or r.value is None:
        return f, None
    return f, canon(r.term)


def swap_weights_cut(t):
    return T.subst_fn(t, lambda u: INVW if u is W else (W if u is INVW else recut(u, swap_weights)))


def recut(u, g):
    """the cut symbol whose arguments are rewritten by g"""
    if is_cut(u):
        for k, s in kern().known:
            if s is u:
                if k[0] == 'uncon':
                    return kern().uncon(g(k[1]), g(k[2]))
                if k[0] == 'epi':
                    return component(kern().epigraph(g(k[1])), LAST)
                return kern().cut(*[g(x) for x in k])
    return None


def recanon_weights(t):
    def f(u):
        r = recut(u, inverse_normal)
        return r
    return T.subst_fn(inverse_normal(t), f)


def component(t, idx):
    """t[idx] where idx is -1 or :-1, through assignments of these parts"""
    def f(u):
        if u.op == 'setitem':
            if u.args[1] is idx:
                return u.args[2]
            return component(u.args[0], idx)
        if u.op == 'poly':
            out = ZERO
            for m, c in T.poly_items(u):
                k = num(c)
                for a, e in m:
                    b = a if T.is_scalar(a) else component(a, idx)
                    if b is None:
                        return None
                    k = mul(k, power(b, e))
                out = add(out, k)
            return out
        if T.is_scalar(u):
            return u
        if u.op == 'ite':
            a, b = component(u.args[1], idx), component(u.args[2], idx)
            return None if a is None or b is None else T.ite(u.args[0], a, b)
        return getitem_term(u, idx)
    return f(t)


S_LAST, V_HEAD = sym('s_last'), sym('v_head')


def name_parts(t):
    g = {getitem_term(X, LAST): S_LAST, getitem_term(X, HEAD): V_HEAD}

    def f(u):
        if u in g:
            return g[u]
        if u.op == 'getitem' and u.args[1] in (LAST, HEAD) and u.args[0].op in ('setitem', 'poly'):
            r = component(u.args[0], u.args[1])
            return None if r is None or r is u else T.subst_fn(r, f)
        return None
    return T.subst_fn(t, f)


def has_parts(t):
    return T.mentions(t, lambda u: u.op == 'setitem' and u.args[1] in (LAST, HEAD))


def parts(c, a, b):
    if has_parts(a) or has_parts(b):
        out = []
        a, b = name_parts(a), name_parts(b)
        for what, i in ((' (norm coordinate)', LAST), (' (coefficients)', HEAD)):
            p, q = component(a, i), component(b, i)
            if p is None or q is None:
                return None
            p, q = name_parts(p), name_parts(q)
            out.append((what, p, q, S_LAST if i is LAST else SV_D if spectral_ok(c) else V_HEAD))
        return out
    return [('', a, b, SV_D if spectral_ok(c) else X)]


# -------------------------------------------------- constraint vs seminorm (A04)
def norm2(v):
    return power(T.red('sum', power(v, 2)), Fraction(1, 2))


def cone_forms(n):
    """what must be <= 0 on the cone (at tolerance 0)"""
    last, head = getitem_term(X, LAST), getitem_term(X, HEAD)
    l1, linf, l2 = (lambda v: T.red('sum', T.absv(v))), (lambda v: T.red('max', T.absv(v))), norm2
    return {'cones.nonnegative': T.red('max', neg(X)), 'cones.nonpositive': T.red('max', X),
            'cones.zero_constraint': norm2(X),
            'cones.l2_epigraph': sub(l2(head), last), 'cones.l2_epigraph_polar': add(l2(head), last),
            'cones.l1_epigraph': sub(l1(head), last), 'cones.l1_epigraph_polar': add(linf(head), last),
            'cones.linf_epigraph': sub(linf(head), last), 'cones.linf_epigraph_polar': add(l1(head), last),
            'svd_norms.nuclear_norm_epigraph': sub(l1(SV_D), last), 'svd_norms.nuclear_norm_epigraph_polar': add(linf(SV_D), last),
            'svd_norms.operator_norm_epigraph': sub(linf(SV_D), last), 'svd_norms.operator_norm_epigraph_polar': add(l1(SV_D), last)}.get(n)


def constraints(ctx, obs):
    for c in atoms(ctx):
        f = c.method('constraint')
        if f is None or abstract(c):
            continue
        cons = cname(c) + '.constraint'
        if c.method('seminorm') is None or 'bound' not in f.params():
            cone_constraint(ctx, obs, c, f, cons)
            continue
        two = ('x',) if c.name in TWO else ()
        f, t = result(ctx, c, 'constraint', rank2=two, tol=TOL)
        if t is None:
            obs.add('constraint', cons, UND, 'no value', f.where)
            continue
        out = set()
        for cf in (True,):
            g, s = result(ctx, c, 'seminorm', rank2=two, lam=ONE, cf=cf, tol=TOL)
            if s is None:
                out.add('unknown')
                continue
            for k in (ONE, num(1 + TOL)):
                spec = mul(INF, T.gt0(sub(s, mul(k, BND))))
                out.add(named_verdict(normal_rows(t), normal_rows(spec)))
        v = 'same' if 'same' in out else ('diff' if out == {'diff'} else 'unknown')
        judge(obs, 'constraint', cons, v, 'is not 0 inside / inf outside the ball {seminorm <= bound}: %s' % T.show(t, 6), f.where)


def named_verdict(t, spec):
    """compare; if that is unknown, with the reductions and tests of the specification as symbols, provided that
    the constraint is built from no others"""
    v = split_weights(t, spec)
    if v != 'unknown':
        return v

    def opaque(u):
        return u.op == 'red' or (u.op == 'bool' and u.args[0].op == 'red')

    def tops(t):
        out = {}

        def f(u):
            if opaque(u):
                out[u] = 1
                return u
            return None
        T.subst_fn(t, f)
        return out
    known = tops(spec)
    if any(u not in known for u in tops(t)):
        return v
    g = {u: (T.gt0(sym('s_test%d' % i)) if u.op == 'bool' else sym('s_red%d' % i)) for i, u in enumerate(known)}
    a, b = (T.subst_fn(z, lambda u: g.get(u)) for z in (t, spec))
    return cells.compare(a, b)


def cone_constraint(ctx, obs, c, f, cons):
    spec = cone_forms(cname(c).replace('atoms.', ''))
    if spec is not None:
        f, t = result(ctx, c, 'constraint', tol=0)
        g, u = result(ctx, c, 'constraint', tol=TOL)
        if t is None or u is None:
            obs.add('constraint', cons, UND, 'no value', f.where)
            return
        judge(obs, 'constraint', cons, verdict(name_parts(t), name_parts(mul(INF, T.gt0(spec)))),
              'with tolerance 0 the constraint is %s, expected inf where %s > 0' % (T.show(t, 6), T.show(spec, 6)), f.where)
        inside = sub(ONE, T.gt0(spec))
        judge(obs, 'constraint', cons, verdict(name_parts(mul(inside, u)), ZERO), 'a positive tolerance excludes points of the cone: %s' % T.show(u, 6), f.where)
        return
    for m in ('cone_prox', '_basic_prox'):
        if c.method(m) is not None and cname(c) not in ('atoms.cones.zero', 'atoms.simplex.maximum'):
            g, p = result(ctx, c, 'cone_prox') if m == 'cone_prox' else basic(ctx, c, X, ONE)
            f, t = result(ctx, c, 'constraint', tol=TOL)
            if t is None or p is None:
                obs.add('constraint', cons, UND, 'no value', f.where)
                return
            gap = div(norm2(sub(X, p)), T.maximum(norm2(X), ONE))
            judge(obs, 'constraint', cons, verdict(t, mul(INF, T.gt0(sub(gap, num(TOL))))),
                  'is not 0 where the projection leaves the point unchanged, inf elsewhere: %s' % T.show(t, 7), f.where)
            return


# ------------------------------------------------------ proximal problem (A02)
PROXNAMES = ('lagrange_prox', 'bound_prox', 'cone_prox', '_basic_prox')
OWN = [mk('attr', SELF, '_offset'), mk('attr', SELF, 'offset')]


def proximals(ctx, obs):
    QS, TOT = sym('s_coef_self++'), sym('s_coef_total++')
    QG = sub(TOT, QS)
    CS, LS, KS = sym('v_center_self'), sym('v_linear_self'), sym('s_const_self')
    CG, LG, KG = sym('v_center_given'), sym('v_linear_given'), sym('s_const_given')
    for c in atoms(ctx):
        f = c.method('proximal')
        if f is None or abstract(c) or any(m in c.methods for m in ()):
            continue
        kind = [m for m in PROXNAMES if c.method(m) is not None]
        if not kind:
            continue
        cons = cname(c) + '.proximal'

        def given(I, st):
            return I.construct(I.iq, [C(QG), value(I, st, CG), value(I, st, LG), C(KG)], {}, st, None)
        for bound_form in ((False, True) if 'lagrange_prox' in kind else (False,)):
            r = ctx.run(c, 'proximal', {f.params()[1]: given}, setup=self_quadratic(QS, CS, LS, KS, V_OFF, bound_form),
                        no_inline=PROXNAMES, nonnull=NONNULL + ['linear_term', 'constant_term', 'center', 'coef', 'v_offset',
                                                               's_coef_self++', 's_coef_total++', 's_const_self'] + VECS)
            if r is None or r.value is None:
                obs.add('proximal', cons, UND, 'no value', f.where)
                continue
            t = r.term
            t = T.subst_fn(t, lambda u: ONE if u.op == 'bool' and u.args[0].op == 'red' and
                           T.contains(u, V_OFF) and not T.contains(u, X) and
                           T.mentions(u, lambda s: s.op == 'eq0') else None)
            tot = TOT
            arg = sub(div(sub(add(mul(QS, CS), mul(QG, CG)), add(LS, LG)), tot), V_OFF)
            calls = [u for u in T.subterms(t).values() if u.op == 'mcall' and u.args[0] in PROXNAMES]
            calls = [u for u in calls if not any(u is not w and T.contains(w, u) for w in calls)]
            want = 'bound_prox' if bound_form else kind[0] if 'lagrange_prox' not in kind else 'lagrange_prox'
            if len(calls) != 1:
                obs.add('proximal', cons, UND, '%d prox calls' % len(calls), f.where)
                continue
            u = calls[0]
            if u.args[0] != want:
                obs.add('proximal', cons, BAD, 'in %s form the proximal map calls %s' %
                        ('bound' if bound_form else 'lagrange', u.args[0]), f.where)
                continue
            judge(obs, 'proximal', cons, verdict(sub(t, u), V_OFF),
                  'the result is not the offset plus the prox of the recentred problem: %s' % T.show(t, 6), f.where)
            m = c.method(u.args[0])
            bound_args = bind(m, u)
            if bound_args is None:
                obs.add('proximal', cons, UND, 'arguments', f.where)
                continue
            names = m.params()
            exp = {names[1]: arg}
            if 'lipschitz' in names and u.args[0] in ('lagrange_prox', '_basic_prox'):
                exp['lipschitz'] = tot
            if u.args[0] == 'lagrange_prox':
                exp['lagrange'] = LAM
            if u.args[0] == 'bound_prox':
                exp['bound'] = BND
            for n, spec in sorted(exp.items()):
                got = bound_args.get(n)
                if got is None or got is T.NONE:
                    if n in ('lagrange', 'bound'):
                        obs.add('proximal', cons, OK, n + ' defaults to the atom', f.where)
                    elif n == 'lipschitz':
                        obs.add('proximal', cons, BAD, 'the prox is taken with lipschitz constant 1, not %s' % T.show(spec, 4), f.where)
                    else:
                        obs.add('proximal', cons, UND, n, f.where)
                    continue
                judge(obs, 'proximal', cons, verdict(got, spec), 'argument %s of %s is %s, expected %s' %
                      (n, u.args[0], T.show(got, 6), T.show(spec, 6)), f.where)


def bind(m, u):
    """names -> terms for an opaque method call"""
    names = m.params()[1:]
    a = u.args[2]
    kw = u.args[3]
    out = {}
    for n, v in zip(names, a):
        out[n] = v
    for k, v in kw:
        out[k] = v
    return out


def objectives(ctx, obs):
    QS, CS, LS, KS = sym('s_coef_self++'), sym('v_center_self'), sym('v_linear_self'), sym('s_const_self')
    quad = add(mul(num(Fraction(1, 2)), QS, T.red('sum', power(sub(X, CS), 2))), T.red('sum', mul(LS, X)), KS)
    for c in atoms(ctx):
        f = c.method('nonsmooth_objective')
        if f is None or abstract(c):
            continue
        base = 'seminorm' if c.method('seminorm') is not None else 'constraint'
        if c.method(base) is None:
            continue
        cons = cname(c) + '.nonsmooth_objective'
        for bound_form in ((False, True) if base == 'seminorm' else (False,)):
            for cf in (True, False):
                r = ctx.run(c, 'nonsmooth_objective', {f.params()[1]: X, 'check_feasibility': cf},
                            setup=self_quadratic(QS, CS, LS, KS, V_OFF, bound_form), no_inline=('seminorm', 'constraint'),
                            nonnull=NONNULL + ['linear_term', 'constant_term', 'center', 'coef', 'v_offset', 's_const_self',
                                               's_coef_self++'] + VECS)
                if r is None or r.value is None:
                    obs.add('objective', cons, UND, 'no value', f.where)
                    continue
                t = r.term
                calls = [u for u in T.subterms(t).values() if u.op == 'mcall' and u.args[0] in ('seminorm', 'constraint')]
                what = '%s form, check_feasibility=%s' % ('bound' if bound_form else 'lagrange', cf)
                need = 'constraint' if (bound_form or base == 'constraint') else 'seminorm'
                rest = t
                if c.name == 'maximum':
                    judge(obs, 'objective', cons, verdict(t, add(quad, T.red('max', sub(X, V_OFF)))),
                          'is not max(x - offset) + quadratic(x): %s' % T.show(t, 6), f.where)
                    continue
                if need == 'constraint' and not cf:
                    if calls and all(u.args[0] == 'constraint' for u in calls):
                        # a constraint evaluated although feasibility is not checked
                        obs.add('objective', cons, OK if base == 'constraint' else BAD,
                                'the constraint is charged without check_feasibility', f.where)
                        continue
                    judge(obs, 'objective', cons, verdict(t, quad), 'is not the quadratic part (%s): %s' % (what, T.show(t, 6)), f.where)
                    continue
                if len(calls) != 1:
                    if not calls and T.is_arith(t):
                        obs.add('objective', cons, BAD if verdict(t, quad) == 'same' else UND,
                                'the %s is not part of the objective (%s)' % (need, what), f.where)
                    else:
                        obs.add('objective', cons, UND, '%d calls' % len(calls), f.where)
                    continue
                u = calls[0]
                if u.args[0] != need:
                    obs.add('objective', cons, BAD, 'calls %s in %s' % (u.args[0], what), f.where)
                    continue
                judge(obs, 'objective', cons, verdict(sub(t, u), quad),
                      'is not %s(x - offset) + quadratic(x) (%s): %s' % (need, what, T.show(t, 6)), f.where)
                got = bind(c.method(need), u) or {}
                a0 = got.get(c.method(need).params()[1])
                judge(obs, 'objective', cons, verdict(a0, sub(X, V_OFF)) if a0 is not None else 'unknown',
                      '%s is evaluated at %s, not at x - offset' % (need, T.show(a0, 5) if a0 is not None else '?'), f.where)
                if need == 'seminorm' and 'check_feasibility' in c.method(need).params():
                    g = got.get('check_feasibility')
                    gv = bool(g is not None and (g is ONE or g is T.const(True)))
                    obs.add('objective', cons, OK if gv == cf else BAD,
                            'check_feasibility=%s is not passed on to the seminorm' % cf, f.where)


def proximal_all(ctx, obs):
    proximals(ctx, obs)
    objectives(ctx, obs)


PROPS = {
    'A01': dict(run=moreau, floor=18,
                rule="for every atom and the class its get_conjugate constructs: the Lagrange-form (or cone, or basic) proximal term plus the conjugate's "
                     "bound-form term, scaled, is the argument in every cell of the arrangement of their comparisons",
                assumptions=('the compiled root finders return the root documented for them and are functions of their arguments',
                             'ties (sets of measure zero) are not compared', 'numpy.linalg.svd returns orthonormal factors')),
    'A02': dict(run=proximal_all, floor=280,
                rule='proximal() calls exactly one proximal map of the right form, at the centre obtained by completing the square of the given plus the own quadratic, '
                     'with the total coefficient as lipschitz, and adds the offset back; nonsmooth_objective is the seminorm or constraint at x - offset plus the own quadratic',
                assumptions=('quadratic coefficients are positive',)),
    'A03': dict(run=conjugates, floor=180,
                rule='the object get_conjugate builds has the dual class, the exchanged lagrange / bound parameter, the quadratic and offset obtained by completing the square, '
                     'and the same shape and weights',
                assumptions=('the table of dual classes follows the documentation',)),
    'A04': dict(run=constraints, floor=30,
                rule='the constraint term is inf * [seminorm(lagrange=1) > k * bound] with k between 1 and 1 + tol',
                assumptions=('ties (sets of measure zero) are not compared',)),
    'A05': dict(run=closed_forms, floor=28,
                rule='the value / proximal term equals the documented closed form in every cell of the arrangement of their comparisons',
                assumptions=('the compiled root finders return the root documented for them and are functions of their arguments',
                             'ties (sets of measure zero) are not compared')),
}
