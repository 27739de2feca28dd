"""A06: the group lasso and mixed lasso atoms, from the compiled kernels up to the classes."""
import ast
from .. import terms as T, pyx, vector
from ..terms import mk, num, sym, const, ZERO, ONE, NONE
from ..check import OK, BAD, UND
from ..absint import getitem_term, C as Con, Ex, Tup, Dct
from ..lab import Lab, BOTTOM
from .r_compose import NN, find, where, run, judge, verdict, norm, subst
from .r_paths import by_name

KERNELS = 'regreg.atoms.mixed_lasso_cython'
CUTS = ('find_solution_piecewise_linear', 'find_solution_piecewise_linear_c')
X, C, G, W, N0, F0, P0 = [sym(n) for n in ('v_x', 'v_c', 'i_g', 'v_w+', 'v_n', 'v_f', 'v_p')]
L1S, UNP, POS, NNEG = SETS = [sym(n) for n in ('vi_l1', 'vi_un', 'vi_pp', 'vi_nn')]
EMPTY = sym('vi_empty')
LAM, LIP, BND, CUT, TT = sym('s_lam++'), sym('s_lip++'), sym('s_b++'), sym('s_cut+'), sym('s_t')
NORM = sym('v_norm+')
OFF = sym('v_o')
NG, WG = sym('v_ng+'), sym('v_wg+')
HEAD, LAST = mk('slice', NONE, num(-1), NONE), num(-1)
FAMILY = {'v_x': 'coordinates', 'i_g': 'coordinates', 'v_p': 'coordinates', 'v_w+': 'groups', 'v_n': 'groups', 'v_f': 'groups', 'v_norm+': 'groups'}
INSIDE = T.gt0(T.add(G, num(T.Fraction(1, 2))))          # coordinates in groups
TOP = sym('inf')
add, mul, sub, neg, div = T.add, T.mul, T.sub, T.neg, T.div

PARAMS = dict(prox_center=X, x=X, center=C, lagrange=LAM, bound=BND, lipschitz=LIP, l1_penalty=L1S, unpenalized=UNP,
              positive_part=POS, nonnegative=NNEG, groups=G, weights=W, norms=N0, factors=F0, projection=P0)


def bench(ctx, empty):
    """a Lab in which the index sets are all empty, or none of them is"""
    L = Lab(ctx, nonnull=NN + [s.args[0] for s in [X, C, G, W, N0, F0, P0, EMPTY, BND, LAM, LIP, OWN, OFF] + SETS])
    for x in (X, getitem_term(C, HEAD)):
        for s in SETS + [EMPTY]:
            sh = mk('attr', getitem_term(x, s), 'shape')
            for q in (sh, mk('call', mk('ext', 'builtins.tuple'), (sh,), ())):
                L.I.facts[mk('bool', mk('eq', q, mk('tuple', ())))] = False
                L.I.facts[mk('bool', mk('eq', q, mk('tuple', (ZERO,))))] = s is EMPTY
    mod = pyx.module(ctx.model, KERNELS)

    def native(I, name, args, kw, st, node):
        if name in ('numpy.int', 'numpy.bool', 'builtins.int', 'builtins.bool') and len(args) == 1 and isinstance(args[0], Con) and args[0].t in (T.TRUE, T.FALSE):
            return args[0]
        if mod is not None and name.startswith(KERNELS + '.'):
            f = mod.funcs.get(name[len(KERNELS) + 1:])
            if f is not None:
                return I.call_func(f, args, kw, st, node)
        return None
    L.I.natives = native
    return L, mod


class View(object):
    """what a kernel computes, at coordinates of every kind"""
    def __init__(self, obs, rule, n, w, t, empty=False):
        self.obs, self.rule, self.n, self.w, self.empty = obs, rule, n, w, empty
        self.cut = None
        self.t = None
        if t is BOTTOM:
            obs.add(rule, n, BAD, 'every path raises', w)
            return
        if t is None:
            obs.add(rule, n, UND, '', w)
            return
        t = subst(t, {getitem_term(C, HEAD): X, getitem_term(C, LAST): TT})
        loops = vector.Loops(FAMILY)
        try:
            t = loops.vec(t)
            loops.check()
        except vector.Odd as e:
            obs.add(rule, n, UND, str(e)[:300], w)
            return
        self.lengths(loops)
        self.t = self.named(t)

    def lengths(self, loops):
        for key, names in loops.lengths().items():
            r = key.args[1].args[0]
            if len(names) > 1:
                self.obs.add(self.rule, self.n, BAD, 'a loop over positions of %s' % ' and of '.join(sorted(names)), self.w)
                continue
            if not names:
                continue
            k = loops.vec(r[0]) if len(r) == 1 else None
            if k is not None and k.op == 'getitem' and k.args[0].op == 'attr' and k.args[0].args[1] == 'shape' and k.args[1] is ZERO:
                have = set()
                loops.length(k.args[0].args[0], have)
                self.obs.add(self.rule, self.n, OK if have == names else BAD if have else UND, 'a loop over %s of %s' % (', '.join(sorted(have)) or T.show(k, 4), ', '.join(names)), self.w)
            else:
                part = k is not None and T.is_arith(k) and k.op == 'poly'
                self.obs.add(self.rule, self.n, BAD if part or len(r) > 1 else UND, 'a loop over %s' % T.show(key.args[1], 4), self.w)

    def named(self, t):
        t = subst(t, {N0: ZERO, EMPTY: EMPTY}) if not self.flush else t
        if self.empty:
            t = drop(t)
        want = mul(X, X) if self.empty else mul(INSIDE, mul(X, X))

        def f(u):
            if u.op == 'gsum':
                a, b = subst(u.args[1], {INSIDE: ONE}) if self.empty else u.args[1], want
                v = verdict(a, b) if u.args[0] is G else 'diff'
                self.obs.add(self.rule, self.n, OK if v == 'same' else BAD if v == 'diff' else UND, 'norms of groups: sums of %s' % T.show(a, 5), self.w)
                return T.power(NORM, T.Fraction(2)) if v == 'same' else None
            return None
        t = T.subst_fn(t, f)
        calls = []
        T.mentions(t, lambda u: u.op == 'call' and u.args[0].op == 'ext' and u.args[0].args[0].split('.')[-1] in CUTS and u not in calls and calls.append(u))
        if len(calls) == 1:
            self.cut = calls[0]
            t = subst(t, {calls[0]: CUT})
        elif calls:
            self.obs.add(self.rule, self.n, UND, 'several cuts', self.w)
        return t

    flush = False

    def at(self, t, kind):
        """at the coordinates of groups (kind is None) or of an index set"""
        def f(u):
            if u.op == 'setitem':
                if u.args[1] is kind:
                    return self.at(u.args[2], kind)
                if u.args[1] in SETS:
                    return self.at(u.args[0], kind)
                return u
            if u is INSIDE:
                return ONE if kind is None else ZERO
            if kind is None:
                if u.op == 'getitem' and u.args[1] is G and u.args[0].op != 'sym':
                    return self.at(getitem_term(u.args[0], G), kind) if getitem_term(u.args[0], G) is not u else None
                return {getitem_term(NORM, G): NG, getitem_term(W, G): WG, getitem_term(CUT, G): CUT}.get(u)
            if u is X or u is P0:
                return mk('getitem', u, kind)
            if u.op == 'getitem' and (u.args[1] is kind):
                return u
            return None
        return T.subst_fn(t, f)

    def same(self, kind, want, what, zeros=(), give=None):
        if self.t is None:
            return
        t = self.at(self.t, kind)
        if give:
            t = subst(t, give)
        xk = X if kind is None else mk('getitem', X, kind)
        names = {xk: sym('v_xk')}
        zz = [[z if z is not xk else sym('v_xk') for z in zs] for zs in zeros]
        by_name(self.obs, self.rule, self.n, t, want, names, what, self.w, zz)

    def threshold(self, bound, slope, sets):
        """the cut is asked for the documented norms and weights"""
        if self.t is None:
            return
        if self.cut is None:
            self.obs.add(self.rule, self.n, UND, 'threshold', self.w)
            return
        a = self.cut.args[1]
        plain = self.cut.args[0].args[0].endswith('_c')
        if self.cut.args[2] or len(a) != (3 if plain else 4):
            self.obs.add(self.rule, self.n, UND, 'threshold', self.w)
            return
        judge(self.obs, self.rule, self.n, a[0], bound, 'threshold: bound', self.w)
        judge(self.obs, self.rule, self.n, a[1], num(slope), 'threshold: slope', self.w)
        got = blocks(a[2])
        wts = [(b, ONE) for b in got] if plain else weighted(got, a[3])
        if wts is None:
            self.obs.add(self.rule, self.n, UND, 'threshold: weights %s' % T.show(a[3], 5), self.w)
            return
        want = {'group norms': (NORM, W)}
        if sets:
            want['l1'] = (T.absv(mk('getitem', X, L1S)), ONE)
            x = mk('getitem', X, POS)
            want['positive part'] = (T.maximum(x, ZERO), ONE)
        left = list(wts)
        for what, (v, wt) in sorted(want.items()):
            hit = [(b, c) for b, c in left if same_sizes(b, v)]
            if hit:
                left.remove(hit[0])
                judge(self.obs, self.rule, self.n, hit[0][1], wt, 'threshold: weights of the ' + what, self.w)
            else:
                near = [b for b, c in left if T.is_arith(b) and mentions_same(b, v)]
                self.obs.add(self.rule, self.n, BAD if near or not left else UND, 'threshold: %s instead of the %s' % (T.show(near[0], 5) if near else 'nothing', what), self.w)
        extra = [b for b, c in left if not any(mentions_same(b, v) for v, _ in want.values())]
        if extra:
            self.obs.add(self.rule, self.n, UND, 'threshold: %s' % T.show(extra[0], 5), self.w)


def mentions_same(b, v):
    leaves = lambda t: {u for u in subs_(t) if u.op == 'getitem' and u.args[1] in SETS or u is NORM}
    return bool(leaves(b) & leaves(v))


def subs_(t):
    out = []
    T.mentions(t, lambda u: out.append(u) if u not in out else None)
    return out


def same_sizes(b, v):
    """the same up to zeros left out"""
    if verdict(b, v) == 'same':
        return True
    if b.op == 'getitem' and T.mentions(b.args[1], lambda u: u.op in ('gt0', 'eq0')):
        # where the mask is false the value is zero, where it is true they agree
        x = b.args[0]
        return verdict(mul(b.args[1], x), v) == 'same' or b.args[1] is T.notb(T.eq0(x)) and verdict(x, v) == 'same' or \
            x.op == 'fn' and b.args[1] is T.notb(T.eq0(x.args[1])) and verdict(x, v) == 'same'
    if b.op == 'fn' and b.args[0] == 'abs' and b.args[1].op == 'getitem' and b.args[1].args[0].op == 'getitem':
        return same_sizes(getitem_abs(b), v)
    return False


def getitem_abs(b):
    return mk('getitem', T.absv(b.args[1].args[0]), b.args[1].args[1])


def blocks(t):
    if t.op == 'stack' and t.args[1].op == 'list':
        return list(t.args[1].args[0])
    return [t]


def weighted(got, t):
    """weights of the blocks: ones, the first block's replaced"""
    q = {mk('slice', NONE, mk('getitem', mk('attr', v, 'shape'), ZERO), NONE) for v in (N0, W, NORM, ZERO)}
    if t.op == 'stack':
        b = blocks(t)
        return list(zip(got, b)) if len(b) == len(got) else None
    if t is W and len(got) == 1:
        return [(got[0], W)]
    if t.op == 'setitem' and t.args[0] is ONE and t.args[1] in q:
        return [(got[0], t.args[2])] + [(b, ONE) for b in got[1:]]
    return None


def drop(t):
    """empty selections"""
    def f(u):
        if u.op == 'setitem' and u.args[1] is EMPTY:
            return drop(u.args[0])
        if u.op == 'red' and u.args[0] == 'sum' and T.mentions(u.args[1], lambda v: v is EMPTY):
            return ZERO
        if u.op == 'list' and any(T.mentions(a, lambda v: v is EMPTY) for a in u.args[0]):
            return mk('list', tuple(drop(a) for a in u.args[0] if not T.mentions(a, lambda v: v is EMPTY)))
        if u is INSIDE:
            return ONE
        return None
    return T.subst_fn(t, f)


# ------------------------------------------------------------------ kernels
def kernel(ctx, obs, name, **over):
    L, mod = bench(ctx, False)
    f = mod.funcs[name] if mod is not None else None
    n = 'mixed_lasso_cython.' + name
    if f is None:
        raise KeyError(name)
    kw = {}
    for p in f.params():
        p = getattr(p, 'arg', p)
        if p in over:
            kw[p] = over[p]
        elif p in PARAMS:
            v = PARAMS[p]
            kw[p] = L.vec(v) if v.args[0][0] in 'vi' else v
    t = run(L, L.func(f, **kw))
    return View(obs, 'kernel', n, f.where, t)


def shrink(x, t):
    """what the projection on the interval [-t, t] leaves"""
    return sub(x, T.minimum(T.maximum(x, neg(t)), t))


def pieces(v, t, project=False):
    """proximal map with threshold t (or the projection on the dual ball of radius t)"""
    xk = lambda s: mk('getitem', X, s)
    out = (lambda p, x: p) if project else (lambda p, x: sub(x, p))
    fac = T.where(T.gt0(NG), T.minimum(ONE, div(mul(t, WG), NG)), ONE)
    v.same(None, out(mul(X, fac), X), 'groups', [[NG, X], [t], [WG]])
    x = xk(L1S)
    u = sym('v_u++')
    for sign, what in ((ONE, 'positive'), (neg(ONE), 'negative')):
        v.same(L1S, out(mul(sign, T.minimum(u, t)), mul(sign, u)), 'l1 coordinates, ' + what, give={x: mul(sign, u)})
    x = xk(UNP)
    v.same(UNP, out(ZERO, x), 'coordinates without penalty', [[t]])
    x = xk(POS)
    v.same(POS, out(T.minimum(x, t), x), 'positive part', [[x], [t]])
    x = xk(NNEG)
    v.same(NNEG, out(T.minimum(x, ZERO), x), 'nonnegative coordinates', [[x], [t]])


def kernels(ctx, obs):
    pieces(kernel(ctx, obs, 'mixed_lasso_lagrange_prox'), div(LAM, LIP))
    pieces(kernel(ctx, obs, 'mixed_lasso_dual_bound_prox'), BND, True)
    v = kernel(ctx, obs, 'mixed_lasso_bound_prox')
    v.threshold(BND, 0, True)
    pieces(v, CUT)


    v = kernel(ctx, obs, 'mixed_lasso_epigraph')
    epigraph(v, True)
    for name, value in (('seminorm_mixed_lasso', primal), ('seminorm_mixed_lasso_dual', dual)):
        for check in (False, True):
            v = kernel(ctx, obs, name, check_feasibility=const(check), nntol=TOL)
            value(v, True, check)


TOL = sym('s_tol++')


def epigraph(v, sets, sign=1, moved=False):
    """projection on {(x, t): norm of x at most t}: x shrunk by the cut, t plus the cut"""
    v.threshold(TT, 1, sets)
    if v.t is None:
        return
    t = v.t
    ok = T.gt0(add(TT, CUT))
    for part, what in ((HEAD, 'coefficients'), (LAST, 'norm')):
        def f(u):
            if u.op == 'setitem' and u.args[1] in (HEAD, LAST):
                return f_(u.args[2]) if u.args[1] is part else f_(u.args[0])
            if u is C:
                return X if part is HEAD else TT
            return None
        f_ = lambda u: T.subst_fn(u, f)
        v.t = f_(t)
        if part is LAST:
            judge(v.obs, v.rule, v.n, v.t, mul(ok, add(TT, CUT)), what, v.w)
            continue
        v.t = subst(v.t, {ok: ONE})
        pieces(v, CUT)
        v.t = subst(f_(t), {ok: ZERO})
        v.same(None, ZERO, 'coefficients, where the projection is the apex')
    v.t = t


def primal(v, sets, check, scale=ONE):
    """sum of the penalties"""
    if v.t is None:
        return
    v.t = div(v.t, scale)
    want = T.red('sum', mul(W, NORM))
    t, names = v.t, {}
    if sets:
        x, p, q = [mk('getitem', X, s) for s in (L1S, POS, NNEG)]
        want = add(want, add(T.red('sum', T.absv(x)), T.red('sum', T.maximum(p, ZERO))))
    if not check or not sets:
        judge(v.obs, v.rule, v.n, t, want, 'value', v.w)
        return
    feasible(v, t, want, (p, q))


def feasible(v, t, want, sets):
    """infinite where coordinates are negative"""
    one = T.Fraction(1)
    cases = [(1, 1), (0, 1), (1, 0), (-1, 1), (1, -1)] if len(sets) == 2 else [(1,), (0,), (-1,)]
    for case in cases:
        names = {TOL: num(T.Fraction(1, 1000))}
        for x, k in zip(sets, case):
            # min(x) is kept as -max(-x)
            names[T.red('min', x)], names[T.red('max', neg(x))] = num(k), num(-k)
        g = subst(t, names)
        what = 'value where the smallest entries are %s' % ', '.join(map(str, case))
        infinite(v, g, TOP if -1 in case else want, what)


def infinite(v, g, want, what):
    if want is TOP or g is TOP:
        sure = g is TOP or not T.mentions(g, lambda u: u is TOP)
        v.obs.add(v.rule, v.n, OK if want is g else BAD if sure else UND, '%s: %s instead of %s' % (what, T.show(g, 4), T.show(want, 4)), v.w)
    else:
        judge(v.obs, v.rule, v.n, g, want, what, v.w)


def dual(v, sets, check, scale=ONE):
    """largest of the dual norms"""
    if v.t is None:
        return
    t = div(v.t, scale)
    found = {}
    for op in ('redmax', 'redany'):
        found[op] = [u for u in subs_(t) if u.op == op]
    tops = found['redmax']
    if len(tops) != 1 or len(found['redany']) > 1:
        v.obs.add(v.rule, v.n, UND, 'largest norm: %s' % T.show(t, 6), v.w)
        return
    c, e = tops[0].args
    judge(v.obs, v.rule, v.n, c, T.gt0(W), 'groups with a dual norm', v.w)
    judge(v.obs, v.rule, v.n, mul(T.gt0(W), e), mul(T.gt0(W), div(NORM, W)), 'dual norms of groups', v.w)
    if check:
        if not found['redany']:
            v.obs.add(v.rule, v.n, BAD if not T.mentions(t, lambda u: u is TOP and sets) or not sets else UND, 'groups of weight zero: no restriction', v.w)
        else:
            lim = mul(T.notb(T.gt0(W)), T.gt0(sub(NORM, TOL)))
            got = found['redany'][0].args[0]
            judge(v.obs, v.rule, v.n, subst(got, {num(T.Fraction('1e-5')): TOL}), lim, 'groups of weight zero', v.w)
    xl, xp, xn = [mk('getitem', X, s) for s in (L1S, POS, NNEG)]
    big = 10 ** 6
    trials = [(a, p, g) for a in (1, 3) for p in (-1, 2, 4) for g in (1, 3, 5) if len({a, p, g}) == 3] if sets else [(-big, -big, 0), (-big, -big, 2)]
    for a, p, g in trials:
        names = {T.red('max', T.absv(xl)): num(a), T.red('max', xp): num(p), T.red('max', T.maximum(xp, ZERO)): num(max(p, 0)), tops[0]: num(g)}
        if not sets:
            names[TOP] = num(big)
        for hit in ((ZERO, ONE) if found['redany'] else (ZERO,)):
            for low in ((1, 0, -1) if sets and check else (1,)):
                q = dict(names)
                q.update({u: hit for u in found['redany']})
                q.update({T.red('min', xn): num(low), T.red('max', neg(xn)): num(-low), TOL: num(T.Fraction(1, 1000))})
                r = subst(t, q)
                want = num(max(a, p if sets else a, g))
                if hit is ONE or low < 0:
                    want = TOP if sets else num(big)
                what = 'value where the largest entries are %d, %d and the largest norm %d%s%s' % (
                    a, p, g, ', a group of weight zero is not zero' if hit is ONE else '', ', the smallest nonnegative entry is %d' % low if low < 1 else '')
                if r is not want and not T.isnum(r) and r is not TOP:
                    v.obs.add(v.rule, v.n, UND, what + ': ' + T.show(r, 5), v.w)
                else:
                    v.obs.add(v.rule, v.n, OK if r is want else BAD, '%s: %s' % (what, T.show(r, 3)), v.w)


# ------------------------------------------------------------------ classes
MODULE = 'regreg.atoms.group_lasso.'
HAVE = {'_group_array': G, '_weight_array': W, '_l1_cython': EMPTY, '_unpenalized_cython': EMPTY, '_positive_part_cython': EMPTY,
        '_nonnegative_cython': EMPTY, '_norms_cython': N0, '_factors_cython': F0, '_projection_cython': P0}
OWN = sym('s_own++')          # the parameter held by the atom


class Flushed(View):
    flush = True


def atomobj(ctx, cls, bound=None):
    """an atom of the class, with buffers holding what an earlier call has left"""
    L, mod = bench(ctx, True)
    o = L.blank(cls, 'o_a', shape=L.I.tup(L.st, [sym('i_p++')]), offset=NONE, _lagrange=NONE if bound else OWN, _bound=OWN if bound else NONE, coefs=sym('v_coefs'),
                tol=TOL, **{k: L.vec(v) for k, v in HAVE.items()})
    return L, o


def method(ctx, obs, cls, name, args=(), kw=None, cone=None, bound=None):
    L, o = atomobj(ctx, cls, bound)
    if cone is not None:
        o = L.blank(cone, 'o_c', shape=L.I.tup(L.st, [sym('i_p++')]), offset=NONE, snorm=o, tol=TOL)
        cls = cone
    n = '%s.%s' % (cls.name, name)
    t = run(L, L.call(o, name, *[L.vec(a) if a in (X, C) else a for a in args], **(kw or {})))
    return Flushed(obs, 'class', n, where(cls, name), t, empty=True)


def groups_only(v, t, project=False):
    fac = T.where(T.gt0(NG), T.minimum(ONE, div(mul(t, WG), NG)), ONE)
    v.same(None, mul(X, fac) if project else sub(X, mul(X, fac)), 'coordinates', [[NG, X], [t], [WG]])


def named(ctx, name):
    c = find(ctx, MODULE + name)
    if c is None:
        raise KeyError(name)
    return c


def atoms(ctx, obs):
    lasso, duals = named(ctx, 'group_lasso'), named(ctx, 'group_lasso_dual')
    for kw, lam in (({'lagrange': LAM}, LAM), ({}, OWN)):
        v = method(ctx, obs, lasso, 'seminorm', (X,), kw)
        if v.t is not None:
            judge(obs, v.rule, v.n, v.t, mul(lam, T.red('sum', mul(W, NORM))), 'value', v.w)
        for check in (False, True):
            v = method(ctx, obs, duals, 'seminorm', (X,), dict(kw, check_feasibility=const(check)))
            dual(v, False, check, lam)
        for k2, lip in (({'lipschitz': LIP}, LIP), ({}, ONE)):
            k2 = dict(k2, **kw)
            v = method(ctx, obs, lasso, 'lagrange_prox', (X,), k2)
            groups_only(v, div(lam, lip))
            v = method(ctx, obs, duals, 'lagrange_prox', (X,), k2)
            v.threshold(div(lam, lip), 0, False)
            groups_only(v, CUT, True)
    for kw, b in (({'bound': BND}, BND), ({}, OWN)):
        v = method(ctx, obs, lasso, 'bound_prox', (X,), kw, bound=True)
        v.threshold(b, 0, False)
        groups_only(v, CUT)
        v = method(ctx, obs, duals, 'bound_prox', (X,), kw, bound=True)
        groups_only(v, b, True)


EPIGRAPHS = {          # seminorm class, (multiple of the argument, of the projection), sign of its argument
    'group_lasso_epigraph': ('group_lasso', 0, 1, 1),
    'group_lasso_epigraph_polar': ('group_lasso_dual', 1, -1, 1),
    'group_lasso_dual_epigraph': ('group_lasso_dual', 1, 1, -1),
    'group_lasso_dual_epigraph_polar': ('group_lasso', 0, -1, -1),
}


def cones(ctx, obs):
    for name, (base, a, b, s) in sorted(EPIGRAPHS.items()):
        c, norms = named(ctx, name), named(ctx, base)
        for kw in ({}, {'lipschitz': LIP}):
            v = method(ctx, obs, norms, 'cone_prox', (C,), kw, cone=c)
            if v.t is None:
                continue
            v.threshold(TT if s > 0 else neg(TT), 1, False)
            top = add(mul(num(s), TT), CUT)
            ok = T.gt0(top)
            t = part(v.t, LAST)
            judge(obs, v.rule, v.n, t, add(mul(num(a), TT), mul(num(b), mul(ok, top))), 'norm', v.w)
            t = part(v.t, HEAD)
            fac = T.where(T.gt0(NG), T.minimum(ONE, div(mul(CUT, WG), NG)), ONE)
            v.t = subst(t, {ok: ONE})
            v.same(None, add(mul(num(a), X), mul(num(b * s), sub(X, mul(X, fac)))), 'coefficients', [[NG, X], [CUT], [WG]])
            v.t = subst(t, {ok: ZERO})
            v.same(None, mul(num(a), X), 'coefficients, where the cut leaves no norm')
        # the cone contains (x, t) when the norm is at most t (or -t)
        sign = 1 if name in ('group_lasso_epigraph', 'group_lasso_dual_epigraph') else -1
        v = method(ctx, obs, norms, 'constraint', (C,), cone=c)
        inside(v, base, TT, sign)
    for base in ('group_lasso', 'group_lasso_dual'):
        for kw, bound in (({'bound': BND}, BND), ({}, OWN)):
            v = method(ctx, obs, named(ctx, base), 'constraint', (X,), kw, bound=True)
            inside(v, base, bound, 1)


def part(t, which):
    def f(u):
        if u.op == 'setitem' and u.args[1] in (HEAD, LAST):
            return part(u.args[2] if u.args[1] is which else u.args[0], which)
        if u is C:
            return X if which is HEAD else TT
        return None
    return T.subst_fn(t, f)


def inside(v, base, bound, sign):
    """zero where the norm is at most the bound, infinite elsewhere"""
    if v.t is None:
        return
    big = num(10 ** 6)
    sums = [u for u in subs_(v.t) if (u.op == 'redmax' if base == 'group_lasso_dual' else u.op == 'red' and u.args[0] == 'sum')]
    if len(sums) != 1:
        v.obs.add(v.rule, v.n, UND, T.show(v.t, 6), v.w)
        return
    if base == 'group_lasso':
        judge(v.obs, v.rule, v.n, sums[0], T.red('sum', mul(W, NORM)), 'norm', v.w)
    else:
        c, e = sums[0].args
        judge(v.obs, v.rule, v.n, mul(c, e), mul(T.gt0(W), div(NORM, W)), 'norm', v.w)
        anys = [u for u in subs_(v.t) if u.op == 'redany']
        v.obs.add(v.rule, v.n, OK if len(anys) == 1 else BAD, 'groups of weight zero have to be zero', v.w)
    for value in (1, 2, 3):
        for hit in (ZERO, ONE) if base == 'group_lasso_dual' else (ZERO,):
            q = {sums[0]: num(value), bound: num(2 * sign), TOL: num(T.Fraction(1, 1000)), TOP: big}
            q.update({u: hit for u in subs_(v.t) if u.op == 'redany'})
            r = subst(v.t, q)
            want = big if value > 2 or hit is ONE else ZERO
            what = 'where the norm is %d and the bound 2%s' % (value, ', a group of weight zero is not zero' if hit is ONE else '')
            v.obs.add(v.rule, v.n, OK if r is want else BAD if T.isnum(r) else UND, '%s: %s' % (what, T.show(r, 4)), v.w)


# ------------------------------------------------------------------ mixed lasso
MIXED = {'_l1_penalty': L1S, '_positive_part': POS, '_unpenalized': UNP, '_nonnegative': NNEG, '_groups': G, '_weight_array': W,
         '_norms_cython': N0, '_factors_cython': F0, '_projection_cython': P0}


def mixed(ctx, obs, name, meth, args=(), kw=None, offset=None, quad=None):
    c = find(ctx, 'regreg.atoms.mixed_lasso.' + name)
    if c is None:
        raise KeyError(name)
    L, mod = bench(ctx, False)
    attrs = {k: L.vec(v) for k, v in MIXED.items()}
    attrs['bound' if name.endswith('dual') else 'lagrange'] = OWN
    o = L.blank(c, 'o_a', shape=L.I.tup(L.st, [sym('i_p++')]), offset=L.vec(OFF) if offset else NONE, tol=TOL,
                _quadratic=L.quad(ZERO, NONE, NONE, ZERO), **attrs)
    n = '%s.%s' % (name, meth)
    args = [L.quad(LIP, L.vec(a.args[0]), ZERO, ZERO) if a.op == 'around' else L.vec(a) if not T.is_scalar(a) else a for a in args]
    t = run(L, L.call(o, meth, *args, **(kw or {})))
    if isinstance(t, T.Term):
        t = subst(t, {T.red('any', T.notb(T.eq0(OFF))): ONE})
    if offset == 'result' and isinstance(t, T.Term):
        t = sub(t, OFF)
    return Flushed(obs, 'class', n, where(c, meth), t)


def mixtures(ctx, obs):
    for off in (None, True):
        x = add(X, OFF) if off else X
        for check in (False, True):
            kw = {'check_feasibility': const(check)}
            v = mixed(ctx, obs, 'mixed_lasso', 'nonsmooth_objective', (x,), kw, offset=off)
            primal(v, True, check, OWN)
            v = mixed(ctx, obs, 'mixed_lasso_dual', 'nonsmooth_objective', (x,), kw, offset=off)
            if check:
                within(v, True, OWN)
            elif v.t is not None:
                judge(obs, v.rule, v.n, v.t, ZERO, 'value', v.w)
        about = mk('around', x)
        pieces(mixed(ctx, obs, 'mixed_lasso', 'proximal', (about,), offset=off and 'result'), div(OWN, LIP))
        pieces(mixed(ctx, obs, 'mixed_lasso_dual', 'proximal', (about,), offset=off and 'result'), OWN, True)
    for check in (False, True):
        kw = {'check_feasibility': const(check)}
        v = mixed(ctx, obs, 'mixed_lasso', 'seminorm', (X,), kw)
        primal(v, True, check, OWN)
        for k2, lam in (({'lagrange': LAM}, LAM), ({}, ONE)):
            v = mixed(ctx, obs, 'mixed_lasso_dual', 'seminorm', (X,), dict(kw, **k2))
            dual(v, True, check, lam)
    v = mixed(ctx, obs, 'mixed_lasso_dual', 'constraint', (X,), {'bound': BND})
    within(v, True, BND)


def within(v, sets, bound):
    """zero where the dual norm is at most the bound, infinite elsewhere"""
    if v.t is None:
        return
    xl, xp, xn = [mk('getitem', X, s) for s in (L1S, POS, NNEG)]
    tops = [u for u in subs_(v.t) if u.op == 'redmax']
    anys = [u for u in subs_(v.t) if u.op == 'redany']
    if len(tops) != 1 or len(anys) > 1:
        v.obs.add(v.rule, v.n, UND, T.show(v.t, 6), v.w)
        return
    big = num(10 ** 6)
    for a, p, g in [(1, 0, 1), (1, 1, 1), (2, 2, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3)]:
        for hit in (ZERO, ONE):
            for low in (1, 0, -1):
                q = {T.red('max', T.absv(xl)): num(a), T.red('max', xp): num(p), T.red('max', T.maximum(xp, ZERO)): num(p), tops[0]: num(g), bound: num(2),
                     T.red('min', xn): num(low), T.red('max', neg(xn)): num(-low), TOL: num(T.Fraction(1, 1000)), TOP: big}
                q.update({u: hit for u in anys})
                r = subst(v.t, q)
                want = big if max(a, p, g) > 2 or hit is ONE or low < 0 else ZERO
                what = 'where the largest entries are %d, %d, the largest norm %d and the bound 2%s%s' % (
                    a, p, g, ', a group of weight zero is not zero' if hit is ONE else '', ', the smallest nonnegative entry is %d' % low if low < 1 else '')
                v.obs.add(v.rule, v.n, OK if r is want else BAD if T.isnum(r) else UND, '%s: %s' % (what, T.show(r, 4)), v.w)


# ------------------------------------------------------------------ construction
LABELS = (2, 5, 7)
CODES = ('UNPENALIZED', 'L1_PENALTY', 'POSITIVE_PART', 'NONNEGATIVE')


def built(ctx, obs):
    """the arrays given to the kernels agree with the groups, kinds and weights of the user"""
    lasso = named(ctx, 'group_lasso')
    made(ctx, obs, lasso, 'group_lasso', '_group_array', {})
    for name in sorted(EPIGRAPHS):
        made(ctx, obs, named(ctx, name), name, '_group_array', {}, 'snorm')
    codes = {}
    m = ctx.model.modules['regreg.atoms.mixed_lasso']
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and getattr(s.targets[0], 'id', None) in CODES:
            codes[s.targets[0].id] = ast.literal_eval(s.value)
    made(ctx, obs, find(ctx, 'regreg.atoms.mixed_lasso.mixed_lasso'), 'mixed_lasso', '_groups', codes)


def made(ctx, obs, c, name, attr, codes, inner=None):
    L, mod = bench(ctx, True)
    known = {}
    older = L.I.natives

    def items(I, v, st):
        if isinstance(v, Tup):
            return [I.term(x, st) for x in st.lists[v.id]]
        if isinstance(v, Ex):
            return known.get(v.name)
        if T.contains(I.term(v, st), mk('global', 'regreg.atoms.mixed_lasso.reserved')):
            return [num(k) for k in codes.values()]
        return None

    def native(I, fn, args, kw, st, node):
        a = args[0] if args else None
        if fn == 'numpy.unique':
            return I.tup(st, [Con(num(k)) for k in sorted(codes.values()) + list(LABELS)], 'list')
        if fn == 'builtins.sorted' and items(I, a, st) is not None:
            return I.tup(st, [Con(k) for k in sorted(items(I, a, st), key=lambda k: k.args[0])], 'list')
        if fn == 'builtins.set' and items(I, a, st) is not None:
            s = 'set%d' % len(known)
            known[s] = items(I, a, st)
            return Ex(s)
        if fn.split('.')[0] in known and fn.endswith('.difference'):
            gone = items(I, a, st)
            if gone is not None:
                return I.tup(st, [Con(k) for k in known[fn.split('.')[0]] if k not in gone], 'list')
        return older(I, fn, args, kw, st, node)
    L.I.natives = native
    i = L.I.fresh()
    own = sym('s_w5++')
    L.st.dicts[i] = {L.I.dkey(num(LABELS[1])): L.val(own)}
    lab = sym('v_groups')
    kw = {} if inner else {'lagrange': LAM}
    o = L.new(c, L.vec(lab), weights=Dct(i), **kw)
    w = where(c, '__init__')
    n = name + '.__init__'
    if o is None or o is BOTTOM:
        obs.add('built', n, UND if o is None else BAD, 'not built', w)
        return
    if inner:
        o = L.get(o, inner)
    g, wt = [L.term(L.get(o, k)) for k in (attr, '_weight_array')]
    seen = []
    for k in LABELS:
        at = subst(g, {lab: num(k)})
        at = T.subst_fn(at, lambda u: None)
        if not T.isnum(at):
            obs.add('built', n, UND, 'group %d: %s' % (k, T.show(at, 5)), w)
            continue
        here = wt
        while here.op == 'setitem' and here.args[1] is not at:
            here = here.args[0]
        got = here.args[2] if here.op == 'setitem' else here
        want = own if k == LABELS[1] else T.power(T.red('sum', T.eq0(sub(lab, num(k)))), T.Fraction(1, 2))
        judge(obs, 'built', n, got, want, 'weight of the group labelled %d' % k, w)
        obs.add('built', n, BAD if at in seen or at.args[0] not in range(len(LABELS)) else OK, 'group labelled %d is group %s' % (k, T.show(at, 2)), w)
        seen.append(at)
    if codes:
        for code, a in zip(CODES, ('_unpenalized', '_l1_penalty', '_positive_part', '_nonnegative')):
            t = L.term(L.get(o, a))
            judge(obs, 'built', n, t, T.eq0(sub(lab, num(codes[code]))), 'coordinates of kind ' + code, w)
            at = T.subst_fn(subst(g, {lab: num(codes[code])}), lambda u: None)
            obs.add('built', n, UND if not T.isnum(at) else OK if at.args[0] < 0 else BAD, 'coordinates of kind %s are in group %s' % (code, T.show(at, 3)), w)


def t06(ctx, obs):
    kernels(ctx, obs)
    atoms(ctx, obs)
    cones(ctx, obs)
    mixtures(ctx, obs)
    built(ctx, obs)


PROPS = {
    'A06': dict(run=t06, floor=550, rule='the Cython kernels and the methods that call them are interpreted as formulas of one coordinate (loops over coordinates and groups become '
                'maps, scatters and sums over group labels) and compared with the definitions of the seminorm, dual norm, proximal map, projection and projections on '
                'epigraphs and polars, for coordinates of every kind (in a group, l1, unpenalised, nonnegative, positive part), with every set empty or not, and with weight zero',
                assumptions='group labels of coordinates outside groups are negative; the one-dimensional threshold search is opaque here (A07); the penalty sets partition the coordinates'),
}
