"""S08: the Cox partial likelihood, from the C kernels up to the Python class."""
import ast, os
from .. import terms as T, diff, kernels as K, pyx
from ..terms import mk, num, sym, const, ZERO, ONE, NONE
from ..check import OK, BAD, UND
from ..absint import A, C, Fn
from ..lab import Lab, BOTTOM
from .r_compose import NN
from .r_smooth import same

MOD = 'regreg.smooth.cox_utils'
TIME, CENS, W, OFF, X, V, CW, COEF = [sym(n) for n in ('v_times', 'v_cens', 'v_w', 'v_off', 'v_x', 'v_right', 'v_cw', 's_coef++')]
RISK = sym('m_at_risk')       # the operator with entries [T_j >= T_i]


# ------------------------------------------------------------------ compiled code
class Natives(object):
    def __init__(self, model):
        self.mod = pyx.module(model, MOD)
        if self.mod is None:
            raise KeyError(MOD)
        self.cpath = os.path.join(os.path.dirname(self.mod.path), 'cox_fns.c')
        self.unit = K.parse(self.cpath)
        self.odd, self.runs, self.partial = [], [], []

    def __call__(self, I, name, args, kw, st, node):
        if name.startswith(MOD + '.') and not kw:
            f = self.mod.funcs.get(name[len(MOD) + 1:])
            if f is not None:
                return I.call_func(f, args, kw, st, node)
        b = name.split('.')[-1]
        if b in self.unit and b in self.mod.extern and not kw:
            return self.kernel(I, b, args, st, node)
        return None

    def kernel(self, I, name, args, st, node):
        arrs, given = {}, []
        for a in args:
            if isinstance(a, A) and size(st.cells[a.cell][0]):
                given.append(K.N)
            elif isinstance(a, A):
                t = st.cells[a.cell][0]
                if a.cell not in arrs:
                    arrs[a.cell] = (K.Arr(T.show(t, 2), content(t)), a, t)
                given.append(arrs[a.cell][0])
            else:
                t = I.term(a, st)
                given.append(K.N if size(t) else t)
        run = K.Run(self.unit)
        self.runs.append((name, run, {id(arr): t for arr, a, t in arrs.values()}))
        try:
            r = run.call(name, given)
        except K.Odd as e:
            if isinstance(e, K.Partial):
                self.partial.append((name, str(e)))
            self.odd.append('%s: %s' % (name, e))
            for c, (arr, a, t) in arrs.items():
                if any(x[0] is arr and x[2] == 'write' for x in run.accesses):
                    I.mutate(a, mk('kernel', const(name), t), st, node, 'written by ' + name)
            return I.newarr(st, mk('kernel', const(name), NONE))
        for c, (arr, a, t) in arrs.items():
            n = term(arr.content)
            if n is not t:
                I.mutate(a, n, st, node, 'written by ' + name)
        return I.newarr(st, r) if isinstance(r, T.Term) else C(NONE)


def content(t):
    if t.op == 'accumulated':
        inc, r, w, o, f = t.args
        return ('cum', (inc.args[2] == 'inclusive', r.args[2], w.args[2]), None if o is NONE else o, f)
    return ('vec', t)


def term(c):
    if c[0] == 'vec':
        return c[1]
    _, (inc, r, w), o, f = c
    return mk('accumulated', const('inclusive' if inc else 'exclusive'), const(r), const(w), NONE if o is None else o, f)


def size(t):
    """the length of one of the arrays"""
    if t.op in ('len', 'size'):
        return True
    return t.op == 'getitem' and t.args[0].op in ('shape', 'attr', 'call') and 'shape' in T.show(t.args[0], 2) or t.op == 'dim'


# ------------------------------------------------------------------ risk sets
RANKS = ('min', 'max', 'average', 'ordinal', 'dense')


def order_of(o):
    """'up' or 'down' for argsort of the times, 'none' without an order, None when not recognised"""
    if o is NONE:
        return 'none'
    if o.op == 'call' and o.args[0] is mk('ext', 'numpy.argsort') and len(o.args[1]) == 1 and all(k == 'kind' for k, v in o.args[2]):
        if o.args[1][0] is TIME:
            return 'up'
        if o.args[1][0] is T.neg(TIME):
            return 'down'
        if order_of(o.args[1][0]) in ('up', 'down'):
            return 'rank_' + order_of(o.args[1][0])
        return None
    r = rank_of(o)
    return 'rank_%s_%s' % r if r is not None else None


def rank_of(r):
    """(method, shift) for ranks of the times, minus one taken as shift 0"""
    if r is NONE:
        return 'position', 0
    if r.op == 'call' and r.args[0] is mk('ext', 'numpy.argsort') and order_of(r) is not None:
        return 'order_' + order_of(r), 0
    base, shift = None, 0
    for m, c in T.poly_items(r):
        if not m:
            shift = c
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and base is None:
            base = m[0][0]
        else:
            return None
    if base is None or base.op != 'call' or base.args[0] is not mk('ext', 'scipy.stats.rankdata'):
        return None
    a, kw = base.args[1], dict(base.args[2])
    if not a or a[0] is not TIME or len(a) > 2 or set(kw) - set(['method']):
        return None
    m = a[1] if len(a) == 2 else kw.get('method', const('average'))
    if not isinstance(m, T.Term):
        m = const(m)
    if m.op != 'const' or m.args[2] not in RANKS:
        return None
    return m.args[2], shift + 1


def entry(u):
    return u.op == 'call' and u.args[0] is mk('ext', 'entry')


def gather(v, p, q):
    """the vector whose value at q is that of v at p; elementwise operations commute with it"""
    if p is q:
        return v

    def f(u):
        if entry(u):
            v1, p1, q1 = u.args[1]
            if q1 is p:
                return v1 if p1 is q else mk('call', mk('ext', 'entry'), (v1, p1, q), ())
            return mk('call', mk('ext', 'entry'), (u, p, q), ())
        if u.op in ('L', 'Lt') or u.op == 'sym' and not T.is_scalar(u) or u.op == 'call':
            return mk('call', mk('ext', 'entry'), (u, p, q), ())
        if u.op == 'red':
            return u
        return None
    return T.subst_fn(v, f)


def sorted_by(x):
    """(order, x in the original positions) for a vector all of whose parts are taken in one order"""
    os = set()
    plain = []

    def f(u):
        if entry(u):
            v, p, q = u.args[1]
            if q is K.I and p.op == 'at' and p.args[1] is K.I:
                os.add(p.args[0])
                return v
            plain.append(u)
            return u
        if u.op in ('L', 'Lt') or u.op == 'sym' and not T.is_scalar(u) or u.op == 'call':
            plain.append(u)
            return u
        if u.op == 'red':
            return u
        return None
    y = T.subst_fn(x, f)
    if len(os) == 1 and not plain:
        return os.pop(), y
    return None, x


def settle(t):
    """entries pushed to the leaves, sorted copies put back into place"""
    def f(u):
        if entry(u):
            v, p, q = u.args[1]
            return gather(T.subst_fn(v, f), T.subst_fn(p, f), T.subst_fn(q, f))
        if u.op in ('L', 'Lt') and u.args[0].op == 'rankop':
            form, o, r, s = u.args[0].args
            x = T.subst_fn(u.args[1], f)
            if o is NONE:
                o2, y = sorted_by(x)
                if o2 is not None:
                    o, x = o2, y
            return T.linop(u.op, mk('rankop', form, o, r, s), x)
        if u.op == 'red' and u.args[0] == 'sum':
            x = T.subst_fn(u.args[1], f)
            o2, y = sorted_by(x)
            return T.red('sum', y if o2 is not None else x)
        return None
    return T.subst_fn(t, f)


def risk(t, odd):
    """the linear operators of the kernels in terms of the risk sets"""
    def f(u):
        if entry(u):
            v, p, q = u.args[1]
            return T.linop('L', sym('m_at_%s_for_%s' % (place(p, odd), place(q, odd))), T.subst_fn(v, f))
        if u.op in ('L', 'Lt') and u.args[0].op == 'rankop':
            form, o, r, s = u.args[0].args
            x = T.subst_fn(u.args[1], f)
            inc, rd, wr = form.args[2].split()
            od, rk = order_of(o), rank_of(r)
            if od is None or rk is None:
                odd.append('order %s, rank %s' % (T.show(o, 3), T.show(r, 3)))
                return u
            m, sh = rk[0], rk[1] + s.args[0] if s.op == 'num' else s.args[2]
            if u.op == 'L' and inc == 'inclusive' and od == 'up' and rd == wr and sh == 0:
                if rd == 'down' and m == 'min':
                    return T.linop('L', RISK, x)
                if rd == 'up' and m == 'max':
                    return T.linop('Lt', RISK, x)
            return T.linop(u.op, sym('m_%s_%s_%s_%s_%s_%s' % (inc, rd, wr, od, m, sh)), x)
        return None
    return T.subst_fn(settle(t), f)


def place(p, odd):
    if p is K.I:
        return 'k'
    if p is T.sub(T.sub(K.N, ONE), K.I):
        return 'back'
    if p.op == 'at' or entry(p):
        a, rest = (p.args[0], p.args[1:]) if p.op == 'at' else (p.args[1][0], p.args[1][1:])
        return '_'.join([place(a, odd)] + [place(x, odd) for x in rest])
    if order_of(p) is not None:
        return order_of(p)
    base, shift = K.split(p)
    if base is not None and shift:
        return '%s%+d' % (place(base, odd), shift)
    odd.append('entry %s' % T.show(p, 3))
    return 'x'


# ------------------------------------------------------------------ guards
CLASSES = [{CENS: c, W: w, CW: v} for c in '0+' for w in '0+' for v in '0+']


def sign(t, cl):
    """'0', '+' or None"""
    if t in cl:
        return cl[t]
    if t.op == 'at':
        return sign(t.args[0], cl)
    if t.op == 'num':
        return '0' if t.args[0] == 0 else '+' if t.args[0] > 0 else None
    if t.op == 'exp' or t.op == 'fn' and t.args[0] == 'exp':
        return '+'
    if t.op in ('L', 'Lt') and t.args[0] is RISK:
        # the sum over a set that holds the case itself
        return '+' if sign(t.args[1], cl) == '+' else None
    if t.op == 'poly':
        out = '0'
        for m, c in t.args[0]:
            s = '+' if c > 0 else None
            for a, e in m:
                x = sign(a, cl)
                if x == '0' and e > 0:
                    s = '0'
                    break
                if x != '+':
                    s = None
            if s is None:
                return None
            if s == '+':
                out = '+'
        return out
    return None


def truth(t, cl):
    """the value of a condition for a class of cases, None when unknown"""
    if t.op == 'num':
        return t.args[0]
    if t.op == 'at':
        return truth(t.args[0], cl)
    if t.op == 'bool' and t.args[0].op == 'cmp':
        op, d = t.args[0].args
        op = op.args[2]
        s = sign(d, cl)
        if s is None:
            s2 = sign(T.neg(d), cl)
            if s2 is None:
                return None
            s = '-' if s2 == '+' else '0'
        return int({'>': s == '+', '>=': s in '0+', '==': s == '0', '!=': s != '0'}[op])
    if t.op in ('bool', 'eq0', 'gt0'):
        s = sign(t.args[0], cl)
        if s is None:
            return None
        return int((s == '0') == (t.op == 'eq0'))
    if t.op == 'poly':
        v = 0
        for m, c in t.args[0]:
            p = c
            known = True
            for a, e in m:
                x = truth(a, cl)
                if x == 0:
                    p, known = 0, True
                    break
                if x is None:
                    known = False
            if not known:
                return None
            v += p
        return v
    return None


def here(t, cl):
    """t at a case of the class: zero factors outside the sums over risk sets"""
    def f(u):
        if u.op in ('L', 'Lt'):
            return u
        if u in cl and cl[u] == '0':
            return ZERO
        return None
    return T.subst_fn(t, f)


def divides(c, x):
    """the condition is d != 0 (or d > 0) and every term of x has the factor d"""
    if c.op != 'bool' or c.args[0].op != 'cmp' or c.args[0].args[0].args[2] not in ('>', '!='):
        return False
    d = T.poly_items(c.args[0].args[1])
    if len(d) != 1 or not d[0][0] or d[0][1] < 0:
        return False
    for m, k in T.poly_items(x):
        have = dict((a.id, e) for a, e in m)
        if any(have.get(a.id, 0) < e for a, e in d[0][0]):
            return False
    return True


def unguard(t, odd):
    """when(c, x) -> x where x vanishes whenever c is false"""
    def f(u):
        if u.op != 'when':
            return None
        c, x = [T.subst_fn(a, f) for a in u.args]
        if divides(c, x):
            return x
        kept = []
        for cl in CLASSES:
            v = truth(c, cl)
            if v is None:
                odd.append('condition %s' % T.show(c, 4))
                return x
            if v == 0 and here(x, cl) is not ZERO:
                kept.append(cl)
        if kept and all(cl[CENS] == '0' for cl in kept) and all(truth(c, cl) == 0 for cl in CLASSES if cl[CENS] == '0'):
            return T.mul(CENS, x)            # an indicator
        if kept:
            return T.mul(sym('v_dropped'), x)
        return x
    return T.subst_fn(t, f)


def undefined(t, odd):
    """quotients and logarithms of sums over risk sets reached for a case with weight zero: [(term, guard)]"""
    out = []
    seen = set()

    def go(u, guards):
        key = (u.id, tuple(g.id for g in guards))
        if key in seen:
            return
        seen.add(key)
        if u.op == 'when':
            go(u.args[1], guards + [u.args[0]])
            return
        den = None
        if u.op == 'poly':
            for m, c in u.args[0]:
                for a, e in m:
                    if e < 0 and vanishes(a):
                        judge(a, guards)
        elif u.op == 'log' or u.op == 'fn' and u.args[0] == 'log':
            a = u.args[-1]
            if vanishes(a):
                judge(a, guards)
        for c in T.children(u):
            go(c, guards)

    def vanishes(a):
        return T.mentions(a, lambda v: v.op in ('L', 'Lt')) and here0(a) is ZERO

    def judge(a, guards):
        for cl in CLASSES:
            if cl[W] == '+' and (cl[CW] == '+' or not T.contains(a, CW)):
                continue
            vs = [truth(g, cl) for g in guards]
            if 0 in vs:
                continue
            if None in vs:
                odd.append('condition %s' % T.show(guards[0], 4))
                continue
            out.append((a, cl))
            return
    go(t, [])
    return out


def here0(t):
    return T.substitute(t, W, ZERO)


# ------------------------------------------------------------------ the property
def setup(ctx):
    L = Lab(ctx, nonnull=list(NN) + ['v_off', 'v_w', 'v_cw', 'v_times', 'v_cens', 'v_x', 'v_right'])
    nat = L.I.natives = Natives(ctx.model)
    c = L.cls('regreg.smooth.cox.cox_loglike')
    o = L.new(c, L.vec('v_shape'), L.vec('v_times'), L.vec('v_cens'), coef=COEF, offset=L.vec('v_off'), case_weights=L.vec('v_w'))
    return L, nat, c, o


def value_terms(ctx):
    """(method, mode, case weights, term, unrecognised parts, kernels run)"""
    for meth, mode, args in [('smooth_objective', 'func', ()), ('smooth_objective', 'grad', ()), ('smooth_objective', 'both', ()),
                             ('hessian_mult', None, (V,))]:
        for cw in (None, CW):
            L, nat, c, o = setup(ctx)
            if o is None or o is BOTTOM:
                yield meth, mode, cw, None, ['constructor'], nat, None, None, c
                continue
            eta = L.call(o, 'apply_offset', L.vec('v_x'))
            e = L.term(eta) if eta is not None and eta is not BOTTOM else None
            kw = {} if mode is None else {'mode': mode}
            if cw is not None:
                kw['case_weights'] = L.vec('v_cw')
            r = L.call(o, meth, L.vec('v_x'), *[L.vec(a) for a in args], **kw)
            if r is None or r is BOTTOM:
                yield meth, mode, cw, None, ['%s' % r], nat, e, L, c
                continue
            if mode == 'both':
                its = L.items(r)
                ts = [L.term(i) for i in its] if its is not None and len(its) == 2 else None
                for k in (0, 1):
                    yield meth, 'both[%d]' % k, cw, ts[k] if ts else None, list(nat.odd), nat, e, L, c
            else:
                yield meth, mode, cw, L.term(r), list(nat.odd), nat, e, L, c


def spec(kind, e, cw):
    w = W if cw is None else T.mul(W, cw)
    value = T.mul(COEF, T.red('sum', T.mul(CENS, w, T.sub(T.log(T.linop('L', RISK, T.mul(w, T.exp(e)))), e))))
    if kind == 'value':
        return value
    g = diff.grad(value, X)
    if kind == 'gradient':
        return g
    return diff.grad(T.red('sum', T.mul(g, V)), X)


def partial(ctx, obs):
    bounds_seen, partials = {}, set()
    for meth, mode, cw, t, odd, nat, e, L, c in value_terms(ctx):
        kind = 'hessian' if meth == 'hessian_mult' else 'value' if mode in ('func', 'both[0]') else 'gradient'
        f = c.lookup(meth)[1] if c is not None and c.lookup(meth) else None
        name = 'cox_loglike.%s%s%s' % (meth, '' if mode is None else '(%s)' % mode, ' with case weights' if cw is not None else '')
        wh = f.where if f is not None else ''
        if t is None or e is None:
            obs.add(kind, name, UND, 'no value: %s' % odd, wh)
            continue
        odd = list(odd)
        r = risk(t, odd)
        odd2 = list(odd)
        bad = undefined(r, odd2) if not odd else []
        u = unguard(r, odd)
        if odd2:
            obs.add('defined', name, UND, '; '.join(odd2)[:300], wh)
        else:
            obs.add('defined', name, BAD if bad else OK,
                    'a case with weight zero after which no weighted case remains at risk divides by, or takes the logarithm of, %s = 0' % T.show(bad[0][0], 5) if bad else '', wh)
        if odd:
            obs.add(kind, name, UND, '; '.join(odd)[:300], wh)
        else:
            sp = spec(kind, e, cw)
            s = same(sp, u, True)
            obs.add(kind, name, {'same': OK, 'diff': BAD}.get(s, UND),
                    '' if s == 'same' else '%s is not that of the partial likelihood: code %s  documented %s' % (kind, T.show(u, 9), T.show(sp, 9)), wh)
        for kname, why in nat.partial:
            partials.add((kname, why))
        for kname, run, names in nat.runs:
            for arr, idx, what, line, func, loop, cond in run.accesses:
                if cond is ONE or (func, line, idx) not in bounds_seen:
                    bounds_seen[(func, line, idx)] = (loop.count, cond)
    for kname, why in sorted(partials):
        f = nat.unit[kname]
        obs.add('every case', kname, BAD if straight(f.body) else UND, 'a loop visits %s than the number of cases' % why, '%s:%s' % (CREL, f.line))
    wrappers(nat, obs, wrapped(nat))
    # entries touched by the kernels
    for (func, line, idx), (count, cond) in sorted(bounds_seen.items(), key=lambda kv: (kv[0][0], kv[0][1] or 0, T.show(kv[0][2], 6))):
        v, why = inside(idx, count)
        if v == BAD and cond is not ONE:
            v = UND
        obs.add('entries', '%s %s' % (func, re_name(idx)), v, why, '%s:%s' % (CREL, line))


CREL = 'regreg/smooth/cox_fns.c'


def straight(n, inloop=False):
    """no array entry is used outside the loops"""
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
        return True
    if n.get('kind') == 'ArraySubscriptExpr' or n.get('kind') == 'UnaryOperator' and n.get('opcode') == '*' or n.get('kind') == 'CallExpr':
        return False
    return all(straight(c) for c in n.get('inner', []) if c)


def wrapped(nat):
    return set(n for n, f in nat.mod.funcs.items() if not n.startswith('_'))


def re_name(idx):
    odd = []
    base, shift = K.split(idx)
    if base is None:
        return T.show(idx, 4)
    return '%s%+d' % (place(base, odd), shift) if shift else place(base, odd)


def inside(idx, count):
    """whether an index stays in 0..n-1"""
    k = T.sub(count, K.N)
    base, shift = K.split(idx)
    if base is not None:
        a, p = base.args
        v, why = inside(p, count)
        if v != OK:
            return v, why
        if order_of(a) in ('up', 'down', 'rank_up', 'rank_down'):
            return (OK, '') if shift == 0 else (BAD, 'entries of the order shifted by %s leave the array' % shift)
        r = rank_of(a)
        if r is not None and r[0] in ('min', 'max', 'ordinal'):
            return (OK, '') if r[1] + shift == 0 else (BAD, 'ranks shifted by %s leave the array' % (r[1] + shift))
        return UND, 'entries of %s' % T.show(a, 4)
    if k.op != 'num':
        return UND, 'loop over %s positions' % T.show(count, 4)
    k = k.args[0]
    up, down = T.sub(idx, K.I), T.sub(T.add(idx, K.I), K.N)
    if up.op == 'num':
        ok = up.args[0] >= 0 and up.args[0] + k <= 0
    elif down.op == 'num':
        ok = down.args[0] <= -1 and down.args[0] >= k - 1
    else:
        return UND, 'index %s' % T.show(idx, 4)
    return (OK, '') if ok else (BAD, 'index %s of a loop over %s positions leaves the array' % (T.show(idx, 4), T.show(count, 4)))


# ------------------------------------------------------------------ the wrappers
CONTIGUOUS = ('ascontiguousarray', 'copy', 'zeros', 'ones', 'empty', 'zeros_like', 'empty_like')


def length_of(e):
    """the name whose length an expression is"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and isinstance(e.value.value, ast.Name):
        return e.value.value.id
    if isinstance(e, ast.Attribute) and e.attr in ('size', 'shape') and isinstance(e.value, ast.Name):
        return e.value.id
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
        return e.args[0].id
    if isinstance(e, ast.Name):
        return e.id
    return None


def equalities(test, neg, out):
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or if neg else ast.And):
        for v in test.values:
            equalities(v, neg, out)
    elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        equalities(test.operand, not neg, out)
    elif isinstance(test, ast.Compare) and (len(test.ops) == 1 or not neg):
        l = test.left
        for op, r in zip(test.ops, test.comparators):
            if isinstance(op, ast.NotEq if neg else ast.Eq):
                a, b = length_of(l), length_of(r)
                if a and b:
                    out.append((a, b))
            l = r


def wrappers(nat, obs, used):
    for name, f in sorted(nat.mod.funcs.items()):
        if name not in used:
            continue
        types = {pyx._param(p).split('=')[0]: p for p in nat.mod.ctypes.get(name, [])}
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in nat.unit]
        if not calls:
            continue
        arrays = [p for p, ty in types.items() if 'ndarray' in ty or '[' in ty]
        passed = [p for p in arrays if any(isinstance(a, ast.Name) and a.id == p for c in calls for a in c.args)]
        first = min(c.lineno for c in calls)
        vague = any(isinstance(n, (ast.For, ast.While, ast.With, ast.Try)) for n in ast.walk(f.node)) or \
            any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in nat.unit and n.func.id not in ('len', 'assert', 'range') for n in ast.walk(f.node))
        eqs = []
        for s in f.node.body:
            if s.lineno >= first:
                break
            if isinstance(s, ast.Assert):
                equalities(s.test, False, eqs)
            elif isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Raise):
                equalities(s.test, True, eqs)
        cls = {}

        def find(x):
            while cls.get(x, x) != x:
                x = cls[x]
            return x
        for a, b in eqs:
            cls[find(a)] = find(b)
        big = find(passed[0]) if passed else None
        for p in passed:
            asg = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and n.lineno < first and any(isinstance(t, ast.Name) and t.id == p for t in n.targets)]
            other = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store)]
            wh = '%s:%d' % (nat.mod.relpath, f.node.lineno)
            if asg and asg[-1] in f.node.body and isinstance(asg[-1].value, ast.Call) and \
                    isinstance(asg[-1].value.func, ast.Attribute) and asg[-1].value.func.attr in CONTIGUOUS:
                v, why = OK, ''
            elif not other:
                ty = types[p].replace(' ', '').lower()
                v, why = (OK, '') if "mode='c'" in ty or 'mode="c"' in ty or '::1' in ty else \
                    (BAD, 'the kernel reads %s as consecutive memory, but an array with strides reaches it' % p)
            else:
                v, why = UND, 'assignments of %s' % p
            obs.add('contiguous', '%s %s' % (name, p), v, why, wh)
            if find(p) == big:
                v, why = OK, ''
            elif vague:
                v, why = UND, 'length checks not recognised'
            else:
                v, why = BAD, 'no check that %s has the length of %s before the kernel reads it' % (p, passed[0])
            obs.add('length', '%s %s' % (name, p), v, why, wh)


PROPS = {
    'S08': dict(run=partial, floor=20,
                rule='The counted loops of cox_fns.c are summarised as prefix and suffix sums over the order of the times, read at ranks with minimal and maximal ties, and inlined through cox_utils.pyx into cox_loglike. '
                     'Sums over {j: T_j >= T_i} are the risk operator; value, gradient and Hessian terms equal the partial likelihood and its symbolic derivatives; no quotient or logarithm of a risk-set sum is reached for a case with weight zero; every index is in range and the wrappers pass contiguous arrays of equal lengths.'),
}
