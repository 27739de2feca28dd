"""Copies, subsamples and replaced data.

Objects are built symbolically through their own __init__, then `__copy__`, `subsample` or the `data`
setter is run abstractly; the attribute stores (or the evaluated functions) of the two objects in the
one final state are compared, and the cells of their arrays must be distinct."""
from .. import terms as T, cells
from ..terms import mk, num, sym, ZERO, ONE
from ..check import OK, BAD, UND
from ..absint import A, C, Ob, Tup, Dct, Value
from ..lab import Lab, BOTTOM
from .r_compose import lab, parts, find, NN, where as cwhere

X = sym('v_x')
N = sym('i_n')


def where(f):
    return '%s:%d' % (f.module.relpath, f.node.lineno)


MATRIX = ('svd', 'nuclear', 'operator', 'multinomial', 'stacked_common')
SCALARS = ('lagrange', 'bound', 'coef', 'smoothing_parameter', 'l1_weight', 'l2_weight', 'epsilon')


def nonnull():
    return NN + ['v_offset', 'v_initial', 'v_case_weights', 'v_weights', 'v_trials', 'v_warm_start', 'v_now', 'v_X', 'v_Y',
                 'v_group_weights', 'v_lasso_weights', 'v_center', 's_lagrange++', 's_bound++', 's_later++', 'v_successes', 'v_counts',
                 'v_response', 'v_event_times', 'v_censoring', 'v_shape', 'v_newdata']


DENSE = ('response', 'counts', 'successes', 'event_times', 'censoring', 'Y', 'Y1', 'Y2', 'trials', 'case_weights', 'offset', 'off2', 'x',
         'right', 'initial', 'now')


def dense(t):
    """responses, weights and offsets are ordinary arrays (1: of one dimension, 2: of two)"""
    if t.op == 'sym' and t.args[0][:2] == 'v_' and t.args[0][2:].rstrip('9') in DENSE:
        return 2 if 'counts' in t.args[0] else 1
    return 0


def fresh(ctx, **kw):
    L = Lab(ctx, nonnull=nonnull(), **kw)
    if PLAIN:
        L.I.plain = dense
    return L


PLAIN = True


def shape_of(L, c, init):
    two = any(m in c.name for m in MATRIX) or 'block' in c.module.name or 'block' in c.name \
        or any(b.name in ('svd_atom', 'block_sum', 'block_max') for b in c.mro())
    return [N, sym('i_q')] if two else [N]


def argument(L, ctx, c, p, mode, tag=''):
    """the symbolic argument for an __init__ parameter"""
    if p == 'lagrange':
        return C(sym('s_lagrange++')) if mode == 'lagrange' else C(T.NONE)
    if p == 'bound':
        return C(sym('s_bound++')) if mode == 'bound' else C(T.NONE)
    if p in ('shape', 'matrix_shape', 'primal_shape'):
        return L.I.tup(L.st, [C(s) for s in shape_of(L, c, None)], 'tuple')
    if p == 'quadratic':
        return L.quad(*parts('1'))
    if p == 'initial_rank':
        return C(sym('i_rank'))
    if p == 'atom_cls':
        k = [d for d in ctx.model.all_classes() if d.qual == 'regreg.atoms.seminorms.l1norm']
        from ..absint import Cl
        return Cl(k[0]) if k else None
    if p == 'loss' or p == 'saturated_loss':
        return saturated(L, ctx, c, tag)
    if p == 'losses':
        return None
    if p in SCALARS:
        return C(sym('s_%s++' % p))
    return L.vec('v_' + p + (tag if p in DATA else ''))


def saturated(L, ctx, c, tag=''):
    if 'mglm' in c.name:
        return L.new(find(ctx, 'regreg.smooth.mglm.stacked_common_loglike'), losses_list(L, ctx, True, tag), offset=L.vec('v_off2'))
    k = find(ctx, 'regreg.smooth.glm.gaussian_loglike')
    return L.new(k, L.I.tup(L.st, [C(N)], 'tuple'), L.vec('v_Y' + tag), offset=L.vec('v_offset'))


def losses_list(L, ctx, same=False, tag=''):
    k = find(ctx, 'regreg.smooth.glm.gaussian_loglike')
    out = []
    for i in '12':
        out.append(L.new(k, L.I.tup(L.st, [C(N if same else sym('i_n' + i))], 'tuple'), L.vec('v_Y' + i + tag)))
    return L.I.tup(L.st, out, 'list')


DATA = ('X', 'Y', 'response', 'counts', 'successes', 'event_times', 'censoring')


def build(ctx, L, c, mode, tag='', **over):
    init = c.method('__init__')
    if init is None:
        return None
    kw = {}
    for p in init.params()[1:]:
        if p in ('lagrange', 'bound') or p == 'losses':
            pass
        if p in over:
            kw[p] = L.val(over[p])
            continue
        v = losses_list(L, ctx, 'common' in c.name, tag) if p == 'losses' else argument(L, ctx, c, p, mode, tag)
        if v is None:
            return None
        kw[p] = v
    return L.new(c, **kw)


def settle(t):
    """offsets are nonzero; shapes given as tuples"""
    def f(u):
        if u.op == 'red' and u.args[0] == 'any' and T.mentions(u.args[1], lambda s: s.op == 'sym' and s.args[0] in ('v_offset', 'v_off2')):
            return ONE
        if u.op == 'eq' and any(a.op == 'typeof' and plain(a.args[0]) is not None for a in u.args):
            return ZERO
        if u.op == 'isnone' and plain(u.args[0].args[0] if u.args[0].op == 'getitem' else u.args[0]) is not None:
            return ZERO
        if u.op == 'eq' and u.args[0].op == 'num' and u.args[1].op == 'list' and all(a.op == 'num' for a in u.args[1].args[0]):
            same = [a is u.args[0] for a in u.args[1].args[0]]
            return ONE if all(same) else ZERO if not any(same) else None
        return None
    return T.subst_fn(t, f)


class Cmp(object):
    """attribute-wise comparison of two objects of one state"""

    def __init__(self, L):
        self.L, self.L0 = L, L
        self.seen = set()

    def pair(self, va, vb):
        """'same' | 'diff' | 'unknown' and the two terms"""
        L = self.L
        ta, tb = L.term(va), L.term(vb)
        if ta is None or tb is None:
            return 'unknown', ta, tb
        ta, tb = settle(ta), settle(tb)
        if ta is tb:
            return 'same', ta, tb
        p = plain(ta)
        if p is not None:
            if not T.contains(tb, ta):
                return 'diff', ta, tb      # the value given at construction is lost
            return cells.compare(ta, tb), ta, tb
        # defaults filled in at construction: filling them in again changes nothing
        for q in T.subterms(ta).values():
            if q.op == 'sym' and q.args[0].startswith('v_') and T.contains(tb, ta):
                if T.subst_fn(tb, lambda u: q if u is ta else None) is ta:
                    return 'same', ta, tb
        return cells.compare(ta, tb), ta, tb


def plain(t):
    """a parameter or state of the object, taken as it was given"""
    if t.op == 'sym' and t.args[0][:2] in ('v_', 's_', 'i_') and t.args[0] not in ('i_n', 'i_q'):
        return t
    return None


PUBLIC = ('shape', 'coef', 'offset', 'lagrange', 'bound', 'coefs', 'weights', 'case_weights', 'groups', 'data', 'lasso_weights',
          'l1_weight', 'l2_weight', 'epsilon', 'basis', 'matrix_shape', 'penalty_structure', 'smoothing_parameter', 'initial_rank',
          'warm_start', 'response', 'counts', 'successes', 'trials', 'event_times', 'censoring', 'center', 'linear_term',
          'constant_term', 'p', 'scaling', 'minsize', 'slices')
PARTS = ('coef', 'center', 'linear_term', 'constant_term')


def readable(L, o, n):
    c = o.cls
    if (o.id, n) in L.st.heap:
        return True
    r = c.lookup(n)
    return bool(r) and r[0] == 'prop'


def fields(L, o):
    """public data attributes of the object, as abstract values"""
    out = []
    for n in PUBLIC:
        if not readable(L, o, n):
            continue
        v = L.get(o, n)
        if v is None or v is BOTTOM:
            continue
        out.append((n, v))
    return out


def quadratic(L, o):
    if not readable(L, o, 'quadratic'):
        return None
    v = L.get(o, 'quadratic')
    return v if isinstance(v, Ob) else None


def classes(ctx):
    out = []
    for c in ctx.model.all_classes():
        if '.tests.' in c.qual or c.method('__init__') is None:
            continue
        out.append(c)
    return out


def short(c):
    return c.qual.split('regreg.')[-1]


def modes_of(c):
    ps = c.method('__init__').params()
    m = [x for x in ('lagrange', 'bound') if x in ps]
    return m or ['plain']


def later(L, o):
    """state changed after construction: a copy must reproduce it"""
    L.set(o, 'coefs', L.vec('v_now'))
    if readable(L, o, 'quadratic') and not (o.id, 'quadratic') in L.st.heap:
        L.set(o, 'quadratic', L.quad(*parts('2')))
    elif (o.id, '_quadratic') in L.st.heap:
        L.set(o, 'quadratic', L.quad(*parts('2')))


def change_copy(ctx, obs):
    for c in classes(ctx):
        f = c.method('__copy__')
        if f is None:
            continue
        for m in modes_of(c):
            for when in ('built', 'changed'):
                L = fresh(ctx)
                o = build(ctx, L, c, m)
                cons = '%s (%s, %s)' % (short(c), m, when)
                if o is BOTTOM and m != 'plain':
                    continue
                if not isinstance(o, Ob):
                    obs.add('copy', cons, UND, 'not built', where(f))
                    continue
                if when == 'changed':
                    if 'identity_quadratic' in c.qual or 'multiscale' in c.qual:
                        continue
                    later(L, o)
                k = L.call(o, '__copy__')
                if k is BOTTOM:
                    obs.add('copy', cons, BAD, 'copying raises on every path', where(f))
                    continue
                if not isinstance(k, Ob):
                    obs.add('copy', cons, UND, 'copy not followed', where(f))
                    continue
                compare(obs, 'copy', cons, L, o, k, where(f))


def compare(obs, rule, cons, L, o, k, w, skip=()):
    K = Cmp(L)
    if k.cls is not o.cls:
        obs.add(rule, cons + ': class', BAD, 'the copy is a %s' % k.cls.name, w)
        return
    if k.id == o.id:
        obs.add(rule, cons + ': identity', BAD, 'the copy is the original itself', w)
        return
    fa = dict(fields(L, o))
    fb = dict(fields(L, k))
    for n in sorted(fa):
        if n in skip:
            continue
        if n not in fb:
            obs.add(rule, '%s: %s' % (cons, n), BAD, 'the copy has no %s' % n, w)
            continue
        r, a, b = K.pair(fa[n], fb[n])
        obs.add(rule, '%s: %s' % (cons, n), OK if r == 'same' else BAD if r == 'diff' else UND,
                '' if r == 'same' else 'original %s, copy %s' % (a is not None and T.show(a, 4), b is not None and T.show(b, 4)), w)
    qa, qb = quadratic(L, o), quadratic(L, k)
    if qa is not None:
        if qb is None:
            obs.add(rule, cons + ': quadratic', UND, '', w)
        else:
            for p in PARTS:
                r, a, b = K.pair(L.get(qa, p), L.get(qb, p))
                obs.add(rule, '%s: quadratic.%s' % (cons, p), OK if r == 'same' else BAD if r == 'diff' else UND,
                        '' if r == 'same' else 'original %s, copy %s' % (a is not None and T.show(a, 5), b is not None and T.show(b, 5)), w)
    for n in ('saturated_loss',):
        if (o.id, n) in L.st.heap and isinstance(L.st.heap[(o.id, n)], Ob):
            x = L.st.heap.get((k.id, n))
            if not isinstance(x, Ob):
                obs.add(rule, '%s: %s' % (cons, n), UND if x is not None else BAD, '', w)
            elif x.id == L.st.heap[(o.id, n)].id:
                obs.add(rule, '%s: %s separate' % (cons, n), BAD, 'copy and original share the %s' % n, w)
            else:
                compare(obs, rule, '%s: %s' % (cons, n), L, L.st.heap[(o.id, n)], x, w)
    # independence
    for n in ('coefs', 'case_weights'):
        if n in skip or n not in fa or n not in fb:
            continue
        va, vb = fa[n], fb[n]
        if isinstance(va, A) and isinstance(vb, A):
            shared = root(L.st, va) == root(L.st, vb)
            obs.add(rule, '%s: %s separate' % (cons, n), BAD if shared else OK, 'copy and original share the %s array' % n if shared else '', w)


def root(st, v):
    """the array whose memory v uses"""
    c = v.cell
    while c in st.views:
        c = st.views[c][1]
    return c


def is_loss(c):
    return c.method('smooth_objective') is not None


def subsamples(ctx, obs):
    """subsample(idx): a copy whose case weights are zero outside idx; the original is left alone"""
    for c in classes(ctx):
        f = c.method('subsample')
        if f is None or not is_loss(c):
            continue
        for given in ('none', 'given'):
            L = fresh(ctx)
            cons = '%s (case weights %s)' % (short(c), given)
            over = {} if given == 'given' or 'case_weights' not in c.method('__init__').params() else {'case_weights': None}
            o = build(ctx, L, c, 'plain', **over)
            if not isinstance(o, Ob):
                obs.add('subsample', cons, UND, 'not built', where(f))
                continue
            later(L, o)
            before = {n: settled(L, v) for n, v in fields(L, o)}
            k = L.call(o, 'subsample', L.vec('v_idx'))
            if k is BOTTOM:
                obs.add('subsample', cons, BAD, 'raises on every path', where(f))
                continue
            if not isinstance(k, Ob):
                obs.add('subsample', cons, UND, 'not followed', where(f))
                continue
            if k.id == o.id:
                obs.add('subsample', cons, BAD, 'returns the loss itself', where(f))
                continue
            for n, v in fields(L, o):
                t = settled(L, v)
                same = t is not None and before.get(n) is t
                r = 'same' if same else 'unknown' if t is None or before.get(n) is None else cells.compare(before[n], t)
                obs.add('subsample', '%s: original %s kept' % (cons, n), OK if r == 'same' else BAD if r == 'diff' else UND,
                        '' if r == 'same' else 'the original\'s %s becomes %s' % (n, t is not None and T.show(t, 4)), where(f))
            compare(obs, 'subsample', cons, L, o, k, where(f), skip=('case_weights',))
            mask = mk('setitem', ZERO, sym('v_idx'), ONE)
            want = mask if given == 'none' else T.mul(mask, sym('v_case_weights'))
            got = settled(L, L.get(k, 'case_weights'))
            r = 'unknown' if got is None else 'same' if got is want else cells.compare(got, want)
            if r == 'unknown' and got is not None and not T.contains(got, sym('v_idx')):
                r = 'diff'
            obs.add('subsample', cons + ': case weights', OK if r == 'same' else BAD if r == 'diff' else UND,
                    '' if r == 'same' else '%s instead of %s' % (got is not None and T.show(got, 6), T.show(want, 6)), where(f))


def settled(L, v):
    t = L.term(v)
    return settle(t) if t is not None else None


def resettle(t):
    """replaced data have the shape of the data they replace; stacked responses have the lengths of their losses"""
    def f(u):
        if u.op == 'attr' and u.args[1] == 'shape' and u.args[0].op == 'sym' and u.args[0].args[0].endswith('9'):
            return mk('attr', sym(u.args[0].args[0][:-1]), 'shape')
        if u.op == 'getitem' and u.args[0].op == 'stack' and u.args[0].args[1].op == 'list':
            l = u.args[0].args[1].args[0]
            at = T.show(u.args[1], 9)
            for i, want in enumerate(('(0, i_n1, 1)', '(i_n1, i_n1 + i_n2, 1)')):
                if len(l) == 2 and want in at:
                    return l[i]
        return None
    return T.subst_fn(t, f)


def evaluations(L, o):
    """what a loss computes: value, gradient, second-order information"""
    out = []
    for n, args, kw in (('smooth_objective', [L.vec('v_x')], {'mode': 'func'}), ('smooth_objective', [L.vec('v_x')], {'mode': 'grad'}),
                        ('hessian', [L.vec('v_x')], {}), ('hessian_mult', [L.vec('v_x'), L.vec('v_right')], {})):
        if o.cls.method(n) is None:
            continue
        v = L.call(o, n, *args, **kw)
        out.append((n + (' ' + kw['mode'] if kw else ''), v))
    return out


def replaced(ctx, obs):
    """loss.data = D makes the loss the one built on D"""
    for c in classes(ctx):
        r = c.lookup('data')
        if not r or r[0] != 'prop' or not is_loss(c):
            continue
        w = where(c.method('set_data') or c.method('smooth_objective'))
        L = fresh(ctx)
        cons = short(c)
        o = build(ctx, L, c, 'plain')
        n = build(ctx, L, c, 'plain', tag='9')
        if not isinstance(o, Ob) or not isinstance(n, Ob):
            obs.add('data', cons, UND, 'not built', w)
            continue
        d = L.get(n, 'data')
        if d is None or d is BOTTOM:
            obs.add('data', cons, UND, 'no data', w)
            continue
        s = L.set(o, 'data', d)
        if s is BOTTOM:
            obs.add('data', cons, BAD, 'setting data raises on every path', w)
            continue
        ta, tb = settled(L, L.get(o, 'data')), settled(L, d)
        r = 'unknown' if ta is None or tb is None else 'same' if ta is tb else cells.compare(ta, tb)
        obs.add('data', cons + ': data', OK if r == 'same' else BAD if r == 'diff' else UND,
                '' if r == 'same' else 'data reads back as %s' % (ta is not None and T.show(ta, 6)), w)
        for (m, a), (m2, b) in zip(evaluations(L, o), evaluations(L, n)):
            if a is BOTTOM and b is BOTTOM:
                continue
            ta, tb = settled(L, a), settled(L, b)
            ta, tb = ta and resettle(ta), tb and resettle(tb)
            if ta is None or tb is None:
                obs.add('data', '%s: %s' % (cons, m), UND, '', w)
                continue
            r = 'same' if ta is tb else cells.compare(ta, tb)
            if r == 'unknown' and any(s.op == 'sym' and isinstance(s.args[0], str) and s.args[0].lstrip('v_') in
                                      DATA + ('Y1', 'Y2') for s in T.subterms(ta).values()):
                r = 'diff'
            obs.add('data', '%s: %s' % (cons, m), OK if r == 'same' else BAD if r == 'diff' else UND,
                    '' if r == 'same' else 'after data is replaced %s, built on the new data %s' % (T.show(ta, 7), T.show(tb, 7)), w)


ASSUME = ['offsets are nonzero; responses and weights are ordinary arrays; constructor arguments are arbitrary symbols']


def run_c01(ctx, obs):
    change_copy(ctx, obs)


PROPS = {
    'C01': dict(run=run_c01, floor=1200, rule='every public data attribute and every part of the quadratic of the copy made by the evaluated __copy__ '
                'is the value the original holds, the class is the same, and coefs and case_weights are distinct cells', assumptions=ASSUME),
    'C02': dict(run=subsamples, floor=300, rule='subsample(idx) yields a copy (attribute-wise) whose case weights are the indicator of idx times the '
                'original ones, and no attribute of the original changes', assumptions=ASSUME),
    'D01': dict(run=replaced, floor=28, rule='after loss.data = D, value, gradient, Hessian and Hessian product are those of a loss constructed on D',
                assumptions=ASSUME + ['the new data have the shape of the old']),
}
