"""Composites evaluate the function they are made of.

Every composite (problem, sum, separable atom, affine composition, dual problem, smooth conjugate) is
built from opaque parts and its methods are run abstractly; the resulting terms are compared with the
specification over the parts' own smooth_objective (F, G) and nonsmooth_objective (N) terms."""
from fractions import Fraction
from .. import terms as T, cells, diff
from ..terms import mk, num, sym, ZERO, ONE, add, sub, mul, div, neg, power
from ..check import OK, BAD, UND
from ..absint import Giveup, Ob, C, Tup, Bottom
from ..lab import Lab, BOTTOM
from .r_atoms import zero_offset
from .r_quad import val, gradient, fields, is_quadratic, generic, HALF

X, CF = sym('v_x'), sym('check_feasibility')
NONNULL = ['v_x', 'coef', 'center', 'linear_term', 'constant_term', '_quadratic', 'quadratic', 'v_offset', 'smoothq', 'prox_control',
           'x', 'arg']


def parts(n):
    return (sym('s_co%s++' % n), sym('v_ce%s' % n), sym('v_li%s' % n), sym('s_cn%s' % n))


NN = NONNULL + [p.args[0] for n in '1234' for p in parts(n)]


def lab(ctx, **kw):
    return Lab(ctx, nonnull=NN, **kw)


def F(a, x):
    return mk('F', a, x, mk('t'))


def qparts(base):
    """the parts of an opaque quadratic"""
    return tuple(mk('attr', base, p) for p in ('coef', 'center', 'linear_term', 'constant_term'))


def quad_of(L, t):
    """(coef, center, linear, constant) of a quadratic given as abstract value or term"""
    if isinstance(t, Ob):
        class R(object):
            I, st = L.I, L.st
        return fields(R, t)
    if t is None:
        return None
    if t.op == 'obj' and t.args[0] == 'identity_quadratic':
        d = dict(t.args[1])
        out = []
        for p in ('coef', 'center', 'linear_term', 'constant_term'):
            v = d.get(p)
            if v is not None and not isinstance(v, T.Term):
                return None
            out.append(None if v is None or v is T.NONE else v)
        return tuple(out)
    if t.op in ('attr', 'sym'):
        return qparts(t)
    return None


def drop_null(t):
    """missing parts of opaque quadratics are not missing (isnone of them is false)"""
    def f(u):
        if u.op == 'isnone' and u.args[0].op in ('attr', 'mcall', 'sym'):
            return ZERO
        if u.op == 'bool' and u.args[0].op == 'isnone' and u.args[0].args[0].op in ('attr', 'mcall', 'sym'):
            return ZERO
        return None
    return T.subst_fn(t, f)


def norm(t):
    """F(a, x, anything) -> F(a, x); collapsed() of an opaque quadratic: same function"""
    def f(u):
        if u.op in ('F', 'G') and len(u.args) == 3:
            return norm(mk(u.op, u.args[0], u.args[1]))
        if u.op == 'obj' and u.args[0] == 'affine_transform':
            return D
        if u.op == 'ite':
            z = zero_offset(u)
            return None if z is u else z
        return None
    return T.subst_fn(drop_null(t), f)


def verdict(a, b):
    a, b = norm(a), norm(b)
    if a is b:
        return 'same'
    return cells.compare(a, b)


def judge(obs, rule, cons, got, want, what, where):
    if got is BOTTOM:
        obs.add(rule, cons, BAD, what + ': every path raises', where)
        return
    if got is None or want is None:
        obs.add(rule, cons, UND, what, where)
        return
    if got.op == 'tuple' or want.op == 'tuple':
        if got.op != want.op or len(got.args[0]) != len(want.args[0]):
            obs.add(rule, cons, UND if not T.is_arith(got) and got.op != 'tuple' else BAD, what + ': %s' % T.show(got, 5), where)
            return
        for g, w in zip(got.args[0], want.args[0]):
            judge(obs, rule, cons, g, w, what, where)
        return
    v = verdict(got, want)
    obs.add(rule, cons, OK if v == 'same' else BAD if v == 'diff' else UND,
            '' if v == 'same' else '%s: %s instead of %s' % (what, T.show(norm(got), 7), T.show(norm(want), 7)), where)


def subs(t):
    out = []
    T.mentions(t, lambda u: out.append(u) if u not in out else None)
    return out


def subst(t, d):
    return T.subst_fn(t, lambda u: d.get(u))


def run(L, v):
    return BOTTOM if v is BOTTOM else L.term(v)


def find(ctx, qual):
    for c in ctx.model.all_classes():
        if c.qual == qual:
            return c
    return None


def where(cls, m):
    f = cls.method(m)
    if f is None:
        r = cls.lookup(m)
        if r and r[0] == 'prop':
            f = r[1][0]
    return f.where if f is not None else ''


def NS(a, x):
    return mk('N', a, x, CF)


def Fx(a, x):
    return mk('F', a, x)


def Gx(a, x):
    return mk('G', a, x)


A1, A2, P1, P2 = sym('o_smooth1'), sym('o_smooth2'), sym('o_prox1'), sym('o_prox2')
Q1, Q2 = parts('1'), parts('2')


def modes(obs, cls, make, f, g, rule='smooth', forwards=False):
    """smooth_objective in the three modes"""
    w = where(cls, 'smooth_objective')
    for mode, want in (('func', f), ('grad', g), ('both', mk('tuple', (f, g)))):
        L, o = make()
        if o is None or o is BOTTOM:
            obs.add(rule, cls.name + '.smooth_objective:' + mode, UND, 'not built', w)
            continue
        r = run(L, L.call(o, 'smooth_objective', X, mode=mode))
        judge(obs, rule, cls.name + '.smooth_objective:' + mode, r, want, mode, w)
    L, o = make()
    if o is not None and o is not BOTTOM:
        r = L.call(o, 'smooth_objective', X, mode='nomode')
        if not forwards:
            obs.add('mode', cls.name + '.smooth_objective', UND if r is None else OK if r is BOTTOM else BAD,
                    'an unknown mode does not raise', w)


def simple(ctx, obs):
    cls = find(ctx, 'regreg.problems.simple.simple_problem')

    def make():
        L = lab(ctx)
        o = L.blank(cls, smooth_atom=L.vec(A1), proximal_atom=L.vec(P1))
        L.put(o, _quadratic=L.quad(*Q1))
        return L, o
    modes(obs, cls, make, Fx(A1, X), Gx(A1, X), forwards=True)
    nons = add(NS(P1, X), NS(A1, X), val(Q1, X))
    L, o = make()
    judge(obs, 'nonsmooth', 'simple_problem.nonsmooth_objective', run(L, L.call(o, 'nonsmooth_objective', X, check_feasibility=CF)), nons, '',
          where(cls, 'nonsmooth_objective'))
    L, o = make()
    judge(obs, 'objective', 'simple_problem.objective', run(L, L.call(o, 'objective', X, check_feasibility=CF)), add(Fx(A1, X), nons), '',
          where(cls, 'objective'))
    for ctl in (None, sym('prox_control')):
        L, o = make()
        kw = {} if ctl is None else {'prox_control': L.vec(ctl)}
        t = run(L, L.call(o, 'proximal', L.quad(*Q2), **kw))
        w = where(cls, 'proximal')
        cons = 'simple_problem.proximal'
        if t is None or t is BOTTOM or t.op != 'mcall' or t.args[0] not in ('solve', 'proximal'):
            obs.add('proximal', cons, BAD if t is BOTTOM else UND, 'not the proximal map of a part', w)
            continue
        obs.add('proximal', cons, OK if t.args[1] is P1 else BAD, 'the proximal map of %s' % T.show(t.args[1]), w)
        total = total_arg(L, t)
        judge(obs, 'proximal', cons, total, add(val(Q1, X), val(Q2, X), val(qparts(mk('attr', A1, 'quadratic')), X)),
              'quadratic of the proximal problem', w)
        if ctl is not None:
            obs.add('proximal', cons, OK if T.mentions(t, lambda u: u is ctl) else BAD, 'prox_control is dropped', w)


def total_arg(L, t):
    """the function represented by the quadratic passed to a proximal map"""
    args = t.args[2]
    if args:
        q = quad_of(L, args[0])
    else:
        kw = dict(t.args[3])
        q = None
        for k in ('proxq', 'quadratic'):
            if k in kw:
                q = quad_of(L, kw[k])
    return None if q is None else val(q, X)


def container(ctx, obs):
    cls = find(ctx, 'regreg.problems.container.container')

    def make(transform=None, atom=None):
        L = lab(ctx)
        o = L.blank(cls)
        L.put(o, smooth_atoms=L.val([L.vec(A1), L.vec(A2)]))
        L.put(o, nonsmooth_atoms=L.val([L.vec(P1), L.vec(P2)]))
        L.put(o, _quadratic=L.quad(*Q1))
        L.put(o, smoothq=L.quad(*parts('3')))
        if transform is not None:
            L.put(o, transform=transform(L))
            L.put(o, atom=L.vec(sym('o_dual_atom')))
        return L, o
    modes(obs, cls, make, add(Fx(A1, X), Fx(A2, X)), add(Gx(A1, X), Gx(A2, X)))
    nons = add(NS(P1, X), NS(P2, X), NS(A1, X), NS(A2, X), val(Q1, X))
    L, o = make()
    judge(obs, 'nonsmooth', 'container.nonsmooth_objective', run(L, L.call(o, 'nonsmooth_objective', X, check_feasibility=CF)), nons, '',
          where(cls, 'nonsmooth_objective'))
    L, o = make()
    judge(obs, 'objective', 'container.objective', run(L, L.call(o, 'objective', X, check_feasibility=CF)),
          add(Fx(A1, X), Fx(A2, X), nons), '', where(cls, 'objective'))
    # the proximal map, when the dual transform is the identity
    ident = find(ctx, 'regreg.affine.identity')
    total = add(val(Q1, X), val(Q2, X), val(parts('3'), X))
    w = where(cls, 'proximal')
    L, o = make(lambda L: L.blank(ident, 'o_transform'))
    t = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    cons = 'container.proximal'
    if t is None or t is BOTTOM or t.op != 'mcall' or t.args[0] not in ('solve', 'proximal'):
        obs.add('proximal', cons, BAD if t is BOTTOM else UND, 'not the proximal map of the stacked atom', w)
    else:
        obs.add('proximal', cons, OK if t.args[1] is mk('attr', sym('o_dual_atom'), 'conjugate') else BAD,
                'the proximal map of %s' % T.show(t.args[1]), w)
        judge(obs, 'proximal', cons, total_arg(L, t), total, 'quadratic of the proximal problem', w)
    return make, total


def fsum(ctx, obs):
    cls = find(ctx, 'regreg.smooth.sum')
    W1, W2, O = sym('s_w1+'), sym('s_w2+'), sym('v_offset')

    def make():
        L = lab(ctx)
        o = L.blank(cls)
        L.put(o, atoms=L.val([L.vec(A1), L.vec(A2)]))
        L.put(o, weights=L.val([C(W1), C(W2)]))
        L.put(o, _offset=L.vec(O))
        L.put(o, _quadratic=L.quad(*Q1))
        return L, o
    y = sub(X, O)
    modes(obs, cls, make, add(mul(W1, Fx(A1, y)), mul(W2, Fx(A2, y))), add(mul(W1, Gx(A1, y)), mul(W2, Gx(A2, y))))
    L, o = make()
    judge(obs, 'objective', 'sum.objective', run(L, L.call(o, 'objective', X, check_feasibility=CF)),
          add(mul(W1, Fx(A1, y)), mul(W2, Fx(A2, y)), val(Q1, X)), '', where(cls, 'objective'))


def affine(ctx, obs):
    cls = find(ctx, 'regreg.smooth.affine_smooth')
    D = sym('o_transform')
    at = find(ctx, 'regreg.affine.affine_transform')

    def make():
        L = lab(ctx)
        o = L.blank(cls)
        L.put(o, atom=L.vec(A1))
        L.put(o, affine_transform=L.vec(D))
        L.put(o, _quadratic=L.quad(*Q1))
        L.put(o, store_grad=C(T.TRUE))
        return L, o
    ax = mk('A', D, X)
    f, g = Fx(A1, ax), mk('Lt', D, Gx(A1, ax))
    modes(obs, cls, make, f, g)
    L, o = make()
    judge(obs, 'objective', 'affine_smooth.objective', run(L, L.call(o, 'objective', X, check_feasibility=CF)), add(f, val(Q1, X)), '',
          where(cls, 'objective'))
    # the gradient with respect to the linear predictor is kept for dual variables
    for mode in ('both', 'grad'):
        L, o = make()
        L.call(o, 'smooth_objective', X, mode=mode)
        judge(obs, 'grad-kept', 'affine_smooth.smooth_objective:' + mode, run(L, L.get(o, 'grad')), Gx(A1, ax), 'attribute grad',
              where(cls, 'smooth_objective'))


AFF = 'regreg.affine.affine_transform'
MAPS = [AFF + '.' + m for m in ('linear_map', 'affine_map', 'adjoint_map')]
D = sym('o_transform')


def transform(L, ctx, **kw):
    kw.setdefault('affine_offset', None)
    return L.blank(find(ctx, AFF), 'o_transform', **kw)


def container_maps(ctx, obs):
    """the proximal map of a container through the dual problem and for selected coordinates"""
    cls = find(ctx, 'regreg.problems.container.container')
    w = where(cls, 'proximal')
    total = add(val(Q1, X), val(Q2, X), val(parts('3'), X))

    def make(tr, **kw):
        L = lab(ctx, **kw)
        o = L.blank(cls)
        L.put(o, smooth_atoms=[L.vec(A1), L.vec(A2)], nonsmooth_atoms=[L.vec(P1), L.vec(P2)], _quadratic=L.quad(*Q1),
              smoothq=L.quad(*parts('3')), transform=tr(L), atom=L.vec(sym('o_dual_atom')), dual_minimizer=L.vec('v_dual'))
        return L, o
    L, o = make(lambda L: transform(L, ctx), no_inline=MAPS + ['fit', 'power_L'])
    r = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    cons = 'container.proximal:dual'
    if r is None or r is BOTTOM:
        obs.add('proximal', cons, BAD if r is BOTTOM else UND, '', w)
    else:
        r = norm(r)
        lts = [u for u in subs(r) if u.op == 'Lt' and u.args[0] is D]
        if len(lts) != 1:
            obs.add('proximal', cons, UND, 'result: %s' % T.show(r, 6), w)
        else:
            judge(obs, 'proximal', cons, add(subst(diff.grad(total, X), {X: r}), lts[0]), ZERO,
                  'gradient of the quadratic at the solution + adjoint of the dual solution', w)
    ev = [e for e in L.events if e['kind'] == 'construct' and e['cls'].name == 'dual_problem']
    if len(ev) == 1 and len(ev[0]['args']) == 3:
        f, tr, at = ev[0]['args'][0], norm(ev[0]['args'][1]), ev[0]['args'][2]
        obs.add('proximal', cons, OK if at is sym('o_dual_atom') and tr is D else BAD, 'dual problem of %s, %s' % (T.show(tr), T.show(at)), w)
        q = None
        if f.op == 'obj' and f.args[0] == 'smooth_conjugate':
            a = dict(f.args[1]).get('atom')
            if a is not None and a.op == 'obj' and a.args[0] == 'zero':
                q = quad_of(L, dict(a.args[1])['_quadratic'])
        judge(obs, 'proximal', cons, None if q is None else val(q, X), total, 'quadratic of the dual problem', w)
    else:
        obs.add('proximal', cons, UND, 'no dual problem', w)
    # the same solution comes with the history of the dual objective
    L, o = make(lambda L: transform(L, ctx), no_inline=MAPS + ['fit', 'power_L'])
    h = run(L, L.call(o, 'proximal', L.quad(*Q2), prox_control={'return_objective_hist': True}))
    if isinstance(h, T.Term) and h.op == 'tuple' and isinstance(r, T.Term):
        judge(obs, 'proximal', cons, h.args[0][0], r, 'solution returned with the history', w)
    # a plain selector: the proximal map on the selected coordinates
    cons = 'container.proximal:selector'
    IDX = sym('o_index')
    L, o = make(lambda L: L.blank(find(ctx, 'regreg.affine.selector'), 'o_transform', index_obj=C(IDX), reshape=None,
                                  affine_transform=L.blank(find(ctx, 'regreg.affine.identity'), 'o_inner')))
    r = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    if r is None or r is BOTTOM or r.op != 'setitem' or r.args[1] is not IDX or r.args[2].op != 'mcall':
        obs.add('proximal', cons, BAD if r is BOTTOM else UND, '', w)
    else:
        judge(obs, 'proximal', cons, subst(diff.grad(total, X), {X: r.args[0]}), ZERO, 'unselected coordinates minimise the quadratic', w)
        t = r.args[2]
        q = quad_of(L, t.args[2][0]) if t.args[2] else None
        y = mk('getitem', X, IDX)
        from .r_quad import T_getitem
        want = generic(T_getitem(diff.grad(total, X), IDX))
        judge(obs, 'proximal', cons, None if q is None else generic(gradient(q, T_getitem(X, IDX))), want, 'quadratic on the selected coordinates', w)
    # a selector followed by another transform is not a plain selection
    L, o = make(lambda L: L.blank(find(ctx, 'regreg.affine.selector'), 'o_transform', index_obj=C(IDX), reshape=None,
                                  affine_transform=L.blank(find(ctx, AFF), 'o_inner')), no_inline=MAPS + ['fit', 'power_L'])
    r = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    cons = 'container.proximal:selector-transform'
    obs.add('proximal', cons, UND if r is None else BAD if r is BOTTOM or r.op == 'setitem' and r.args[2].op == 'mcall' else OK,
            'the transform applied after the selection is ignored', w)


def separable(ctx, obs):
    cls = find(ctx, 'regreg.problems.separable.separable')
    G1, G2, S1, S2 = sym('o_group1'), sym('o_group2'), sym('o_as1'), sym('o_as2')
    from .r_quad import T_getitem
    X1, X2 = T_getitem(X, G1), T_getitem(X, G2)

    def make(**kw):
        L = lab(ctx, **kw)
        o = L.blank(cls)
        L.put(o, atoms=[L.vec(P1), L.vec(P2)], groups=[C(G1), C(G2)], shapes=[None, None], assign_shapes=[C(S1), C(S2)],
              _quadratic=L.quad(*Q1), zero_atom=L.vec(sym('o_zero')), shape=(C(sym('s_p++')),))
        return L, o
    L, o = make()
    judge(obs, 'nonsmooth', 'separable.nonsmooth_objective', run(L, L.call(o, 'nonsmooth_objective', X, check_feasibility=CF)),
          add(NS(P1, X1), NS(P2, X2), val(Q1, X)), '', where(cls, 'nonsmooth_objective'))
    for m, kws in (('seminorm', ('lagrange', 'check_feasibility')), ('constraint', ('bound',))):
        L, o = make()
        w = where(cls, m)
        r = run(L, L.call(o, m, X, **{k: L.vec(sym('s_' + k)) for k in kws}))
        if r is None or r is BOTTOM:
            obs.add('parts', 'separable.' + m, UND, '', w)
            continue
        got = [(u.args[1], u.args[2], dict(u.args[3])) for u in subs(r) if u.op == 'mcall' and u.args[0] == m]
        ok = sorted((a.id, b[0].id) for a, b, k in got if b) == sorted([(P1.id, X1.id), (P2.id, X2.id)])
        obs.add('parts', 'separable.' + m, OK if ok else BAD if len(got) == 2 else UND, 'calls %s' % [(T.show(a), [T.show(z) for z in b]) for a, b, k in got], w)
        for a, b, k in got:
            for n in kws:
                v = k.get(n)
                obs.add('parts', 'separable.' + m, OK if v is sym('s_' + n) else UND if v is None and len(b) > 1 else BAD,
                        'the parts do not get %s' % n, w)
        judge(obs, 'parts', 'separable.' + m, r, add(*[u for u in subs(r) if u.op == 'mcall' and u.args[0] == m]), 'sum over groups', w)
    # proximal
    L, o = make()
    w = where(cls, 'proximal')
    r = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    cons = 'separable.proximal'
    total = add(val(Q1, X), val(Q2, X))
    found = {}
    t = r if r is not None and r is not BOTTOM else None
    while t is not None and t.op == 'setitem':
        v = t.args[2]
        while v.op in ('reshape',) or v.op == 'mcall' and v.args[0] == 'reshape':
            v = v.args[1] if v.op == 'mcall' else v.args[0]
        found[t.args[1]] = v
        t = t.args[0]
    if t is None or not found:
        obs.add('proximal', cons, BAD if r is BOTTOM else UND, '' if t is None else T.show(r, 5), w)
    else:
        for g, a in ((G1, P1), (G2, P2)):
            v = found.get(g)
            if v is None or v.op != 'mcall' or v.args[0] not in ('proximal', 'solve'):
                obs.add('proximal', cons, UND, 'group %s' % T.show(g), w)
                continue
            obs.add('proximal', cons, OK if v.args[1] is a else BAD, 'group %s gets the proximal map of %s' % (T.show(g), T.show(v.args[1])), w)
            q = quad_of(L, v.args[2][0]) if v.args[2] else None
            judge(obs, 'proximal', cons, None if q is None else generic(gradient(q, T_getitem(X, g))), generic(T_getitem(diff.grad(total, X), g)),
                  'quadratic on a group', w)
        if t.op == 'mcall' and t.args[1] is sym('o_zero') and t.args[2]:
            q = quad_of(L, t.args[2][0])
            judge(obs, 'proximal', cons, None if q is None else val(q, X), total, 'quadratic of the unpenalized coordinates', w)
        else:
            obs.add('proximal', cons, UND, 'unpenalized coordinates', w)
    # conjugate, without own quadratic: conjugates on the same groups
    L, o = make()
    L.put(o, _quadratic=L.quad(ZERO, None, None, ZERO))
    c = L.get(o, 'conjugate')
    w = where(cls, 'conjugate')
    if isinstance(c, Ob) and c.cls is cls:
        at, gr, sh = (run(L, L.get(c, n)) for n in ('atoms', 'groups', 'shapes'))
        want = mk('attr', P1, 'conjugate'), mk('attr', P2, 'conjugate')
        for t, ws, n in ((at, want, 'atoms'), (gr, (G1, G2), 'groups')):
            if t is not None and t.op in ('list', 'tuple'):
                obs.add('conjugate', 'separable.conjugate', OK if tuple(t.args[0]) == tuple(ws) else BAD, '%s: %s' % (n, T.show(t, 4)), w)
            else:
                obs.add('conjugate', 'separable.conjugate', UND, n, w)
    else:
        obs.add('conjugate', 'separable.conjugate', UND, '', w)


def affine_atoms(ctx, obs):
    """norms, cones composed with linear maps"""
    O, B = sym('v_offset'), sym('v_b')
    cls = find(ctx, 'regreg.atoms.affine_atom')
    w = where(cls, '__init__')
    for off in (None, O):
        for b in (None, B):
            L = lab(ctx, no_inline=MAPS + ['aslinear'])
            at = L.blank(find(ctx, 'regreg.atoms.atom'), 'o_atom', _offset=off if off is None else L.vec(off), _quadratic=L.quad(*Q1))
            tr = transform(L, ctx, affine_offset=None if b is None else L.vec(b))
            o = L.new(cls, at, tr)
            if not isinstance(o, Ob):
                obs.add('affine-atom', 'affine_atom.__init__', UND, '', w)
                continue
            a = L.get(o, 'atom')
            t = run(L, L.get(a, 'offset')) if a is not None and a is not BOTTOM else None
            if t is T.NONE:
                t = ZERO
            judge(obs, 'affine-atom', 'affine_atom.__init__', t, sub(off or ZERO, b or ZERO), 'center of the atom (offset %s, transform offset %s)' %
                  (off is not None, b is not None), w)
            obs.add('affine-atom', 'affine_atom.__init__', OK if run(L, L.get(at, 'offset')) in (off, T.NONE) else BAD,
                    'the offset of the atom it was given is changed', w)
    for qual in ('regreg.atoms.affine_atom', 'regreg.atoms.cones.affine_cone'):
        c = find(ctx, qual)

        def make(**kw):
            L = lab(ctx, **kw)
            o = L.blank(c)
            L.put(o, atom=L.vec(P1), linear_transform=L.vec(D))
            return L, o
        L, o = make()
        judge(obs, 'nonsmooth', c.name + '.nonsmooth_objective', run(L, L.call(o, 'nonsmooth_objective', X, check_feasibility=CF)),
              NS(P1, mk('L', D, X)), '', where(c, 'nonsmooth_objective'))
        L, o = make()
        t = run(L, L.get(o, 'dual'))
        wd = where(c, 'dual')
        if t is None or t is BOTTOM or t.op != 'tuple' or len(t.args[0]) != 2:
            obs.add('dual', c.name + '.dual', UND, '', wd)
        else:
            a, b = t.args[0]
            obs.add('dual', c.name + '.dual', OK if a is D else BAD, 'transform %s' % T.show(a), wd)
            obs.add('dual', c.name + '.dual', OK if b.op == 'attr' and b.args[1] == 'conjugate' and T.contains(b, P1) else UND if T.contains(b, P1) else BAD,
                    'conjugate %s' % T.show(b), wd)


LAM, BND = sym('s_lam++'), sym('s_bnd++')


def offset_of(L, o):
    t = run(L, L.get(o, 'offset'))
    return ZERO if t is T.NONE else None if t is None or t is BOTTOM else zero_offset(t)


def smoothed(ctx, obs):
    """smoothing an atom: the conjugate of its conjugate plus a quadratic, composed with the transform"""
    O = sym('v_offset')
    l1 = find(ctx, 'regreg.atoms.seminorms.l1norm')
    shape = lambda L: (C(sym('s_p++')),)
    for off in (None, O):
        for comp in (False, True):
            L = lab(ctx, no_inline=MAPS + ['aslinear'])
            at = L.new(l1, shape(L), lagrange=C(LAM), offset=None if off is None else L.vec(off))
            c = find(ctx, 'regreg.atoms.affine_atom')
            w = where(c if comp else find(ctx, 'regreg.atoms.atom'), 'smoothed')
            cons = ('affine_atom' if comp else 'atom') + '.smoothed'
            if comp:
                at = L.new(c, at, transform(L, ctx)) if isinstance(at, Ob) else None
            r = L.call(at, 'smoothed', L.quad(*Q2)) if isinstance(at, Ob) else None
            if not isinstance(r, Ob):
                obs.add('smoothed', cons, BAD if r is BOTTOM else UND, 'no result', w)
                continue
            if comp:
                obs.add('smoothed', cons, OK if r.cls.name == 'affine_smooth' else BAD, 'result is a ' + r.cls.name, w)
                tr = run(L, L.get(r, 'affine_transform'))
                judge(obs, 'smoothed', cons, tr, D if tr is not None and T.mentions(norm(tr), lambda u: u is D) else tr, 'transform', w)
                r = L.get(r, 'atom')
            if not isinstance(r, Ob) or r.cls.name != 'smooth_conjugate':
                obs.add('smoothed', cons, UND if not isinstance(r, Ob) else BAD, 'the result is not a smooth conjugate', w)
                continue
            a = L.get(r, 'atom')
            if not isinstance(a, Ob):
                obs.add('smoothed', cons, UND, 'atom', w)
                continue
            obs.add('smoothed', cons, OK if a.cls.name == 'supnorm' else BAD, 'the smooth conjugate of a ' + a.cls.name, w)
            judge(obs, 'smoothed', cons, run(L, L.get(a, 'bound')), LAM, 'bound of the conjugate', w)
            q = L.get(a, 'quadratic')
            q = quad_of(L, q) if isinstance(q, Ob) else None
            want = val(Q2, X) if off is None else add(val(Q2, X), T.red('sum', mul(O, X)))
            judge(obs, 'smoothed', cons, None if q is None else generic(norm(val(q, X))), want, 'quadratic of the conjugate', w)


def factories(ctx, obs):
    """affine(L, b), linear(L) and shift(a): the atom at L x + b, L x, and at x shifted, with the same parameters"""
    O = sym('v_offset')
    LT = 'regreg.affine.linear_transform'
    atomc, aff = find(ctx, 'regreg.atoms.atom'), find(ctx, 'regreg.atoms.affine_atom')
    smooth = find(ctx, 'regreg.smooth.smooth_atom')
    # classes whose constructor takes the shape first (weights and groups come first elsewhere)
    for c in ctx.model.all_classes():
        names = [b.name for b in c.mro()]
        is_atom, is_smooth = atomc in c.mro(), smooth in c.mro()
        if not (is_atom or is_smooth) or c in (atomc, smooth):
            continue
        init = c.method('__init__')
        if init is None or init.params()[1:2] != ['shape'] or 'quadratic' not in init.params() or 'offset' not in init.params():
            continue
        extra = [n for n in init.params()[2:len(init.params()) - len(init.node.args.defaults)]]
        if extra or c.name in ('seminorm', 'cone'):
            continue
        for m in ('affine', 'linear', 'shift'):
            f = c.method(m)
            if f is None or not f.is_classmethod:
                continue
            ps = f.params()[1:]
            cons = '%s.%s' % (c.qual.replace('regreg.', ''), m)
            w = f.where
            for form in ((('lagrange', LAM), ('bound', BND)) if 'lagrange' in ps else (('', None),)):
                L = lab(ctx, no_inline=MAPS + ['aslinear'])
                q = L.quad(*Q1)
                kw = {'quadratic': q}
                if form[0]:
                    kw[form[0]] = C(form[1])
                if 'coef' in ps:
                    kw['coef'] = C(sym('s_coef++'))
                tr = L.blank(find(ctx, LT), 'o_transform', affine_offset=None)
                pos = [tr] if m != 'shift' else []
                if m != 'linear':
                    pos.append(L.vec(O))
                r = L.clsmeth(c, m, *pos, **kw)
                if not isinstance(r, Ob):
                    obs.add('factory', cons, BAD if r is BOTTOM else UND, 'every path raises' if r is BOTTOM else 'no object', w)
                    continue
                a = r
                if m != 'shift':
                    a = L.get(r, 'atom')
                    want = 'affine_smooth' if is_smooth else ('affine_atom', 'affine_cone')
                    obs.add('factory', cons, OK if r.cls.name in want else BAD, 'builds a ' + r.cls.name, w)
                    t = run(L, L.get(r, 'affine_transform' if is_smooth else 'linear_transform'))
                    obs.add('factory', cons, OK if t is not None and t is not BOTTOM and T.mentions(t, lambda u: u is D or u.op == 'attr' and u.args[0] is D)
                            else UND, 'transform %s' % (T.show(t, 3) if isinstance(t, T.Term) else ''), w)
                if not isinstance(a, Ob):
                    obs.add('factory', cons, UND, 'atom', w)
                    continue
                obs.add('factory', cons, OK if a.cls is c else BAD, 'an atom of class ' + a.cls.name, w)
                sign = O if (m == 'shift' and is_smooth) else neg(O)
                off = offset_of(L, a)
                judge(obs, 'factory', cons, off, ZERO if m == 'linear' else sign, 'center of the atom', w)
                if form[0]:
                    other = 'bound' if form[0] == 'lagrange' else 'lagrange'
                    judge(obs, 'factory', cons, run(L, L.get(a, form[0])), form[1], form[0], w)
                    obs.add('factory', cons, OK if run(L, L.get(a, other)) is T.NONE else UND, other, w)
                if 'coef' in ps:
                    judge(obs, 'factory', cons, run(L, L.get(a, 'coef')), sym('s_coef++'), 'coef', w)
                qq = L.get(a, 'quadratic')
                qq = quad_of(L, qq) if isinstance(qq, Ob) else None
                if m == 'shift' or is_atom:
                    judge(obs, 'factory', cons, None if qq is None else val(qq, X), val(Q1, X), 'quadratic', w)


def dual(ctx, obs):
    cls = find(ctx, 'regreg.problems.dual_problem.dual_problem')
    FS = sym('o_fstar')
    u = X

    def make():
        L = lab(ctx, no_inline=MAPS)
        return L, L.new(cls, L.vec(FS), transform(L, ctx), L.vec(P1))
    arg = neg(mk('Lt', D, u))
    modes(obs, cls, make, Fx(FS, arg), neg(mk('L', D, Gx(FS, arg))))
    L, o = make()
    if isinstance(o, Ob):
        L.put(L.get(o, 'affine_fc'), _quadratic=L.quad(*Q1))
        judge(obs, 'nonsmooth', 'dual_problem.nonsmooth_objective', run(L, L.call(o, 'nonsmooth_objective', X, check_feasibility=CF)),
              add(NS(P1, X), val(Q1, X)), '', where(cls, 'nonsmooth_objective'))
        for mode in ('both', 'grad'):
            L, o = make()
            L.call(o, 'smooth_objective', X, mode=mode)
            judge(obs, 'primal-kept', 'dual_problem.smooth_objective:' + mode, run(L, L.get(o, 'primal')), Gx(FS, arg), 'attribute primal',
                  where(cls, 'smooth_objective'))
        L, o = make()
        t = run(L, L.call(o, 'proximal', L.quad(*Q2)))
        w = where(cls, 'proximal')
        if t is None or t is BOTTOM or t.op != 'mcall':
            obs.add('proximal', 'dual_problem.proximal', UND, '', w)
        else:
            obs.add('proximal', 'dual_problem.proximal', OK if t.args[1] is P1 else BAD, 'the proximal map of %s' % T.show(t.args[1]), w)
            judge(obs, 'proximal', 'dual_problem.proximal', total_arg(L, t), val(Q2, X), 'quadratic', w)
    stacked(ctx, obs, cls)


def stacked(ctx, obs, cls):
    """the dual of a sum of atoms: stacked transforms, separable conjugates on matching slices"""
    mod = ctx.model.modules['regreg.problems.dual_problem']
    f = mod.funcs.get('stacked_dual')
    if f is None:
        return
    w = f.where
    dual1, dual2 = mk('attr', P1, 'dual'), mk('attr', P2, 'dual')
    from .r_quad import T_getitem
    L = lab(ctx)
    r = run(L, L.func(f, L.vec('o_shape'), L.vec(P1)))
    if r is not None and r is not BOTTOM and r.op == 'tuple' and len(r.args[0]) == 2:
        ok = [T_getitem(dual1, num(k)) for k in (0, 1)]
        obs.add('stacked', 'stacked_dual', OK if list(r.args[0]) == ok else UND if not all(T.contains(a, P1) for a in r.args[0]) else BAD,
                'one atom: %s' % T.show(r, 4), w)
    L = lab(ctx, no_inline=['ctor:vstack', 'ctor:separable'])
    r = run(L, L.func(f, L.vec('o_shape'), L.vec(P1), L.vec(P2)))
    if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
        obs.add('stacked', 'stacked_dual', UND, '', w)
        return
    tr, at = r.args[0]
    t = [T_getitem(d, num(0)) for d in (dual1, dual2)]
    c = [T_getitem(d, num(1)) for d in (dual1, dual2)]

    def pos(x, items):
        """the order in which the items appear in a list argument of x"""
        for u in subs(x):
            if u.op in ('list', 'tuple') and u.args[0] and all(z in items for z in u.args[0]):
                return [items.index(z) for z in u.args[0]]
        return None
    a, b = pos(tr, t), pos(at, c)
    obs.add('stacked', 'stacked_dual', UND if a is None or b is None else OK if a == b and sorted(a) == [0, 1] else BAD,
            'transforms in order %s, conjugates in order %s' % (a, b), w)
    obs.add('stacked', 'stacked_dual', OK if T.mentions(at, lambda u: u.op == 'attr' and u.args[1] == 'output_slices' and u.args[0] is tr) else UND,
            'groups of the separable atom are the output slices', w)


def conjugate_of_smooth(ctx, obs):
    cls = find(ctx, 'regreg.problems.composite.smooth_conjugate')
    w = where(cls, 'conjugate') or where(cls, 'get_conjugate')
    S = parts('3')
    GAM, O = Q1[2], sym('v_offset')
    atomc = find(ctx, 'regreg.atoms.atom')
    l1 = find(ctx, 'regreg.atoms.seminorms.l1norm')

    def make(own, smoothing, off=None):
        L = lab(ctx)
        at = L.new(l1, (C(sym('s_p++')),), lagrange=C(LAM), offset=None if off is None else L.vec(off), quadratic=L.quad(*Q2))
        o = L.blank(cls)
        L.put(o, atom=at, smoothing_quadratic=L.quad(*smoothing), _quadratic=L.quad(*own), shape=(C(sym('s_p++')),))
        return L, o, at
    none = (ZERO, None, None, ZERO)
    for own, smoothing, what in ((none, none, 'plain'), (none, S, 'smoothed'), ((ZERO, None, GAM, Q1[3]), S, 'linear'), (Q1, S, 'quadratic')):
        for off in (None, O):
            L, o, at = make(own, smoothing, off)
            r = L.call(o, 'get_conjugate')
            cons = 'smooth_conjugate.get_conjugate:' + what
            if not isinstance(r, Ob):
                obs.add('conjugate', cons, BAD if r is BOTTOM else UND, '', w)
                continue
            if what == 'plain':
                obs.add('conjugate', cons, OK if r is at or r.id == at.id else UND, 'not the atom itself', w)
                continue
            if what == 'quadratic':
                obs.add('conjugate', cons, OK if r.cls.name == '_conjugate_smooth_conjugate' else UND, r.cls.name, w)
                sa = L.get(r, 'smoothed_atom')
                if isinstance(sa, Ob):
                    q, q2 = L.get(sa, 'smoothing_quadratic'), L.get(sa, 'atom')
                    q = quad_of(L, q) if isinstance(q, Ob) else None
                    judge(obs, 'conjugate', cons, None if q is None else val(q, X),
                          add(val(S, X), mul(HALF, div(ONE, Q1[0]), T.red('sum', power(X, 2)))), 'smoothing of the inner conjugate', w)
                    obs.add('conjugate', cons, OK if isinstance(q2, Ob) and q2.id == at.id else UND, 'atom', w)
                col = add(neg(mul(Q1[0], Q1[1])), Q1[2])
                judge(obs, 'conjugate', cons, run(L, L.get(r, '_linear_term')), col, 'linear term', w)
                judge(obs, 'conjugate', cons, run(L, L.get(r, '_coef')), Q1[0], 'coefficient', w)
                judge(obs, 'conjugate', cons, run(L, L.get(r, '_constant_term')), add(Q1[3], mul(HALF, Q1[0], T.red('sum', power(Q1[1], 2)))), 'constant', w)
                continue
            obs.add('conjugate', cons, OK if r.cls is at.cls else BAD, 'a ' + r.cls.name, w)
            q = L.get(r, 'quadratic')
            q = quad_of(L, q) if isinstance(q, Ob) else None
            shift = ZERO if what == 'smoothed' else GAM
            want = add(val(Q2, sub(X, shift)), val(S, sub(X, shift)))
            if what == 'linear':
                want = sub(want, Q1[3])
            judge(obs, 'conjugate', cons, None if q is None else generic(norm(val(q, X))), want, 'quadratic', w)
            t = offset_of(L, r)
            judge(obs, 'conjugate', cons, None if t is None else generic(norm(t)), add(off or ZERO, shift), 'offset', w)
            q0 = L.get(at, 'quadratic')
            q0 = quad_of(L, q0) if isinstance(q0, Ob) else None
            judge(obs, 'conjugate', cons, None if q0 is None else val(q0, X), val(Q2, X), 'quadratic of the original atom', w)
    # its value and gradient
    c2 = find(ctx, 'regreg.problems.composite._conjugate_smooth_conjugate')
    R, G, K, SA = sym('s_r++'), sym('v_gamma'), sym('s_k'), sym('o_inner')

    def make2():
        L = lab(ctx)
        o = L.blank(c2)
        L.put(o, _coef=C(R), _linear_term=L.vec(G), _constant_term=C(K), smoothed_atom=L.vec(SA), _offset=L.vec(O))
        return L, o
    y = div(sub(sub(X, O), G), R)
    modes(obs, c2, make2, sub(sub(mul(HALF, R, T.red('sum', power(y, 2))), K), Fx(SA, y)), sub(y, div(Gx(SA, y), R)))


def problems(ctx, obs):
    """constructors of problems keep their parts"""
    sp = find(ctx, 'regreg.problems.simple.simple_problem')
    w = where(sp, '__init__')
    for m, given, made in (('smooth', 'smooth_atom', 'proximal_atom'), ('nonsmooth', 'proximal_atom', 'smooth_atom')):
        L = lab(ctx)
        f = sp.method(m)
        a = L.blank(find(ctx, 'regreg.smooth.smooth_atom' if m == 'smooth' else 'regreg.atoms.atom'), 'o_given')
        r = L.clsmeth(sp, m, a)
        cons = 'simple_problem.' + m
        if not isinstance(r, Ob):
            obs.add('parts', cons, BAD if r is BOTTOM else UND, '', f.where)
            continue
        x, y = L.get(r, given), L.get(r, made)
        obs.add('parts', cons, OK if isinstance(x, Ob) and x.id == a.id else UND if not isinstance(x, Ob) else BAD, given, f.where)
        obs.add('parts', cons, OK if isinstance(y, Ob) and y.cls.name == 'zero' else BAD if isinstance(y, Ob) else UND, made, f.where)
    # the containers
    ct = find(ctx, 'regreg.problems.container.container')
    w = where(ct, '__init__')
    ql, l1 = find(ctx, 'regreg.smooth.quadratic.quadratic_loss'), find(ctx, 'regreg.atoms.seminorms.l1norm')
    if ql is None:
        ql = next((c for c in ctx.model.all_classes() if c.name == 'quadratic_loss'), None)
    L = lab(ctx)
    p = (C(sym('s_p++')),)
    a, b = L.new(ql, p, quadratic=L.quad(*Q1)), L.new(ql, p, quadratic=L.quad(*Q2))
    n = L.new(l1, p, lagrange=C(LAM))
    o = L.new(ct, a, n, b)
    if isinstance(o, Ob):
        q = L.get(o, 'smoothq')
        q = quad_of(L, q) if isinstance(q, Ob) else None
        judge(obs, 'parts', 'container.__init__', None if q is None else val(q, X), add(val(Q1, X), val(Q2, X)), 'quadratic of the smooth atoms', w)
        for name, want in (('smooth_atoms', (a, b)), ('nonsmooth_atoms', (n,))):
            it = L.items(L.get(o, name))
            obs.add('parts', 'container.__init__', UND if it is None else OK if sorted(getattr(z, 'id', -1) for z in it) == sorted(z.id for z in want) else BAD, name, w)
    else:
        obs.add('parts', 'container.__init__', BAD if o is BOTTOM else UND, '', w)


def conjugate(ctx, obs):
    cls = find(ctx, 'regreg.problems.conjugate.conjugate')
    sm = find(ctx, 'regreg.smooth.smooth_atom')
    for smooth in (True, False):
        for sign in (False, True):
            def make():
                L = lab(ctx)
                o = L.blank(cls)
                q = L.quad(*Q1)
                L.put(o, atom=L.blank(sm if smooth else find(ctx, 'regreg.atoms.atom'), 'o_atom'), conjugate_quadratic=q, negate=sign,
                      problem=L.vec(sym('o_problem')), fit_args=L.vec(sym('o_fit_args')))
                return L, o
            v = neg(X) if sign else X
            w = where(cls, 'smooth_objective')
            cons = 'conjugate.smooth_objective:%s%s' % ('smooth' if smooth else 'nonsmooth', ':negate' if sign else '')
            L, o = make()
            L.I.no_inline |= {'regreg.problems.composite.composite.objective', 'proximal', 'solve'}
            g = run(L, L.call(o, 'smooth_objective', X, mode='grad'))
            if g is None or g is BOTTOM:
                obs.add('conjugate', cons, BAD if g is BOTTOM else UND, '', w)
                continue
            m = neg(g) if sign else g
            if m.op != 'mcall' or m.args[0] not in ('solve', 'proximal'):
                wrong = neg(m).op == 'mcall' and neg(m).args[0] in ('solve', 'proximal')
                obs.add('conjugate', cons, BAD if wrong else UND, 'minimizer %s' % T.show(m, 4), w)
                continue
            obs.add('conjugate', cons, OK if m.args[1] is (sym('o_problem') if smooth else sym('o_atom')) else BAD,
                    'the minimizer comes from %s' % T.show(m.args[1]), w)
            # the quadratic given to the solver is q(z) - <v, z>
            Z = sym('v_z')
            q = quad_of(L, m.args[2][0]) if m.args[2] else None
            judge(obs, 'conjugate', cons, None if q is None else val(q, Z), sub(val(Q1, Z), T.red('sum', mul(v, Z))), 'inner problem', w)
            for mode in ('func', 'both'):
                L, o = make()
                L.I.no_inline |= {'regreg.problems.composite.composite.objective', 'proximal', 'solve'}
                r = run(L, L.call(o, 'smooth_objective', X, mode=mode))
                if mode == 'both' and r is not None and r is not BOTTOM:
                    if r.op != 'tuple' or len(r.args[0]) != 2:
                        obs.add('conjugate', cons, UND, mode, w)
                        continue
                    judge(obs, 'conjugate', cons, r.args[0][1], g, 'gradient of both', w)
                    r = r.args[0][0]
                if r is None or r is BOTTOM:
                    obs.add('conjugate', cons, BAD if r is BOTTOM else UND, mode, w)
                    continue
                ob = [u for u in subs(r) if u.op in ('mcall', 'objective') and 'objective' in (u.op, u.args[0])]
                ob = [u for u in ob if T.contains(u, sym('o_atom'))]
                if len(ob) != 1:
                    obs.add('conjugate', cons, UND, '%s: %s' % (mode, T.show(r, 6)), w)
                    continue
                judge(obs, 'conjugate', cons, r, sub(sub(T.red('sum', mul(v, m)), ob[0]), val(Q1, m)), mode, w)


def base(ctx, obs):
    comp = find(ctx, 'regreg.problems.composite.composite')
    O = sym('v_offset')
    # apply_offset
    for off in (None, O):
        L = lab(ctx)
        o = L.blank(comp, _offset=off if off is None else L.vec(off))
        judge(obs, 'offset', 'composite.apply_offset', run(L, L.call(o, 'apply_offset', X)), X if off is None else sub(X, O), '', where(comp, 'apply_offset'))
    # the minimum of the proximal problem
    L = lab(ctx, no_inline=['proximal', 'nonsmooth_objective'])
    o = L.blank(comp, 'o_comp')
    r = run(L, L.call(o, 'proximal_optimum', L.quad(*Q2)))
    w = where(comp, 'proximal_optimum')
    if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
        obs.add('optimum', 'composite.proximal_optimum', UND, '', w)
    else:
        arg, v = r.args[0]
        ns = [u for u in subs(v) if u.op in ('N', 'mcall') and T.contains(u, sym('o_comp')) and (u.op == 'N' or u.args[0] == 'nonsmooth_objective')]
        judge(obs, 'optimum', 'composite.proximal_optimum', v if len(ns) == 1 else None, add(val(Q2, arg), ns[0]) if len(ns) == 1 else None, 'value', w)
    # nonsmooth.solve
    ns = find(ctx, 'regreg.problems.composite.nonsmooth')
    L = lab(ctx, no_inline=['proximal', 'regreg.problems.composite.composite.objective'])
    o = L.blank(ns, 'o_comp')
    r = run(L, L.call(o, 'solve', L.quad(*Q2), return_optimum=True))
    w = where(ns, 'solve')
    if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
        obs.add('optimum', 'nonsmooth.solve', UND, '', w)
    else:
        v, arg = r.args[0]
        obj = [u for u in subs(v) if u.op == 'mcall' and u.args[0] == 'objective']
        judge(obs, 'optimum', 'nonsmooth.solve', v if len(obj) == 1 else None, add(val(Q2, arg), obj[0]) if len(obj) == 1 else None, 'value', w)
    # the proximal map of a smooth function with curved quadratic: minimiser of the quadratic
    sm = find(ctx, 'regreg.problems.composite.smooth')
    L = lab(ctx)
    o = L.blank(sm, _quadratic=L.quad(*Q1))
    r = run(L, L.call(o, 'proximal', L.quad(*Q2)))
    if isinstance(r, T.Term):
        judge(obs, 'proximal', 'smooth.proximal', subst(diff.grad(add(val(Q1, X), val(Q2, X)), X), {X: r}), ZERO, 'gradient at the result',
              where(sm, 'proximal'))


def smooth_conjugate(ctx, obs):
    cls = find(ctx, 'regreg.problems.composite.smooth_conjugate')
    w = where(cls, 'smooth_objective')
    SQ = parts('3')
    Z = sym('v_z')

    def make():
        L = lab(ctx)
        o = L.blank(cls)
        L.put(o, atom=L.vec(P1), smoothing_quadratic=L.quad(*SQ), _quadratic=L.quad(*Q1))
        return L, o
    L, o = make()
    g = run(L, L.call(o, 'smooth_objective', X, mode='grad'))
    m = g if g is not None and g is not BOTTOM and g.op == 'mcall' and g.args[0] == 'solve' else None
    if m is None:
        obs.add('conjugate', 'smooth_conjugate.smooth_objective', BAD if g is BOTTOM else UND, '', w)
    else:
        kw = dict(m.args[3])
        q = quad_of(L, m.args[2][0] if m.args[2] else kw.get('quadratic'))
        judge(obs, 'conjugate', 'smooth_conjugate.smooth_objective', None if q is None else val(q, Z),
              sub(val(SQ, Z), T.red('sum', mul(X, Z))), 'quadratic of the inner problem', w)
        obs.add('conjugate', 'smooth_conjugate.smooth_objective', OK if m.args[1] is P1 else BAD, 'solves %s' % T.show(m.args[1]), w)
        sol = {}
        for mode in ('func', 'both'):
            L, o = make()
            r = run(L, L.call(o, 'smooth_objective', X, mode=mode))
            sol[mode] = r
        if sol['func'] is not None and sol['both'] is not None and BOTTOM not in sol.values() and sol['both'].op == 'tuple':
            f, b = sol['func'], sol['both'].args[0]
            judge(obs, 'conjugate', 'smooth_conjugate.smooth_objective', b[0], f, 'func and both', w)
            calls = [u for u in subs(f) if u.op == 'mcall' and u.args[0] == 'solve']
            if len(calls) == 1:
                c = calls[0]
                k = dict(c.args[3])
                obs.add('conjugate', 'smooth_conjugate.smooth_objective', OK if k.get('return_optimum') is T.TRUE else UND, 'return_optimum', w)
                pick = lambda i: [u for u in subs(sol['both']) if u.op in ('getitem', 'item', 'unpack', 'proj') and c in u.args and num(i) in u.args]
                obs.add('conjugate', 'smooth_conjugate.smooth_objective', OK if f in [neg(u) for u in pick(0)] else UND, 'value: %s' % T.show(f, 4), w)
                obs.add('conjugate', 'smooth_conjugate.smooth_objective', OK if b[1] in pick(1) else UND, 'gradient: %s' % T.show(b[1], 4), w)
            else:
                obs.add('conjugate', 'smooth_conjugate.smooth_objective', UND, 'calls', w)
    # the Lipschitz constant of its gradient
    L = lab(ctx)
    at = L.blank(find(ctx, 'regreg.atoms.atom'), 'o_atom', _quadratic=L.quad(*Q1))
    o = L.new(cls, at, L.quad(*SQ))
    if isinstance(o, Ob):
        judge(obs, 'lipschitz', 'smooth_conjugate.__init__', run(L, L.get(o, 'lipschitz')), div(ONE, add(Q1[0], SQ[0])), '', where(cls, '__init__'))
    else:
        obs.add('lipschitz', 'smooth_conjugate.__init__', UND, '', where(cls, '__init__'))


CHECKS = [simple, container, fsum, affine, container_maps, separable, affine_atoms, dual, conjugate, base, smooth_conjugate, smoothed, factories, conjugate_of_smooth, problems]


def compose(ctx, obs):
    for f in CHECKS:
        try:
            f(ctx, obs)
        except (Giveup, RecursionError) as e:
            obs.add('analysis', f.__name__, UND, repr(e), '')


PROPS = {
    'P01': dict(run=compose, floor=500,
                rule='value, gradient, nonsmooth part and proximal problem of each composite equal the specified combination of its parts.'),
}
