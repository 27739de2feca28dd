"""T01-T04: regularisation paths - subproblems, optimality checks, drivers, cross-validation."""
from .. import terms as T, diff
from ..terms import mk, num, sym, const, ZERO, ONE, NONE
from ..check import OK, BAD, UND
from ..absint import A, C, Ob, Tup, Dct, Fn, Giveup, Bottom, getitem_term
from ..lab import Lab, BOTTOM
from .r_compose import NN, find, where, judge, run, Fx, Gx, norm, verdict, subst

LASSO = 'regreg.paths.lasso.lasso_path'
GROUP = 'regreg.paths.group_lasso.group_lasso_path'
SPARSE = 'regreg.paths.sparse_group_lasso.sparse_group_lasso_path'
COMMON = 'regreg.paths.sparse_group_block.sparse_group_common_path'
BLOCK = 'regreg.paths.sparse_group_block.sparse_group_block_path'
PATHS = [LASSO, GROUP, SPARSE, COMMON, BLOCK]
PENALTY = {LASSO: 'regreg.atoms.weighted_atoms.l1norm', GROUP: 'regreg.atoms.group_lasso.group_lasso',
           SPARSE: 'regreg.atoms.sparse_group_lasso.sparse_group_lasso',
           COMMON: 'regreg.atoms.sparse_group_block.sparse_group_block',
           BLOCK: 'regreg.atoms.sparse_group_block.sparse_group_block'}

SAT, XFULL, XC = mk('attr', sym('o_path'), 'saturated_loss'), mk('attr', sym('o_path'), 'X'), sym('m_cand')
LAM, R = sym('s_lam++'), sym('s_r++')
W, E, P, GR, LW = [sym(n) for n in ('v_w', 'v_e', 'v_p', 'v_groups', 'v_lw')]
XX, Z, SOL, SOLN, CAND, SUB = [sym(n) for n in ('v_x', 'v_z', 'v_sol', 'v_soln', 'vi_cand', 'vi_sub')]
L1, L2 = sym('s_l1++'), sym('s_l2++')
TOL, STEP, FSTEP = sym('s_tol++'), sym('s_step++'), sym('s_fstep++')
NAMES = ['v_w', 'v_e', 'v_p', 'v_groups', 'v_lw', 'v_x', 'v_z', 'v_sol', 'v_soln', 'vi_cand', 'vi_sub']


add, mul, sub, neg = T.add, T.mul, T.sub, T.neg
ALPHA = sub(ONE, R)
ALPHAS = [('alpha=1', ONE), ('alpha<1', ALPHA)]


def short(q):
    return q.split('.')[-1]


def maker(ctx, qual, alpha=ALPHA, **more):
    """(L, path) with an arbitrary path object of the class"""
    L = Lab(ctx, nonnull=NN + NAMES)
    c, pc = find(ctx, qual), find(ctx, PENALTY[qual])
    kw = dict(lagrange=ONE)
    if qual == LASSO:
        kw.update(weights=L.vec(W))
    elif qual in (GROUP, SPARSE):
        kw.update(weights=L.vec(W), groups=L.vec(GR))
        if qual == SPARSE:
            kw.update(lasso_weights=L.vec(LW))
    else:
        kw.update(l1_weight=L1, l2_weight=L2)
    pen = L.blank(pc, 'o_pen', **kw)
    at = dict(penalty=pen, alpha=alpha, elastic_net_param=L.vec(E))
    if qual != LASSO:
        at['_penalized_vars'] = L.vec(T.notb(T.eq0(P)))
    at.update(more)
    return L, L.blank(c, 'o_path', **at)


def free(qual):
    """indicator of the coordinates no Lagrange parameter multiplies"""
    return T.eq0(W if qual == LASSO else P)


def ridge(u, alpha=ALPHA, lam=LAM):
    """the elastic net parameters at lam: (1-alpha) e, times lam where penalised (u: where not)"""
    return mul(mul(sub(ONE, alpha), E), add(u, mul(sub(ONE, u), lam)))


def Lx(a, x):
    return T.linop('L', a, x)


def Lt(a, x):
    return T.linop('Lt', a, x)


# ------------------------------------------------------------------ T01
def enet(ctx, obs, qual):
    """enet_grad is the gradient of enet_loss; restricted, it is the restriction"""
    c = find(ctx, qual)
    n = short(qual)
    w = where(c, 'enet_loss')
    zeros = [[E], [W if qual == LASSO else P]]
    L, o = maker(ctx, qual)
    q = L.call(o, 'enet_loss', LAM)
    for m, want in (('grad', mul(ridge(free(qual)), Z)), ('func', T.scale(T.red('sum', mul(ridge(free(qual)), mul(Z, Z))), T.Fraction(1, 2)))):
        g = q if not isinstance(q, Ob) else L.call(q, 'smooth_objective', L.vec(Z), m)
        by_name(obs, 'enet', n + '.enet_loss', run(L, g), want, {}, 'all coordinates, ' + m, w, zeros)
    # restricted to candidates
    for name, sel in selections(qual):
        L, o = maker(ctx, qual)
        q = L.call(o, 'enet_loss', LAM, L.vec(CAND))
        g = q if not isinstance(q, Ob) else L.call(q, 'smooth_objective', L.vec(Z), 'grad')
        at = getitem_term(E, sel), getitem_term(W if qual == LASSO else P, sel)
        by_name(obs, 'enet', n + '.enet_loss', restricted(run(L, g)), mul(getitem_term(ridge(free(qual)), sel), Z), {}, 'candidates', w, [[at[0]], [at[1]]] if T.ZERO not in at else ())
    w = where(c, 'enet_grad')
    pen = T.notb(T.eq0(P))
    for sub_ in (None, SUB):
        L, o = maker(ctx, qual)
        kw = {} if sub_ is None else dict(subset=L.vec(SUB))
        g = run(L, L.call(o, 'enet_grad', L.vec(XX), L.vec(pen), LAM, **kw))
        want = mul(ridge(T.eq0(P)), XX)
        if sub_ is not None:
            want = getitem_term(want, SUB)
        z = [[E], [P]] if sub_ is None else [[getitem_term(E, SUB)], [getitem_term(P, SUB)]]
        by_name(obs, 'enet', n + '.enet_grad', g, want, {}, 'subset' if sub_ else 'all coordinates', w, z)


def selections(qual):
    if qual in (GROUP, SPARSE):
        return [('groups', MASK)]
    return [('indices', CAND)]


def restricted(t):
    """the loop that collects the coordinates of the candidate groups, as one symbol"""
    if t is None or t is BOTTOM:
        return t

    def f(u):
        if u.op == 'loopsum' and is_members(u):
            return MASK
        if u.op == 'bool' and u.args[0].op == 'loopsum' and is_members(u.args[0]):
            return MASK
        return None
    return T.subst_fn(t, f)


def is_members(u):
    key, body = u.args
    return key.op == 'loop' and key.args[1] is CAND and body is T.eq0(sub(GR, mk('elem', key, CAND)))


MASK = sym('vi_members')


def watch(L, seen):
    def cols(I, f, args, kw, st, node):
        seen['cols'] = [I.term(a, st) for a in args]
        seen['ncols'] = seen.get('ncols', 0) + 1
        return I.newarr(st, XC)

    def solve(I, f, args, kw, st, node):
        p = args[0]
        seen['n'] = seen.get('n', 0) + 1
        seen['problem'] = p
        seen['args'] = [I.term(a, st) for a in args[1:]]
        seen['kw'] = {k: I.term(v, st) for k, v in kw.items()}
        seen['coefs'] = I.term(I.getattr(p, 'coefs', st), st)
        sm, seen['penalty'] = I.getattr(p, 'smooth_atom', st), I.getattr(p, 'proximal_atom', st)
        for m in ('func', 'grad'):
            seen[m] = I.term(I.callmeth(sm, 'smooth_objective', [I.newarr(st, Z), C(const(m))], {}, st, node), st)
        st.heap[(p.id, 'final_step')] = C(FSTEP)
        return I.newarr(st, SOLN)
    L.I.stubs = {'regreg.paths.subsample_columns': cols, 'regreg.problems.composite.composite.solve': solve, 'solve': solve}


def subproblem(ctx, obs, qual):
    c = find(ctx, qual)
    n = short(qual) + '.solve_subproblem'
    w = where(c, 'solve_subproblem')
    sel = selections(qual)[0][1]
    for aname, alpha in ALPHAS:
        L, o = maker(ctx, qual, alpha=alpha)
        seen = {}
        watch(L, seen)
        v = L.call(o, 'solve_subproblem', L.vec(SOL), L.vec(CAND), LAM, tol=TOL, start_step=STEP)
        if v is BOTTOM or v is None or seen.get('n') != 1:
            obs.add('subproblem', n, BAD if v is BOTTOM else UND, aname, w)
            continue
        rr = lambda t: mask_of(restricted(t))
        A_ = XC
        extra = mul(getitem_term(ridge(free(qual), alpha), sel), Z) if alpha is not ONE else ZERO
        fx, gx = Fx(SAT, Lx(A_, Z)), Lt(A_, Gx(SAT, Lx(A_, Z)))
        if qual != BLOCK:
            judge(obs, 'subproblem', n, rr(seen['func']), add(fx, T.scale(T.red('sum', mul(extra, Z)), T.Fraction(1, 2))), aname + ': loss', w)
            judge(obs, 'subproblem', n, rr(seen['grad']), add(gx, extra), aname + ': gradient of the loss', w)
            cols(obs, qual, n, seen, rr, aname, w)
        judge(obs, 'subproblem', n, rr(seen['coefs']), getitem_term(SOL, sel), aname + ': warm start', w)
        obs.add('subproblem', n, OK if seen['kw'] == {'tol': TOL, 'start_step': STEP} and not seen['args'] else BAD, aname + ': solver options', w)
        penalty(ctx, L, obs, qual, n, seen['penalty'], sel, mul(alpha, LAM), rr, aname, w)
        out = L.items(v)
        if out is None or len(out) != 5:
            obs.add('subproblem', n, UND, aname + ': result', w)
            continue
        t = [rr(L.term(x)) for x in out]
        to = lambda u: subst(u, {Z: SOLN})
        judge(obs, 'subproblem', n, t[0], FSTEP, aname + ': final step', w)
        if qual != BLOCK:
            judge(obs, 'subproblem', n, t[1], to(add(gx, extra)), aname + ': gradient at the solution', w)
            judge(obs, 'subproblem', n, t[3], Lx(A_, SOLN), aname + ': linear predictor', w)
        judge(obs, 'subproblem', n, t[2], SOLN, aname + ': solution', w)
        judge(obs, 'subproblem', n, t[4], sel, aname + ': candidate coordinates', w)


def mask_of(t):
    """indexing with the boolean vector set exactly at CAND is indexing with CAND; a matrix and the linear
    transform made of it are the same map"""
    if t is None or t is BOTTOM:
        return t

    def f(u):
        if u.op == 'setitem' and u.args[0] is ZERO and u.args[1] is CAND and u.args[2] is ONE:
            return CAND
        if u.op == 'ite' and same_map(u.args[1]) and same_map(u.args[2]) or u.op == 'obj' and same_map(u):
            return XC
        return None
    t = T.subst_fn(t, f)
    return T.subst_fn(t, lambda u: Lx(XC, mask_of(u.args[1])) if u.op in ('A', 'dot') and len(u.args) == 2 and u.args[0] is XC else None)


def same_map(u):
    if u is XC:
        return True
    if u.op == 'ite':
        return same_map(u.args[1]) and same_map(u.args[2])
    if u.op == 'obj' and u.args[0] == 'linear_transform':
        return same_map(dict(u.args[1]).get('linear_operator', NONE))
    return False


def cols(obs, qual, n, seen, rr, aname, w):
    a = seen.get('cols')
    if not a or len(a) != 2:
        obs.add('subproblem', n, UND, aname + ': columns', w)
        return
    want = selections(qual)[0][1]
    t = rr(a[1])
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.nonzero', 'numpy.flatnonzero', 'numpy.where'):
        t = t.args[1][0]
    if t.op == 'getitem' and t.args[1] is ZERO:
        t = t.args[0]
    if t.op == 'bool':
        t = t.args[0]
    judge(obs, 'subproblem', n, t, want, aname + ': columns of the candidates', w)
    judge(obs, 'subproblem', n, a[0], mk('attr', sym('o_path'), '_X') if qual == COMMON else XFULL, aname + ': matrix of the candidates', w)


def penalty(ctx, L, obs, qual, n, p, sel, lam, rr, what, w, rule='subproblem'):
    """p is the class' penalty, restricted to sel, with multiplier lam"""
    pc = find(ctx, PENALTY[qual])
    if not isinstance(p, Ob):
        obs.add(rule, n, UND, what + ': penalty', w)
        return
    if p.cls is not pc:
        obs.add(rule, n, BAD, what + ': penalty is a %s' % p.cls.name, w)
        return
    get = lambda a: rr(run(L, L.get(p, a)))
    if qual == LASSO:
        g, l = get('weights'), get('lagrange')
        judge(obs, rule, n, None if g is None or l is None else mul(g, l), mul(getitem_term(W, sel), lam), what + ': weights', w)
        return
    judge(obs, rule, n, get('lagrange'), lam, what + ': multiplier', w)
    if qual in (GROUP, SPARSE):
        judge(obs, rule, n, get('groups'), mk('getitem', GR, sel), what + ': groups', w)
        if qual == SPARSE:
            judge(obs, rule, n, get('lasso_weights'), mk('getitem', LW, sel), what + ': l1 weights', w)
    else:
        judge(obs, rule, n, get('l1_weight'), L1, what + ': l1 weight', w)
        judge(obs, rule, n, get('l2_weight'), L2, what + ': l2 weight', w)


# ------------------------------------------------------------------ the other pieces a path is made of
ETA, NULL, COEF, TEST = sym('v_eta'), sym('v_null'), sym('v_coef'), sym('vi_test')


def same_matrix(t, m):
    """the linear transform made of the matrix m (or m itself) as m"""
    if t is None or t is BOTTOM:
        return t

    def is_m(u):
        if u is m:
            return True
        if u.op == 'ite':
            return is_m(u.args[1]) and is_m(u.args[2])
        return u.op == 'obj' and u.args[0] == 'linear_transform' and is_m(dict(u.args[1]).get('linear_operator', NONE))
    t = T.subst_fn(t, lambda u: m if u.op in ('ite', 'obj') and is_m(u) else None)
    return T.subst_fn(t, lambda u: Lx(m, same_matrix(u.args[1], m)) if u.op in ('A', 'dot') and len(u.args) == 2 and u.args[0] is m else None)


def pieces(ctx, obs, qual):
    c, n = find(ctx, qual), short(qual)
    # gradient of the loss over all coordinates
    L, o = maker(ctx, qual)
    g = run(L, L.call(o, 'full_gradient', sym('o_sat'), L.vec(ETA)))
    judge(obs, 'gradient', n + '.full_gradient', same_matrix(g, XFULL), Lt(XFULL, Gx(sym('o_sat'), ETA)), 'X^T of the gradient at the linear predictor', where(c, 'full_gradient'))
    L, o = maker(ctx, qual)
    q = L.call(o, 'full_loss')
    f = run(L, L.call(q, 'smooth_objective', L.vec(Z), 'func')) if isinstance(q, Ob) else q
    judge(obs, 'loss', n + '.full_loss', same_matrix(f, XFULL), Fx(SAT, Lx(XFULL, Z)), 'loss at the linear predictor', where(c, 'full_loss'))
    # penalties restricted to a set of variables
    w = where(c, 'restricted_penalty')
    for what, sub_ in (('subset', SUB), ('all', None)):
        L, o = maker(ctx, qual)
        p = L.call(o, 'restricted_penalty', None if sub_ is None else L.vec(SUB))
        if qual in (COMMON, BLOCK) or sub_ is not None:
            penalty(ctx, L, obs, qual, n + '.restricted_penalty', p, sub_, ONE, lambda t: t, what, w, rule='penalty')
        elif isinstance(p, Ob):
            for a, v in dict(weights=W, groups=GR, lasso_weights=LW).items():
                if (a == 'weights') == (qual == LASSO) and (a != 'lasso_weights' or qual == SPARSE):
                    judge(obs, 'penalty', n + '.restricted_penalty', run(L, L.get(p, a)), v, what + ': ' + a, w)
    # linear predictor of fitted coefficients at the test cases
    if qual != BLOCK:
        L, o = maker(ctx, qual)
        t = run(L, L.call(o, 'linpred', L.vec(COEF), sym('m_X'), L.vec(TEST)))
        judge(obs, 'linpred', n + '.linpred', same_matrix(t, sym('m_X')), mk('getitem', Lx(sym('m_X'), COEF), TEST), 'one coefficient', where(c, 'linpred'))


def initial(ctx, obs, qual):
    """the attributes a new path starts with"""
    c, n = find(ctx, qual), short(qual) + '.__init__'
    w = where(c, '__init__')
    r, L, sp = fresh_path(ctx, qual)
    if not isinstance(r, Ob):
        obs.add('initial', n, BAD if r is BOTTOM else UND, '', w)
        return
    get = lambda a: run(L, L.get(r, a))
    judge(obs, 'initial', n, get('alpha'), ALPHA, 'alpha', w)
    judge(obs, 'initial', n, get('saturated_loss'), sym('o_sat'), 'loss', w)
    judge(obs, 'initial', n, get('elastic_net_param'), E, 'elastic net parameters', w)
    if qual != BLOCK:
        judge(obs, 'initial', n, get('X'), sym('m_X'), 'X', w)
    p = L.get(r, 'penalty')
    if isinstance(p, Ob):
        g = lambda a: run(L, L.get(p, a))
        judge(obs, 'initial', n, g('lagrange'), ONE, 'multiplier of the penalty', w)
        if qual == LASSO:
            judge(obs, 'initial', n, g('weights'), W, 'weights', w)
        elif qual in (GROUP, SPARSE):
            judge(obs, 'initial', n, g('groups'), GR, 'groups', w)
            judge(obs, 'initial', n, scaled(g('weights')), W if qual == GROUP else mul(sub(ONE, MIX), W), 'group weights', w)
            if qual == SPARSE:
                judge(obs, 'initial', n, g('lasso_weights'), mul(MIX, LW), 'l1 weights', w)
        else:
            judge(obs, 'initial', n, g('l1_weight'), mul(MIX, L1), 'l1 weight', w)
            judge(obs, 'initial', n, g('l2_weight'), mul(sub(ONE, MIX), L2), 'l2 weight', w)
    # what the Lagrange parameter multiplies
    pv = get('_penalized_vars')
    if qual == LASSO:
        judge(obs, 'initial', n, pv, T.notb(T.eq0(W)), 'penalised coordinates', w)
    elif qual in (GROUP, SPARSE):
        un = get('_unpenalized_vars')
        if pv is not None and un is not None and pv.op == 'setitem' and pv.args[1] is un:
            judge(obs, 'initial', n, pv.args[0], ONE, 'penalised coordinates, by default', w)
            judge(obs, 'initial', n, pv.args[2], ZERO, 'penalised coordinates, of unpenalised groups', w)
        elif pv is not None and un is not None and T.is_arith(pv):
            judge(obs, 'initial', n, pv, T.notb(un), 'penalised coordinates', w)
        else:
            obs.add('initial', n, UND, 'penalised coordinates', w)
    else:
        judge(obs, 'initial', n, pv, ONE, 'penalised coordinates', w)
    # gradient of the null model
    if qual in (LASSO, GROUP, SPARSE):
        s0 = get('solution')
        fit, un = sym('v_soln'), T.eq0(W) if qual == LASSO else get('_unpenalized_vars')
        if qual == LASSO:
            by_name(obs, 'initial', n, s0, mul(mul(mk('bool', mk('red', 'any', T.eq0(W))), T.eq0(W)), fit), {}, 'coefficients of the null model', w, [[W]])
        elif s0 is None or s0 is BOTTOM or un is None or un is BOTTOM:
            obs.add('initial', n, UND, 'coefficients of the null model', w)
        else:
            sets = {u for u in subterms(s0) if u.op == 'setitem' and u.args[2] is fit}
            obs.add('initial', n, OK if sets == {mk('setitem', ZERO, un, fit)} else BAD if fit not in subterms(s0) else UND, 'coefficients of the null model', w)
    if qual != BLOCK:
        lin = get('linear_predictor') if qual != LASSO else None
        sol = L.get(r, 'solution')
        eg = run(L, L.call(r, 'enet_grad', sol, L.get(r, '_penalized_vars'), ONE))
        gs = get('grad_solution')
        if lin is None:
            lin = mul(mk('bool', mk('red', 'any', T.eq0(W))), sym('v_slin'))
        want = None if eg is None or lin is None else add(Lt(sym('m_X'), Gx(sym('o_sat'), lin)), eg)
        judge(obs, 'initial', n, gs, want, 'gradient of the null model', w)
    if sp:
        judge(obs, 'initial', n, sp['args'][2], num(10 ** 12), 'Lagrange parameter of the null model', w)


MIX = sym('s_mix++')


def fresh_path(ctx, qual, mix=MIX):
    c = find(ctx, qual)
    L = Lab(ctx, nonnull=NN + NAMES + ['s_mix++'])
    sp = {}

    def solve(I, f, args, kw, st, node):
        sp['args'] = [I.term(a, st) for a in args[1:]]
        return I.tup(st, [C(FSTEP)] + [I.newarr(st, sym(n)) for n in ('v_sg', 'v_soln', 'v_slin', 'v_smask')])
    L.I.stubs = {'solve_subproblem': solve, 'regreg.affine.astransform': lambda I, f, args, kw, st, node: args[0]}
    args, kw = [sym('o_sat'), sym('m_X')], dict(alpha=ALPHA, elastic_net_param=L.vec(E))
    if qual == LASSO:
        args += [L.vec(W)]
    elif qual == GROUP:
        args += [L.vec(GR)]
        kw['weights'] = L.vec(W)
    elif qual == SPARSE:
        args += [L.vec(GR), L.vec(LW)]
        kw.update(weights=L.vec(W), l1_alpha=mix)
    else:
        args += [L1, L2]
        kw['l1_alpha'] = mix
    return L.new(c, *args, **kw), L, sp


def bare(L, cls, **attrs):
    """an object of cls that has these attributes and no other"""
    o = Ob(L.I.fresh(), cls, mk('new', cls.name, 0, 0), False)
    L.I.basemap[o.id] = None
    return L.put(o, **attrs)


def unpenalised(ctx, obs, qual):
    """the groups with a coordinate that nothing penalises"""
    c = find(ctx, qual)
    n, w = short(qual) + '.unpenalized', where(c, 'unpenalized')
    L, o = maker(ctx, qual)
    o = bare(L, c, penalty=L.get(o, 'penalty'), group_shape=sym('oi_shape'))
    v = L.get(o, 'unpenalized')
    it = L.items(v) if v not in (None, BOTTOM) else None
    if it is None or len(it) != 2:
        obs.add('unpenalised', n, BAD if v is BOTTOM else UND, '', w)
        return
    t = L.term(it[1])
    if qual == LASSO:
        by_name(obs, 'unpenalised', n, t, T.eq0(W), {}, 'coordinates', w, [[W]])
        by_name(obs, 'unpenalised', n, flat(L.term(it[0])), T.eq0(W), {}, 'candidates', w, [[W]])
        return
    if t is None or t.op != 'loopset':
        obs.add('unpenalised', n, UND, 'groups', w)
        return
    key, init, at, val = t.args
    el = mk('elem', key, ids_of(key))
    want, wg, some = T.eq0(mk('getitem', W, el)), sym('s_wg+'), mk('red', 'any', T.eq0(mk('getitem', LW, T.eq0(sub(GR, el)))))
    if qual == SPARSE:
        want = T.andb(want, mk('bool', some))
    # a weight and its multiples are zero together
    names, zeros = {mk('getitem', W, el): wg, mk('bool', some): T.gt0(sym('s_some')), mk('bool', mk('bool', some)): T.gt0(sym('s_some'))}, [[wg]]
    judge(obs, 'unpenalised', n, init, ZERO, 'groups that are not met', w)
    by_name(obs, 'unpenalised', n, val, want, names, 'groups', w, zeros)
    gs = [u for u in subterms(L.term(it[0])) if u.op == 'listcomp'] if it[0] is not None and L.term(it[0]) is not None else []
    if len(gs) == 1 and gs[0].args[1].op == 'ite' and gs[0].args[0] is key:
        cond, yes, no = gs[0].args[1].args
        by_name(obs, 'unpenalised', n, cond, want, names, 'list of groups', w, zeros)
        obs.add('unpenalised', n, OK if yes is mk('list', (el,)) and no is mk('list', ()) else UND, 'list of groups', w)
    else:
        obs.add('unpenalised', n, UND, 'list of groups', w)
    obs.add('unpenalised', n, OK if at is mk('idx', key) else UND, 'positions', w)


def ids_of(key):
    t = key.args[1]
    return t.args[0] if t.op == 'enumerate' else t


def scaled(t):
    """a dictionary of weights rebuilt key by key, k * D[g] for every g: k * D"""
    if t is None or t is BOTTOM or t.op != 'loopvar' or len(t.args) < 2:
        return t
    key, body = t.args[0], t.args[1]
    if body.op != 'setitem' or body.args[0].op != 'phi' or body.args[0].args[0] is not key:
        return t
    base = scaled(body.args[0].args[2])
    el, v = body.args[1], body.args[2]
    if v.op == 'mcall' and v.args[0] == 'get' and v.args[1] in (body.args[0], body.args[0].args[2]) and v.args[2] and v.args[2][0] is el:
        return base                 # missing weights filled in
    over = key.args[1]
    if el.op == 'elem' and el.args[0] is key and over.op == 'mcall' and over.args[0] == 'keys' and scaled(over.args[1]) is base:
        def f(u):
            if u.op == 'getitem' and u.args[1] is el and (u.args[0] is body.args[0] or scaled(u.args[0]) is base):
                return base
            return None
        r = T.subst_fn(v, f)
        if not T.mentions(r, lambda u: u is key or u is el):
            return r
    return t


def whole(obs, rule, n, got, want, what, w):
    """judge, where a selection of the entries is not the vector"""
    if got not in (None, BOTTOM) and want is not None and got.op == 'getitem' and got.args[0] is want and want.op == 'sym' and (
            got.args[1].op in ('sym', 'setitem', 'eq0', 'gt0', 'num') or T.mentions(got.args[1], lambda u: u.op in ('eq0', 'gt0'))):
        obs.add(rule, n, BAD, '%s: some of its entries' % what, w)
        return
    judge(obs, rule, n, got, want, what, w)


def subsampled(ctx, obs, qual):
    """a path on some of the cases: the loss of these cases, and everything else as it was"""
    c = find(ctx, qual)
    n, w = short(qual) + '.subsample', where(c, 'subsample')
    r, L, sp = fresh_path(ctx, qual)
    s = L.call(r, 'subsample', L.vec(SUB)) if isinstance(r, Ob) else r
    if not isinstance(s, Ob):
        obs.add('subsample', n, BAD if s is BOTTOM else UND, '', w)
        return
    obs.add('subsample', n, OK if s.cls is c else BAD, 'class', w)
    get = lambda o, a: run(L, L.get(o, a))
    judge(obs, 'subsample', n, get(s, 'saturated_loss'), mk('mcall', 'subsample', sym('o_sat'), (SUB,), ()), 'loss of the cases', w)
    for a in ['alpha', 'elastic_net_param'] + (['X'] if qual != BLOCK else ['_Xs']):
        whole(obs, 'subsample', n, get(s, a), get(r, a), a, w)
    p, q = L.get(r, 'penalty'), L.get(s, 'penalty')
    if isinstance(p, Ob) and isinstance(q, Ob):
        names = {LASSO: ['weights'], GROUP: ['groups', 'weights'], SPARSE: ['groups', 'weights', 'lasso_weights']}.get(qual, ['l1_weight', 'l2_weight'])
        for a in names + ['lagrange']:
            whole(obs, 'subsample', n, scaled(get(q, a)), scaled(get(p, a)), a + ' of the penalty', w)
    else:
        obs.add('subsample', n, UND, 'penalty', w)


# ------------------------------------------------------------------ T02
GRAD = sym('v_g')
CUR, NEW = sym('s_cur++'), sym('s_new++')
TOLK = T.num(T.Fraction(1, 100))


def nonneg(w):
    """weights are not negative: both sides of a comparison are zero where they are"""
    return add(T.gt0(w), T.eq0(w))


def symcall(name, *args):
    return mk('call', mk('ext', name), tuple(args), ())


def kkt_lab(ctx, qual):
    L, o = maker(ctx, qual)
    seen = []

    def terms(I, f, args, kw, st, node):
        seen.append((f.owner.name if getattr(f, 'owner', None) else f.qual, {k: I.term(v, st) for k, v in kw.items()}))
        return I.newarr(st, mk('call', mk('ext', 'terms'), (I.term(args[1], st),), ()))

    def gauge(I, f, args, kw, st, node):
        at = [I.term(a, st) for a in args[:3]]
        return I.tup(st, [I.newarr(st, symcall('gauge.' + k, *at)) for k in ('value', 'l1', 'l2')])

    def inside(I, f, args, kw, st, node):
        return C(mk('bool', symcall('inside', *[I.term(a, st) for a in args[:4]])))
    L.I.stubs = {'_gauge_function_dual_strong': gauge, '_inside_set_strong': inside}
    if qual in (GROUP, SPARSE):
        L.I.stubs['terms'] = terms
        d = find(ctx, PENALTY[qual] + '_dual')
        dual = L.blank(d, 'o_dual')
        pen = L.get(o, 'penalty')
        L.I.stubs['conjugate'] = lambda I, f, args, kw, st, node: dual
        L.put(pen, conjugate=dual)
    return L, o, seen


def loops_in(t):
    out = []
    T.mentions(t, lambda u: out.append(u) if u.op in ('loopvar', 'loopset') and u not in out else None)
    return [u for u in out if not any(u is not v and T.contains(v, u) for v in out)]


def element(u):
    """(key, position, value): what one iteration of a loop over positions writes; untouched positions are zero"""
    key = u.args[0]
    if u.op == 'loopset':
        return (key, u.args[2], u.args[3]) if u.args[1] is ZERO else None
    if len(u.args) < 3 or u.args[2] is not ZERO:
        return None
    body, at = u.args[1], []
    mine = written(body, key)

    def f(v):
        if v.op == 'setitem' and own(v.args[0]):
            if v.args[1] not in at:
                at.append(v.args[1])
            return T.subst_fn(v.args[2], f)
        if v is mine:
            return ZERO
        return None

    def own(v):
        if v.op == 'phi':
            return v is mine
        if v.op == 'setitem':
            return own(v.args[0])
        if v.op == 'ite':
            return own(v.args[1]) and own(v.args[2])
        if v.op == 'poly':
            return all(sum(1 for a, e in m if own(a)) == 1 for m, c in v.args[0])
        return False
    r = T.subst_fn(body, f)
    return (key, at[0], r) if len(at) == 1 else None


def written(t, key):
    """the carried array that t is, with some entries set"""
    if t.op == 'phi':
        return t if t.args[0] is key and len(t.args) > 2 else None
    if t.op == 'setitem':
        return written(t.args[0], key)
    if t.op == 'ite':
        return written(t.args[1], key) or written(t.args[2], key)
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                r = written(a, key) if a.op in ('phi', 'setitem', 'ite') else None
                if r is not None:
                    return r
    return None


def ranks(obs, n, t, terms, count, w, zeros=()):
    """smaller for the more violated; -1 where the conditions hold"""
    fail = T.gt0(sub(terms, add(ONE, TOLK)))
    calls = []
    T.mentions(t, lambda u: calls.append(u) if u.op == 'call' and u.args[0].op == 'ext' else None)
    names = set(u.args[0].args[0].split('.')[-1] for u in calls if u.args[1] and u.args[1][0].op != 'call')
    if 'argsort' in names and 'rankdata' not in names and not any(u.args[1] and u.args[1][0].op == 'call' for u in calls):
        obs.add('kkt', n, BAD, 'ranks: argsort gives the order of the groups, not the rank of each', w)
        return
    rk = [u for u in calls if u.args[0].args[0].endswith('rankdata')]
    if len(set(rk)) != 1:
        obs.add('kkt', n, UND, 'ranks', w)
        return
    want = add(mul(fail, sub(count, rk[0])), neg(T.notb(fail)))
    R = {rk[0]: sym('v_rank++'), count: sym('s_count++')}
    by_name(obs, 'kkt', n, t, want, R, 'ranks', w, zeros)
    by_name(obs, 'kkt', n, rk[0].args[1][0], terms, {}, 'what is ranked', w, zeros)


def positive(t):
    """[t > 0] where t is a table of numbers over conditions"""
    conds = []
    for m, c in T.poly_items(t):
        for a, e in m:
            if a.op not in ('gt0', 'eq0', 'bool'):
                return T.gt0(t)
            if a not in conds:
                conds.append(a)
    if len(conds) > 8:
        return T.gt0(t)
    out = ZERO
    for k in range(2 ** len(conds)):
        on = [a for i, a in enumerate(conds) if k >> i & 1]
        if sum(c for m, c in T.poly_items(t) if all(a in on for a, e in m)) > 0:
            p = ONE
            for a in conds:
                p = mul(p, a if a in on else sub(ONE, a))
            out = add(out, p)
    return out


def kkt(ctx, obs, qual):
    c = find(ctx, qual)
    n, w = short(qual) + '.check_KKT', where(c, 'check_KKT')
    L, o, seen = kkt_lab(ctx, qual)
    for given in (False, True):
        if given:
            L, o, seen = kkt_lab(ctx, qual)
            # with another penalty, its weights are the ones used
            pen = L.get(o, 'penalty')
            L.set(o, 'penalty', L.blank(pen.cls, 'o_other', lagrange=ONE) if qual not in (COMMON, BLOCK) else pen)
            v = L.call(o, 'check_KKT', L.vec(GRAD), L.vec(XX), LAM, penalty=pen)
        else:
            v = L.call(o, 'check_KKT', L.vec(GRAD), L.vec(XX), LAM)
        it = L.items(v) if v not in (None, BOTTOM) else None
        ts = [L.term(x) for x in it] if it and len(it) == 2 else [None]
        if None in ts:
            obs.add('kkt', n, BAD if v is BOTTOM else UND, '', w)
            return
        KKT[qual](ctx, obs, n, w, ts[0], ts[1], qual)


def beyond(x, tol=None):
    return T.gt0(sub(x, TOLK if tol is None else tol))


def kkt_lasso(ctx, obs, n, w, act, rk, qual):
    pos, some = nonneg(W), T.notb(T.eq0(XX))
    ratio = T.div(GRAD, mul(LAM, W))
    m = T.red('mean', mk('getitem', W, T.gt0(W)))
    want = add(mul(T.andb(T.gt0(W), some), beyond(T.absv(add(ratio, T.sign(XX))))), mul(T.eq0(W), beyond(T.absv(T.div(GRAD, m)))))
    by_name(obs, 'kkt', n, mul(pos, act), mul(pos, want), {m: sym('s_mean++')}, 'failing active coordinates', w, [[XX], [W]])
    terms = mul(T.andb(T.gt0(W), T.eq0(XX)), T.absv(ratio))
    ranks(obs, n, rk, terms, mk('getitem', mk('attr', XX, 'shape'), ZERO), w, [[XX], [W]])


def split(obs, n, w, act, rk, ids):
    """elements of the two loops"""
    la, lr = loops_in(act), loops_in(rk)
    ea, er = (element(la[0]) if len(la) == 1 else None), (element(lr[0]) if len(lr) == 1 else None)
    if ea is None or er is None:
        obs.add('kkt', n, UND, 'no value per group', w)
        return None
    V = sym('v_found')
    ranks(obs, n, subst(rk, {lr[0]: V}), V, count_of(rk, lr[0], V), w)
    return ea, er, subst(act, {la[0]: V})


def count_of(t, loop, V):
    return mk('getitem', mk('attr', V, 'shape'), ZERO)


def groupwise(el):
    member = T.eq0(sub(GR, el))
    pick = lambda x: getitem_term(x, member)
    return pick(GRAD), pick(XX), mk('getitem', W, el), pick(LW)


def kkt_group(ctx, obs, n, w, act, rk, qual):
    r = split(obs, n, w, act, rk, None)
    if r is None:
        return
    (key, at, val), (key2, at2, val2), whole = r
    el = mk('elem', key, ids_of(key))
    g, x, wg, lw = groupwise(el)
    t = mk('getitem', symcall('terms', XX), mk('idx', key))
    V = sym('v_found')
    judge(obs, 'kkt', n, whole, T.gt0(V), 'failing: positive results', w)
    obs.add('kkt', n, OK if at is mk('idx', key) and at2 is mk('idx', key2) and key is key2 else UND, 'positions', w)
    if key is not key2:
        return
    pos = nonneg(wg)
    if qual == GROUP:
        norm_ = lambda z: T.norm2(z)
        active = T.andb(T.notb(T.eq0(t)), T.gt0(wg))
        mean = T.red('mean', mk('attr', sym('o_pen'), '_weight_array'))
        f1 = beyond(norm_(add(T.div(mul(x, mul(LAM, wg)), norm_(x)), g)))
        f2 = beyond(norm_(g), mul(TOLK, mean))
        # the gradient as a small deviation from the one that an active group should have
        dev = sub(mul(TOLK, sym('v_dev')), mul(mul(LAM, sym('s_wg+')), T.div(UNIT, T.norm2(UNIT))))
        names = {g: dev, x: mul(sym('s_t+'), UNIT), wg: sym('s_wg+'), t: sym('s_t+'), mean: sym('s_mean++')}
        zeros = [[sym('s_t+')], [sym('s_wg+')]]
        by_name(obs, 'kkt', n, mul(pos, positive(val)), mul(pos, add(mul(active, f1), mul(T.eq0(wg), f2))), names, 'failing active groups', w, zeros)
        want = mul(mul(T.notb(active), T.notb(T.eq0(wg))), T.div(norm_(g), mul(LAM, wg)))
        by_name(obs, 'kkt', n, mul(pos, val2), mul(pos, want), names, 'violation of inactive groups', w, zeros)
        return
    active = beyond(t, mul(num(T.Fraction(1, 10 ** 6)), T.norm2(XX)))
    value, b1, b2 = [symcall('gauge.' + k, neg(g), lw, wg) for k in ('value', 'l1', 'l2')]
    tot = add(T.red('sum', mul(LW, T.eq0(sub(GR, el)))), wg)
    want = mul(mul(T.notb(active), T.gt0(tot)), T.div(value, LAM))
    names = {**near(value, b1, b2, x, sym('v_lwg+')), **{g: sym('v_gg'), wg: sym('s_wg+'), lw: sym('v_lwg+'), T.red('mean', LW): sym('s_mean++'),
                 T.red('sum', mul(LW, T.eq0(sub(GR, el)))): sym('s_lws+'), T.red('sum', mul(XX, XX)): mul(sym('s_nXX++'), sym('s_nXX++')), t: mul(mul(num(T.Fraction(1, 10 ** 6)), sym('s_nXX++')), sym('s_t+'))}}
    zeros = [[sym('s_t+'), sym('s_nx+')], [sym('s_wg+')], [sym('s_lws+')]]
    by_name(obs, 'kkt', n, val2, want, names, 'violation of inactive groups', w, zeros)
    # the tests that an active group must pass
    nz = T.notb(T.eq0(x))
    tests = strong_tests(value, b1, b2, x, lw, nz)
    un = beyond(T.norm2(g), mul(TOLK, T.red('mean', LW)))
    any_ = T.orb(T.orb(tests[0], tests[1]), tests[2])
    by_name(obs, 'kkt', n, positive(val), add(mul(active, any_), mul(mul(T.notb(active), T.notb(T.gt0(tot))), un)), names, 'failing active groups', w, zeros)


UNIT = sym('v_unit')


def part(g, h):
    """the entries of vectors at one mask, as vectors of their own"""
    odd = lambda u: u.op not in ('sym', 'num', 'poly', 'eq0', 'gt0', 'abs', 'sign')
    at = {u for t in (g, h) for u in subterms(t) if u.op == 'getitem' and T.is_arith(u.args[1]) and not T.mentions(u.args[0], odd)}
    if len({u.args[1] for u in at}) != 1:
        return g, h
    name = lambda s: sym('%s_part%s' % (s.args[0].rstrip('+'), '+' * s.args[0].count('+'))) if s.op == 'sym' and s.args[0].startswith('v_') else None
    d = {u: T.subst_fn(u.args[0], name) for u in at}
    return subst(g, d), subst(h, d)


def by_name(obs, rule, n, got, want, names, what, w, zeros=()):
    """the same formula of the named quantities, which are arbitrary; each group of `zeros` may
    be zero together, which is no exception here"""
    got, want = subst(got, names), subst(want, names)
    for k in range(2 ** len(zeros)):
        d = {z: ZERO for i, zs in enumerate(zeros) if k >> i & 1 for z in zs}
        try:
            g, h = (subst(got, d), subst(want, d)) if d else (got, want)
        except ZeroDivisionError:
            obs.add(rule, n, UND, what, w)
            continue
        g, h = part(g, h)
        judge(obs, rule, n, g, h, what + (' where %s is zero' % ', '.join(T.show(z, 3) for z in d) if d else ''), w)


def near(value, b1, b2, x, lw):
    """the decomposition of the gradient, as a small deviation from that of an active group"""
    X = mul(sym('s_nx+'), UNIT)
    return {x: X, value: add(mul(LAM, sub(ONE, TOLK)), mul(TOLK, sym('s_dv'))), b1: add(mul(mul(lw, T.sign(X)), LAM), mul(TOLK, sym('v_d1'))),
            b2: mul(sym('s_b2++'), add(T.div(UNIT, T.norm2(UNIT)), mul(TOLK, sym('v_d2'))))}


def strong_tests(value, b1, b2, x, lw, nz):
    return (T.gt0(sub(mul(LAM, sub(ONE, TOLK)), value)),
            beyond(T.norm2(getitem_term(sub(b1, mul(mul(lw, T.sign(x)), LAM)), nz)), mul(TOLK, T.maximum(ONE, T.norm2(x)))),
            beyond(T.norm2(sub(T.div(b2, T.norm2(b2)), T.div(x, T.norm2(x))))))


def kkt_common(ctx, obs, n, w, act, rk, qual):
    r = split(obs, n, w, act, rk, None)
    if r is None:
        return
    (key, at, val), (key2, at2, val2), whole = r
    judge(obs, 'kkt', n, whole, T.gt0(sym('v_found')), 'failing: positive results', w)
    rows = T.power(mk('sumax', mk('axis', num(1)), mul(XX, XX)), T.Fraction(1, 2)) if False else None
    el, el2 = mk('elem', key, key.args[1]), mk('elem', key2, key2.args[1])
    obs.add('kkt', n, OK if at is el and at2 is el2 else UND, 'positions', w)
    mask, mask2 = key.args[1], key2.args[1]
    obs.add('kkt', n, OK if T.notb(mask) is mask2 else UND if not T.is_arith(mask) else BAD, 'inactive groups are those that are not active', w)
    lw, wg = L1, L2
    g2 = getitem_term(GRAD, el2)
    by_name(obs, 'kkt', n, val2, T.div(symcall('gauge.value', neg(g2), lw, wg), LAM), {symcall('gauge.value', neg(g2), lw, wg): sym('s_gauge+')}, 'violation of inactive groups', w)
    g, x = getitem_term(GRAD, el), getitem_term(XX, el)
    value, b1, b2 = [symcall('gauge.' + k, neg(g), lw, wg) for k in ('value', 'l1', 'l2')]
    tests = strong_tests(value, b1, b2, x, lw, T.notb(T.eq0(x)))
    names = {**near(value, b1, b2, x, lw), **{g: sym('v_gg')}}
    by_name(obs, 'kkt', n, positive(val), T.orb(T.orb(tests[0], tests[1]), tests[2]), names, 'failing active groups', w)


KKT = {LASSO: kkt_lasso, GROUP: kkt_group, SPARSE: kkt_group, COMMON: kkt_common, BLOCK: kkt_common}


def strong(ctx, obs, qual):
    """the strong rule: kept unless the gradient is inside the dual ball of radius 2 new - cur"""
    c = find(ctx, qual)
    n, w = short(qual) + '.strong_set', where(c, 'strong_set')
    L, o, seen = kkt_lab(ctx, qual)
    v = L.call(o, 'strong_set', CUR, NEW, L.vec(GRAD))
    it = L.items(v) if v not in (None, BOTTOM) else None
    t = L.term(it[1]) if it and len(it) == 3 else None
    if t is None:
        obs.add('strong', n, BAD if v is BOTTOM else UND, '', w)
        return
    thr = sub(T.scale(NEW, 2), CUR)
    if qual == LASSO:
        one = T.subst_fn(t, lambda u: ZERO if u is T.eq0(W) else ONE if u is T.gt0(W) else None)
        judge(obs, 'strong', n, one, T.gt0(sub(T.div(T.absv(GRAD), W), thr)), 'penalised coordinates', w)
        zero = T.subst_fn(t, lambda u: ONE if u is T.eq0(W) else ZERO if u is T.gt0(W) else None)
        big = zero.op == 'gt0' and any(c > 0 and len(m) == 1 and T.show(m[0][0], 2).endswith('inf') for m, c in T.poly_items(zero.args[0]))
        obs.add('strong', n, OK if zero is ONE or big else BAD if zero.op == 'gt0' else UND, 'coordinates without penalty are always kept', w)
        return
    if qual == GROUP:
        judge(obs, 'strong', n, t, T.gt0(sub(symcall('terms', GRAD), thr)), 'groups', w)
        ok = [k for name, k in seen]
        obs.add('strong', n, OK if ok and all(k.get('check_feasibility') is const(True) for k in ok) else UND, 'feasibility of the groups without penalty', w)
        return
    if qual == SPARSE:
        e = element(t) if t.op in ('loopvar', 'loopset') else None
        if e is None:
            obs.add('strong', n, UND, 'groups', w)
            return
        key, at, val = e
        g, x, wg, lw = groupwise(mk('elem', key, ids_of(key)))
        isin = mk('bool', symcall('inside', g, thr, lw, wg))
        judge(obs, 'strong', n, unbool(val), T.notb(isin), 'groups', w)
        return
    u = t
    key = next((a.args[0] for a in subterms(t) if a.op == 'listcomp'), None)
    if u.op == 'eq0' and u.args[0].op == 'listcomp':
        u = T.eq0(u.args[0].args[1])
    if key is None or u is t:
        obs.add('strong', n, UND, 'groups', w)
        return
    g = getitem_term(GRAD, mk('elem', key, key.args[1]))
    gi = mk('getitem', GRAD, mk('idx', key))
    isin = lambda q: mk('bool', symcall('inside', q, thr, L1, L2))
    got = unbool(u)
    judge(obs, 'strong', n, got, T.notb(isin(gi)) if T.contains(got, gi) else T.notb(isin(g)), 'groups', w)


def subterms(t):
    out = []
    T.mentions(t, lambda u: out.append(u) and False)
    return out


def unbool(t):
    """b == False, and ite(b, True, False): as indicators"""
    def f(u):
        if u.op == 'bool' and u.args[0].op == 'eq' and len(u.args[0].args) == 2:
            a, b = u.args[0].args
            if b is const(False) or b is const(True):
                a, b = b, a
            if a in (const(False), const(True)):
                r = unbool(b)
                return r if a is const(True) else T.notb(r)
        if u.op == 'ite' and u.args[1] in (const(True), ONE) and u.args[2] in (const(False), ZERO):
            return unbool(u.args[0])
        if u.op == 'ite' and u.args[2] in (const(True), ONE) and u.args[1] in (const(False), ZERO):
            return T.notb(unbool(u.args[0]))
        return None
    return T.subst_fn(t, f)


def active(ctx, obs, qual):
    c = find(ctx, qual)
    n, w = short(qual) + '.active_set', where(c, 'active_set')
    L, o, seen = kkt_lab(ctx, qual)
    t = run(L, L.call(o, 'active_set', L.vec(XX)))
    if qual == LASSO:
        judge(obs, 'active', n, t, T.notb(T.eq0(XX)), 'coordinates', w)
    elif qual in (GROUP, SPARSE):
        judge(obs, 'active', n, t, T.notb(T.eq0(symcall('terms', XX))), 'groups', w)


# ------------------------------------------------------------------ T03
PATH_, SEQ, SOL0, G0 = sym('o_path'), sym('v_seq'), sym('v_sol0'), sym('v_g0')
PV = mk('attr', PATH_, '_penalized_vars')
RES, STRONG, VG, VALL, VSET = sym('o_res'), sym('o_strong'), sym('v_gcur'), sym('v_all'), sym('v_set')
PALPHA = mk('attr', PATH_, 'alpha')


WORDS = ('sym', 'num', 'poly', 'getitem', 'setitem', 'mcall', 'attr', 'F', 'G', 'L', 'Lt', 'gt0', 'const', 'red', 'idx', 'elem', 'loop', 'slice')
ASKED = ('full_gradient', 'enet_grad', 'subsample_columns', 'restricted_penalty', 'updated_ever_active', 'active_set', 'full_loss', 'enet_loss',
         'check_KKT', 'strong_set', 'solve_subproblem')


def plain_words(t):
    def odd(u):
        if u.op == 'mcall':
            return u.args[1] is not PATH_ or u.args[0] not in ASKED or bool(u.args[3])
        if u.op == 'phi':
            return root(u) not in (SOL0, G0)
        return u.op not in WORDS and u.op != 'whilekey'
    return not T.mentions(t, odd)


def exactly(obs, rule, n, got, want, what, w):
    """judge, where the answers of the path are arbitrary: other questions have other answers"""
    if got not in (None, BOTTOM) and want is not None:
        got, want = restrict(got), restrict(want)
        if verdict(got, want) == 'unknown' and norm(got) is not norm(want) and plain_words(got) and plain_words(want) and not roundabout(got, want):
            obs.add(rule, n, BAD, '%s: %s instead of %s' % (what, T.show(norm(got), 7), T.show(norm(want), 7)), w)
            return
    judge(obs, rule, n, got, want, what, w)


def restrict(t):
    """elastic net gradients restricted afterwards"""
    def f(u):
        if u.op == 'getitem' and u.args[0].op == 'mcall' and u.args[0].args[0] == 'enet_grad' and len(u.args[0].args[2]) == 3 and u.args[1].op == 'getitem':
            return mk('mcall', 'enet_grad', PATH_, u.args[0].args[2] + (u.args[1],), u.args[0].args[3])
        return None
    return T.subst_fn(t, f)


def roundabout(a, b):
    has = lambda t, n: T.mentions(t, lambda u: u.op == 'mcall' and u.args[0] == n)
    return has(a, 'full_gradient') != has(b, 'full_gradient') and (has(a, 'full_gradient') or has(a, 'subsample_columns') or T.mentions(a, lambda u: u.op == 'Lt'))


class Drive(object):
    """what a driver asks of an arbitrary path object"""

    def __init__(self, ctx, L, model):
        self.ctx, self.L, self.cls = ctx, L, find(ctx, LASSO)
        ev = L.I.events
        self.calls = [e for e in ev if e['kind'] == 'mcall' and e['recv'] is PATH_]
        self.loops = [e for e in ev if e['kind'] == 'carried']
        self.seen = {}

    def canon(self, t):
        """arguments by position, defaults that are None left out"""
        def f(u):
            if u.op == 'mcall' and u.args[1] is PATH_:
                return mk('mcall', u.args[0], PATH_, *self.positional(u.args[0], u.args[2], u.args[3]))
            return None
        k = t
        if k not in self.seen:
            self.seen[k] = T.subst_fn(t, lambda u: self.rec(u))
        return self.seen[k]

    def rec(self, u):
        if u.op == 'mcall' and u.args[1] is PATH_ and u not in self.seen:
            a, k = self.positional(u.args[0], tuple(self.canon(x) for x in u.args[2]), tuple((n, self.canon(x)) for n, x in u.args[3]))
            self.seen[u] = mk('mcall', u.args[0], PATH_, a, k)
        return self.seen.get(u) if u.op == 'mcall' else None

    def positional(self, name, args, kw):
        a, k = list(args), dict(kw)
        m = self.cls.lookup(name)
        names = [x.arg for x in m[1].node.args.args[1:]] if m and m[0] == 'method' else []
        for n in names[len(a):]:
            if n in k:
                a.append(k.pop(n))
            elif any(x in k for x in names[names.index(n):]):
                a.append(NONE)
            else:
                break
        while a and a[-1] is NONE:
            a.pop()
        return tuple(a), tuple((n, v) for n, v in sorted(k.items()) if v is not NONE)

    def all(self, name):
        out = []
        for e in self.calls:
            if e['name'] == name:
                a, k = self.positional(name, tuple(self.canon(x) for x in e['args']), tuple(sorted((n, self.canon(x)) for n, x in e['kw'].items())))
                t = mk('mcall', name, PATH_, a, k)
                out.append((a, dict(k), t, e['path']))
        return out

    def one(self, name):
        r = self.all(name)
        return r[0] if r and all(x[2] is r[0][2] for x in r) else None

    def carried(self, phi):
        """(init, next, exits) of a loop-carried value"""
        for e in self.loops:
            for p, v in e['init'].items():
                if p is phi:
                    return (self.canon(v), self.canon(e['next'][p]) if p in e['next'] else None,
                            [(self.canon(c), self.canon(d[p]) if p in d else None) for c, d in e['exits']], e)
        return None


def root(t):
    """what a loop-carried value starts as"""
    while t is not None and t.op == 'phi':
        t = t.args[-1] if len(t.args) > 2 else None
    return t


def point(t):
    """(loop, position relative to the index of the loop) of an element of the sequence"""
    if t.op == 'elem' and t.args[1] is SEQ:
        return t.args[0], 0
    if t.op == 'elem' and t.args[1].op == 'getitem' and t.args[1].args[0] is SEQ and t.args[1].args[1].op == 'slice':
        a, b, c = t.args[1].args[1].args
        if a is NONE or a.op == 'num':
            return t.args[0], 0 if a is NONE else int(a.args[0])
    if t.op == 'getitem' and t.args[0] is SEQ:
        its = T.poly_items(t.args[1])
        at = [m[0][0] for m, c in its if m and c == 1 and m[0][0].op == 'idx']
        if len(at) == 1 and all(not m or m[0][0] is at[0] for m, c in its):
            return at[0].args[0], int(sum(c for m, c in its if not m))
    return None


def union(t):
    """the collections a sorted set is made of"""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].split('.')[-1] in ('sorted', 'set', 'list', 'union1d', 'unique', 'tuple', 'frozenset') and t.args[1]:
        return set().union(*[union(x) for x in t.args[1]])
    if t.op == 'poly' and all(c == 1 and len(m) == 1 and m[0][1] == 1 for m, c in t.args[0]):
        return set().union(*[union(m[0][0]) for m, c in t.args[0]])
    if t.op == 'mcall' and t.args[0] == 'union':
        return set().union(union(t.args[1]), *[union(x) for x in t.args[2]])
    if t.op in ('bool', 'listcomp') and t.op == 'bool':
        return union(t.args[0])
    return {t}


def uea(t):
    return mk('mcall', 'updated_ever_active', PATH_, (t,), ())


def failing(k, also):
    rank = T.gt0(add(getitem_term(k, ONE), num(T.Fraction(1, 2))))
    return mk('bool', add(getitem_term(k, ZERO), rank)) if also else rank


def flat(t):
    """failing indicators: any, sum, bool of the same"""
    if t is None or t is BOTTOM:
        return t
    return T.subst_fn(t, lambda u: flat(u.args[0]) if u.op == 'bool' and (u.args[0].op in ('poly', 'gt0', 'eq0', 'red') or T.is_arith(u.args[0])) else None)


def tested(t, what):
    """t with every test whether any of `what` holds made TRUE"""
    return T.subst_fn(t, lambda u: ONE if u.op in ('bool', 'red', 'gt0') and is_any(u, what) else None)


def is_any(u, what):
    x = counted(u)
    return x is not None and x is flat(what)


def counted(u):
    """x, when u asks whether any of x holds"""
    while u.op in ('bool', 'gt0') and u.args[0].op in ('bool', 'gt0', 'red', 'poly'):
        u = u.args[0]
    if u.op == 'red' and u.args[0] in ('any', 'sum', 'max'):
        return flat(u.args[1])
    if u.op == 'poly' and all(c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'red' and m[0][0].args[0] == 'sum' for m, c in u.args[0]):
        x = ZERO
        for m, c in u.args[0]:
            x = add(x, m[0][0].args[1])
        return flat(x)
    return None


def driver(ctx, mod, name, *args, **kw):
    L = Lab(ctx, nonnull=NN + NAMES + ['s_step++', 'v_seq', 'v_sol0', 'v_g0', 'v_cands'])
    f = ctx.model.modules[mod].funcs[name]
    v = L.func(f, PATH_, L.vec(SEQ), L.I.tup(L.st, [L.vec(SOL0), L.vec(G0)]), **dict(dict(initial_step=STEP), **kw))
    return L, v, Drive(ctx, L, ctx.model), '%s.%s' % (mod.split('.')[-1], name), f.where


def full_gradient(sol, lam):
    return add(mk('mcall', 'full_gradient', PATH_, (SAT, getitem_term(RES, num(3))), ()), mk('mcall', 'enet_grad', PATH_, (sol, PV, lam), ()))


def strong_rules(ctx, obs):
    for also in (False, True):
        L, v, D, n, w = driver(ctx, 'regreg.paths', 'strong_rules', check_active=const(also))
        S, ST = D.one('solve_subproblem'), D.one('strong_set')
        kkts = D.all('check_KKT')
        full = [k for k in kkts if len(k[0]) == 3 and not k[1]]
        rest = [k for k in kkts if len(k[0]) == 4 and not k[1]]
        if v in (None, BOTTOM) or S is None or len(S[0]) != 3 or ST is None or len(full) != 1 or len(full[0][0]) != 3:
            bad = v not in (None, BOTTOM) and S is not None and not full
            obs.add('strong_rules', n, BAD if bad else UND, 'the conditions are not checked over all groups' if bad else '', w)
            return
        full = full[0]
        sol, cand, lam = S[0]
        # the sequence
        p = point(lam)
        at = [u for u in subterms(ST[0][0]) if point(u) is not None] if len(ST[0]) == 3 else []
        q = point(at[0]) if len(at) == 1 else None
        names = {sol: SOL, lam: NEW, **({at[0]: CUR} if q and at[0] is not lam else {})}
        to = lambda t: None if t is None else subst(subst(t, {S[2]: RES, ST[2]: STRONG}), names)
        new = L_set(SOL, RES)
        exactly(obs, 'strong_rules', n, subst(ST[0][1], {lam: NEW}) if q else None, mul(PALPHA, NEW), 'strong rule: next Lagrange parameter', w)
        exactly(obs, 'strong_rules', n, subst(ST[0][0], {at[0]: CUR}) if q else None, mul(PALPHA, CUR), 'strong rule: scale of the previous Lagrange parameter', w)
        if p is None or q is None:
            obs.add('strong_rules', n, UND, 'sequence', w)
        else:
            obs.add('strong_rules', n, OK if p[0] is q[0] and p[1] == q[1] + 1 else BAD, 'strong rule: previous Lagrange parameter', w)
            obs.add('strong_rules', n, OK if p[1] == 1 or p[0].args[1].op == 'range' else BAD, 'from the second Lagrange parameter on', w)
        obs.add('strong_rules', n, OK if root(sol) is SOL0 else UND, 'warm start', w)
        gphi = ST[0][2] if len(ST[0]) == 3 else None
        obs.add('strong_rules', n, OK if root(gphi) is G0 else UND, 'gradient of the previous solution', w)
        # the conditions over all groups
        exactly(obs, 'strong_rules', n, to(full[0][0]), full_gradient(new, NEW), 'conditions: gradient over all coordinates', w)
        exactly(obs, 'strong_rules', n, to(full[0][1]), new, 'conditions: solution', w)
        exactly(obs, 'strong_rules', n, to(full[0][2]), mul(PALPHA, NEW), 'conditions: Lagrange parameter', w)
        bad = failing(full[2], also)
        # the conditions over the strong set
        if len(rest) == 1:
            r = rest[0]
            vars_ = getitem_term(STRONG, num(2))
            X = mk('mcall', 'subsample_columns', PATH_, (XFULL, vars_), ())
            g = add(Lt(X, Gx(SAT, getitem_term(RES, num(3)))), mk('mcall', 'enet_grad', PATH_, (new, PV, NEW, vars_), ()))
            exactly(obs, 'strong_rules', n, to(r[0][0]), g, 'strong set: gradient', w)
            exactly(obs, 'strong_rules', n, to(r[0][1]), getitem_term(new, vars_), 'strong set: solution', w)
            exactly(obs, 'strong_rules', n, to(r[0][2]), mul(PALPHA, NEW), 'strong set: Lagrange parameter', w)
            exactly(obs, 'strong_rules', n, to(r[0][3]), mk('mcall', 'restricted_penalty', PATH_, (vars_,), ()), 'strong set: penalty', w)
            some = failing(r[2], also)
        # every try solves over more groups
        leaves = union(cand)
        phis = [u for u in leaves if u.op == 'phi']
        grown = [u for u in leaves if u.op == 'mcall' and u.args[0] == 'updated_ever_active' and len(u.args[2]) == 1 and u.args[2][0].op == 'phi']
        nx = D.carried(phis[0]) if len(phis) == 1 else None
        later = union(nx[1]) if nx and nx[1] is not None else set()
        if len(leaves) == 1 and phis and nx:
            leaves = later
        if not phis:
            obs.add('strong_rules', n, BAD if grown and all(u.op == 'mcall' for u in leaves) else UND, 'groups that were solved for are solved for again', w)
        else:
            ok = leaves <= later or phis[0] in later or cand in later
            obs.add('strong_rules', n, OK if ok else BAD if later and all(u.op == 'mcall' for u in later) else UND, 'groups that were solved for are solved for again', w)
        # the failing groups
        if len(grown) == 1:
            phi = grown[0].args[2][0]
            c = D.carried(phi)
            if c and c[1] is not None:
                got = c[1]
                want = bad
                if len(rest) == 1:
                    any_ = mk('red', 'any', flat(some))
                    up = L_setitem(getitem_term(ST[2], ONE), some)
                    want = add(mul(any_, add(phi, up)), mul(sub(ONE, any_), bad))
                exactly(obs, 'strong_rules', n, flat(one_any(got)), flat(one_any(want)), 'failing groups are added', w)
                exits(obs, n, D, c, bad, w)
                sc = D.carried(sol)
                gc = D.carried(gphi) if gphi is not None else None
                if sc and gc:
                    for i, (cond, val) in enumerate(sc[2]):
                        exactly(obs, 'strong_rules', n, to(gc[2][i][1]), full_gradient(to(val), NEW), 'gradient at the solution', w)
                        if accepted(D, c[3], cond, bad):
                            exactly(obs, 'strong_rules', n, to(val), new, 'accepted solution', w)
            else:
                obs.add('strong_rules', n, UND, 'failing groups are added', w)
        elif phis and leaves and not grown:
            obs.add('strong_rules', n, UND, 'failing groups are added', w)
        results(obs, n, L, D, v, sol, w)


def one_any(t):
    """any, or a positive number of them"""
    def f(u):
        x = counted(u) if u.op in ('bool', 'gt0', 'red') else None
        return mk('red', 'any', x) if x is not None else None
    if t is None or t is BOTTOM:
        return t
    x = counted(t)
    return mk('red', 'any', x) if x is not None else T.subst_fn(t, f)


def L_set(sol, res):
    from ..absint import setitem_term
    return setitem_term(sol, getitem_term(res, num(4)), getitem_term(res, num(2)))


def L_setitem(at, val):
    from ..absint import setitem_term
    return setitem_term(ZERO, at, val)


def accepted(D, loop, cond, bad):
    """the way out is taken only where nothing fails"""
    return tested(cond, bad) is ZERO


def exits(obs, n, D, c, bad, w):
    """the search for a set of groups ends when the conditions hold over all of them (or it is given up)"""
    loop = c[3]
    zero = {}
    for p, v in loop['init'].items():
        if v is ZERO and loop['next'].get(p) is add(p, ONE):
            zero[p] = ZERO
    k = 0
    for cond, d in loop['exits']:
        t = D.canon(cond)
        if accepted(D, loop, t, bad):
            k += 1
            continue
        r = tested(subst(t, zero), bad)
        obs.add('strong_rules', n, OK if r is ZERO else BAD, 'a solution is accepted where the conditions fail: %s' % ('' if r is ZERO else T.show(t, 5)), w)
    obs.add('strong_rules', n, OK if k else UND, 'accepted where the conditions hold', w)


def transposed(t):
    return t.args[0] if t.op == 'transpose' else t


def results(obs, n, L, D, v, sol, w):
    d = L.st.dicts.get(getattr(v, 'id', None))
    if not d or 'beta' not in d or 'lagrange' not in d:
        obs.add('strong_rules', n, UND, 'results', w)
        return
    exactly(obs, 'strong_rules', n, L.term(d['lagrange']), SEQ, 'Lagrange parameters of the results', w)
    b = L.term(d['beta'])
    if b is not None and b.op == 'list' and len(b.args[0]) == 1 and b.args[0][0] is SOL0:
        obs.add('strong_rules', n, BAD, 'only the first solution is recorded', w)
        return
    if b is None or b.op != 'list' or len(b.args[0]) != 2 or b.args[0][1].op != 'repeat' or b.args[0][1].args[0].op != 'listcomp':
        obs.add('strong_rules', n, UND, 'solutions', w)
        return
    exactly(obs, 'strong_rules', n, transposed(b.args[0][0]), SOL0, 'first solution', w)
    o = D.carried(root1(sol))
    key, item = b.args[0][1].args[0].args
    obs.add('strong_rules', n, UND if o is None or o[3]['key'] is not key else OK, 'one solution for each Lagrange parameter', w)
    exactly(obs, 'strong_rules', n, None if o is None else transposed(D.canon(item)), None if o is None else o[1], 'solutions', w)


def root1(t):
    """the loop-carried value of the outermost loop"""
    while t.op == 'phi' and len(t.args) > 2 and t.args[-1].op == 'phi':
        t = t.args[-1]
    return t


def inner_loop(ctx, obs):
    for also in (False, True):
        L, v, D, n, w = driver(ctx, 'regreg.paths.basil', '_inner_loop', check_active=const(also), candidate_set=L_cand())
        S = D.one('solve_subproblem')
        kkts = [k for k in D.all('check_KKT') if len(k[0]) == 3 and not k[1]]
        it = L.items(v) if v not in (None, BOTTOM) else None
        if S is None or len(S[0]) != 3 or it is None or len(it) != 4:
            obs.add('basil', n, UND, '', w)
            return
        sol, cand, lam = S[0]
        full = [k for k in kkts if T.contains(k[2], S[2])]
        if len(full) != 1:
            obs.add('basil', n, BAD if not full and D.all('active_set') else UND, 'the conditions are not checked over all groups' if not full else '', w)
            return
        full = full[0]
        to = lambda t: None if t is None else subst(subst(t, {S[2]: RES}), {sol: SOL, lam: NEW})
        new = L_set(SOL, RES)
        obs.add('basil', n, OK if point(lam) and point(lam)[1] == 0 else UND, 'sequence', w)
        obs.add('basil', n, OK if root(sol) is SOL0 else UND, 'warm start', w)
        exactly(obs, 'basil', n, to(full[0][0]), full_gradient(new, NEW), 'conditions: gradient over all coordinates', w)
        exactly(obs, 'basil', n, to(full[0][1]), new, 'conditions: solution', w)
        exactly(obs, 'basil', n, to(full[0][2]), mul(PALPHA, NEW), 'conditions: Lagrange parameter', w)
        bad = failing(full[2], also)
        obs.add('basil', n, OK if CANDS in union(cand) else UND if T.contains(cand, CANDS) else BAD, 'groups asked for are solved for', w)
        # recorded when nothing fails, and only then
        loop = [e for e in D.loops if e['key'] is (point(lam) or (None,))[0]]
        if len(loop) != 1:
            obs.add('basil', n, UND, 'loop', w)
            continue
        loop = loop[0]
        conds = [D.canon(c) for c, d in loop['exits']]
        left = ZERO
        for c in conds:
            left = T.orb(left, c)
        any_ = mk('red', 'any', flat(bad))
        exactly(obs, 'basil', n, one_any(left), any_, 'stops where the conditions fail', w)
        for k, (what, val) in enumerate((('Lagrange parameters', NEW), ('solutions', new))):
            t = D.canon(L.term(it[k]))
            e = recorded(t)
            if e is None:
                empty = t is not None and t.op == 'list' and not t.args[0]
                obs.add('basil', n, BAD if empty else UND, what + (' are not recorded' if empty else ''), w)
                continue
            cond, x = e
            obs.add('basil', n, OK if tested(cond, bad) is ZERO or cond is ONE and not_after(loop, L, k) else BAD if cond is not ONE else UND, what + ' are recorded where the conditions hold', w)
            exactly(obs, 'basil', n, transposed(to(x)), val, what, w)
        # what did not pass is a candidate the next time
        t = D.canon(L.term(it[3]))
        phi = [p for p in loop['init'] if len(p.args) == 2 and any(p in union(D.canon(d[p])) and len(union(D.canon(d[p]))) > 1 for c, d in loop['exits'] if p in d)]
        if len(phi) == 1 and T.contains(t, loop['key']):
            for c, d in loop['exits']:
                leaves = union(D.canon(d[phi[0]]))
                ok = any(u.op == 'mcall' and u.args[0] == 'updated_ever_active' and flat(u.args[2][0]) is flat(bad) for u in leaves)
                obs.add('basil', n, OK if ok else BAD, 'failing groups are candidates of the next call', w)
                ok = all(u in leaves for u in union(cand))
                obs.add('basil', n, OK if ok else BAD, 'candidates stay candidates', w)
        else:
            obs.add('basil', n, UND, 'candidates', w)


CANDS = sym('v_cands')


def L_cand():
    return CANDS


def not_after(loop, L, k):
    return False


def recorded(t):
    """(condition, value) of what each iteration appends"""
    if t is None or t.op != 'list' or len(t.args[0]) != 1 or t.args[0][0].op != 'repeat':
        return None
    t = t.args[0][0].args[0]
    if t.op != 'listcomp':
        return None
    x = t.args[1]
    one = lambda u: u.args[0][0] if u.op == 'list' and len(u.args[0]) == 1 else None
    none = lambda u: u.op == 'list' and not u.args[0]
    if x.op == 'ite':
        if none(x.args[1]) and one(x.args[2]) is not None:
            return T.notb(x.args[0]), one(x.args[2])
        if none(x.args[2]) and one(x.args[1]) is not None:
            return x.args[0], one(x.args[1])
        return None
    return ONE, x


def basil(ctx, obs):
    L = Lab(ctx, nonnull=NN + NAMES + ['v_seq', 'v_sol0', 'v_g0'])
    f = ctx.model.modules['regreg.paths.basil'].funcs['basil']
    n, w = 'basil.basil', f.where
    got = []

    def inner(I, g, args, kw, st, node):
        a = g.node.args
        names = [x.arg for x in a.args]
        d = dict(zip(names, args))
        d.update(kw)
        got.append({k: I.term(x, st) for k, x in d.items()})
        return I.tup(st, [I.newarr(st, sym(x)) for x in ('v_incl', 'v_incs', 'v_lastg', 'v_cands')])
    L.I.stubs = {'regreg.paths.basil._inner_loop': inner}
    L.I.exact = True
    v = L.func(f, PATH_, L.vec(SEQ), L.I.tup(L.st, [L.vec(SOL0), L.vec(G0)]), inner_tol=TOL, step_lagrange=sym('i_k'))
    calls = []
    for g in got:
        if g not in calls:
            calls.append(g)
    if v in (None, BOTTOM) or not got:
        obs.add('basil', n, UND, '', w)
        return
    g = got[-1]
    exactly(obs, 'basil', n, g.get('path_obj'), PATH_, 'path', w)
    exactly(obs, 'basil', n, g.get('inner_tol', sym('o_missing')), TOL, 'tolerance', w)
    s = g.get('lagrange_subseq')
    solved = None
    if s is not None and s.op == 'getitem' and s.args[0] is SEQ and s.args[1].op == 'slice':
        a, b, c = s.args[1].args
        exactly(obs, 'basil', n, T.sub(b, a), sym('i_k'), 'as many Lagrange parameters as asked for', w)
        mins = []
        T.mentions(a, lambda u: mins.append(u) if u.op == 'red' and u.args[0] in ('min', 'max') and u not in mins else None)
        inf = lambda u: T.mentions(u, lambda x: x.op in ('const', 'inf', 'sym') and 'inf' in T.show(x, 2))
        if len(mins) == 1 and inf(mins[0]) and T.mentions(mins[0], lambda u: u.op == 'repeat'):
            lo = sym('s_lo')
            up = mul(num(-1), lo) if mins[0].args[0] == 'max' else lo
            got = subst(a, {mins[0]: up})
            exactly(obs, 'basil', n, got, T.red('sum', T.gt0(add(sub(SEQ, lo), num(T.Fraction(1, 2))))), 'starts after the ones that are solved', w)
        else:
            obs.add('basil', n, UND, 'starts after the ones that are solved', w)
    else:
        obs.add('basil', n, UND, 'sequence', w)
    t = L.term(v)
    obs.add('basil', n, OK if t is not None and T.contains(t, sym('v_incs')) else UND if t is None else BAD, 'all solutions are recorded', w)
    c = g.get('candidate_set')
    ev = [e for e in L.I.events if e['kind'] == 'carried' and c is not None and c in e['next']]
    if ev:
        exactly(obs, 'basil', n, ev[-1]['next'][c], CANDS, 'candidates of the next call', w)
    else:
        obs.add('basil', n, UND, 'candidates', w)


def arith(t):
    """arithmetic between lists that have become arrays"""
    f = dict(Div=T.div, Mult=T.mul, Sub=T.sub, Add=T.add)
    return T.subst_fn(t, lambda u: f[u.args[0]](arith(u.args[1]), arith(u.args[2])) if u.op == 'binop' and u.args[0] in f else None)


def warm_start(ctx, obs):
    L = Lab(ctx, nonnull=NN + NAMES + ['v_seq', 'v_sol0', 'v_g0'])
    f = ctx.model.modules['regreg.paths'].funcs['warm_start']
    n, w = 'paths.warm_start', f.where
    seen = {}
    pen = L.blank(find(ctx, PENALTY[LASSO]), 'o_rpen', weights=L.vec(W), lagrange=ONE)

    def solve(I, g, args, kw, st, node):
        p = args[0]
        seen['kw'] = {k: I.term(x, st) for k, x in kw.items()}
        seen['coefs'] = I.term(I.getattr(p, 'coefs', st), st)
        sm, q = I.getattr(p, 'smooth_atom', st), I.getattr(p, 'proximal_atom', st)
        seen['penalty'] = q
        seen['lagrange'] = I.term(I.getattr(q, 'lagrange', st), st)
        for m in ('func', 'grad'):
            seen[m] = I.term(I.callmeth(sm, 'smooth_objective', [I.newarr(st, Z), C(const(m))], {}, st, node), st)
        st.heap[(p.id, 'final_step')] = C(FSTEP)
        return I.newarr(st, SOLN)
    L.I.stubs = {'regreg.problems.composite.composite.solve': solve, 'solve': solve}
    v = L.func(f, PATH_, L.vec(SEQ), L.I.tup(L.st, [L.vec(SOL0), L.vec(G0)]), initial_step=STEP, inner_tol=TOL)
    d = L.st.dicts.get(getattr(v, 'id', None))
    if v in (None, BOTTOM) or 'func' not in seen or not d:
        obs.add('warm_start', n, UND, '', w)
        return
    b = recorded(L.term(d['beta'])) if 'beta' in d else None
    t = L.term(d['beta']) if 'beta' in d else None
    key = t.args[0][0].args[0].args[0] if b is not None else None
    lam = mk('elem', key, SEQ) if key is not None else None
    if t is not None and t.op == 'list' and not t.args[0]:
        obs.add('warm_start', n, BAD, 'solutions are not recorded', w)
        return
    if lam is None or key.args[1] is not SEQ:
        obs.add('warm_start', n, UND, 'solutions', w)
        return
    exactly(obs, 'warm_start', n, transposed(b[1]), SOLN, 'solutions', w)
    D = Drive(ctx, L, ctx.model)
    full, en = mk('mcall', 'full_loss', PATH_, (), ()), mk('mcall', 'enet_loss', PATH_, (lam,), ())
    exactly(obs, 'warm_start', n, D.canon(seen['func']), add(Fx(full, Z), Fx(en, Z)), 'loss', w)
    exactly(obs, 'warm_start', n, D.canon(seen['grad']), add(Gx(full, Z), Gx(en, Z)), 'gradient', w)
    exactly(obs, 'warm_start', n, seen['lagrange'], mul(lam, PALPHA), 'multiplier of the penalty', w)
    dev = L.term(d['devratio']) if 'devratio' in d else None
    dev = None if dev is None else D.canon(dev)
    O_ = [u for u in subterms(dev) if u.op == 'list' and recorded(u) is not None] if dev is not None else []
    judge(obs, 'warm_start', n, recorded(O_[0])[1] if len(O_) == 1 else None, Fx(full, SOLN), 'loss at the solutions', w)
    judge(obs, 'warm_start', n, arith(subst(dev, {O_[0]: XX})) if len(O_) == 1 else None, sub(ONE, T.div(XX, T.red('max', XX))), 'deviance ratio', w)
    p = D.one('restricted_penalty')
    obs.add('warm_start', n, OK if p is not None and not p[0] and not p[1] else UND, 'penalty over all coordinates', w)
    exactly(obs, 'warm_start', n, seen['kw'].get('tol', sym('o_missing')), TOL, 'tolerance', w)
    exactly(obs, 'warm_start', n, L.term(d['lagrange']) if 'lagrange' in d else None, SEQ, 'Lagrange parameters of the results', w)


def sequence(ctx, obs):
    f = ctx.model.modules['regreg.paths'].funcs['default_lagrange_sequence']
    L = Lab(ctx, nonnull=NN + NAMES)
    PROP, N_ = sym('s_prop++'), sym('i_n')
    t = run(L, L.func(f, sym('o_pen'), L.vec(G0), PROP, N_, ALPHA))
    top = mk('mcall', 'seminorm', mk('attr', sym('o_pen'), 'conjugate'), (G0,), (('lagrange', ONE),))
    grid = mk('call', mk('ext', 'numpy.linspace'), (T.fn('log', PROP), ZERO, N_), ())
    rev = mk('slice', NONE, NONE, num(-1))
    want = T.div(mul(top, T.fn('exp', getitem_term(grid, rev))), ALPHA)
    back = lambda t: t if t in (None, BOTTOM) else T.subst_fn(t, lambda u: back(u.args[0]) if u.op == 'getitem' and u.args[1] is rev and u.args[0].op == 'mcall' else None)
    judge(obs, 'sequence', 'paths.default_lagrange_sequence', back(t), back(want), 'from the smallest parameter with the null solution down', f.where)


def columns(ctx, obs):
    f = ctx.model.modules['regreg.paths'].funcs['subsample_columns']
    L = Lab(ctx, nonnull=NN + NAMES)
    L.I.stubs = {'regreg.affine.astransform': lambda I, g, args, kw, st, node: args[0]}
    t = run(L, L.func(f, sym('o_X'), L.vec(CAND)))
    n, w = 'paths.subsample_columns', f.where
    if t is None or t is BOTTOM:
        obs.add('columns', n, BAD if t is BOTTOM else UND, '', w)
        return
    tr = t.op == 'transpose'
    t = transposed(t)
    e = element(t) if t.op in ('loopvar', 'loopset') else None
    if e is None:
        obs.add('columns', n, BAD if t is ZERO else UND, '', w)
        return
    key, at, val = e
    D = Drive(ctx, L, ctx.model)
    back = {}
    for lp in D.loops:
        if lp['key'] is key:
            for p, v0 in lp['init'].items():
                if v0 is ZERO and lp['next'].get(p) is not None and restored(lp['next'][p], p):
                    back[p] = ZERO
            left = [p for p in lp['init'] if p not in back and T.contains(val, p)]
            obs.add('columns', n, BAD if left else OK, 'coordinate vectors have one nonzero entry', w)
    val = subst(val, back)
    val = T.subst_fn(val, lambda u: Lx(sym('o_X'), u.args[1]) if u.op == 'dot' and u.args[0] is sym('o_X') else None)
    judge(obs, 'columns', n, val, Lx(sym('o_X'), L_setitem(mk('elem', key, CAND), ONE)), 'image of a coordinate vector', w)
    if at.op == 'tuple' and len(at.args[0]) == 2:
        ok = at.args[0][1] is mk('idx', key) and not tr
    else:
        ok = at is mk('idx', key) and tr
    obs.add('columns', n, OK if ok else UND, 'in columns', w)


def restored(t, p):
    """p with some entries set and set back to zero"""
    if subst(t, {p: ZERO}) is ZERO:
        return True
    return t.op == 'setitem' and t.args[0] is p and t.args[2] is ZERO


def ever_active(ctx, obs, qual):
    c = find(ctx, qual)
    n, w = short(qual) + '.updated_ever_active', where(c, 'updated_ever_active')
    L, o = maker(ctx, qual)
    L.put(o, _ever_active=L.vec('v_ever'), _sorted_groupids=L.vec('vi_ids'))
    t = run(L, L.call(o, 'updated_ever_active', L.vec('vi_new')))
    from ..absint import setitem_term
    want = setitem_term(sym('v_ever'), sym('vi_new'), ONE)
    if qual in (GROUP, SPARSE):
        want = mk('getitem', sym('vi_ids'), want)
    judge(obs, 'ever active', n, flat(t), flat(want), 'groups that are active, and those that were', w)


def t03(ctx, obs):
    strong_rules(ctx, obs)
    inner_loop(ctx, obs)
    basil(ctx, obs)
    warm_start(ctx, obs)
    sequence(ctx, obs)
    columns(ctx, obs)
    for qual in PATHS:
        ever_active(ctx, obs, qual)


# ------------------------------------------------------------------ T04
def folds(ctx, obs, name):
    """each fold is fitted without its own cases and scored on exactly these"""
    from ..absint import Ex
    f = ctx.model.modules['regreg.paths.cross_validate'].funcs[name]
    n, w = 'cross_validate.' + name, f.where
    L = Lab(ctx, nonnull=NN + NAMES + ['v_seq', 'v_sol0', 'v_g0'])

    def natives(I, fn, args, kw, st, node):
        last = fn.split('.')[-1]
        if last == 'delayed':
            return args[0]
        if last == 'Parallel':
            return Ex('in_order')
        if fn == 'in_order':
            return args[0]
        return None
    L.I.natives = natives
    fit, score, init, FF = [sym(x) for x in ('o_fit', 'o_score', 'o_init', 'o_fitfold')]
    kw = dict(path_fitter=fit, cv=sym('i_cv'), score=score, initial_data=init)
    if name == 'cross_validate':
        v = L.func(f, PATH_, L.vec(SEQ), inner_tol=TOL, **kw)
    else:
        v = L.func(f, PATH_, FF, L.I.tup(L.st, [L.val(sym('o_arg1'))]), L.vec(SEQ), **kw)
    it = L.items(v) if v not in (None, BOTTOM) else None
    ts = [along(L.term(x)) for x in it] if it and len(it) == 2 else []
    if len(ts) != 2 or any(t is None or t.op != 'redax' or t.args[0] not in ('mean', 'std') for t in ts):
        obs.add('folds', n, BAD if v is BOTTOM else UND, '', w)
        return
    obs.add('folds', n, OK if [t.args[0] for t in ts] == ['mean', 'std'] and all(t.args[1] in (0, ZERO) for t in ts) else BAD, 'mean and standard deviation over the folds', w)
    obs.add('folds', n, OK if ts[0].args[2] is ts[1].args[2] else BAD, 'of the same scores', w)
    rows = rebased(ts[0].args[2])
    if rows.op != 'listcomp' or rows.args[1].op != 'listcomp':
        obs.add('folds', n, UND, 'scores', w)
        return
    key, row = rows.args
    lkey, item = row.args
    DATA = mk('attr', SAT, 'data')
    lins = [u for u in subterms(item) if u.op == 'mcall' and u.args[0] == 'linpred' and u.args[1] is PATH_]
    if len(lins) != 1 or len(lins[0].args[2]) != 3 or item.op != 'call' or item.args[0] is not score or len(item.args[1]) != 2:
        obs.add('folds', n, UND, 'scores', w)
        return
    lp = lins[0]
    beta, X, test = lp.args[2]
    LP, TESTS, NTR = sym('v_lp'), sym('v_istest'), sym('s_ntr++')
    size = mk('getitem', mk('attr', DATA, 'shape'), ZERO)
    obs.add('folds', n, OK if lkey.op == 'loop' and lkey.args[1] is mk('range', (mk('getitem', mk('attr', lp, 'shape'), num(-1)),)) else UND, 'all the solutions of a fold', w)
    pick = mk('transpose', mk('getitem', mk('transpose', lp), mk('idx', lkey)))
    pred = item.args[1][0]
    exactly2(obs, n, pred, pick, {lp: LP}, 'prediction that is scored', w)
    exactly2(obs, n, item.args[1][1], mk('getitem', DATA, test), {test: TESTS}, 'response that is scored', w)
    judge(obs, 'folds', n, X, XFULL, 'prediction from the same matrix', w)
    # membership
    g = [u for u in subterms(test) if u.op == 'elem']
    G_ = None
    if len(g) == 1 and g[0].args[1].op == 'call' and g[0].args[1].args[0] is mk('ext', 'numpy.unique') and len(g[0].args[1].args[1]) == 1:
        G_ = g[0].args[1].args[1][0]
        judge(obs, 'folds', n, test, T.eq0(sub(G_, g[0])), 'cases that are scored: one group', w)
    else:
        obs.add('folds', n, UND, 'groups', w)
    fits = [u for u in subterms(beta) if u.op == 'call' and u.args[0] in (fit, FF)]
    if len(fits) != 1 or beta.op != 'getitem' or beta.args[0] is not fits[0] or beta.args[1] is not const('beta'):
        obs.add('folds', n, UND, 'fit', w)
        return
    u = fits[0]
    start = mk('ite', mk('bool', mk('isnone', init)), NONE, init)
    init_ok = lambda t: t is init or t.op == 'ite' and t.args[2] is init or t.op == 'ite' and t.args[1] is init
    if name == 'cross_validate':
        a = u.args[1]
        subs_ = [x for x in subterms(a[0]) if x.op == 'mcall' and x.args[0] == 'subsample' and x.args[1] is PATH_] if a else []
        if len(a) != 3 or len(subs_) != 1 or a[0] is not subs_[0] or len(subs_[0].args[2]) != 1:
            obs.add('folds', n, BAD if a and a[0] is PATH_ else UND, 'fit', w)
            return
        train = subs_[0].args[2][0]
        obs.add('folds', n, OK if dict(u.args[2]).get('inner_tol') is TOL else UND if dict(u.args[2]) and 'inner_tol' not in dict(u.args[2]) else BAD, 'tolerance', w)
        judge(obs, 'folds', n, a[1], SEQ, 'sequence', w)
        obs.add('folds', n, OK if init_ok(a[2]) else UND, 'initial data', w)
        # weight per case does not depend on the size of the fold
        want = mk('attr', mk('attr', subs_[0], 'saturated_loss'), 'coef')
        sets = [e for e in L.I.events if e['kind'] == 'setattr' and e['attr'] == 'coef' and rebased(e['obj']) is mk('attr', subs_[0], 'saturated_loss')]
        got = None
        if len(sets) == 1:
            val = subst(rebased(sets[0]['value']), {want: sym('s_c++')})
            val = T.subst_fn(val, lambda x: sym('s_ntest++') if x.op == 'red' and x.args[0] == 'sum' and is_test(x.args[1], test) else None)
            val = T.subst_fn(val, lambda x: NTR if x.op == 'red' and x.args[0] == 'sum' and is_test(x.args[1], T.notb(test)) else None)
            got = T.subst_fn(val, lambda x: sym('s_n++') if x.op == 'getitem' and x.args[1] is ZERO and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape'
                             or x.op == 'size' or x is size else None)
            wants = [T.div(mul(sym('s_c++'), sym('s_n++')), d) for d in (NTR, sub(sym('s_n++'), sym('s_ntest++')))]
            obs.add('folds', n, OK if got in wants else verdict_bad(got, wants), 'scale of the loss of a fold', w)
        else:
            obs.add('folds', n, BAD if not sets else UND, 'scale of the loss of a fold', w)
    else:
        a = u.args[1]
        if u.args[0] is not FF or len(a) < 5:
            obs.add('folds', n, UND, 'fit', w)
            return
        judge(obs, 'folds', n, a[0], SEQ, 'sequence', w)
        train = a[2]
        judge(obs, 'folds', n, a[1], test, 'cases left out', w)
        obs.add('folds', n, OK if a[3] is fit else BAD, 'path fitter', w)
        obs.add('folds', n, OK if init_ok(a[4]) else UND, 'initial data', w)
        obs.add('folds', n, OK if a[5:] == (sym('o_arg1'),) else UND, 'further arguments', w)
    exactly2(obs, n, train, T.notb(test), {}, 'cases that are fitted: the others', w)
    # groups of about the same size, at random
    if G_ is not None:
        base, writer = (G_.args[0], G_.args[1]) if G_.op == 'written' else (G_, '')
        obs.add('folds', n, OK if 'shuffle' in str(writer) or 'permut' in str(writer) or T.mentions(G_, lambda x: x.op == 'ext' and 'permut' in str(x.args[0])) else UND, 'groups at random', w)
        k = mk('call', mk('ext', 'numpy.arange'), (size,), ())
        inner = [x for x in subterms(base) if x.op == 'call' and x.args[0] is mk('ext', 'numpy.floor')]
        judge(obs, 'folds', n, inner[0].args[1][0] if len(inner) == 1 else None, T.div(mul(k, sym('i_cv')), size), 'groups of the same size', w)


def along(t):
    """numpy.std(x, axis) in the form of the other reductions"""
    if t is not None and t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.std', 'numpy.mean') and t.args[1]:
        kw = dict(t.args[2])
        axis = t.args[1][1] if len(t.args[1]) == 2 else kw.get('axis')
        if len(t.args[1]) + len(kw) == 2 and axis is not None:
            return mk('redax', t.args[0].args[0].split('.')[-1], 0 if axis is ZERO else axis, t.args[1][0])
    return t


def rebased(t):
    """loops over what is as long as the sequence it was made from, as loops over that sequence"""
    def base(it):
        if it.op == 'listcomp' and it.args[0].op == 'loop':
            return base(it.args[0].args[1])
        if it.op == 'zip' and it.args and it.args[0]:
            bs = {base(x) for x in (it.args[0] if isinstance(it.args[0], tuple) else it.args)}
            return bs.pop() if len(bs) == 1 else it
        return it
    return T.subst_fn(t, lambda u: mk('loop', u.args[0], base(rebased(u.args[1]))) if u.op == 'loop' and base(u.args[1]) is not u.args[1] else None)


def is_test(t, test):
    return flat(t) is flat(test)


def verdict_bad(got, wants):
    ok = lambda x: x.op in ('sym', 'num', 'poly')
    if got is not None and not T.mentions(got, lambda x: not ok(x)):
        return BAD
    return UND


def exactly2(obs, n, got, want, names, what, w):
    """arbitrary predictions and scores: what differs in form differs"""
    g, h = norm(flat(subst(got, names))), norm(flat(subst(want, names)))
    if g is h:
        obs.add('folds', n, OK, what, w)
        return
    words = ('sym', 'num', 'poly', 'getitem', 'transpose', 'idx', 'eq0', 'gt0', 'attr', 'elem', 'written', 'loop', 'zip', 'listcomp', 'range', 'tuple', 'call', 'ext', 'slice', 'const', 'mcall')
    odd = lambda u: u.op not in words or u.op == 'call' and u.args[0].op == 'ext' and u.args[0].args[0].split('.')[-1] not in ('unique', 'floor', 'arange')
    obs.add('folds', n, UND if T.mentions(g, odd) else BAD, '%s: %s instead of %s' % (what, T.show(g, 6), T.show(h, 6)), w)


def t04(ctx, obs):
    for name in ('cross_validate', 'cross_validate_alt'):
        folds(ctx, obs, name)
    for qual in PATHS:
        subsampled(ctx, obs, qual)


def t02(ctx, obs):
    for qual in PATHS:
        if find(ctx, qual) is None:
            raise KeyError(qual)
        kkt(ctx, obs, qual)
        strong(ctx, obs, qual)
        active(ctx, obs, qual)


def t01(ctx, obs):
    for qual in PATHS:
        if find(ctx, qual) is None:
            raise KeyError(qual)
        enet(ctx, obs, qual)
        subproblem(ctx, obs, qual)
        pieces(ctx, obs, qual)
        initial(ctx, obs, qual)
        if qual in (LASSO, GROUP, SPARSE):
            unpenalised(ctx, obs, qual)
    factories(ctx, obs)


def factories(ctx, obs):
    """paths for a named loss: that loss, of the given data, and the path it says, with every argument"""
    for qual in (LASSO, GROUP, SPARSE, BLOCK):
        mod = ctx.model.modules[qual.rsplit('.', 1)[0]]
        for name, f in sorted(mod.funcs.items()):
            fam = name[8:] if name.startswith('stacked_') else name
            special = {'multinomial': 'regreg.smooth.mglm.multinomial_loglike', 'multiresponse_gaussian': 'regreg.smooth.mglm.stacked_common_loglike.gaussian'}.get(name)
            if special is None and fam not in LOSSES or qual != BLOCK and fam is not name:
                continue
            n = '%s.%s' % (mod.name.split('.')[-1], name)
            cls, data, more = LOSSES[fam] if special is None else (special, ['Y'], [])
            if fam is not name:
                cls = 'regreg.smooth.glm.stacked_loglike.' + fam
            factory(ctx, obs, qual if special is None else COMMON, f, n, cls, data, more, fam is not name)


LOSSES = {k: ('regreg.smooth.glm.' + c if k != 'cox' else 'regreg.smooth.cox.cox_loglike', d, m) for k, c, d, m in [
    ('gaussian', 'gaussian_loglike', ['Y'], []), ('logistic', 'logistic_loglike', ['Y'], []), ('probit', 'probit_loglike', ['Y'], []),
    ('cloglog', 'cloglog_loglike', ['Y'], []), ('poisson', 'poisson_loglike', ['Y'], []), ('huber', 'huber_loss', ['Y'], ['delta']),
    ('huber_svm', 'huber_svm', ['Y'], ['delta']), ('cox', 'cox_loglike', ['T', 'S'], [])]}


def factory(ctx, obs, qual, f, n, cls, data, more, stacked):
    w = f.where
    L = Lab(ctx, nonnull=NN + NAMES)
    calls = []

    def init(I, g, args, kw, st, node):
        calls.append((args[0], bound(I, g, args[1:], kw, st)))
        return C(NONE)

    def made(I, g, args, kw, st, node):
        calls.append((g.qual, bound(I, g, args[1:], kw, st)))
        return C(sym('o_loss'))
    L.I.stubs = {'__init__': init}
    if stacked or not cls.split('.')[-2].islower() or 'stacked' in cls:
        L.I.stubs[cls] = made
    pre = 'o_' if 'stacked_common' in cls else 'v_'
    vals = [L.val(sym(pre + d)) for d in data] + [C(sym('s_%s++' % d)) for d in more]
    v = L.func(f, sym('m_X'), *vals, first=C(sym('o_first')))
    if not isinstance(v, Ob) or len(calls) != 2:
        obs.add('factory', n, BAD if v is BOTTOM else UND, '', w)
        return
    (loss, la), (path, pa) = calls
    obs.add('factory', n, OK if v.cls.qual == qual and path is v else BAD, 'a path of class %s' % v.cls.name, w)
    what = loss if isinstance(loss, str) else loss.cls.qual
    obs.add('factory', n, OK if what.rsplit('.', 1 + ('.stacked_' in cls))[1:] == cls.rsplit('.', 1 + ('.stacked_' in cls))[1:] else BAD, 'loss: %s' % what, w)
    ts = [sym(pre + d) for d in data]
    if 'stacked_common' in cls:
        ts = [mk('transpose', ts[0])]
    want = ts + [sym('s_%s++' % d) for d in more]
    if not isinstance(loss, str):
        want = [mk('attr', ts[0], 'shape')] + want
    for i, t in enumerate(want):
        g = la[1][i] if i < len(la[1]) else None
        obs.add('factory', n, BAD if g is None else OK if i == 0 and not isinstance(loss, str) and shape_like(g, ts[0]) else OK if g is t else BAD if g in want else UND, 'argument %d of the loss' % i, w)
    obs.add('factory', n, OK if len(la[1]) == len(want) and not la[2] else UND, 'further arguments of the loss', w)
    first = pa[1][0] if pa[1] else None
    obs.add('factory', n, OK if first is (sym('o_loss') if isinstance(loss, str) else pa[2].get('loss')) or not isinstance(loss, str) and pa[0] and pa[0][0] is loss else BAD, 'loss of the path', w)
    obs.add('factory', n, OK if len(pa[1]) > 1 and pa[1][1] is sym('m_X') else BAD, 'design of the path', w)
    obs.add('factory', n, OK if pa[2].get('first') is sym('o_first') else BAD, 'further arguments of the path', w)


def shape_like(t, x):
    return t is mk('attr', x, 'shape') or t.op == 'tuple' and all(u.op == 'size' or u.op == 'getitem' for u in t.args[0])


def bound(I, g, args, kw, st):
    """(values, terms) in the order of the parameters, and what is beyond them by name"""
    ps = g.params()[1:]
    pos = list(args)
    kw = dict(kw)
    for p in ps[len(pos):]:
        if p not in kw:
            break
        pos.append(kw.pop(p))
    return pos, [I.term_safe(a, st) for a in pos], {k: I.term_safe(a, st) for k, a in kw.items()}


IDEAL = ['Solutions of subproblems are those the solver was asked for; its convergence is not part of this.']
PROPS = {
    'T01': dict(run=t01, floor=260, assumptions=IDEAL,
                rule='For each path class, solve_subproblem is run with arbitrary candidates, weights, elastic net parameters, alpha (1 and below), start and Lagrange parameter; the problem it hands to the solver, the start and every returned value equal the restricted penalised problem. '
                     'Elastic net gradients are the symbolic derivative of the elastic net loss; the gradient and the loss over all coordinates, the starting values and the null model, also where weights vanish; factories build the named loss and path.'),
    'T02': dict(run=t02, floor=65, assumptions=['An index by a Boolean vector selects the entries where it holds.'],
                rule='Coordinate or group wise formulas of check_KKT, strong_set and active_set, compared with the subdifferential of the penalty at a tolerance, at generic arguments and where coordinates, groups or weights vanish.'),
    'T03': dict(run=t03, floor=55, assumptions=IDEAL,
                rule='The loops of strong_rules, warm_start and basil are run once with arbitrary carried values and arbitrary answers of the path: every question asked (subproblem, gradient, KKT conditions) and every value carried or collected must be the documented one, and loops are left only where no condition fails.'),
    'T04': dict(run=t04, floor=38, assumptions=['joblib returns results in the order of the jobs.'],
                rule='Cross-validation with arbitrary path, fitter and score: what each fold is fitted to and scored on, as expressions of the fold membership; paths made by subsample have all options of the original and the loss of the subsample.'),
}
