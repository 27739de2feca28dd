"""O01: options accepted by constructors and factories take effect.

Each class is built symbolically through its own __init__ with every option given (and once with every
option left out); the option's symbol must be what the attribute it stands for holds.  Factories
(classmethods of glm, mglm, stacked losses; shift/linear/affine) are evaluated next to an explicit
construction of the same object and the two are compared."""
from fractions import Fraction
from .. import terms as T, cells
from ..terms import mk, num, sym, ZERO, ONE
from ..check import OK, BAD, UND
from ..absint import A, C, Cl, Ob, Tup
from ..lab import BOTTOM
from .r_compose import find, parts
from .r_copy import (build, fresh, settled, settle, classes, modes_of, short, where, plain, readable, quadratic, is_loss, Cmp, N, DATA,
                     losses_list, PARTS, evaluations, argument)

HOLDS = (('coef', 'coef'), ('lagrange', 'lagrange'), ('bound', 'bound'), ('offset', 'offset'), ('initial', 'coefs'),
         ('case_weights', 'case_weights'), ('smoothing_parameter', 'smoothing_parameter'), ('weights', 'weights'), ('groups', 'groups'),
         ('basis', 'basis'))
GIVEN = {'coef': 's_coef++', 'lagrange': 's_lagrange++', 'bound': 's_bound++', 'smoothing_parameter': 's_smoothing_parameter++'}


def verdict(got, want):
    if got is None or want is None:
        return 'unknown'
    if got is want:
        return 'same'
    r = cells.compare(got, want)
    if r == 'unknown' and plain(want) is not None and not T.contains(got, want):
        return 'diff'
    return r


def judge(obs, rule, cons, got, want, w, what=''):
    r = verdict(got, want)
    obs.add(rule, cons, OK if r == 'same' else BAD if r == 'diff' else UND,
            '' if r == 'same' else '%sholds %s instead of %s' % (what, got is not None and T.show(got, 5), want is not None and T.show(want, 5)), w)


def function_of(obs, cons, L, q, loss, w):
    """q is the quadratic of parts('1'), up to (for losses) a constant of the loss alone"""
    co, ce, li, cn = parts('1')
    gco, gce, gli, gcn = [settled(L, L.get(q, p)) for p in PARTS]
    if gco is None or gce is None or gli is None or gcn is None:
        obs.add('option', cons + ': quadratic', UND, '', w)
        return
    judge(obs, 'option', cons + ': quadratic curvature', gco, co, w)
    judge(obs, 'option', cons + ': quadratic gradient', T.sub(gli, T.mul(gco, gce)), T.sub(li, T.mul(co, ce)), w)
    half = T.mul(num(Fraction(1, 2)), co)
    got = T.add(gcn, T.mul(T.mul(num(Fraction(1, 2)), gco), T.red('sum', T.power(gce, 2))))
    want = T.add(cn, T.mul(half, T.red('sum', T.power(ce, 2))))
    if loss:
        d = T.sub(got, want)
        ok = not T.mentions(d, lambda s: s in (co, ce, li, cn))
        bad = not ok and not T.contains(got, cn)
        obs.add('option', cons + ': quadratic constant', OK if ok else BAD if bad else UND, '' if ok else T.show(got, 6), w)
    else:
        judge(obs, 'option', cons + ': quadratic constant', got, want, w)


def constructors(ctx, obs):
    for c in classes(ctx):
        f = c.method('__init__')
        ps = f.params()[1:]
        if c.module.name.startswith(('regreg.problems', 'regreg.paths', 'regreg.sklearn', 'regreg.affine')):
            continue
        for m in modes_of(c):
            L = fresh(ctx)
            o = build(ctx, L, c, m)
            cons = '%s (%s)' % (short(c), m)
            if o is BOTTOM and m != 'plain':
                continue
            if not isinstance(o, Ob):
                obs.add('option', cons, UND, 'not built', where(f))
                continue
            for p, a in HOLDS:
                if p not in ps or p == 'weights' and 'groups' in ps or p in ('lagrange', 'bound') and p != m:
                    continue
                if not readable(L, o, a) and p in ('smoothing_parameter', 'weights', 'groups', 'basis'):
                    continue
                if not readable(L, o, a):
                    obs.add('option', '%s: %s' % (cons, p), BAD, 'the object has no %s' % a, where(f))
                    continue
                v = L.get(o, a)
                if v is None or v is BOTTOM:
                    obs.add('option', '%s: %s' % (cons, p), UND, '', where(f))
                    continue
                judge(obs, 'option', '%s: %s' % (cons, p), settled(L, v), sym(GIVEN.get(p, 'v_' + p)), where(f), a + ' ')
            if 'quadratic' in ps:
                q = quadratic(L, o)
                if q is None:
                    obs.add('option', cons + ': quadratic', UND, '', where(f))
                else:
                    function_of(obs, cons, L, q, is_loss(c), where(f))
            # left out
            L = fresh(ctx)
            o = build(ctx, L, c, m, **{p: None for p in ps if p in ('initial', 'offset', 'quadratic', 'case_weights')})
            if not isinstance(o, Ob):
                obs.add('default', cons, UND if o is None else BAD, 'cannot be built without its options', where(f))
                continue
            if 'initial' in ps and not readable(L, o, 'coefs'):
                obs.add('default', cons + ': initial', BAD, 'the object has no coefs', where(f))
            elif 'initial' in ps:
                judge(obs, 'default', cons + ': initial', settled(L, L.get(o, 'coefs')), ZERO, where(f), 'coefs ')
            if 'offset' in ps:
                judge(obs, 'default', cons + ': offset', settled(L, L.get(o, 'offset')), T.NONE, where(f), 'offset ')
            if 'quadratic' in ps and quadratic(L, o) is not None:
                q = quadratic(L, o)
                judge(obs, 'default', cons + ': quadratic.coef', settled(L, L.get(q, 'coef')), ZERO, where(f))
                judge(obs, 'default', cons + ': quadratic.linear_term', settled(L, L.get(q, 'linear_term')), ZERO, where(f))


SAT = {   # factory -> class of the saturated loss, response arguments, further arguments
    'gaussian': ('gaussian_loglike', ('response',), ()),
    'logistic': ('logistic_loglike', ('successes',), ('trials',)),
    'probit': ('probit_loglike', ('successes',), ('trials',)),
    'cloglog': ('cloglog_loglike', ('successes',), ('trials',)),
    'poisson': ('poisson_loglike', ('counts',), ()),
    'huber': ('huber_loss', ('response',), ('smoothing_parameter',)),
    'huber_svm': ('huber_svm', ('successes',), ('smoothing_parameter',)),
    'cox': ('cox_loglike', ('event_times', 'censoring'), ()),
}
PLURAL = {'response': ('responses', 'response', 'counts', 'successes')}


def loss_class(ctx, name):
    for c in ctx.model.all_classes():
        if c.name == name and c.module.name.startswith('regreg.smooth.'):
            return c
    return None


def same_objects(obs, rule, cons, L, a, b, w, attrs):
    """a (from the factory) behaves like b (constructed explicitly)"""
    obs.add(rule, cons + ': class', OK if a.cls is b.cls else BAD, 'a %s instead of a %s' % (a.cls.name, b.cls.name), w)
    for n in attrs:
        if not readable(L, a, n) or not readable(L, b, n):
            continue
        judge(obs, rule, '%s: %s' % (cons, n), settled(L, L.get(a, n)), settled(L, L.get(b, n)), w, n + ' ')
    qa, qb = quadratic(L, a), quadratic(L, b)
    for p in PARTS:
        judge(obs, rule, '%s: quadratic.%s' % (cons, p), qa and settled(L, L.get(qa, p)), qb and settled(L, L.get(qb, p)), w)
    for (m, x), (m2, y) in zip(evaluations(L, a), evaluations(L, b)):
        if x is BOTTOM and y is BOTTOM:
            continue
        if x is BOTTOM:
            obs.add(rule, '%s: %s' % (cons, m), BAD, 'raises on every path', w)
            continue
        judge(obs, rule, '%s: %s' % (cons, m), settled(L, x), settled(L, y), w)


COMMON = ('shape', 'coef', 'offset', 'coefs', 'case_weights', 'data')


def glm_factories(ctx, obs):
    """glm.logistic(X, Y, ...) and the like: the glm of the named saturated loss, every option passed on"""
    c = find(ctx, 'regreg.smooth.glm.glm')
    for m in sorted(SAT):
        f = c.method(m)
        if f is None:
            continue
        lname, data, more = SAT[m]
        lc = loss_class(ctx, lname)
        if lc is None:
            continue
        for given in ('given', 'left out'):
            L = fresh(ctx)
            cons = 'glm.%s (options %s)' % (m, given)
            ps = f.params()[1:]
            vec = lambda n: L.vec('v_' + n)
            sc = {n: (C(sym('s_%s++' % n)) if n == 'smoothing_parameter' else vec(n)) for n in more if n != 'trials' or given == 'given'}
            opts = {} if given != 'given' else dict(coef=C(sym('s_coef++')), saturated_offset=vec('off2'), offset=vec('offset'),
                                                   quadratic=L.quad(*parts('1')), initial=vec('initial'), case_weights=vec('case_weights'))
            pos = [vec('X')] + [vec(n) for n in data]
            kw = dict(sc)
            kw.update(opts)
            if m == 'cox':
                kw = dict(opts)
            # positional order of the documented signature: X, response(s), then smoothing_parameter / trials
            a = L.clsmeth(c, m, *pos, **kw)
            first = vec(data[0])
            shape = L.get(first, 'shape')
            lkw = dict(sc)
            if given == 'given':
                lkw.update(coef=C(sym('s_coef++')), offset=vec('off2'))
            names = dict(zip([p for p in lc.method('__init__').params()[2:]], [vec(n) for n in data]))
            lkw.update(names)
            loss = L.new(lc, shape, **lkw)
            if not isinstance(loss, Ob):
                obs.add('factory', cons, UND, 'loss', where(f))
                continue
            gkw = {k: v for k, v in opts.items() if k in ('offset', 'initial', 'case_weights')}
            if given == 'given':
                gkw['quadratic'] = L.quad(*parts('1'))
            b = L.new(c, vec('X'), L.get(loss, 'data'), loss, **gkw)
            if a is BOTTOM and b is not BOTTOM:
                obs.add('factory', cons, BAD, 'raises on every path', where(f))
                continue
            if not isinstance(a, Ob) or not isinstance(b, Ob):
                obs.add('factory', cons, UND, 'not built', where(f))
                continue
            same_objects(obs, 'factory', cons, L, a, b, where(f), COMMON)
            sa, sb = L.get(a, 'saturated_loss'), L.get(b, 'saturated_loss')
            if not isinstance(sa, Ob):
                obs.add('factory', cons + ': saturated loss', UND, '', where(f))
                continue
            same_objects(obs, 'factory', cons + ': saturated loss', L, sa, sb, where(f), COMMON + ('smoothing_parameter', 'trials'))


def stacked_factories(ctx, obs):
    for qual in ('regreg.smooth.glm.stacked_loglike', 'regreg.smooth.mglm.stacked_common_loglike'):
        c = find(ctx, qual)
        for m in sorted(SAT):
            f = c.method(m)
            if f is None:
                continue
            lname, data, more = SAT[m]
            lc = loss_class(ctx, lname)
            if lc is None:
                continue
            L = fresh(ctx)
            cons = '%s.%s' % (c.name, m)

            def vec(n):
                return L.vec('v_' + n)

            def lst(n):
                return L.I.tup(L.st, [vec(n + '1'), vec(n + '2')], 'list')
            sc = {n: C(sym('s_smoothing_parameter++')) for n in more if n == 'smoothing_parameter'}
            opts = dict(coef=C(sym('s_coef++')), offset=vec('offset'), quadratic=L.quad(*parts('1')), initial=vec('initial'),
                        case_weights=vec('case_weights'))
            kw = dict(sc)
            kw.update(opts)
            if 'trials' in more:
                kw['trials'] = lst('trials')
            a = L.clsmeth(c, m, *[lst(n) for n in data], **kw)
            losses = []
            for i in '12':
                ds = [vec(n + i) for n in data]
                k2 = dict(sc)
                k2['coef'] = C(sym('s_coef++'))
                if 'trials' in more:
                    k2['trials'] = vec('trials' + i)
                k2.update(dict(zip(lc.method('__init__').params()[2:], ds)))
                losses.append(L.new(lc, L.get(ds[0], 'shape'), **k2))
            if not all(isinstance(x, Ob) for x in losses):
                obs.add('factory', cons, UND, 'losses', where(f))
                continue
            b = L.new(c, L.I.tup(L.st, losses, 'list'), offset=vec('offset'), quadratic=L.quad(*parts('1')), initial=vec('initial'),
                      case_weights=vec('case_weights'))
            if a is BOTTOM and b is not BOTTOM:
                obs.add('factory', cons, BAD, 'raises on every path', where(f))
                continue
            if not isinstance(a, Ob) or not isinstance(b, Ob):
                obs.add('factory', cons, UND, 'not built', where(f))
                continue
            same_objects(obs, 'factory', cons, L, a, b, where(f), COMMON)
            la, lb = L.items(L.get(a, '_losses')), losses
            for i in range(2):
                if la is not None and len(la) == 2 and isinstance(la[i], Ob):
                    same_objects(obs, 'factory', '%s: loss %d' % (cons, i), L, la[i], lb[i], where(f),
                                 COMMON + ('smoothing_parameter', 'trials'))


def multinomial_factories(ctx, obs):
    c = find(ctx, 'regreg.smooth.mglm.mglm')
    f = c.method('multinomial')
    for base, lname in ((False, 'multinomial_loglike'), (True, 'multinomial_baseline_loglike')):
        lc = loss_class(ctx, lname)
        if f is None or lc is None:
            continue
        L = fresh(ctx)
        cons = 'mglm.multinomial (baseline=%s)' % base

        def vec(n):
            return L.vec('v_' + n)

        def opts():
            return dict(offset=vec('offset'), quadratic=L.quad(*parts('1')), initial=vec('initial'), case_weights=vec('case_weights'))
        a = L.clsmeth(c, 'multinomial', vec('X'), vec('counts'), coef=C(sym('s_coef++')), saturated_offset=vec('off2'), baseline=base, **opts())
        sh = L.get(vec('counts'), 'shape')
        if base:
            sh = L.I.tup(L.st, [L.I.getitem(sh, C(ZERO), L.st, None), C(T.sub(L.term(L.I.getitem(sh, C(ONE), L.st, None)), ONE))], 'tuple')
        loss = L.new(lc, sh, vec('counts'), coef=C(sym('s_coef++')), offset=vec('off2'))
        b = L.new(c, vec('X'), loss, **opts()) if isinstance(loss, Ob) else None
        judge_objects(obs, cons, L, a, b, f)
    f = c.method('stacked')
    L = fresh(ctx)

    def vec(n):
        return L.vec('v_' + n)

    def opts():
        return dict(offset=vec('offset'), quadratic=L.quad(*parts('1')), initial=vec('initial'), case_weights=vec('case_weights'))
    if f is not None:
        a = L.clsmeth(c, 'stacked', vec('X'), losses_list(L, ctx, True), coef=C(sym('s_coef++')), saturated_offset=vec('off2'), **opts())
        loss = L.new(find(ctx, 'regreg.smooth.mglm.stacked_common_loglike'), losses_list(L, ctx, True), coef=C(sym('s_coef++')), offset=vec('off2'))
        b = L.new(c, vec('X'), loss, **opts()) if isinstance(loss, Ob) else None
        judge_objects(obs, 'mglm.stacked', L, a, b, f)


def judge_objects(obs, cons, L, a, b, f):
    if a is BOTTOM and isinstance(b, Ob):
        obs.add('factory', cons, BAD, 'raises on every path', where(f))
        return
    if not isinstance(a, Ob) or not isinstance(b, Ob):
        obs.add('factory', cons, UND, 'not built', where(f))
        return
    same_objects(obs, 'factory', cons, L, a, b, where(f), COMMON)
    sa, sb = L.get(a, 'saturated_loss'), L.get(b, 'saturated_loss')
    if isinstance(sa, Ob) and isinstance(sb, Ob):
        same_objects(obs, 'factory', cons + ': saturated loss', L, sa, sb, where(f), COMMON)


def exclusive(ctx, obs):
    """an atom takes exactly one of lagrange and bound"""
    for c in classes(ctx):
        f = c.method('__init__')
        if modes_of(c) != ['lagrange', 'bound'] or not c.module.name.startswith('regreg.atoms'):
            continue
        for kind, over in (('neither', {'lagrange': None, 'bound': None}),
                           ('both', {'lagrange': sym('s_lagrange++'), 'bound': sym('s_bound++')})):
            L = fresh(ctx)
            o = build(ctx, L, c, 'none', **over)
            obs.add('exclusive', '%s (%s)' % (short(c), kind), OK if o is BOTTOM else BAD if isinstance(o, Ob) else UND,
                    '' if o is BOTTOM else 'accepted', where(f))


def saturated_constants(ctx, obs):
    """the constant a likelihood adds to its quadratic makes the best fit of each observation have value 0"""
    log = lambda t: T.fn('log', t)
    s, n, c = sym('v_successes'), sym('v_trials'), sym('v_counts')
    p = T.div(s, n)
    tot = mk('sumax', mk('axis', ONE), c)
    row = mk('getitem', tot, mk('tuple', (mk('slice', T.NONE, T.NONE, T.NONE), T.NONE)))
    binary = (T.add(T.mul(s, log(p)), T.mul(T.sub(n, s), log(T.sub(ONE, p)))), [log(p), log(T.sub(ONE, p))])
    multi = (T.mul(c, log(T.div(c, row))), [log(T.div(c, row))])
    want = {'logistic_loglike': binary, 'probit_loglike': binary, 'cloglog_loglike': binary,
            'poisson_loglike': (T.sub(T.mul(c, log(c)), c), [log(c)]),
            'multinomial_loglike': multi, 'multinomial_baseline_loglike': multi}
    for name in sorted(want):
        cl = loss_class(ctx, name)
        if cl is None:
            continue
        f = cl.method('__init__')
        L = fresh(ctx)
        o = build(ctx, L, cl, 'plain', case_weights=None, quadratic=None)
        if not isinstance(o, Ob) or quadratic(L, o) is None:
            obs.add('deviance', name, UND, 'not built', where(f))
            continue
        got = settled(L, L.get(quadratic(L, o), 'constant_term'))
        if got is None:
            obs.add('deviance', name, UND, '', where(f))
            continue
        per, logs = want[name]

        def edge(v, only=None):
            def g(u):
                if u.op in ('eq0', 'gt0') and not T.mentions(u.args[0], lambda z: z in logs):
                    here = only is None or u.args[0] in (only, T.neg(only))
                    z = v if here else ZERO
                    return z if u.op == 'eq0' else T.sub(ONE, z)
                if u.op == 'bool' and u.args[0].op == 'fn' and u.args[0].args[0] in ('isnan', 'isfinite', 'isinf'):
                    return T.sub(ONE, v) if u.args[0].args[0] == 'isfinite' else v
                return None
            return T.subst_fn(got, g)
        judge(obs, 'deviance', name + ': inside', edge(ZERO), T.mul(sym('s_coef++'), T.red('sum', per)), where(f), 'the constant ')
        for l in logs:
            arg = l.args[1]
            left = edge(ONE, None if 'multi' in name else arg)
            ok = not T.contains(left, l)
            gated = T.mentions(left, lambda u: u.op in ('bool', 'gt0', 'eq0', 'ite', 'setitem'))
            obs.add('deviance', '%s: no %s where that is infinite' % (name, T.show(l, 3)), OK if ok else UND if gated else BAD,
                    '' if ok else 'at the edge the constant is %s' % T.show(left, 6), where(f))


def run_o01(ctx, obs):
    constructors(ctx, obs)
    exclusive(ctx, obs)
    glm_factories(ctx, obs)
    stacked_factories(ctx, obs)
    multinomial_factories(ctx, obs)


PROPS = {
    'O01': dict(run=run_o01, floor=1200, rule='the attribute an option stands for holds the symbol given; options left out give the documented default; a factory '
                'result equals, attribute by attribute and as evaluated, the object constructed explicitly', assumptions=['offsets are nonzero']),
    'D02': dict(run=saturated_constants, floor=8, rule='the constant term added to the quadratic is coef times the log-likelihood of the saturated fit, '
                'and holds no logarithm where its argument vanishes', assumptions=[]),
}
