"""Smooth losses: modes, gradients, scaling, offsets, case weights, Hessians,
documented formulas.  All decided on value graphs built from the source."""
import ast
from fractions import Fraction
from .. import terms as T, diff
from ..terms import mk, num, sym, ZERO, ONE
from ..check import OK, BAD, UND, interior
from ..absint import Giveup, Tup, A, C

X = sym('x')
CW = sym('case_weights')
SELF = sym('self')
COEF = mk('attr', SELF, 'coef')


def attr(n, base=SELF):
    return mk('attr', base, n)


OFF = [attr('_offset'), attr('offset')]
SYMMETRIC = ('Q_transform',)


def normal(t, guards=False):
    """rule-level normalisation: clip guards decided, documented-symmetric
    operators, in-place filled buffers"""
    if t is None:
        return None
    if not guards:
        t = interior(t)

    def f(a):
        if a.op == 'Lt' and a.args[0].op == 'attr' and a.args[0].args[1] in SYMMETRIC:
            return T.linop('L', a.args[0], T.subst_fn(a.args[1], f))
        if a.op == 'loopset':
            key, base, it, v = a.args
            if base.op == 'attr' or base is ZERO:
                # a buffer filled slice by slice (the slices partition it)
                return T.loopsum(key, T.linop('scatter', it, T.subst_fn(v, f)))
        if a.op == 'setitem' and a.args[0] is ZERO:
            return T.linop('scatter', a.args[1], T.subst_fn(a.args[2], f))
        return None
    return T.subst_fn(t, f)


def losses(ctx):
    """concrete classes with a smooth_objective of their own (or inherited), that
    are losses: subclasses of smooth_atom / composite"""
    out = []
    for c in ctx.model.all_classes():
        f = c.method('smooth_objective')
        if f is None:
            continue
        if not any(b.name in ('composite', 'smooth_atom') for b in c.mro()):
            continue
        out.append((c, f))
    return out


def own_losses(ctx):
    return [(c, f) for c, f in losses(ctx) if 'smooth_objective' in c.methods]


def xname(f):
    return f.params()[1]


def base_params(f, cw=None, mode='func'):
    n = f.params()
    p = {n[1]: X}
    if 'check_feasibility' in n:
        p['check_feasibility'] = False
    if 'mode' in n:
        p['mode'] = mode
    if 'case_weights' in n:
        p['case_weights'] = cw
    return p


CONFIGS = {
    # name: (extra nonnull, extra none)
    'plain': (['offset', '_offset', 'Q', 'case_weights'], []),
    'noQ': (['offset', '_offset', 'case_weights'], ['Q']),
    'bare': ([], ['offset', '_offset', 'case_weights', 'Q']),
}


def configs_for(c):
    from ..absint import assigned_attrs
    out = ['plain', 'bare']
    if 'Q' in assigned_attrs(c):
        out.append('noQ')
    return out


def evaluate(ctx, c, f, mode, cfg, cw=CW, method='smooth_objective', extra=None, none=(), nonnull=(), guards=False):
    nn, no = CONFIGS[cfg]
    p = base_params(f, cw if cfg != 'bare' else None, mode)
    if extra:
        p.update(extra)
    r2 = ()
    g = c.method('smooth_objective')
    if any(two_dim(h) for h in ctx.model.reach(c, g)):
        r2 = ('x', '_offset', 'offset', 'counts', 'firstcounts')
    r = ctx.run(c, method, p, nonnull=list(nn) + list(nonnull), none=list(no) + list(none), interior=not guards, rank2=r2)
    return r


def two_dim(f):
    """the natural parameter is a matrix: the objective reduces over axis 1"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.keyword) and n.arg == 'axis' and isinstance(n.value, ast.Constant) and n.value.value == 1:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and \
                any(isinstance(e, ast.Constant) and e.value is None for e in n.slice.elts):
            return True
    return False


def term_of(r, guards=False):
    if r is None or r.value is None:
        return None
    try:
        return normal(r.term, guards)
    except (Giveup, RecursionError):
        return None


def same(a, b, wide=False):
    return T.separated(a, b, wide)


def where(f):
    return f.where


# ------------------------------------------------------------------ S01
UNKNOWN_MODE = 'no-such-mode'


def modes(ctx, obs):
    for c, f in own_losses(ctx):
        if c.name in ('composite',) or 'mode' not in f.params():
            continue
        if _abstract(f):
            continue
        cons = f.qual
        # with overflow guards kept as they are: the modes must agree on extreme arguments too
        for cfg in configs_for(c):
            rf = evaluate(ctx, c, f, 'func', cfg, guards=True)
            rg = evaluate(ctx, c, f, 'grad', cfg, guards=True)
            rb = evaluate(ctx, c, f, 'both', cfg, guards=True)
            tf, tg, tb = term_of(rf, True), term_of(rg, True), term_of(rb, True)
            if tf is None or tg is None or tb is None:
                dead = [m for m, r in (('func', rf), ('grad', rg), ('both', rb)) if r is not None and r.value is None]
                if dead and any(t is not None for t in (tf, tg, tb)):
                    obs.add('modes', cons, BAD, 'mode %r never returns in configuration %s' % (dead[0], cfg), where(f))
                else:
                    obs.add('modes', cons, UND, 'no value (%s)' % cfg, where(f))
                continue
            for m, t in (('func', tf), ('grad', tg)):
                if t is T.NONE:
                    obs.add('modes', cons, BAD, 'mode %r returns None (%s)' % (m, cfg), where(f))
            if tb.op == 'mcall' or tb.op == 'FG':
                obs.add('modes', cons, UND, 'opaque', where(f))
                continue
            if tb.op != 'tuple' or len(tb.args[0]) != 2:
                if tb is T.NONE or T.is_arith(tb) and tb.op not in ('mcall', 'call', 'loopvar', 'looplast', 'ite'):
                    obs.add('modes', cons, BAD, "mode 'both' does not return a (value, gradient) pair (%s)" % cfg, where(f))
                else:
                    obs.add('modes', cons, UND, "'both' is not a syntactic pair", where(f))
                continue
            v, g = tb.args[0]
            for what, one, two in (('value', tf, v), ('gradient', tg, g)):
                s = same(one, two, wide=True)
                if s == 'same':
                    obs.add('modes', cons, OK, what + ' ' + cfg, where(f))
                elif s == 'diff':
                    obs.add('modes', cons, BAD, "%s of mode 'both' differs from the single mode (%s): %s  vs  %s" %
                            (what, cfg, T.show(two, 6), T.show(one, 6)), where(f))
                else:
                    obs.add('modes', cons, UND, what + ' ' + s, where(f))
        # unknown mode must be rejected on every path
        ru = evaluate(ctx, c, f, UNKNOWN_MODE, 'plain')
        if ru is None:
            obs.add('unknown-mode', cons, UND, '', where(f))
        elif ru.value is None:
            obs.add('unknown-mode', cons, OK, '', where(f))
        else:
            t = ru.term
            # delegation to another objective's mode check
            if T.mentions(t, lambda s: s.op in ('FG',) or (s.op == 'mcall')):
                deleg = T.mentions(t, lambda s: s.op == 'FG' and s.args[2] is T.const(UNKNOWN_MODE)) or \
                    T.mentions(t, lambda s: s.op == 'mcall')
                obs.add('unknown-mode', cons, OK if deleg else UND, 'delegated', where(f))
            else:
                obs.add('unknown-mode', cons, BAD, 'an unrecognised mode is accepted and returns %s' % T.show(t, 3), where(f))


def _abstract(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


# ------------------------------------------------------------------ S02
def scalar_factors(tf, tg):
    """a loss value is a number, so what multiplies its terms is a number too"""
    new = {}
    for m, k in T.poly_items(tf):
        for a, e in m:
            if a.op in ('attr', 'sym') and not T.is_scalar(a) and a is not X and a not in new:
                new[a] = sym('s_scalar%d' % len(new))
    if not new:
        return tf, tg
    return tuple(T.subst_fn(t, lambda u: new.get(u)) for t in (tf, tg))


def gradients(ctx, obs):
    for c, f in own_losses(ctx):
        if _abstract(f) or 'mode' not in f.params():
            continue
        cons = f.qual
        for cfg in configs_for(c):
            tf = term_of(evaluate(ctx, c, f, 'func', cfg))
            tg = term_of(evaluate(ctx, c, f, 'grad', cfg))
            if tf is None or tg is None or not T.is_arith(tf) or not T.is_arith(tg):
                obs.add('gradient', cons, UND, 'no value (%s)' % cfg, where(f))
                continue
            tf, tg = scalar_factors(tf, tg)
            try:
                d = normal(diff.grad(tf, X))
            except (diff.Unsupported, RecursionError) as e:
                obs.add('gradient', cons, UND, 'cannot differentiate through %s (%s)' % (e, cfg), where(f))
                continue
            s = same(d, tg)
            if s == 'same':
                obs.add('gradient', cons, OK, cfg, where(f))
            elif s == 'diff':
                obs.add('gradient', cons, BAD, 'returned gradient is not the derivative of the returned value (%s): '
                        'derivative %s  but code returns %s' % (cfg, T.show(d, 6), T.show(tg, 6)), where(f))
            else:
                obs.add('gradient', cons, UND, s, where(f))


# ------------------------------------------------------------------ scale / offset / weights
def outputs(ctx, c, f):
    """(method, output, Func, term evaluator(cfg, cw)) for value, gradient, Hessian"""
    yield 'value', f, lambda cfg, cw=CW, **k: term_of(evaluate(ctx, c, f, 'func', cfg, cw, **k))
    yield 'gradient', f, lambda cfg, cw=CW, **k: term_of(evaluate(ctx, c, f, 'grad', cfg, cw, **k))
    for m in ('hessian', 'hessian_mult'):
        h = c.method(m)
        if h is not None and not _abstract(h):
            ex = {}
            if m == 'hessian_mult':
                ex = {h.params()[2]: sym('v_right')}
            yield m, h, lambda cfg, cw=CW, h=h, m=m, ex=ex, **k: term_of(
                evaluate(ctx, c, h, None, cfg, cw, method=m, extra=ex, **k))


def scaling_losses(ctx):
    """losses constructed with a `coef` of their own"""
    for c, f in own_losses(ctx):
        if _abstract(f):
            continue
        init = c.method('__init__')
        yield c, f, init


def degree_in(t, a):
    """degree of homogeneity of t in atom a, or None"""
    degs = set()
    if t is ZERO:
        return 'zero'
    for m, c in T.poly_items(t):
        k = Fraction(0)
        for b, e in m:
            if b is a:
                k += e
            elif T.contains(b, a):
                return None
        degs.add(k)
    return degs.pop() if len(degs) == 1 else None


def scales(ctx, obs):
    for c, f, init in scaling_losses(ctx):
        if init is None or 'coef' not in init.params():
            continue
        for what, g, ev in outputs(ctx, c, f):
            cons = g.qual + ('' if what in ('hessian', 'hessian_mult') else ':' + what)
            t = ev('plain')
            if t is None or not T.is_arith(t):
                obs.add('coef', cons, UND, 'no value', where(g))
                continue
            t2 = T.substitute(t, COEF, T.mul(num(2), COEF))
            s = same(T.scale(t, Fraction(2)), t2)
            if s == 'same' and t is not ZERO:
                obs.add('coef', cons, OK, '', where(g))
            elif t is ZERO:
                obs.add('coef', cons, OK, 'zero', where(g))
            elif not T.contains(t, COEF):
                inner = T.mentions(t, lambda u: u.op == 'attr' and u.args[1] == 'coef' and u is not COEF)
                deleg = T.mentions(t, lambda u: u.op in ('F', 'G', 'mcall', 'FG', 'call'))
                if deleg and not _coef_forwarded_nowhere(c, init):
                    obs.add('coef', cons, UND, 'delegates to another objective', where(g))
                else:
                    obs.add('coef', cons, BAD, 'the coefficient `coef` accepted by the constructor does not scale the %s' % what, where(g))
            elif s == 'diff':
                obs.add('coef', cons, BAD, 'the %s is not scaled exactly once by `coef`: %s' % (what, T.show(t, 6)), where(g))
            else:
                obs.add('coef', cons, UND, s, where(g))


def _coef_forwarded_nowhere(c, init):
    """coef is passed to nothing but the base-class constructor / stored"""
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call):
            is_base = isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'
            for k in list(n.keywords):
                if isinstance(k.value, ast.Name) and k.value.id == 'coef' and not is_base:
                    return False
            for a in n.args:
                if isinstance(a, ast.Name) and a.id == 'coef' and not is_base:
                    return False
    return True


SHIFT = sym('v_shift')


def offsets(ctx, obs):
    for c, f in own_losses(ctx):
        if _abstract(f):
            continue
        init = c.method('__init__')
        if init is None or 'offset' not in init.params():
            continue
        for what, g, ev in outputs(ctx, c, f):
            cons = g.qual + ('' if what in ('hessian', 'hessian_mult') else ':' + what)
            t = ev('plain')
            if t is None or not T.is_arith(t):
                obs.add('offset', cons, UND, 'no value', where(g))
                continue
            o = attr('_offset')

            def sh(a):
                if a is X:
                    return T.add(X, SHIFT)
                if a is o:
                    return T.add(o, SHIFT)
                return None
            t2 = T.subst_fn(t, sh)
            if not T.contains(t, X):
                obs.add('offset', cons, OK, 'independent of the argument', where(g))
                continue
            if not T.contains(t, o):
                if T.mentions(t, lambda u: u.op in ('mcall',)) or T.mentions(
                        t, lambda u: u.op in ('F', 'G') and 'offset' in _init_forward(c, init)):
                    obs.add('offset', cons, UND, 'delegated', where(g))
                else:
                    obs.add('offset', cons, BAD, 'the offset accepted by the constructor is not applied to the argument of the %s' % what, where(g))
                continue
            s = same(t, t2)
            if s == 'same':
                obs.add('offset', cons, OK, '', where(g))
            elif s == 'diff':
                obs.add('offset', cons, BAD, 'the %s does not depend on argument and offset through (argument - offset) only' % what, where(g))
            else:
                obs.add('offset', cons, UND, s, where(g))


def _init_forward(c, init):
    """constructor parameters handed to calls other than base __init__"""
    out = set()
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'):
            for k in list(n.keywords):
                if isinstance(k.value, ast.Name):
                    out.add(k.value.id)
    return out


W = attr('case_weights')
DD = sym('v_pos+')


def weights(ctx, obs):
    for c, f in own_losses(ctx):
        if _abstract(f):
            continue
        init = c.method('__init__')
        if init is None or 'case_weights' not in init.params():
            continue
        for what, g, ev in outputs(ctx, c, f):
            cons = g.qual + ('' if what in ('hessian', 'hessian_mult') else ':' + what)
            has_arg = 'case_weights' in g.params()
            t = ev('plain')
            if t is None or not T.is_arith(t):
                obs.add('weights', cons, UND, 'no value', where(g))
                continue
            if t is ZERO:
                obs.add('weights', cons, OK, 'zero', where(g))
                continue
            bad = []
            if not T.contains(t, W):
                bad.append('the case weights given to the constructor are not used by the %s' % what)
            if has_arg and not T.contains(t, CW):
                bad.append('the case weights given to the call are not used by the %s' % what)
            if bad:
                for b in bad:
                    obs.add('weights', cons, BAD, b, where(g))
                continue
            ok = True
            if has_arg:
                # only the product matters
                def sw(a):
                    if a is W:
                        return T.div(W, DD)
                    if a is CW:
                        return T.mul(CW, DD)
                    return None
                s = same(t, T.subst_fn(t, sw))
                if s == 'diff':
                    obs.add('weights', cons, BAD, 'weights of the object and of the call are not combined as a product in the %s' % what, where(g))
                    ok = False
                elif s != 'same':
                    obs.add('weights', cons, UND, s, where(g))
                    ok = False
                # omitting the call's weights means weight one
                t1 = ev('plain', cw=None)
                if t1 is not None and T.is_arith(t1):
                    s = same(t1, T.substitute(t, CW, ONE))
                    if s == 'diff':
                        obs.add('weights', cons, BAD, 'omitting the case weights of the call is not the same as unit weights in the %s' % what, where(g))
                        ok = False
                # object without weights
                from ..absint import assigned_attrs
                t2 = ev('plain', none=['case_weights']) if 'case_weights' not in CONFIGS['plain'][0] else None
            # linear
            if ok and not T.mentions(t, lambda u: u.op in ('F', 'G', 'call', 'kernel', 'mcall')):
                s = same(T.scale(t, Fraction(2)), T.substitute(t, W, T.mul(num(2), W)))
                if s == 'diff':
                    obs.add('weights', cons, BAD, 'the %s is not linear in the case weights' % what, where(g))
                    ok = False
            if ok:
                obs.add('weights', cons, OK, '', where(g))


# ------------------------------------------------------------------ S06
def spec_hessian(c):
    """documented expected-information Hessians"""
    e = eta()
    w = T.mul(COEF, CW, W, attr('trials'))
    if c.name == 'probit_loglike':
        P, p = mk('fn', 'Phi', e), mk('fn', 'phi', e)
        return T.div(T.mul(w, p, p), T.mul(P, T.sub(ONE, P)))
    if c.name == 'cloglog_loglike':
        Q = T.exp(e)
        P = T.sub(ONE, T.exp(T.neg(Q)))
        p = T.exp(T.sub(e, Q))
        return T.div(T.mul(w, p, p), T.mul(P, T.exp(T.neg(Q))))
    return None


DESIGN = sym('v_design')


def design(t):
    """the attributes that hold the design matrix of a glm"""
    def f(a):
        if a is attr('_transform') or a is mk('attr', attr('affine_atom'), 'affine_transform'):
            return DESIGN
        return None
    return T.subst_fn(t, f)


def hessians(ctx, obs):
    for c, f in own_losses(ctx):
        h = c.method('hessian')
        if h is None or _abstract(h):
            continue
        for cfg in ('plain', 'bare'):
            g = term_of(evaluate(ctx, c, f, 'grad', cfg))
            rt = evaluate(ctx, c, h, None, cfg, method='hessian')
            t = term_of(rt)
            if g is None or t is None or not T.is_arith(t) or not T.is_arith(g):
                obs.add('hessian', h.qual, UND, 'no value', where(h))
                continue
            if T.mentions(g, lambda u: u.op == 'G'):
                delegated_hessian(obs, c, f, h, g, t, rt, cfg)
                continue
            sp = spec_hessian(c)
            if sp is not None:
                if cfg != 'plain':
                    continue
                s = same(normal(sp), t)
                obs.add('hessian', h.qual, {'same': OK, 'diff': BAD}.get(s, UND),
                        '' if s == 'same' else 'hessian is not the documented expected information: %s vs %s' % (T.show(t, 6), T.show(sp, 6)), where(h))
                continue
            d = ediff(g, X)
            if d is None:
                obs.add('hessian', h.qual, UND, 'gradient is not elementwise', where(h))
                continue
            s = same(normal(d), t)
            obs.add('hessian', h.qual, {'same': OK, 'diff': BAD}.get(s, UND),
                    '' if s == 'same' else 'hessian is not the derivative of the gradient (%s): %s vs %s' % (cfg, T.show(t, 6), T.show(d, 6)), where(h))


def unphi(t):
    if t is None or t is T.NONE:
        return None
    return T.subst_fn(t, lambda a: a.args[2] if a.op == 'phi' and a.args[1] == 'attr' else None)


def delegated_hessian(obs, c, f, h, g, t, rt, cfg):
    """a composed loss: the Hessian of the outer loss must be evaluated at the same
    point, with the same weights, as its gradient, and scaled the same way"""
    gs = []
    T.mentions(g, lambda u: gs.append(u) if u.op == 'G' else None)
    gs = [u for u in gs]
    if len(set(gs)) != 1:
        obs.add('hessian', h.qual, UND, 'several gradients', where(h))
        return
    G = gs[0]
    kwG = dict(G.args[2]) if len(G.args) > 2 and isinstance(G.args[2], tuple) else {}
    calls = [e for e in rt.events if e['kind'] == 'mcall' and e['name'] in ('hessian', 'hessian_mult')
             and e['recv'] is G.args[0]]
    if not calls:
        obs.add('hessian', h.qual, UND, 'no delegated call', where(h))
        return
    for e in calls:
        if not e['args']:
            obs.add('hessian', h.qual, UND, 'no argument', where(h))
            continue
        s = same(design(normal(e['args'][0])), design(normal(G.args[1])))
        if s == 'diff':
            obs.add('hessian', h.qual, BAD, '%s of the saturated loss is evaluated at %s, its gradient at %s (%s)' % (
                e['name'], T.show(e['args'][0], 6), T.show(G.args[1], 6), cfg), where(h))
            continue
        if s != 'same':
            obs.add('hessian', h.qual, UND, s, where(h))
            continue
        if cfg == 'plain' and unphi(e['kw'].get('case_weights')) is not unphi(kwG.get('case_weights')) and len(e['args']) < 2 + (e['name'] != 'hessian'):
            obs.add('hessian', h.qual, BAD, '%s of the saturated loss is given case weights %s, its gradient %s' % (
                e['name'], T.show(e['kw'].get('case_weights') or T.NONE, 4), T.show(kwG.get('case_weights') or T.NONE, 4)), where(h))
            continue
        obs.add('hessian', h.qual, OK, cfg, where(h))
    cg, ch = T.contains(g, COEF), T.contains(t, COEF)
    if cg and not ch:
        obs.add('hessian', h.qual, BAD, 'the gradient is scaled by coef, the Hessian is not', where(h))


def ediff(t, x):
    """elementwise derivative of an elementwise function of the vector x"""
    if t is x:
        return ONE
    if not T.contains(t, x):
        return ZERO
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            for i, (a, e) in enumerate(m):
                if not T.contains(a, x):
                    continue
                if a.op in T.IDEMP:
                    continue
                da = ediff(a, x)
                if da is None:
                    return None
                r = T.mul(num(c * e), da, T.power(a, e - 1) if e != 1 else ONE)
                for j, (b, k) in enumerate(m):
                    if j != i:
                        r = T.mul(r, T.power(b, k))
                out = T.add(out, r)
        return out
    if t.op in ('gt0', 'eq0'):
        return ZERO
    if t.op == 'fn' and t.args[0] in ('exp', 'log', 'abs', 'Phi', 'phi'):
        # reuse reverse rule with a unit adjoint
        y = sym('v_ediff')
        du = ediff(t.args[1], x)
        if du is None:
            return None
        try:
            d = diff.grad(T.remake('fn', [t.args[0], y]) if t.args[0] != 'abs' else mk('fn', 'abs', y), y)
        except diff.Unsupported:
            return None
        return T.mul(T.substitute(d, y, t.args[1]), du)
    return None


# ------------------------------------------------------------------ S07
def eta():
    return T.sub(X, attr('_offset'))


def spec_value(c):
    """documented value of each loss, up to a constant (written from the class
    docstrings, not from the code)"""
    e = eta()
    w = T.mul(CW, W)
    S = lambda t: T.mul(COEF, T.red('sum', T.mul(w, t)))
    n = c.name
    y = attr('response')
    k = attr('successes')
    m = attr('trials')
    half = Fraction(1, 2)
    eps = attr('smoothing_parameter')
    if n == 'gaussian_loglike':
        return S(T.scale(T.power(T.sub(e, y), 2), half))
    if n == 'logistic_loglike':
        return S(T.sub(T.mul(m, T.log(T.add(ONE, T.exp(e)))), T.mul(k, e)))
    if n == 'probit_loglike':
        P = mk('fn', 'Phi', e)
        return T.neg(S(T.add(T.mul(k, T.log(P)), T.mul(T.sub(m, k), T.log(T.sub(ONE, P))))))
    if n == 'cloglog_loglike':
        Q = T.exp(e)      # P(y=0) = exp(-exp(eta))
        P = T.sub(ONE, T.exp(T.neg(Q)))
        return T.neg(S(T.sub(T.mul(k, T.log(P)), T.mul(T.sub(m, k), Q))))
    if n == 'poisson_loglike':
        return S(T.sub(T.exp(e), T.mul(attr('counts'), e)))
    if n == 'huber_loss':
        # Huber: r^2/(2 d)*... : smooth(|r|) with Moreau smoothing: min(r^2/(2 eps), |r| - eps/2)
        r = T.sub(e, y)
        a = T.absv(r)
        inside = T.gt0(T.sub(eps, a))
        return S(T.where(inside, T.div(T.scale(T.power(r, 2), half), eps), T.sub(a, T.scale(eps, half))))
    if n == 'huber_svm':
        z = T.mul(T.sub(T.scale(k, Fraction(2)), ONE), e)
        u = T.sub(ONE, z)
        hinge = T.maximum(u, ZERO)
        lin = T.gt0(T.sub(u, eps))
        return S(T.where(lin, T.sub(u, T.scale(eps, half)), T.div(T.scale(T.power(hinge, 2), half), eps)))
    if n == 'quadratic_loss':
        return T.mul(COEF, num(half), T.red('sum', T.mul(e, T.linop('L', attr('Q_transform'), e))))
    return None


def formulas(ctx, obs):
    for c, f in own_losses(ctx):
        sp = spec_value(c)
        if sp is None:
            continue
        t = term_of(evaluate(ctx, c, f, 'func', 'plain'))
        if t is None or not T.is_arith(t):
            obs.add('formula', f.qual, UND, 'no value', where(f))
            continue
        # up to a constant: compare differences value(x) - value(0)... by derivative in x
        s = same(normal(sp), t)
        if s == 'diff':
            # allow terms that do not depend on x
            x0 = T.substitute(t, X, ZERO)
            s0 = T.substitute(normal(sp), X, ZERO)
            s = same(T.sub(normal(sp), s0), T.sub(t, x0))
        obs.add('formula', f.qual, {'same': OK, 'diff': BAD}.get(s, UND),
                '' if s == 'same' else 'value is not the documented formula: code %s  documented %s' % (T.show(t, 6), T.show(sp, 6)), where(f))


PROPS = {
    'S01': dict(run=modes, floor=70, rule='For every smooth_objective: the "both" result is the pair of the "func" and "grad" results as terms, and any other mode reaches a raise on every path.'),
    'S02': dict(run=gradients, floor=24, rule='The symbolic derivative of the func term with respect to the argument equals the grad term (overflow guards taken as false).'),
    'S03': dict(run=scales, floor=20, rule='value, gradient, hessian and hessian_mult terms are homogeneous of degree one in coef.'),
    'S04': dict(run=offsets, floor=20, rule='substituting x := x + a in the term with offset a gives the term of the loss without offset.'),
    'S05': dict(run=weights, floor=18, rule='value, gradient and Hessian terms are linear in construction-time and call-time weights, equal their product, and no weights is all ones.'),
    'S06': dict(run=hessians, floor=8, rule='the symbolic derivative of the gradient term (or the documented information) equals the hessian term; glm.hessian delegates at its own linear predictor.'),
    'S07': dict(run=formulas, floor=5, rule='the value term equals the documented formula up to terms free of the argument.'),
}
