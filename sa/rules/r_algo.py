"""Solvers: proximal gradient steps, backtracking, accepted iterates, and the options of solve()."""
import ast
from .. import terms as T, cells, diff
from ..terms import mk, num, sym, ZERO, ONE, add, sub, mul, div, neg, power
from ..check import OK, BAD, UND
from ..absint import Giveup, Ob, C, Tup, Bottom
from ..lab import Lab, BOTTOM
from .r_quad import val, generic, HALF
from .r_compose import (NN, find, where, run, quad_of, judge, verdict, norm, subs, subst, X, F as F3, A1, A2, P1, P2, Q1, Q2, parts,
                        transform, MAPS, D, Fx, Gx, CF)

Z, W = sym('v_z'), sym('v_w')


def lab(ctx, **kw):
    return Lab(ctx, nonnull=NN + ['o_smooth', 'o_proxatom', 'o_conjatom', 'o_dualatom', 'o_pc', 'v_init', 'v_dual', 'v_epsilon'], **kw)


ALG = 'regreg.algorithms.FISTA'
COMP = 'regreg.problems.composite.composite'


def comp_of(L, ctx, **kw):
    o = L.blank(find(ctx, COMP), 'o_comp', **kw)
    L.I.no_inline |= {'smooth_objective', 'nonsmooth_objective', 'proximal_step', 'proximal'}
    return o


def strip(t):
    """the composite as an opaque object, whatever attributes were set on it"""
    c = sym('o_comp')

    def f(u):
        if u.op == 'obj' and u.args[0] == 'composite':
            return c
        if u.op == 'isnone' and u.args[0].op in ('elem', 'attr', 'phi', 'sym'):
            return ZERO
        if u.op in ('F', 'G') and len(u.args) == 3:
            return strip(mk(u.op, u.args[0], u.args[1]))
        return None
    return T.subst_fn(t, f)


def qgrad(q):
    """gradient at Z of a quadratic whose coefficient is one number"""
    if q is None:
        return None
    k = sym('s_curv++')
    g = diff.grad(val((k if q[0] is not None else None,) + tuple(q[1:]), Z), Z)
    return g if q[0] is None else subst(g, {k: q[0]})


def is_step(t):
    return t is not None and t.op == 'mcall' and t.args[0] in ('proximal_step', 'proximal')


def step_value(t):
    """the proximal step a value consists of, up to the way its prox options are passed"""
    if t.op == 'ite' and is_step(t.args[1]) and is_step(t.args[2]):
        return t.args[1] if t.args[1].args[2][:1] == t.args[2].args[2][:1] else None
    return t if is_step(t) else None


def step_grad(L, t):
    """gradient at Z of the quadratic given to a proximal step"""
    q = quad_of(L, t.args[2][0]) if t.args[2] else None
    if q is None:
        kw = dict(t.args[3])
        q = quad_of(L, kw['quadratic']) if 'quadratic' in kw else quad_of(L, kw['proxq']) if 'proxq' in kw else None
    return qgrad(q)


def the_point(t):
    """the point the gradient in t is taken at"""
    g = [u for u in subs(t) if u.op == 'G']
    g = [u for u in g if u.args[0] is sym('o_comp') or u.args[0].op == 'sym' or u.args[0].op == 'obj']
    return g[0].args[1] if len(g) == 1 else None


def steps_of(L):
    return [e for e in L.events if e['kind'] == 'mcall' and e['name'] in ('proximal_step', 'proximal')]


def ev_quad(L, e):
    a = e['args'][0] if e['args'] else e['kw'].get('quadratic', e['kw'].get('proxq'))
    q = None if a is None else quad_of(L, a)
    return None if q is None else strip(qgrad(q))


def backtracking(ctx, obs):
    cls = find(ctx, ALG)
    w = where(cls, 'backtrack')
    S, AL = sym('s_step++'), sym('s_alpha++')
    for pc in ({}, {'tol': 1}):
        L = lab(ctx)
        comp = comp_of(L, ctx)
        o = L.blank(cls, 'o_fista', composite=comp, working_coefs=L.vec(W), step=C(S), prox_control=pc, attempt_decrease=False,
                    alpha=C(AL), debug=False)
        r = run(L, L.call(o, 'backtrack', C(num(1))))
        cons = 'FISTA.backtrack'
        if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
            obs.add('backtrack', cons, BAD if r is BOTTOM else UND, '' if not isinstance(r, T.Term) else T.show(r, 4), w)
            continue
        p, f = r.args[0]
        while p.op in ('looplast', 'last') and len(p.args) > 1:
            p = p.args[1]
        while f.op in ('looplast', 'last') and len(f.args) > 1:
            f = f.args[1]
        p, f = strip(p), strip(f)
        obs.add('backtrack', cons, OK if is_step(p) else UND, 'proposed point %s' % T.show(p, 5), w)
        if not is_step(p):
            continue
        obs.add('backtrack', cons, OK if p.args[1] is sym('o_comp') else BAD, 'a step of %s' % T.show(p.args[1]), w)
        if pc:
            k = dict(p.args[3]).get('prox_control', p.args[2][1] if len(p.args[2]) > 1 else None)
            obs.add('backtrack', cons, OK if k is not None and k is not T.NONE else BAD, 'prox_control is dropped', w)
        judge(obs, 'backtrack', cons, f, Fx(sym('o_comp'), p), 'value of the smooth part at the proposed point', w)
        g = step_grad(L, p)
        gw = Gx(sym('o_comp'), W)
        s = [u for u in subs(g) if u.op == 'phi' and T.contains(u, S)] if g is not None else []
        if g is None or len(s) != 1:
            obs.add('backtrack', cons, UND if g is None or T.contains(g, S) else BAD, 'step of the proximal problem %s' % (T.show(g, 5) if g is not None else ''), w)
            continue
        s = s[0]
        judge(obs, 'backtrack', cons, strip(g), add(gw, div(sub(Z, W), s)), 'gradient of the model whose minimizer is proposed', w)
        # accepted when the model majorizes the smooth part at the proposed point
        brk = [e for e in L.events if e['kind'] == 'break']
        big = []
        suff = add(Fx(sym('o_comp'), W), T.red('sum', mul(sub(p, W), gw)), div(mul(HALF, T.red('sum', power(sub(p, W), 2))), s), neg(f))
        pd = {p: sym('v_prop')}
        for e in brk:
            c = ONE
            for z in e['path']:
                c = T.andb(c, strip(z))
            gp = Gx(sym('o_comp'), p)
            c = subst(norm(c), {gp: sym('v_gprop')})
            c = subst(c, pd)
            fp = subst(f, pd)
            atoms = [u for u in subs(c) if u.op == 'gt0']

            def pos(u):
                return u.args[0]
            rel = [u for u in atoms if not T.contains(u, gw)]
            own = [u for u in atoms if T.contains(u, gw) and T.contains(u, fp) and not T.contains(u, sym('v_gprop'))]
            if len(own) != 1:
                obs.add('backtrack', cons, UND, 'acceptance test %s' % [(T.contains(u,gw),T.contains(u,f),T.show(subst(u,{p:sym('v_prop')}), 4)) for u in atoms], w)
                continue
            e0 = own[0].args[0]
            # accepted means c true; with a finite value and a relative change above the noise level only `own` decides
            fin = {u: ONE for u in subs(c) if u.op == 'bool' and T.mentions(u, lambda z: z.op == 'isfinite' or z.op in ('fn', 'ext') and 'isfinite' in str(z.args[0])) and not any(z.op == 'gt0' for z in subs(u))}
            acc = []
            for flag in (ONE, ZERO):
                m = dict(fin)
                m[own[0]] = flag
                acc.append(T.subst_fn(c, lambda u: m.get(u)))
            pol = None
            res = []
            for rv in (ONE, ZERO):
                d = {u: rv for u in rel}
                res.append([T.subst_fn(a, lambda u: d.get(u)) for a in acc])
            for hi, lo in res:
                if hi in (ONE, T.TRUE) and lo in (ZERO, T.FALSE):
                    pol = 1
                elif hi in (ZERO, T.FALSE) and lo in (ONE, T.TRUE):
                    pol = -1
            if pol is None:
                obs.add('backtrack', cons, UND, 'acceptance test %s' % [T.show(z, 4) for z in res[0]], w)
                continue
            # gt0(e) accepted iff true (pol 1) or iff false (pol -1); compare with suff up to a positive factor
            e1 = e0 if pol == 1 else neg(e0)
            e1 = T.subst_fn(e1, lambda u: T.red('sum', mul(u.args[0], u.args[1])) if u.op == 'dot' else None)
            s1 = subst(strip(suff), pd)
            k = coefficient(e1, fp)
            if k is None:
                obs.add('backtrack', cons, UND, 'acceptance test %s' % T.show(e1, 5), w)
            else:
                judge(obs, 'backtrack', cons, e1, mul(neg(k), s1), 'sufficient decrease test', w)
                if T.isnum(k) and k.args[0] > 0:
                    obs.add('backtrack', cons, BAD, 'the sufficient decrease test is reversed', w)
            # close to the solution the curvature along the step decides instead
            alt = [u for u in atoms if T.contains(u, sym('v_gprop'))]
            if len(alt) == 1:
                got = None
                for rv in (ONE, ZERO):
                    d = {u: rv for u in rel}
                    d.update(fin)
                    hi, lo = [T.subst_fn(c, lambda u: dict(d, **{}).get(u, flag if u is alt[0] else None)) for flag in (ONE, ZERO)]
                    if hi in (ONE, T.TRUE) and lo in (ZERO, T.FALSE):
                        got = 1
                    elif hi in (ZERO, T.FALSE) and lo in (ONE, T.TRUE):
                        got = -1
                e1 = alt[0].args[0] if got == 1 else None if got is None else neg(alt[0].args[0])
                if e1 is not None:
                    e1 = T.subst_fn(e1, lambda u: T.red('sum', mul(u.args[0], u.args[1])) if u.op == 'dot' else None)
                    pw = sub(sym('v_prop'), W)
                    s2 = sub(div(mul(HALF, T.red('sum', power(pw, 2))), s), T.absv(T.red('sum', mul(pw, sub(gw, sym('v_gprop'))))))
                    if e1 is mul(num(2), s2) or e1 is s2:
                        s2 = e1
                    elif T.mentions(e1, lambda u: u.op == 'fn' and u.args[0] == 'abs'):
                        s2 = mul(num(2), s2)
                    judge(obs, 'backtrack', cons, e1, s2, 'curvature test', w)
                else:
                    obs.add('backtrack', cons, UND, 'curvature test', w)
        # the step shrinks when the test fails
        shr = [e for e in L.events if e['kind'] == 'setattr' and e['attr'] == 'step' and isinstance(e.get('value'), T.Term) and T.contains(e['value'], s)]
        if shr:
            for e in shr:
                judge(obs, 'backtrack', cons, strip(e['value']), div(s, AL), 'step after a rejected proposal', w)
        else:
            obs.add('backtrack', cons, UND, 'step after a rejected proposal', w)


def coefficient(t, x):
    """the number k with t = k x + (terms without x), None when there is none"""
    d = sub(subst(t, {x: ONE}), subst(t, {x: ZERO}))
    return d if T.isnum(d) and d.args[0] != 0 else None


def monotone(c, mono, k, m):
    """a condition when the objective changes considerably in direction k (after the first iterations)"""
    def f(u):
        if u is mono or u.op == 'bool' and u.args[0] is mono:
            return m
        if u.op == 'gt0' and u.args[0].op == 'poly':
            if T.mentions(u, lambda z: z.op == 'fn' and z.args[0] == 'abs'):
                return ONE if all(co > 0 for mm, co in u.args[0].args[0] if any(a.op == 'fn' for a, e in mm)) else ZERO
            ns = [co for mm, co in u.args[0].args[0] for a, e in mm if a.op == 'N' and e == 1 and len(mm) == 1]
            if len(ns) == 1:
                return ONE if ns[0] * k > 0 else ZERO
            it = [co for mm, co in u.args[0].args[0] for a, e in mm if a.op == 'phi' and len(mm) == 1]
            if len(it) == 1 and all(not mm or mm[0][0].op == 'phi' for mm, co in u.args[0].args[0]):
                return ONE if it[0] > 0 else ZERO
        return None
    return T.subst_fn(c, f)


def fit(ctx, obs):
    cls = find(ctx, ALG)
    w = where(cls, 'fit')
    cons = 'FISTA.fit'
    opts = dict(tol='s_tol++', min_its='s_min++', max_its='s_max++', FISTA='s_F', restart='s_restart++', coef_stop='s_cs',
                return_objective_hist='s_roh', monotonicity_restart='s_mono', start_step='s_start++')
    have = cls.method('fit').params()
    comps = sym('o_comp')
    coefs = mk('attr', comps, 'coefs')
    for back in (False, True):
        L = lab(ctx, no_inline=['backtrack'])
        comp = comp_of(L, ctx)
        o = L.blank(cls, 'o_fista', composite=comp, debug=False, perform_backtrack=back, step=None)
        kw = {k: C(sym(v)) for k, v in opts.items() if k in have}
        kw['prox_control'] = {}
        state = []

        def probe(name, rt, args, kws, st, node):
            if name in ('proximal_step', 'backtrack', 'proximal'):
                def g(x, n):
                    try:
                        return strip(L.I.term(L.I.getattr(x, n, st), st))
                    except (Giveup, Bottom, RecursionError):
                        return None
                state.append((name, {'w': g(o, 'working_coefs'), 'step': g(o, 'step')}))
        L.I.probe = probe
        r = run(L, L.call(o, 'fit', **kw))
        if r is None or r is BOTTOM:
            obs.add('fit', cons, BAD if r is BOTTOM else UND, 'no result', w)
            continue
        sets = [e for e in L.events if e['kind'] == 'setattr' and isinstance(e.get('value'), T.Term)]
        # the step: proximal_step of the model at the working point with the Lipschitz constant, or the backtracking loop
        if not back:
            ev = steps_of(L)
            st = [s for n, s in state if n != 'backtrack']
            if not ev:
                obs.add('fit', cons, UND, 'no proximal step without backtracking', w)
            for e in ev:
                g = ev_quad(L, e)
                pt = st[-1]['w'] if st else None
                if g is None or pt is None:
                    obs.add('fit', cons, UND, 'the model of a step', w)
                    continue
                lip = mk('attr', comps, 'lipschitz')
                want = add(Gx(comps, pt), mul(lip, sub(Z, pt)))
                g = T.subst_fn(g, lambda u: ZERO if u.op == 'isnone' and u.args[0] is lip else None)
                judge(obs, 'fit', cons, drop(g), drop(want), 'gradient of the model whose minimizer is proposed', w)
        acc = [e for e in sets if e['attr'] == 'coefs']
        if not acc:
            obs.add('fit', cons, BAD, 'no step is ever stored in the coefficients', w)
        for e in acc:
            v = strip(e['value'])
            s = step_value(v)
            if s is None and v.op == 'getitem' and v.args[0].op == 'mcall' and v.args[0].args[0] == 'backtrack' and v.args[1] is ZERO:
                s = v
            obs.add('fit', cons, OK if s is not None else UND if T.mentions(v, lambda u: is_step(u) or u.op == 'mcall' and u.args[0] == 'backtrack') and not only_momentum(v) else BAD,
                    'the new coefficients are not the proximal step: %s' % T.show(v, 5), w)
        # the momentum sequence starts at the coefficients with weight one
        first = {}
        for e in sets:
            first.setdefault(e['attr'], strip(e['value']))
        if 'weight_old' in first:
            judge(obs, 'fit', cons, first['weight_old'], ONE, 'initial weight', w)
        if 'working_coefs' in first:
            judge(obs, 'fit', cons, first['working_coefs'], coefs, 'initial working coefficients', w)
        # where the options enter
        tests = [e['cond'] for e in L.events if e['kind'] == 'looptest']
        brk = [c for e in L.events if e['kind'] == 'break' for c in e['path']]
        allp = [c for e in L.events if e['kind'] in ('break', 'setattr') for c in e.get('path', ())]
        vals = [e['value'] for e in sets]

        def seen(n, ts):
            return any(T.contains(t, sym(opts[n])) for t in ts)
        places = {'tol': ('stopping test', brk), 'min_its': ('stopping test', brk), 'coef_stop': ('stopping test', brk),
                  'max_its': ('iteration limit', tests + brk), 'restart': ('restarts', allp), 'monotonicity_restart': ('restarts', allp),
                  'FISTA': ('momentum', allp + vals), 'return_objective_hist': ('result', [r])}
        if back:
            places['start_step'] = ('initial step', vals)
        for n in sorted(places):
            if n not in have:
                continue
            what, ts = places[n]
            if not ts and what != 'result':
                obs.add('option', cons + ':' + n, UND, what, w)
                continue
            other = not seen(n, ts) and (seen(n, allp + vals + tests + [r]))
            obs.add('option', cons + ':' + n, OK if seen(n, ts) else UND if other else BAD, 'option %s does not enter the %s' % (n, what), w)
        # tol decides about both kinds of stopping; the coefficients play no part unless asked for
        tolp = [[strip(c) for c in e['path']] for e in L.events if e['kind'] == 'break' and any(T.contains(c, sym(opts['tol'])) for c in e['path'])]
        for flag, what in ((ZERO, 'objective'), (ONE, 'coefficients')):
            live = []
            for p in tolp:
                c = ONE
                for u in p:
                    c = T.andb(c, u)
                c = T.subst_fn(c, lambda u: flag if u.op in ('bool', 'gt0', 'ne0', 'eq0') and T.contains(u, sym(opts['coef_stop'])) and not T.contains(u, sym(opts['tol'])) else None)
                if c not in (ZERO, T.FALSE) and T.contains(c, sym(opts['tol'])):
                    live.append(c)
            obs.add('option', cons + ':tol', OK if live else UND if not tolp else BAD, 'tol does not stop on the %s' % what, w)
            if flag is ONE and live:
                ok = any(not any(T.contains(a, sym(opts['tol'])) and T.mentions(a, lambda z: z.op == 'N') for a in subs(c) if a.op == 'gt0') for c in live)
                obs.add('option', cons + ':coef_stop', OK if ok else BAD, 'coef_stop compares the objective', w)
            if flag is ZERO and live:
                ok = any(any(T.contains(a, sym(opts['tol'])) and T.mentions(a, lambda z: z.op == 'N') for a in subs(c) if a.op == 'gt0') for c in live)
                obs.add('option', cons + ':coef_stop', OK if ok else BAD, 'without coef_stop the objective is not compared', w)
        # restarting forgets the momentum
        for e in sets:
            last = [c for c in e['path'][-1:] if T.contains(c, sym(opts['restart'])) and not T.mentions(c, lambda u: u.op in ('F', 'N'))
                    and not T.contains(c, sym(opts['FISTA'])) and not T.mentions(c, lambda u: u.op == 'mcall')]
            if not last:
                continue
            if e['attr'] == 'weight_old':
                judge(obs, 'fit', cons, strip(e['value']), ONE, 'weight after a restart', w)
            if e['attr'] == 'working_coefs':
                v = strip(e['value'])
                obs.add('fit', cons, OK if v.op in ('phi', 'attr') and T.contains(v, coefs) else UND, 'working point after a restart %s' % T.show(v, 5), w)
        # the adaptive restart: where the objective went up, back to the last accepted point with weight one
        mono = sym(opts['monotonicity_restart'])
        for e in sets:
            test = [c for c in e['path'] if T.contains(c, mono)][:1]
            if not test or e['attr'] not in ('weight_old', 'working_coefs', 'coefs'):
                continue
            up, down, off = (monotone(test[0], mono, k, m) for k, m in ((1, ONE), (-1, ONE), (1, ZERO)))
            v = strip(e['value'])
            if off is ZERO:
                obs.add('fit', cons, OK if up is ONE and down is ZERO else BAD if up is ZERO or down is ONE else UND,
                        'the restart is not where the objective increased: %s' % T.show(test[0], 6), w)
                if e['attr'] == 'weight_old':
                    judge(obs, 'fit', cons, v, ONE, 'weight after an adaptive restart', w)
                elif e['attr'] == 'working_coefs':
                    moved = T.mentions(v, lambda u: is_step(u) or u.op == 'mcall' and u.args[0] == 'backtrack')
                    obs.add('fit', cons, OK if v.op in ('phi', 'attr') and T.contains(v, coefs) else BAD if moved else UND,
                            'working point after an adaptive restart: %s' % T.show(v, 5), w)
                else:
                    obs.add('fit', cons, BAD, 'a point that increased the objective is stored', w)
            elif off is ONE and e['attr'] == 'coefs':
                obs.add('fit', cons, OK if up is ZERO and down is ONE else BAD if down is ZERO else UND, 'accepted only where the objective did not increase', w)
        if r.op == 'ite' or T.contains(r, sym('s_roh')):
            obs.add('fit', cons, OK, '', w)
    # both ways of passing prox_control
    L = lab(ctx, no_inline=['backtrack'])
    comp = comp_of(L, ctx)
    o = L.blank(cls, 'o_fista', composite=comp, debug=False, perform_backtrack=False)
    L.call(o, 'fit', prox_control={'tol': 1})
    for e in steps_of(L):
        k = e['kw'].get('prox_control', e['args'][1] if len(e['args']) > 1 else None)
        obs.add('option', cons + ':prox_control', OK if k is not None and k is not T.NONE else BAD, 'prox_control is dropped', w)


def only_momentum(v):
    return False


def drop(t):
    return T.subst_fn(t, lambda u: u.args[1] if u.op == 'ite' and u.args[0].op == 'isnone' else None)


def momentum(ctx, obs):
    cls = find(ctx, ALG)
    w = where(cls, 'update_working_coefs')
    P, WT = sym('v_prop'), sym('s_wt++')
    x = mk('attr', sym('o_comp'), 'coefs')
    for flag in (True, False):
        L = lab(ctx)
        comp = comp_of(L, ctx)
        o = L.blank(cls, 'o_fista', composite=comp, weight_old=C(WT))
        r = L.call(o, 'update_working_coefs', L.vec(P), flag)
        new, wc = (run(L, L.get(o, n)) for n in ('weight_new', 'working_coefs'))
        wn = mul(HALF, add(ONE, power(add(ONE, mul(num(4), power(WT, 2))), HALFQ))) if flag else ONE
        cons = 'FISTA.update_working_coefs:' + ('accelerated' if flag else 'plain')
        judge(obs, 'momentum', cons, new, wn, 'next weight', w)
        want = add(P, mul(div(sub(WT, ONE), wn), sub(P, x))) if flag else P
        judge(obs, 'momentum', cons, wc if not isinstance(wc, T.Term) else strip(wc), want, 'next working point', w)


from fractions import Fraction
HALFQ = Fraction(1, 2)


def proximal_step(ctx, obs):
    cls = find(ctx, COMP)
    w = where(cls, 'proximal_step')
    for pc in (None, 'o_pc'):
        L = lab(ctx, no_inline=['proximal'])
        o = L.blank(cls, 'o_comp')
        kw = {} if pc is None else {'prox_control': L.vec(pc)}
        t = run(L, L.call(o, 'proximal_step', L.quad(*Q2), **kw))
        if not isinstance(t, T.Term) or t.op != 'mcall' or t.args[0] != 'proximal':
            obs.add('step', 'composite.proximal_step', BAD if t is BOTTOM else UND, '%s' % (t if t is None else T.show(t, 5)), w)
            continue
        q = quad_of(L, t.args[2][0]) if t.args[2] else None
        judge(obs, 'step', 'composite.proximal_step', None if q is None else val(q, X), val(Q2, X), 'quadratic', w)
        if pc:
            obs.add('step', 'composite.proximal_step', OK if T.contains(t, sym(pc)) else BAD, 'prox_control is dropped', w)


def gengrad(ctx, obs):
    mod = ctx.model.modules['regreg.problems.simple']
    f = mod.funcs.get('gengrad')
    if f is None:
        return
    L = lab(ctx)
    comp = comp_of(L, ctx)
    L.I.no_inline |= {'solve'}
    lip, x0 = sym('s_lip++'), mk('attr', sym('o_comp'), 'coefs')
    r = run(L, L.func(f, comp, C(lip), tol=C(sym('s_tol++')), max_its=C(sym('s_max++')), coef_stop=C(sym('s_cs')), debug=False))
    cons = 'gengrad'
    if r is None or r is BOTTOM:
        obs.add('gengrad', cons, BAD if r is BOTTOM else UND, '', f.where)
        return
    ev = [e for e in L.events if e['kind'] == 'mcall' and e['name'] in ('proximal', 'proximal_step', 'solve')]
    if not ev:
        obs.add('gengrad', cons, UND, 'no step', f.where)
    for e in ev:
        obs.add('gengrad', cons, OK if e['name'] != 'solve' else BAD, 'each step solves the problem', f.where)
        g = ev_quad(L, e)
        p = None if g is None else the_point(g)
        if p is None:
            obs.add('gengrad', cons, UND, 'step', f.where)
            continue
        judge(obs, 'gengrad', cons, g, add(Gx(sym('o_comp'), p), mul(lip, sub(Z, p))), 'gradient of the model whose minimizer is taken', f.where)
        obs.add('gengrad', cons, OK if p.op == 'phi' and T.contains(p, x0) or p.op == 'phi' else UND, 'point of the step', f.where)
    paths = [c for e in L.events if e['kind'] in ('break', 'looptest') for c in list(e['path']) + ([e['cond']] if 'cond' in e else [])]
    for n in ('s_tol++', 's_max++', 's_cs'):
        obs.add('option', cons + ':' + n[2:].strip('+'), OK if any(T.contains(c, sym(n)) for c in paths) else BAD, 'option does not enter the stopping test', f.where)


def smoothing(ctx, obs):
    """nesta and tfocs: the smoothed problem that each outer iteration solves"""
    mod = ctx.model.modules['regreg.problems.simple']
    EPS = sym('s_eps++')
    S0, PA, CA, TR, DA = sym('o_smooth'), sym('o_proxatom'), sym('o_conjatom'), sym('o_transform'), sym('o_dualatom')
    noin = ['ctor:sum', 'ctor:simple_problem', 'ctor:affine_smooth', 'solve', 'fit'] + MAPS

    def quads(L, t):
        return qgrad(quad_of(L, t))

    def smooth_ev(L, obs, cons, atom, extra, f):
        ev = [e for e in L.events if e['kind'] == 'mcall' and e['name'] == 'smoothed']
        if not ev:
            obs.add('smoothing', cons, UND, 'nothing is smoothed', f.where)
        for e in ev:
            obs.add('smoothing', cons, OK if e['recv'] is atom else BAD, 'smooths %s' % T.show(e['recv']), f.where)
            g = quads(L, e['args'][0]) if e['args'] else None
            if g is None:
                obs.add('smoothing', cons, UND, 'smoothing quadratic', f.where)
                continue
            c = [u for u in subs(g) if u.op == 'phi' and not T.is_scalar(u)]
            if len(c) != 1:
                obs.add('smoothing', cons, UND if c else BAD, 'center of the smoothing quadratic', f.where)
                continue
            e_ = [u for u in subs(g) if u.op in ('elem', 'getitem', 'item') or u is EPS]
            g = strip(g)
            k = sub(subst(sub(g, extra), {Z: add(Z, ONE)}), sub(g, extra))
            if T.contains(k, c[0]):
                obs.add('smoothing', cons, BAD, 'the curvature of the smoothing quadratic is %s' % T.show(k, 4), f.where)
                continue
            obs.add('smoothing', cons, OK if T.contains(k, sym('v_epsilon')) else BAD, 'the curvature of the smoothing quadratic does not come from epsilon', f.where)
            judge(obs, 'smoothing', cons, g, add(mul(k, sub(Z, c[0])), extra), 'gradient of the smoothing quadratic', f.where)
            return c[0], k
        return None, None
    f = mod.funcs.get('nesta')
    if f is not None:
        for qd in (True, False):
            for parts_ in ((True, True), (True, False), (False, True)):
                L = lab(ctx, no_inline=noin)
                kw = dict(epsilon=L.vec('v_epsilon'), tol=C(sym('s_tol++')), max_iters=C(sym('s_maxit++')), min_iters=C(sym('s_minit++')),
                          coef_tol=C(sym('s_ctol++')), coef_stop=C(sym('s_cs')), initial_primal=L.vec('v_init'), initial_dual=L.vec('v_dual'))
                if qd:
                    kw['quadratic'] = L.quad(*Q1)
                r = run(L, L.func(f, L.vec(S0) if parts_[0] else None, L.vec(PA) if parts_[1] else None, L.vec(CA), **kw))
                cons = 'nesta'
                if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
                    obs.add('smoothing', cons, BAD if r is BOTTOM else UND, '', f.where)
                    continue
                smooth_ev(L, obs, cons, CA, ZERO, f)
                sv = list({id(e['node']): e for e in L.events if e['kind'] == 'mcall' and e['name'] == 'solve'}.values())
                if len(sv) != 1:
                    obs.add('smoothing', cons, UND, 'problems solved %d %s' % (len(sv), [T.show(e['recv'], 3) for e in sv]), f.where)
                else:
                    solved(L, obs, cons, sv[0], f, Q1 if qd else None)
                    pr = sv[0]['recv']
                    for a, inc in ((S0, parts_[0]), (PA, parts_[1])):
                        if inc:
                            obs.add('smoothing', cons, OK if T.contains(pr, a) else BAD, '%s is not part of the problem' % T.show(a), f.where)
                    obs.add('smoothing', cons, OK if T.mentions(pr, lambda u: u.op == 'mcall' and u.args[0] == 'smoothed') else BAD,
                            'the smoothed atom is not part of the problem', f.where)
                extrapolation(L, obs, cons, r.args[0][1], f)
                prim = r.args[0][0]
                obs.add('smoothing', cons, OK if T.mentions(prim, lambda u: u.op == 'mcall' and u.args[0] == 'solve') else BAD, 'primal solution', f.where)
                options(L, obs, cons, (('coef_tol', 's_ctol++'), ('coef_stop', 's_cs'), ('min_iters', 's_minit++')), f)
    f = mod.funcs.get('tfocs')
    if f is not None:
        for off in (None, sym('v_b')):
            for qd in (True, False):
                L = lab(ctx, no_inline=noin + ['astransform'])
                kw = dict(epsilon=L.vec('v_epsilon'), tol=C(sym('s_tol++')), max_iters=C(sym('s_maxit++')), coef_tol=C(sym('s_ctol++')))
                if qd:
                    kw['quadratic'] = L.quad(*Q1)
                L.I.no_inline -= {'astransform'}
                r = run(L, L.func(f, L.vec(PA), transform(L, ctx, affine_offset=None if off is None else L.vec(off)), L.vec(DA), **kw))
                cons = 'tfocs'
                if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
                    obs.add('smoothing', cons, BAD if r is BOTTOM else UND, '', f.where)
                    continue
                smooth_ev(L, obs, cons, mk('attr', PA, 'conjugate'), diff.grad(val(Q1, Z), Z) if qd else ZERO, f)
                sv = list({id(e['node']): e for e in L.events if e['kind'] == 'mcall' and e['name'] == 'solve'}.values())
                if len(sv) != 1:
                    obs.add('smoothing', cons, UND, 'problems solved %d %s' % (len(sv), [T.show(e['recv'], 3) for e in sv]), f.where)
                else:
                    solved(L, obs, cons, sv[0], f, None if off is None else (ZERO, None, neg(off), ZERO))
                    pr = sv[0]['recv']
                    obs.add('smoothing', cons, OK if T.contains(pr, DA) else BAD, 'the dual atom is not part of the problem', f.where)
                extrapolation(L, obs, cons, r.args[0][0], f)
                options(L, obs, cons, (('coef_tol', 's_ctol++'),), f)
                ev = [e for e in L.events if e['kind'] == 'construct' and e['cls'].name == 'affine_smooth']
                for e in ev:
                    m = e['args'][1] if len(e['args']) > 1 else None
                    ok = m is not None and m.op == 'obj' and m.args[0] == 'scalar_multiply'
                    if not ok:
                        obs.add('smoothing', cons, UND, 'transform of the dual problem', f.where)
                        continue
                    d = dict(m.args[1])
                    obs.add('smoothing', cons, OK if d.get('scalar') is num(-1) else BAD, 'the adjoint is multiplied by %s' % T.show(d.get('scalar', ZERO)), f.where)


def solved(L, obs, cons, e, f, q):
    a = e['args'][0] if e['args'] else e['kw'].get('quadratic')
    p = quad_of(L, a) if a is not None else None
    if p is None:
        obs.add('smoothing', cons, BAD if a is None and q is not None else UND, 'quadratic of the problem solved', f.where)
    else:
        judge(obs, 'smoothing', cons, diff.grad(val(p, Z), Z), ZERO if q is None else diff.grad(val(q, Z), Z), 'quadratic of the problem solved', f.where)
    t = e['kw'].get('tol')
    obs.add('option', cons + ':tol', OK if t is not None and T.contains(t, sym('s_tol++')) else BAD, 'tol is not passed on', f.where)


def options(L, obs, cons, names, f):
    paths = [c for e in L.events if e['kind'] in ('break', 'looptest') for c in list(e['path']) + ([e['cond']] if 'cond' in e else [])]
    for n, s in names:
        if n in f.params():
            obs.add('option', cons + ':' + n, OK if any(T.contains(c, sym(s)) for c in paths) else BAD, 'option does not enter the stopping test', f.where)


def extrapolation(L, obs, cons, t, f):
    """the update of the smoothing center stays at a fixed point of the gradient"""
    lv = [u for u in subs(t) if u.op in ('loopvar', 'looplast')]
    for u in lv[:1]:
        body = u.args[1]
        g = [z for z in subs(body) if z.op == 'attr' and z.args[1] == 'grad']
        c = sym('v_fixed')
        b = T.subst_fn(body, lambda z: c if z in g else None)
        ph = [z for z in subs(b) if z.op == 'phi' and z.args[1][:4] == 'cell' and len(z.args) > 2 and not T.is_scalar(z)]
        if not g or len(ph) != 1:
            break
        b = T.subst_fn(b, lambda z: c if z is ph[0] else None)
        judge(obs, 'extrapolation', cons, b, c, 'fixed point of the update', f.where)
        return
    obs.add('extrapolation', cons, UND, 'update of the smoothing center', f.where)


def admm(ctx, obs):
    cls = find(ctx, 'regreg.problems.admm.admm_problem')
    if cls is None:
        return
    LIN = sym('o_linear')
    x, y, z, rho, al = sym('v_x'), sym('v_y'), sym('v_u'), sym('s_rho++'), sym('v_b')
    for off in (None, al):
        for qd in (False, True):
            def make():
                L = lab(ctx, no_inline=MAPS + ['solve', 'proximal'])
                o = L.blank(cls, 'o_admm')
                tr = transform(L, ctx, affine_offset=None if off is None else L.vec(off))
                L.put(o, loss=L.vec(A1), atom=L.vec(P1), transform=tr, linear_transform=L.vec(LIN), augmented_param=C(rho),
                      quadratic=L.quad(*Q1) if qd else None, loss_coefs=L.vec(x), dual_coefs=L.vec(y), atom_coefs=L.vec(z),
                      augmented_loss=L.vec('o_augmented'), fit_args={'tol': C(sym('s_tol++'))})
                return L, o
            L, o = make()
            r = L.call(o, 'update_loss_coefs')
            w = where(cls, 'update_loss_coefs')
            t = run(L, L.get(o, 'loss_coefs'))
            cons = 'admm_problem.update_loss_coefs'
            m = [u for u in subs(t) if u.op == 'mcall' and u.args[0] == 'solve'] if isinstance(t, T.Term) else []
            if len(m) != 1:
                obs.add('admm', cons, BAD if r is BOTTOM else UND, '', w)
            else:
                m = m[0]
                kw = dict(m.args[3])
                q = quad_of(L, m.args[2][0] if m.args[2] else kw.get('quadratic'))
                want = mk('Lt', LIN, sub(y, mul(rho, sub(z, off or ZERO))))
                if qd:
                    want = add(want, diff.grad(val(Q1, Z), Z))
                judge(obs, 'admm', cons, None if q is None else diff.grad(val(q, Z), Z), want, 'gradient of the quadratic of the loss update', w)
                obs.add('admm', cons, OK if m.args[1] is sym('o_augmented') else BAD, 'minimizes %s' % T.show(m.args[1]), w)
                obs.add('admm', cons, OK if kw.get('tol') is sym('s_tol++') else UND if not kw else BAD, 'fit_args are not passed on', w)
            if qd:
                continue
            L, o = make()
            L.call(o, 'update_atom_coefs')
            w = where(cls, 'update_atom_coefs')
            t = run(L, L.get(o, 'atom_coefs'))
            cons = 'admm_problem.update_atom_coefs'
            m = [u for u in subs(t) if u.op == 'mcall' and u.args[0] in ('proximal', 'solve')] if isinstance(t, T.Term) else []
            if len(m) != 1:
                obs.add('admm', cons, UND, '', w)
            else:
                q = quad_of(L, m[0].args[2][0]) if m[0].args[2] else None
                ax = mk('A', D, x)
                judge(obs, 'admm', cons, None if q is None else norm(diff.grad(val(q, Z), Z)), sub(mul(rho, sub(Z, ax)), y), 'gradient of the quadratic of the atom update', w)
            L, o = make()
            L.call(o, 'update_dual_coefs')
            w = where(cls, 'update_dual_coefs')
            t = run(L, L.get(o, 'dual_coefs'))
            judge(obs, 'admm', 'admm_problem.update_dual_coefs', t if not isinstance(t, T.Term) else norm(t), add(y, mul(rho, sub(mk('A', D, x), z))), 'dual update', w)


def newton(ctx, obs):
    cls = find(ctx, 'regreg.problems.newton.quasi_newton')
    if cls is None:
        return
    x, B = sym('v_x'), sym('m_Q')
    L = lab(ctx, no_inline=['solve'])
    o = L.blank(cls, 'o_newton')
    sm = L.blank(find(ctx, 'regreg.smooth.smooth_atom'), 'o_smooth', _quadratic=L.quad(*Q2))
    L.I.no_inline |= {'smooth_objective'}
    L.put(o, smooth_atom=sm, proximal_atom=L.vec(P1), coefs=L.vec(x), quadratic=L.quad(*Q1), quadratic_problem=L.vec('o_problem'),
          quadratic_loss=L.blank(find(ctx, 'regreg.smooth.quadratic.quadratic_loss'), 'o_qloss', Q=L.vec(B)))
    r = run(L, L.call(o, 'solve_inner_loop', tol=C(sym('s_tol++'))))
    w = where(cls, 'solve_inner_loop')
    cons = 'quasi_newton.solve_inner_loop'
    m = [u for u in subs(r) if u.op == 'mcall' and u.args[0] == 'solve'] if isinstance(r, T.Term) else []
    if len(m) != 1:
        obs.add('newton', cons, BAD if r is BOTTOM else UND, '', w)
    else:
        m = m[0]
        kw = dict(m.args[3])
        q = quad_of(L, m.args[2][0] if m.args[2] else kw.get('quadratic'))
        g = [u for u in subs(r) if u.op == 'G']
        if q is None or not g:
            obs.add('newton', cons, UND, 'inner problem', w)
        else:
            got = diff.grad(val(q, Z), Z)
            Bx = [u for u in subs(got) if u.op in ('dot', 'mcall', 'matmul', 'L') and T.contains(u, x) and T.contains(u, B)]
            ok = len(Bx) == 1
            want = add(g[0], diff.grad(val(Q1, Z), Z), diff.grad(val(Q2, Z), Z), neg(Bx[0])) if ok else None
            judge(obs, 'newton', cons, got if ok else None, want, 'gradient at zero of the inner problem %s' % T.show(got, 6), w)
            obs.add('newton', cons, OK if kw.get('tol') is sym('s_tol++') else BAD, 'fit_args are not passed on', w)
            if r.op == 'tuple' and len(r.args[0]) == 3:
                judge(obs, 'newton', cons, r.args[0][0], sub(m, x), 'direction', w)
                judge(obs, 'newton', cons, r.args[0][2], m, 'solution', w)
    # the BFGS update
    H, so, sn, go, gn = sym('m_H'), sym('v_so'), sym('v_sn'), sym('v_go'), sym('v_gn')
    L = lab(ctx)
    o = L.blank(cls, 'o_newton', hessian=L.vec(H))
    r = L.call(o, 'update_hessian', *[L.vec(v) for v in (so, sn, go, gn)])
    t = run(L, L.get(o, 'hessian'))
    w = where(cls, 'update_hessian')
    cons = 'quasi_newton.update_hessian'
    if isinstance(t, T.Term):
        L2 = lab(ctx)
        yy, ss = sub(gn, go), sub(sn, so)
        I = L2.I
        st = L2.st
        hv, yv, sv = L2.vec(H), L2.vec(yy), L2.vec(ss)
        bs = I.dot(hv, sv, st)
        outer = lambda a: L2.term(L2.guard(I.call_ext, 'numpy.multiply.outer', [a, a], {}, st, None))
        d = lambda a, b: L2.term(I.dot(a, b, st))
        oy, ob = outer(yv), outer(bs)
        if oy is not None and ob is not None:
            want = sub(add(H, div(oy, d(yv, sv))), div(ob, d(sv, bs)))
            judge(obs, 'newton', cons, t, want, 'update of the Hessian', w)
        else:
            obs.add('newton', cons, UND, '', w)
    else:
        obs.add('newton', cons, UND, '', w)


def newton_search(ctx, obs):
    cls = find(ctx, 'regreg.problems.newton.quasi_newton')
    if cls is None:
        return
    x, d, A, P = sym('v_x'), sym('v_dir'), sym('o_smooth'), P1
    L = lab(ctx)
    o = L.blank(cls, 'o_newton', coefs=L.vec(x), smooth_atom=L.vec(A), proximal_atom=L.vec(P), quadratic=L.quad(*Q1))
    r = run(L, L.call(o, 'backtrack', L.vec(d)))
    w = where(cls, 'backtrack')
    cons = 'quasi_newton.backtrack'
    if r is None or r is BOTTOM or r.op != 'tuple' or len(r.args[0]) != 2:
        obs.add('newton', cons, UND, '', w)
    else:
        s, v = r.args[0]
        gs = [u for u in subs(v) if u.op in ('F', 'N')]
        pts = {u.args[1] for u in gs}
        want = add(x, mul(s, d))
        for p in pts:
            judge(obs, 'newton', cons, subst(p, {s: sym('s_try')}), subst(want, {s: sym('s_try')}), 'point of the line search', w)
        if len(pts) == 0:
            obs.add('newton', cons, UND, 'value of the line search', w)
        elif len(pts) == 1:
            # without NaN
            v = T.subst_fn(v, lambda u: ZERO if u.op in ('bool', 'gt0', 'ne0', 'eq0', 'any', 'reduce', 'fn', 'red') and T.is_scalar(u) and T.mentions(u, lambda z: z.op in ('fn', 'ext', 'isnan') and ('isnan' in (str(z.args[0]), z.op))) else None)
            v = strip2(v)
            p = list(pts)[0]
            want = add(Fx(A, p), mk('N', P, p), mk('N', A, p), val(Q1, p))
            judge(obs, 'newton', cons, v, want, 'objective of the line search', w)


def strip2(t):
    def f(u):
        if u.op in ('F', 'G') and len(u.args) == 3:
            return strip2(mk(u.op, u.args[0], u.args[1]))
        if u.op == 'N' and len(u.args) == 3:
            return mk('N', u.args[0], u.args[1])
        return None
    return T.subst_fn(t, f)


def newton_solve(ctx, obs):
    cls = find(ctx, 'regreg.problems.newton.quasi_newton')
    if cls is None:
        return
    x, A = sym('v_x'), sym('o_smooth')
    w = where(cls, 'solve')
    cons = 'quasi_newton.solve'
    L = lab(ctx, no_inline=['solve_inner_loop', 'backtrack', 'update_hessian', 'converged'])
    o = L.blank(cls, 'o_newton', coefs=L.vec(x), smooth_atom=L.vec(A), proximal_atom=L.vec(P1), quadratic=L.quad(*Q1))
    r = run(L, L.call(o, 'solve', niter=C(sym('s_niter++')), maxfun=C(sym('s_maxfun++')), maxiter=C(sym('s_maxiter++')), tol=C(sym('s_tol++'))))
    if r is None or r is BOTTOM:
        obs.add('newton', cons, BAD if r is BOTTOM else UND, '', w)
        return
    m = {}
    for e in L.events:
        if e['kind'] == 'mcall':
            m.setdefault(e['name'], e)
    inner, back, upd = (m.get(n) for n in ('solve_inner_loop', 'backtrack', 'update_hessian'))
    if not (inner and back and upd):
        obs.add('newton', cons, BAD if inner and not (back or upd) else UND, 'steps %s' % sorted(m), w)
        return
    obs.add('option', cons + ':fit_args', OK if inner['kw'].get('tol') is sym('s_tol++') or '**' in inner['kw'] else BAD, 'fit_args are not passed on', w)
    names = cls.method('backtrack').params()[1:]
    for n, s in (('maxfun', 's_maxfun++'), ('maxiter', 's_maxiter++')):
        v = back['kw'].get(n)
        if v is None and n in names and len(back['args']) > names.index(n):
            v = back['args'][names.index(n)]
        obs.add('option', cons + ':' + n, OK if v is sym(s) else BAD, 'option does not reach the line search', w)
    a = upd['args']
    if len(a) != 4:
        obs.add('newton', cons, UND, 'Hessian update', w)
        return
    old, new, g0, g1 = [strip2(z) for z in a]
    d = sub(new, old)
    dirs = [u for u in subs(d) if u.op in ('getitem', 'unpack') and T.mentions(u, lambda z: z.op == 'mcall' and z.args[0] == 'solve_inner_loop') and u.args[0].op == 'mcall' and u.args[0].args[0] == 'solve_inner_loop']
    steps = [u for u in subs(d) if u.op in ('getitem', 'unpack') and u.args[0].op == 'mcall' and u.args[0].args[0] == 'backtrack']
    if dirs and not steps:
        obs.add('newton', cons, BAD, 'the Hessian update ignores the step size', w)
        return
    if not dirs or not steps:
        obs.add('newton', cons, UND, 'Hessian update %s' % T.show(d, 5), w)
        return
    gi = lambda t, i: mk(t.op, t.args[0], num(i), *t.args[2:])
    D0, S0 = gi(dirs[0], 0), gi(steps[0], 0)
    vd, vs, vg, vx = sym('v_dir'), sym('s_try'), sym('v_grad'), sym('v_x0')
    fresh = {gi(dirs[0], 1): vg, D0: vd, S0: vs, old: vx}
    simp = lambda t: T.subst_fn(t, lambda u: fresh.get(u)) if t is not None else None
    d, g0, g1, new = simp(d), simp(g0), simp(g1), simp(new)
    judge(obs, 'newton', cons, d, mul(vs, vd), 'displacement of the Hessian update', w)
    judge(obs, 'newton', cons, g0, vg, 'old gradient of the Hessian update', w)
    judge(obs, 'newton', cons, g1, Gx(A, new), 'new gradient of the Hessian update', w)
    bd = back['args'][0] if back['args'] else back['kw'].get('direction')
    judge(obs, 'newton', cons, simp(bd), vd, 'direction of the line search', w)
    st = [e for e in L.events if e['kind'] == 'setattr' and e['attr'] == 'coefs' and isinstance(e.get('value'), T.Term)]
    if not any(T.contains(strip2(e['value']), S0) for e in st):
        obs.add('newton', cons, BAD, 'the step is not stored in the coefficients', w)
    for e in st:
        v = strip2(e['value'])
        if T.contains(v, S0):
            judge(obs, 'newton', cons, simp(v), new, 'next iterate', w)


# ------------------------------------------------------------------ E03: solve
SOLVES = [('regreg.problems.composite.smooth', {}), ('regreg.problems.simple.simple_problem', {}),
          ('regreg.problems.container.container', {})]


def solves(ctx, obs):
    total = add(val(Q1, X), val(Q2, X))
    for qual, _ in SOLVES:
        cls = find(ctx, qual)
        w = where(cls, 'solve')
        for given in (True, False):
            for opt in (True, False):
                L = lab(ctx, no_inline=['fit', 'objective', 'ctor:FISTA'] if False else ['fit', 'objective'])
                o = L.blank(cls, 'o_problem')
                L.put(o, _quadratic=L.quad(*Q1), coefs=L.vec('v_coefs'))
                seen = []

                def probe(name, rt, args, kws, st, node):
                    if name in ('fit', 'objective'):
                        try:
                            q = L.I.getattr(o, 'quadratic', st)

                            class R(object):
                                I = L.I
                            R.st = st
                            from .r_quad import fields
                            seen.append((name, fields(R, q) if isinstance(q, Ob) else None, kws, [L.I.term(a, st) for a in args]))
                        except (Giveup, Bottom, RecursionError):
                            seen.append((name, None, kws, []))
                L.I.probe = probe
                kw = {'tol': C(sym('s_tol++')), 'min_its': C(sym('s_min++'))}
                if given:
                    kw['quadratic'] = L.quad(*Q2)
                r = run(L, L.call(o, 'solve', return_optimum=opt, **kw))
                cons = cls.name + '.solve'
                if r is None or r is BOTTOM:
                    obs.add('solve', cons, BAD if r is BOTTOM else UND, '', w)
                    continue
                want = total if given else val(Q1, X)
                fits = [s for s in seen if s[0] == 'fit']
                if len(fits) != 1:
                    obs.add('solve', cons, UND, 'fit is called %d times' % len(fits), w)
                for n, q, kws, args in seen:
                    judge(obs, 'solve', cons, None if q is None else val(q, X), want, 'quadratic while %s runs' % n, w)
                    if n == 'fit':
                        names = find(ctx, ALG).method('fit').params()[1:]
                        for k in ('tol', 'min_its'):
                            v = args[names.index(k)] if k in names and len(args) > names.index(k) else None
                            v = L.term(kws[k]) if k in kws else v
                            obs.add('solve', cons, OK if v is kw[k].t else BAD, 'option %s is not passed to the solver' % k, w)
                q = L.get(o, 'quadratic')
                q = quad_of(L, q) if isinstance(q, Ob) else None
                judge(obs, 'solve', cons, None if q is None else val(q, X), val(Q1, X), 'quadratic of the problem afterwards', w)
                c = run(L, L.get(o, 'coefs'))
                if opt:
                    if r.op != 'tuple' or len(r.args[0]) != 2:
                        obs.add('solve', cons, UND if r.op != 'tuple' else BAD, 'no pair is returned', w)
                    else:
                        v, a = r.args[0]
                        obs.add('solve', cons, OK if v.op == 'mcall' and v.args[0] == 'objective' and v.args[2][:1] == (a,) else UND, 'optimum', w)
                        obs.add('solve', cons, OK if a is c else UND, 'solution', w)
                else:
                    obs.add('solve', cons, OK if r is c else BAD if r.op == 'tuple' else UND, 'solution', w)
        finally_restores(ctx, obs, cls)
    # the dual problem
    cls = find(ctx, 'regreg.problems.dual_problem.dual_problem')
    w = where(cls, 'solve')
    for given in (True, False):
        L = lab(ctx, no_inline=['fit'] + MAPS)
        at = L.blank(find(ctx, 'regreg.atoms.atom'), 'o_atom', _quadratic=L.quad(*Q1))
        o = L.blank(cls, 'o_problem', atom=at, coefs=L.vec('v_u'), primal=L.vec('v_primal'))
        L.I.no_inline |= {'regreg.problems.composite.composite.objective'}
        seen = []

        def probe(name, rt, args, kws, st, node):
            if name in ('fit', 'objective'):
                q = L.I.getattr(at, 'quadratic', st)

                class R(object):
                    I = L.I
                R.st = st
                from .r_quad import fields
                seen.append((name, fields(R, q) if isinstance(q, Ob) else None, [L.I.term(a, st) for a in args]))
        L.I.probe = probe
        kw = {'tol': C(sym('s_tol++'))}
        if given:
            kw['quadratic'] = L.quad(*Q2)
        r = run(L, L.call(o, 'solve', return_optimum=True, **kw))
        cons = 'dual_problem.solve'
        if r is None or r is BOTTOM:
            obs.add('solve', cons, BAD if r is BOTTOM else UND, '', w)
            continue
        for n, q, args in seen:
            judge(obs, 'solve', cons, None if q is None else val(q, X), total if given else val(Q1, X), 'quadratic of the atom while %s runs' % n, w)
            if n == 'objective':
                obs.add('solve', cons, OK if args and args[0] is sym('v_u') else BAD, 'the dual objective is evaluated at %s' % T.show(args[0]) if args else '', w)
        q = L.get(at, 'quadratic')
        q = quad_of(L, q) if isinstance(q, Ob) else None
        judge(obs, 'solve', cons, None if q is None else val(q, X), val(Q1, X), 'quadratic of the atom afterwards', w)
        if r.op == 'tuple' and len(r.args[0]) == 2:
            obs.add('solve', cons, OK if r.args[0][1] is sym('v_primal') else UND, 'solution', w)
    finally_restores(ctx, obs, cls)


def finally_restores(ctx, obs, cls):
    """a changed quadratic is restored when the solver raises: the restoring store is in a finally block around the call of fit"""
    f = cls.method('solve')
    stores = lambda n: [x for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ('quadratic', '_quadratic')]
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'fit']
    cons = cls.name + '.solve:restore'
    if not stores(f.node) or not calls:
        obs.add('restore', cons, UND, 'nothing is stored here', f.where)
        return
    if any(isinstance(n, ast.With) for n in ast.walk(f.node)):
        obs.add('restore', cons, UND, 'context manager', f.where)
        return
    for c in calls:
        ok = any(isinstance(n, ast.Try) and any(c in list(ast.walk(b)) for b in n.body) and any(stores(b) for b in n.finalbody) for n in ast.walk(f.node))
        ok2 = any(isinstance(n, ast.Try) and any(c in list(ast.walk(b)) for b in n.body) and n.finalbody for n in ast.walk(f.node))
        obs.add('restore', cons, OK if ok else UND if ok2 else BAD, 'the quadratic is not restored when the solver raises', f.where)


def algorithms(ctx, obs):
    for f in (backtracking, fit, momentum, proximal_step, gengrad, smoothing, admm, newton, newton_search, newton_solve):
        guard(f, ctx, obs)


def solving(ctx, obs):
    guard(solves, ctx, obs)


def guard(f, ctx, obs):
    try:
        f(ctx, obs)
    except (Giveup, RecursionError, Bottom) as e:
        obs.add('analysis', f.__name__, UND, repr(e), '')


PROPS = {
    'F01': dict(run=algorithms, floor=110, rule='each iteration of a solver takes the documented step, and its options enter the places they are documented for.'),
    'E03': dict(run=solving, floor=50, rule='solve() adds the given quadratic while the solver runs, forwards the options and restores the quadratic on every exit.'),
}
