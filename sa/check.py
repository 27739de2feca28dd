"""Obligations, findings and reporting shared by the rules."""
import json, os, sys, time
from . import terms as T
from .absint import run_method, Giveup, Bottom, interior_decide

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
EVID = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')

OK, BAD, UND = 'ok', 'bad', 'undecided'


class Ob(object):
    """one proof obligation: rule applied to a construct"""
    __slots__ = ('rule', 'construct', 'status', 'detail', 'where')

    def __init__(self, rule, construct, status, detail='', where=''):
        self.rule, self.construct, self.status, self.detail, self.where = rule, construct, status, detail, where

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Obs(list):
    def add(self, rule, construct, status, detail='', where=''):
        self.append(Ob(rule, construct, status, detail, where))


def interior(t):
    """decide overflow/clipping guards for arguments of moderate size"""
    def f(a):
        if a.op == 'gt0':
            r = interior_decide(a)
            if r is None:
                p = a.args[0]
                q = T.subst_fn(p, f, memo)
                if q is not p:
                    g = T.gt0(q)
                    if g.op == 'gt0':
                        rr = interior_decide(g)
                        return rr if rr is not None else g
                    return g
            return r
        return None
    memo = {}
    return T.subst_fn(t, f, memo)


class Ctx(object):
    def __init__(self, model, tier='quick'):
        self.model = model
        self.tier = tier
        self.cache = {}
        self.funcs = set()

    def run(self, cls, name, params, key=None, **opts):
        """cached abstract run; returns Run or None on give-up"""
        k = None
        if key is None:
            try:
                k = (cls.qual if cls is not None else None, name,
                     tuple(sorted((a, b.id if isinstance(b, T.Term) else repr(b)) for a, b in params.items()
                                  if not callable(b))),
                     tuple(sorted((a, tuple(sorted(b)) if isinstance(b, (list, set, tuple)) else repr(b))
                                  for a, b in opts.items() if a not in ('setup', 'hints', 'fn'))))
                if 'setup' in opts or 'hints' in opts or any(callable(b) for b in params.values()) or opts.get('fn'):
                    k = None
            except TypeError:
                k = None
        else:
            k = (cls.qual if cls is not None else None, name, key)
        if k is not None and k in self.cache:
            return self.cache[k]
        try:
            r = run_method(self.model, cls, name, params, **opts)
            if r is not None:
                for f in r.I.analysed:
                    self.funcs.add(f)
        except (Giveup, RecursionError):
            r = None
        if k is not None:
            self.cache[k] = r
        return r


def load_known():
    """known findings: lines
         known: <PROP> <rule|construct> -- description
       anything else is commentary ('fixed:' lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: '):
                body, _, desc = line[7:].partition(' -- ')
                prop, _, key = body.partition(' ')
                out[(prop.replace('property=', '').strip(), key.strip())] = desc.strip()
    return out


def clean(s, n=400):
    s = ' '.join(str(s).split())
    return s if len(s) <= n else s[:n] + '...'


def report(prop, obs, tier, t0, rule_text, floor, ctx, technique='static analysis', assumptions=()):
    known = load_known()
    bad = [o for o in obs if o.status == BAD]
    decided = [o for o in obs if o.status != UND]
    new, old = [], []
    seen = set()
    for o in bad:
        if (prop, o.key) in known:
            if o.key not in seen:
                seen.add(o.key)
                old.append(o)
        else:
            new.append(o)
    os.makedirs(EVID, exist_ok=True)
    byrule = {}
    for o in obs:
        d = byrule.setdefault(o.rule, {OK: 0, BAD: 0, UND: 0})
        d[o.status] += 1
    expl = ('%s Analysed from the current source of /repo: %d modules, %d functions inlined; %d obligations '
            '(%d decided, %d undecided - an undecided obligation is never reported). Per rule: %s' %
            (rule_text, len(ctx.model.modules), len(ctx.funcs), len(obs), len(decided), len(obs) - len(decided),
             '; '.join('%s ok=%d bad=%d undecided=%d' % (r, d[OK], d[BAD], d[UND]) for r, d in sorted(byrule.items()))))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': expl,
                       'obligations': len(obs), 'discharged': len([o for o in obs if o.status == OK]),
                       'known_findings': len(old),
                       'undecided': [o.key + ': ' + clean(o.detail, 1000) for o in obs if o.status == UND][:80],
                       'sites': sorted(set(o.construct for o in obs))[:400]},
          'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2),
          'violations': [clean(o.key + ' @ ' + o.where + ': ' + o.detail) for o in new]}
    rp = os.path.join(EVID, prop + '.json')
    with open(rp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for o in old:
        print('KNOWN-FINDING: property=%s %s -- %s' % (prop, o.key, known[(prop, o.key)]))
    if new:
        replay = os.path.join(EVID, prop + '.replay.txt')
        with open(replay, 'w') as f:
            for o in new:
                f.write('%s\n  where: %s\n  %s\n' % (o.key, o.where, o.detail))
        for o in new[:25]:
            print('  %s @ %s: %s' % (o.key, o.where, clean(o.detail)))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if len(decided) < floor:
        print('ERROR property=%s: only %d obligations decided (expected at least %d): the analysis lost its anchors'
              % (prop, len(decided), floor))
        return 3
    print('OK property=%s obligations=%d decided=%d known=%d undecided=%d wall=%.1fs' %
          (prop, len(obs), len(decided), len(old), len(obs) - len(decided), time.time() - t0))
    return 0
