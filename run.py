#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]  |  run.py --all

Static analysis of /repo's working tree: exit 0 when no new violation, 1 with a
VIOLATION line otherwise, 3 when the analysis lost its anchors."""
import importlib, os, pkgutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def registry():
    import sa.rules
    out = {}
    for m in pkgutil.iter_modules(sa.rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for p, spec in getattr(mod, 'PROPS', {}).items():
            out[p] = spec
    return out


def main(argv):
    from sa.model import Model
    from sa.check import Ctx, report, Obs
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    reg = registry()
    ids = sorted(reg) if '--all' in argv else [a for a in argv if not a.startswith('--')]
    rc = 0
    ctx = None
    for p in ids:
        t0 = time.time()
        spec = reg[p]
        if ctx is None:
            ctx = Ctx(Model(), tier)
        obs = Obs()
        spec['run'](ctx, obs)
        if '--dump' in argv:
            for o in obs:
                if o.status != 'ok' or '--ok' in argv:
                    print('%-9s %s  [%s] %s' % (o.status, o.key, o.where, o.detail[:int(os.environ.get('W', 300))]))
        r = report(p, obs, tier, t0, spec['rule'], spec.get('floor', 1), ctx,
                   assumptions=spec.get('assumptions', ()))
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


if __name__ == '__main__':
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 4)
