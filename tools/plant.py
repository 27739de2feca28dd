#!/usr/bin/env python3
"""Development tool: materialise and verify planted bugs.
   plant.py make SPEC.py [ID..]   write /verif/seeded/<id>/ from the specs and try the demos on a patched scratch copy
   plant.py detect [ID..]         run the property's check against a patched scratch copy
   plant.py test [ID..]           run the stable tests on a patched scratch copy (slow)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(tag, light=True):
    d = '/tmp/plant/%s' % tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo %s/repo' % d)
    return d + '/repo'


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        if ids and b['id'] not in ids:
            continue
        r = copy(b['id'])
        bad = False
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('!!', b['id'], f, 'matches', s.count(old), repr(old)[:60])
                bad = True
                break
            bl = sh('git -C /repo blame -s %s' % f).stdout.split('\n')
            l0 = s[:s.index(old)].count('\n')
            src = s.split('\n')
            nw = s.replace(old, new).split('\n')
            if all(not x.startswith('^') for x in bl[l0:l0 + old.count('\n') + 1]):
                print('!! warning: edit not on original lines', b['id'], bl[l0])
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        d = os.path.join(SEED, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % r).stdout)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if any(f.endswith(('.c', '.pyx', '.h')) for f, _, _ in b['edits']):
            sh('/opt/venv/bin/python setup.py build_ext --inplace --force', cwd=r)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('bash %s/demo.sh' % d, cwd=r)
        print(b['id'], 'clean rc', a.returncode, 'patched rc', c.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '', (c.stdout + c.stderr).strip()[-200:])
        det(b['id'], r)
        shutil.rmtree(os.path.dirname(r))


def det(i, r):
    prop = json.load(open(os.path.join(SEED, i, 'meta.json')))['property']
    o = sh('python3 %s/run.py %s' % (V, prop), env=dict(os.environ, SA_REPO=r))
    caught = o.returncode == 1 and 'VIOLATION property=' + prop in o.stdout
    print('   ', i, prop, 'CAUGHT' if caught else 'MISSED rc=%d' % o.returncode, '|', o.stdout.strip().split('\n')[0][:230], o.stderr[-200:])
    return caught


def patched(i, build=False):
    r = copy(i)
    p = os.path.join(SEED, i, 'patch.diff')
    o = sh('git apply %s' % p, cwd=r)
    if o.returncode:
        print('!!', i, 'does not apply', o.stderr[:200])
        shutil.rmtree(os.path.dirname(r))
        return None
    if build and any(x in open(p).read() for x in ('.c\n', '.pyx\n')):
        sh('/opt/venv/bin/python setup.py build_ext --inplace --force', cwd=r)
    return r


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        from concurrent.futures import ThreadPoolExecutor
        def work(i):
            r = patched(i, cmd == 'test')
            if r is None:
                return
            if cmd == 'detect':
                det(i, r)
            else:
                o = sh('bash /tmp/tools/vtest.sh %s' % r)
                open('/tmp/plant/%s.res' % i, 'w').write(o.stdout)
                print(i, o.stdout.strip()[:600], flush=True)
            shutil.rmtree(os.path.dirname(r))
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        if cmd == 'detect':
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(work, ids))
        else:
            for i in ids:
                if os.path.exists('/tmp/plant/%s.res' % i) and 'lost 0' in open('/tmp/plant/%s.res' % i).read():
                    continue
                work(i)
