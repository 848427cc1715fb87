"""Offline: builds and validates planted bugs from meta/seeds.py into seeded/<id>/. usage: mkseed.py [id...]"""
import os
import sys
import json
import shutil
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.path.join(V, 'meta')
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = (prop, edits, demo, needs, breaks)


exec(open(os.path.join(M, 'seeds.py')).read())


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(id, work):
    prop, edits, demo, needs, breaks = SEEDS[id]
    sh('git -C %s checkout -q -- .' % work)
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(M + '/demo.sh', d)
    shutil.copy(M + '/demo.hpp', d)
    with open(d + '/demo.cpp', 'w') as f:
        f.write('#include "demo.hpp"\n' + demo.strip() + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=work)
    if r.returncode != 0:
        return 'demo fails on clean tree: ' + r.stdout[-700:]
    for fl, old, new in edits:
        p = os.path.join(work, fl)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times: %s' % (s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % work).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = sh('bash %s/demo.sh' % d, cwd=work)
    if r.returncode not in (1,):
        return 'demo on patched tree: %d %s' % (r.returncode, r.stdout[-500:])
    msg = r.stdout.strip().splitlines()[:1]
    sh('git -C %s checkout -q -- .' % work)
    return 'ok %s' % msg


def tests(id):
    d = os.path.join(V, 'seeded', id)
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        return 'does not apply ' + a.stdout
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            return 'BUILD FAILS ' + b.stdout[-300:]
        t = sh('bash /opt/vp/test.sh /tmp/x/t.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        now = json.load(open('/tmp/x/t.json'))
        stable = base.get('stable_pass') or base.get('stable') or base.get('passed') or base.get('tests')
        ps = set(now.get('passed', []))
        miss = [x for x in stable if x not in ps]
        return 'tests ok' if not miss else 'TESTS FAIL %s' % miss[:3]
    finally:
        sh('git -C /repo checkout -- .')


def main():
    ids = sys.argv[1:] or list(SEEDS)
    work = '/tmp/x/seedwork'
    sh('rm -rf /tmp/x/seedwork; git clone -q /repo /tmp/x/seedwork')
    for id in ids:
        r = make(id, work)
        if r.startswith('ok'):
            r += ' | ' + tests(id)
        print(id, SEEDS[id][0], r, flush=True)
    sh('rm -rf /tmp/x/seedwork')
    sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    main()
