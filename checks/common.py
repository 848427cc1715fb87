"""Shared infrastructure of the checks: build the exporter, export the current tree, report."""
import os
import sys
import json
import time
import hashlib
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'vifx')
RES = '/usr/lib/llvm-18/lib/clang/18'
FLAGS = ['-std=c++11', '-I' + REPO + '/include', '-I/usr/include/libdwarf', '-DNO_REFLECTION', '-w', '-ferror-limit=0',
         '-resource-dir', RES]
TUS = ['d_core', 'd_util', 'd_math', 'd_io', 'd_astro', 'd_thread']
# diagnostics of the reference tree that do not come from our drivers
TOLERATED = {'d_thread': 1}


class CheckError(Exception):
    pass


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'vifx.cpp')
    hf = os.path.join(BUILD, 'vifx.hash')
    want = sha(src)
    if os.path.exists(TOOL) and os.path.exists(hf) and open(hf).read().strip() == want:
        return
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(TOOL):
        raise CheckError('cannot build the exporter:\n' + r.stdout[-2000:])


def tree_hash():
    h = hashlib.sha256()
    for base in ('include', 'tools'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for n in sorted(fs):
                p = os.path.join(d, n)
                h.update(p.encode())
                try:
                    with open(p, 'rb') as f:
                        h.update(f.read())
                except OSError:
                    pass
    for d, ds, fs in os.walk(os.path.join(VERIF, 'drivers')):
        ds.sort()
        for n in sorted(fs):
            with open(os.path.join(d, n), 'rb') as f:
                h.update(f.read())
    with open(TOOL, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def export_file(src, out, extra=(), flags=None):
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([TOOL, src, '-o', tmp, '--root', REPO + '/', '--'] + (flags or FLAGS) + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(tmp):
        raise CheckError('export of %s failed: %s' % (src, r.stdout[-1500:]))
    os.rename(tmp, out)
    return r.stdout


def exports(tus=None):
    """export the driver translation units of the current tree; returns {name: path}"""
    ensure_tool()
    tus = tus or TUS
    d = os.path.join(BUILD, 'exp')
    os.makedirs(d, exist_ok=True)
    hsh = tree_hash()
    cur = os.path.join(d, hsh)
    if not os.path.isdir(cur):
        for n in os.listdir(d):
            subprocess.run(['rm', '-rf', os.path.join(d, n)])
        os.makedirs(cur, exist_ok=True)
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for t in tus:
            out = os.path.join(cur, t + '.jsonl')
            if not os.path.exists(out):
                jobs.append((t, ex.submit(export_file, os.path.join(VERIF, 'drivers', t + '.cpp'), out)))
        for t, j in jobs:
            j.result()
    return {t: os.path.join(cur, t + '.jsonl') for t in tus}


def programs(tus=None):
    from vx import ir
    ps = exports(tus)
    out = []
    for t in (tus or TUS):
        P = ir.Program(ps[t], t)
        if P.errors > TOLERATED.get(t, 0):
            # the drivers only use public interfaces: a tree where they do not compile cannot be analysed
            raise CheckError('driver %s does not compile against the current tree (%d errors)' % (t, P.errors))
        out.append(P)
    return out


class Finding:
    def __init__(self, key, text, where=''):
        self.key = key          # stable identification of the construct (no line numbers)
        self.text = text
        self.where = where


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def finish(pid, tier, findings, coverage, level, t0, assumptions=()):
    known = load_known(pid)
    kk = {k for k, _ in known}
    fresh, seen = [], {}
    for f in findings:
        if f.key in kk:
            seen.setdefault(f.key, f)
        else:
            fresh.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'coverage': coverage, 'wall_s': round(time.time() - t0, 2),
        'assumptions': list(assumptions),
        'violations': len(fresh),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, text in known:
        if k in seen:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, text))
    if fresh:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for x in fresh:
                f.write('%s\n  where: %s\n  %s\n' % (x.key, x.where, x.text))
        for x in fresh[:12]:
            print('%s: %s  [%s]' % (x.where or '?', x.text, x.key))
        if len(fresh) > 12:
            print('... %d more, see %s' % (len(fresh) - 12, rp))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF)))
        return 1
    print('OK property=%s (%.1f s)' % (pid, time.time() - t0))
    return 0
