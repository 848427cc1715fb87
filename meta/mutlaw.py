"""Offline: measures the law checks on systematic mutations of the headers (through a VFS overlay; /repo is not touched).
usage: mutlaw.py base | mutlaw.py run FILE.hpp [max] [seed]"""
import os
import re
import sys
import json
import time
import random
import subprocess
import multiprocessing as mp
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from checks import common, use as cuse
from vx import ir, use, small
FILES = ['u_alias', 'u_core', 'u_elem', 'u_array', 'u_reduce', 'u_interp', 'u_matrix', 'u_chol', 'u_image', 'u_thread', 'u_string', 'u_fit', 'u_astro', 'u_segment', 'u_path', 'u_hull']
BASE = '/tmp/x/mutlaw.json'


def labels(f):
    return cuse.LABELS if small.has_vec(f) or any('std::' in f.P.T[p['t']] for p in f.d['p']) else cuse.LABELS[-1:]


def export(n, out, *extra):
    subprocess.run([common.TOOL, '/verif/drivers/use/%s.cpp' % n, '-o', out, '--root', '/repo/', '--root', '/verif/drivers/'] + list(extra) + ['--'] + common.FLAGS,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return ir.Program(out, n) if os.path.exists(out) else None


def base1(n):
    out = '/tmp/x/ml_%s.jsonl' % n
    P = export(n, out)
    lines = {}
    for f in cuse.laws(P):
        for l in labels(f):
            try:
                R = use.analyse(P, f, l, tmax=5)
            except Exception:
                continue
            for u in R.E.inl:
                g = P.funs.get(u)
                if g is not None and g.file.startswith('/repo/'):
                    lines.setdefault(g.file, []).append((g.l, g.d.get('le', g.l), f.u))
    os.unlink(out)
    return n, {k: sorted(set(v)) for k, v in lines.items()}


def mutants(path):
    lines = open(path).read().split('\n')
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(('//', '#', '*')) or not s or 'template' in s or 'enable_if' in s or s.startswith('typename') or 'vif_check' in s:
            continue

        def sub(pat, rep, name, lim=2):
            for k, m in enumerate(re.finditer(pat, l)):
                if k >= lim:
                    break
                if l[:m.start()].count('"') % 2:
                    continue
                out.append((i + 1, name, lines[:i] + [l[:m.start()] + m.expand(rep) + l[m.end():]] + lines[i + 1:]))
        sub(r' < (?=[\w(-])', ' <= ', '<')
        sub(r' <= ', ' < ', '<=')
        sub(r' > (?=[\w(-])', ' >= ', '>')
        sub(r' >= ', ' > ', '>=')
        sub(r' == ', ' != ', '==')
        sub(r' && ', ' || ', '&&')
        sub(r' \|\| ', ' && ', '||')
        sub(r'\+ ?1\b', '', 'drop +1')
        sub(r'- ?1\b', '', 'drop -1')
        sub(r'\bdims\[0\]', 'dims[1]', 'dims0')
        sub(r'\bdims\[1\]', 'dims[0]', 'dims1')
        sub(r'(?<=[\w\])]) ?\+ ?(?=[\w(])(?!\+)', ' - ', '+ to -')
        sub(r'(?<=[\w\])]) ?- ?(?=[\w(])(?!-)', ' + ', '- to +')
        sub(r'(?<=[\w\])])\*(?=[\w(])', '/', '* to /')
        sub(r'(?<=[\w\])])/(?=[\w(])', '*', '/ to *')
        sub(r' \+= ', ' -= ', '+=')
        sub(r'\[i\]', '[0]', '[i]')
        sub(r'\btrue\b', 'false', 'true')
        sub(r'\bfalse\b', 'true', 'false')
        sub(r'if \(!', 'if (', 'drop !')
        if re.match(r'^\s*[\w.\->\[\](), ]+ *(\+|-|\*|/)?= .*;$', l) and not re.match(r'^\s*(const |auto |uint_t |int_t |double |vec)', l) or re.match(r'^\s*[\w.\->]+\.(resize|push_back|clear)\(.*\);$', l) or re.match(r'^\s*(\+\+|--)[\w.]+;$', l):
            out.append((i + 1, 'drop stmt', lines[:i] + [''] + lines[i + 1:]))
        if re.match(r'^\s*if \(.*\) (return|continue|break)[^;]*;$', l):
            out.append((i + 1, 'drop guard', lines[:i] + [''] + lines[i + 1:]))
    return out


def one(arg):
    path, line, name, content, B, wd = arg
    cov = [(n, [u for a, b, u in B[n].get(path, []) if a <= line <= b]) for n in FILES]
    cov = [(n, us) for n, us in cov if us]
    if not cov:
        return line, name, 'UNCOVERED', ''
    os.makedirs(wd, exist_ok=True)
    mf = wd + '/m.hpp'
    with open(mf, 'w') as f:
        f.write('\n'.join(content))
    cov.sort(key=lambda c: -len(set(c[1])))
    und = nl = 0
    for n, us in cov[:3]:
        P = export(n, wd + '/o.jsonl', '--map', path, mf)
        if P is None or P.errors:
            return line, name, 'nocompile', ''
        t0 = time.time()
        us = sorted(set(us))
        random.seed(line)
        random.shuffle(us)
        for u in us:
            f = P.funs.get(u)
            if f is None:
                continue
            for l in labels(f)[::-1]:
                if time.time() - t0 > 40:
                    break
                nl += 1
                try:
                    R = use.analyse(P, f, l, tmax=4)
                except Exception:
                    und += 1
                    continue
                if R.bad or any(v[0] == 'refuted' for v in R.use.n.values()) or any(o.status == 'refuted' for o in R.obls):
                    return line, name, 'CAUGHT', f.sn
                if any(v[0] == 'unknown' for v in R.use.n.values()) or R.err:
                    und += 1
    return line, name, 'missed', '%d law partitions, %d undecided, %s' % (nl, und, ','.join(c[0] for c in cov))


def main():
    if sys.argv[1] == 'base':
        common.ensure_tool()
        with mp.Pool(8) as pool:
            json.dump(dict(pool.map(base1, sys.argv[2:] or FILES, chunksize=1)), open(BASE, 'w'))
        return
    B = json.load(open(BASE))
    path = '/repo/include/vif/' + sys.argv[2]
    ms = mutants(path)
    if len(sys.argv) > 3:
        random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
        ms = random.sample(ms, min(len(ms), int(sys.argv[3])))
        ms.sort(key=lambda m: m[0])
    src = open(path).read().split('\n')
    args = [(path, a, b, c, B, '/tmp/x/ml/%d' % i) for i, (a, b, c) in enumerate(ms)]
    with mp.get_context('fork').Pool(7) as pool:
        for a, b, st, x in pool.imap_unordered(one, args):
            print('%-9s %d [%s] %s | %s' % (st, a, b, src[a - 1].strip()[:100], x[:120]), flush=True)
    subprocess.run(['rm', '-rf', '/tmp/x/ml'])


main()
