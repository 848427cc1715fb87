"""Offline: measures the engine checks on systematic mutations of the headers (through a VFS overlay; /repo is not touched).
usage: mutate.py base | mutate.py run FILE.hpp [max]"""
import os
import re
import sys
import json
import time
import subprocess
import multiprocessing as mp
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from checks import common, engine, registry
from vx import ir, run, roots, groups, contract, scen, small

BASE = '/tmp/x/mutbase.json'
TM = {}
for pid, (gs, t) in registry.ENGINE.items():
    for g in gs:
        TM[g] = t


def base():
    Ps = common.programs()
    items = groups.roots(Ps)
    t = time.time()
    res = run.run(items, tmax=3.0)
    out = []
    for r in res:
        P, f, g = items[r[0]]
        out.append((P.name, f.u, g, contract.sig(f), r[6]))
    fn = {}
    for P in Ps:
        for f in P.funs.values():
            if f.file.startswith('/repo/') and f.d.get('body') is not None:
                fn[f.u] = (f.file, f.l, f.d.get('le', f.l))
    json.dump(dict(roots=out, fn=fn), open(BASE, 'w'))
    print(len(out), time.time() - t)


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('//') or s.startswith('#') or s.startswith('*') or not s:
            continue
        if 'template' in s or 'enable_if' in s or s.startswith('typename'):
            continue
        m = re.match(r'^(\s*)vif_check\((.*)$', l)
        if m:
            # disable the check: first top-level comma
            txt = '\n'.join(lines[i:i + 8])
            p = txt.index('vif_check(') + len('vif_check(')
            depth = 0
            for q in range(p, len(txt)):
                c = txt[q]
                if c in '([{':
                    depth += 1
                elif c in ')]}':
                    depth -= 1
                elif c == ',' and depth == 0:
                    break
            new = txt[:p] + '(' + txt[p:q] + ') || true' + txt[q:]
            out.append((i + 1, 'drop check', lines[:i] + new.split('\n') + lines[i + 8:]))

        def sub(pat, rep, name, lim=3):
            for k, m in enumerate(re.finditer(pat, l)):
                if k >= lim:
                    break
                if l[:m.start()].count('"') % 2:
                    continue
                nl = l[:m.start()] + m.expand(rep) + l[m.end():]
                out.append((i + 1, name, lines[:i] + [nl] + lines[i + 1:]))
        sub(r' < (?=[\w(-])', ' <= ', '< to <=')
        sub(r' <= ', ' < ', '<= to <')
        sub(r' > (?=[\w(-])', ' >= ', '> to >=')
        sub(r' >= ', ' > ', '>= to >')
        if 'vif_check' in l or 'if (' in l:
            sub(r' == ', ' >= ', '== to >=')
            sub(r' == ', ' <= ', '== to <=')
            sub(r' && ', ' || ', '&& to ||')
            sub(r' \|\| ', ' && ', '|| to &&')
        sub(r'\+1\b', '', 'drop +1')
        sub(r'-1\b', '', 'drop -1')
        sub(r'\bdims\[0\]', 'dims[1]', 'dims0->1')
        sub(r'\bdims\[1\]', 'dims[0]', 'dims1->0')
        if re.match(r"^\s*[\w.\->\[\]()]+ *(\+|-|\*)?= .*;$", l) or re.match(r'^\s*[\w.\->]+\.(resize|push_back|clear|reserve)\(.*\);$', l) or re.match(r'^\s*(\+\+|--)[\w.]+;$', l):
            out.append((i + 1, 'drop stmt', lines[:i] + [''] + lines[i + 1:]))
        if re.match(r'^\s*if \(.*\) (return|continue|break)[^;]*;$', l):
            out.append((i + 1, 'drop guard', lines[:i] + [''] + lines[i + 1:]))
    return out


def one(arg):
    path, line, name, content, B, wd = arg
    os.makedirs(wd, exist_ok=True)
    mf = wd + '/m.hpp'
    with open(mf, 'w') as f:
        f.write('\n'.join(content))
    us = {u for u, (fl, a, b) in B['fn'].items() if fl == path and a <= line <= b}
    rts = [(t, u, g, s) for t, u, g, s, inl in B['roots'] if u in us or us & set(inl)]
    if not rts:
        return (path, line, name, 'no root', '')
    rts.sort(key=lambda r: (r[1] not in us, r[0]))
    tus = []
    for r in rts:
        if r[0] not in tus and len(tus) < 2:
            tus.append(r[0])
    rts = [r for r in rts if r[0] in tus]
    direct = [r for r in rts if r[1] in us]
    other = [r for r in rts if r[1] not in us]
    rts = direct[:25] + other[::max(1, len(other) // 25)][:25]
    spec = json.load(open('/verif/spec/contracts.json'))
    sspec = json.load(open('/verif/spec/small.json'))
    hits = []
    und = 0
    for t in tus:
        out = wd + '/%s.jsonl' % t
        r = subprocess.run([common.TOOL, '/verif/drivers/%s.cpp' % t, '-o', out, '--root', '/repo/', '--map', path, mf, '--'] + common.FLAGS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            return (path, line, name, 'export failed', r.stdout[-200:])
        P = ir.Program(out, t)
        os.unlink(out)
        if P.errors > common.TOLERATED.get(t, 0):
            return (path, line, name, 'does not compile', '')
        t0 = time.time()
        for tt, u, g, s in rts:
            if tt != t:
                continue
            f = P.funs.get(u)
            if f is None:
                continue
            if time.time() - t0 > 60 or len(hits) > 2:
                break
            try:
                R = roots.analyse(P, f, tmax=TM.get(g, 4))
            except Exception as ex:
                und += 1
                continue
            if R.err:
                und += 1
            for o in R.obls:
                ob = (o.kind, o.file, o.line, o.status, o.msg, o.model, o.path, o.n, o.fn)
                if o.status == 'refuted' and not engine.exempt(f, ob):
                    hits.append('%s %s' % (g, o.kind))
            c = spec.get(contract.sig(f))
            rs = contract.check(f, R, c) if c else []
            rs += contract.check_scen(f, R, list(scen.scen(f)))
            for st, k, text, model in rs:
                if st == 'refuted':
                    hits.append('%s %s %s' % (g, k, text[:60]))
            sp = sspec.get(small.key(f))
            t1 = time.time()
            for l in sorted(sp['p']) if sp and len(hits) < 3 else []:
                if time.time() - t1 > 10:
                    break
                S = small.analyse(P, f, l, tmax=3)
                if S.err:
                    continue
                for o in S.obls:
                    ob = (o.kind, o.file, o.line, o.status, o.msg, o.model, o.path, o.n, o.fn)
                    if o.status == 'refuted' and not engine.exempt(f, ob):
                        hits.append('%s %s [%s]' % (g, o.kind, l))
                for st, k, text, model in small.check(f, S, sp['p'][l]) if sp['p'][l] else []:
                    if st == 'refuted':
                        hits.append('%s %s [%s] %s' % (g, k, l, text[:60]))
    return (path, line, name, 'CAUGHT' if hits else 'missed', '; '.join(hits[:2]) if hits else '%d roots, %d undecided' % (len(rts), und))


def main():
    if sys.argv[1] == 'base':
        return base()
    B = json.load(open(BASE))
    path = '/repo/include/vif/' + sys.argv[2]
    ms = mutants(path)
    if len(sys.argv) > 3:
        import random
        random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
        ms = random.sample(ms, min(len(ms), int(sys.argv[3])))
        ms.sort(key=lambda m: m[0])
    src = open(path).read().split('\n')
    args = [(path, a, b, c, B, '/tmp/x/mut/%d' % i) for i, (a, b, c) in enumerate(ms)]
    with mp.get_context('fork').Pool(8) as pool:
        for r in pool.imap_unordered(one, args):
            print('%-8s %s:%d [%s] %s | %s' % (r[3], os.path.basename(r[0]), r[1], r[2], src[r[1] - 1].strip()[:90], r[4][:150]), flush=True)
    subprocess.run(['rm', '-rf', '/tmp/x/mut'])


main()
