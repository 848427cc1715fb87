"""Obligation programs (drivers/use/u_*.cpp): laws written against the public interface, interpreted abstractly for arbitrary contents
on every partition of small shapes. A law is a violation only when a feasible path with a concrete witness refutes it."""
import os
import sys
import time
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from .common import VERIF, REPO, BUILD, TOOL, Finding, CheckError, ensure_tool, tree_hash, FLAGS
from vx import ir, use, small

TRUST = ['clang 18 front end (AST of the law programs and of the library code they instantiate)',
         'in-house exporter tool/vifx.cpp and abstract interpreter vx/', 'hand-written models of the standard library in vx/summ.py',
         'shapes: each dimension of 0, 1, 2 or 3 (and mixed) with arbitrary contents; floating-point values ordered, operations uninterpreted']
# one dimension size per partition: 0..3 for all, s: mixed small, c: mixed larger
LABELS = ['0', '1', '2', '3', 's', 'c']


def export(names):
    import subprocess
    ensure_tool()
    d = os.path.join(BUILD, 'exp')
    cur = os.path.join(d, tree_hash())
    os.makedirs(cur, exist_ok=True)

    def one(n):
        out = os.path.join(cur, n + '.jsonl')
        if os.path.exists(out):
            return out
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([TOOL, os.path.join(VERIF, 'drivers', 'use', n + '.cpp'), '-o', tmp, '--root', REPO + '/', '--root', os.path.join(VERIF, 'drivers') + '/', '--'] + FLAGS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(tmp):
            raise CheckError('export of %s failed: %s' % (n, r.stdout[-1500:]))
        with open(out + '.log', 'w') as f:
            f.write(r.stdout)
        os.rename(tmp, out)
        return out
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(names, ex.map(one, names)))


_items = []
_tier = 'quick'


def laws(P):
    for f in P.funs.values():
        if f.file.startswith(os.path.join(VERIF, 'drivers', 'use')) and f.sn.startswith('use_') and not f.d.get('inst') and f.d['p'] and f.d.get('body') \
                and not f.sn.rsplit('::', 1)[-1].startswith(('operator', 'h_')) and 'cls' not in f.d:
            yield f


def _job(i):
    sys.setrecursionlimit(20000)
    P, f, lab = _items[i]
    t0 = time.time()
    try:
        R = use.analyse(P, f, lab, tmax=8.0 if _tier == 'quick' else 60.0, budget=250000 if _tier == 'quick' else 2000000)
    except Exception as ex:   # engine limitation: this partition is not decided
        return i, 'exc ' + repr(ex)[:60], {}, [], [], time.time() - t0, []
    src = {}
    obs = []
    if not R.err or R.obls:
        obs = [(o.kind, o.file, o.line, o.msg, o.model, o.path) for o in R.obls if o.status == 'refuted']
    bad = [(str(getattr(s, 'get', lambda *a: s)('l', '') if isinstance(s, dict) else s)[:120], m) for s, m in R.bad]
    return i, R.err, {k: tuple(v) for k, v in R.use.n.items()}, bad, obs, time.time() - t0, sorted(R.E.inl)


def check(names, tier='quick'):
    global _items, _tier
    _tier = tier
    ps = export(names)
    _items = []
    nl = 0
    fs = {}
    for n in names:
        P = ir.Program(ps[n], n)
        if P.errors:
            log = open(ps[n] + '.log').read() if os.path.exists(ps[n] + '.log') else ''
            es = [x for x in log.split('\n') if ' error: ' in x]
            if not es or any('ambiguous' in x or 'file not found' in x for x in es):
                raise CheckError('law file %s does not compile against the current tree (%d errors)' % (n, P.errors))
            fs['compile/' + n] = Finding('compile/' + n, 'legal client programs of the public interface no longer compile: ' + es[0].replace(VERIF + '/', '')[:300],
                                         es[0].split(': error')[0].replace(VERIF + '/', '').replace('/repo/', ''))
            continue
        for f in laws(P):
            nl += 1
            for l in (LABELS if small.has_vec(f) or any("std::" in f.P.T[p["t"]] for p in f.d["p"]) else LABELS[-2:]):
                _items.append((P, f, l))
    if not _items and not fs:
        raise CheckError('no law left to analyse')
    cov = {'laws': nl, 'partitions': len(_items), 'undecided_partitions': 0, 'obligations': 0, 'discharged': 0, 'unknown': 0, 'functions_inlined': set(), 'undecided': []}
    with mp.Pool(8) as pool:
        for i, err, n, bad, obs, dt, inl in pool.imap_unordered(_job, range(len(_items)), chunksize=2):
            P, f, lab = _items[i]
            nm = f.sn
            if err:
                cov['undecided_partitions'] += 1
                cov['undecided'].append('%s[%s]: %s' % (nm, lab, err[:40]))
            cov['functions_inlined'].update(inl)
            for (file, line), (st, msg) in sorted(n.items()):
                cov['obligations'] += 1
                if st == 'proven' and not err:
                    cov['discharged'] += 1
                elif st == 'refuted':
                    key = '%s/%s' % (nm, 'expect')
                    text = source(file, line)
                    fs.setdefault(key, Finding(key, 'law "%s" does not hold for shapes [%s]: "%s" is false when %s' % (nm, lab, text, msg or 'always'),
                                               '%s:%s' % (file.replace(VERIF + '/', ''), line)))
                else:
                    cov['unknown'] += 1
            for site, m in bad:
                key = '%s/stops' % nm
                fs.setdefault(key, Finding(key, 'law "%s": valid inputs stop with an error for shapes [%s] when %s (%s)' % (nm, lab, m or 'always', site),
                                           '%s:%s' % (f.file.replace(VERIF + '/', ''), f.l)))
            for k, file, line, msg, model, path in obs:
                key = '%s/%s' % (nm, k)
                fs.setdefault(key, Finding(key, 'law "%s": %s: %s when %s' % (nm, k, msg, model or 'always'), '%s:%s via %s' % (file.replace('/repo/', ''), line, path)))
    cov['functions_inlined'] = len(cov['functions_inlined'])
    cov['undecided'] = sorted(cov['undecided'])[:40]
    cov['explanation'] = ('laws are client programs of the public interface; each is interpreted abstractly for arbitrary element values on every listed '
                          'partition of shapes; "discharged" counts the expectations proven on every path of a partition')
    cov['rule'] = 'a feasible path of a law (exact state, concrete witness) on which an expectation is false, an error is raised (or, in a law named rejects_*, the end is reached), memory is accessed out of bounds or a loop has no way out is a violation'
    return list(fs.values()), cov


_src = {}


def source(file, line):
    if file not in _src:
        try:
            _src[file] = open(file).read().split('\n')
        except OSError:
            _src[file] = []
    s = _src[file][line - 1].strip() if 0 < line <= len(_src[file]) else ''
    return s[:160]


def law_check(names):
    def c(tier):
        fs, cov = check(names, tier)
        return fs, cov, TRUST
    return c


def both(*cs):
    """several analyses deciding one property"""
    def c(tier):
        fs, cov, tb = [], {}, []
        for k in cs:
            f, v, t = k(tier)
            fs += f
            tb += [x for x in t if x not in tb]
            for n, x in v.items():
                if n in cov and isinstance(x, (int, float)) and isinstance(cov[n], (int, float)):
                    cov[n] += x
                elif n in cov and isinstance(x, str):
                    cov[n] = cov[n] + '; ' + x
                else:
                    cov.setdefault(n, x)
        return fs, cov, tb
    return c
