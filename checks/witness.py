"""Compile-time witnesses (witness/*.txt): programs the type system has to reject, each with a minimally different twin it has to
accept, and types the expressions have to have. Decided by the clang front end on the current headers; nothing is run."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import VERIF, BUILD, FLAGS, Finding, CheckError, sha, tree_hash, ensure_tool

CXX = 'clang++-18'
PRE = '''#include <functional>
#include <vif.hpp>
#include <vif/utility/thread.hpp>
#include <vif/math/optimize.hpp>
using namespace vif;
namespace wit {
extern vec1d d1; extern vec2d d2; extern vec3d d3; extern vec1f f1; extern vec2f f2; extern vec1i i1; extern vec2i i2; extern vec1u u1; extern vec2u u2;
extern vec1b b1; extern vec2b b2; extern vec1s s1; extern vec2s s2; extern vec1c c1; extern matrix::mat2d m2;
extern const vec1d cd1; extern const vec2d cd2; extern const vec1i ci1; extern const vec1u cu1; extern const vec1b cb1; extern const vec1s cs1;
extern double d; extern float f; extern int i; extern int_t l; extern uint_t u; extern bool b; extern std::string s; extern std::complex<double> z; extern vec1cd z1;
struct cmp_t { bool operator()(double, double) const; };
}
using namespace wit;
'''


def load(name):
    out = []
    for line in open(os.path.join(VERIF, 'witness', name)):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        out.append([x.strip() for x in re.split(r' \| ', line)])
    return out


def compile_(args, src):
    p = subprocess.run([CXX] + [x for x in FLAGS if not x.startswith('-ferror')] + ['-ferror-limit=0', '-fno-caret-diagnostics'] + args + ['-'],
                       input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def setup():
    ensure_tool()
    d = os.path.join(BUILD, 'wit')
    os.makedirs(d, exist_ok=True)
    pch = os.path.join(d, 'w.%d.pch' % os.getpid())
    hdr = os.path.join(d, 'w.%d.hpp' % os.getpid())
    with open(hdr, 'w') as f:
        f.write(PRE)
    r = subprocess.run([CXX] + FLAGS + ['-x', 'c++-header', hdr, '-o', pch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(pch):
        raise CheckError('the headers do not compile:\n' + r.stdout[-1500:])
    return pch, hdr


def first_error(out):
    for l in out.splitlines():
        if ' error: ' in l or 'fatal error:' in l:
            return l.replace('/repo/', '')[:220]
    return out[:200]


def twins(rows):
    """source with one function per accepted program, line i+1 = rows[i]"""
    return '\n'.join('void wit_%d() { %s }' % (i, c) for i, c in enumerate(rows)) + '\n'


def blame(out, n):
    """lines of the witness file at which an error (or the instantiation that caused it) is reported"""
    bad = {}
    cur = None
    for l in out.splitlines():
        m = re.match(r'^(\S+?):(\d+):\d+: (error|fatal error|note): (.*)', l)
        if not m:
            continue
        f, ln, k, msg = m.groups()
        if k != 'note':
            cur = l
        if f == '<stdin>' and 1 <= int(ln) <= n and (k != 'note' or 'requested here' in msg):
            bad.setdefault(int(ln) - 1, (cur or l).replace('/repo/', '')[:220])
    return bad


def check(tier):
    rej = load('reject.txt')
    typ = load('types.txt')
    fs = []
    pch, hdr = setup()
    try:
        A = ['-include-pch', pch, '-fsyntax-only', '-x', 'c++']
        good = [r[3] for r in rej]
        acc = ['using wt = decltype(%s); static_assert(std::is_same<wt, %s>::value, "type");' % (r[2], r[3]) if r[3] != '-' else r[2] for r in typ]
        allgood = [pre_decl(c) + c for c in good + acc]
        # accepted programs: in blocks so that a failure cannot hide another
        nb = 8
        blocks = [list(range(i, len(allgood), nb)) for i in range(nb)]

        def pos(b):
            rc, out = compile_(A, twins([allgood[i] for i in b]))
            if rc == 0:
                return {}
            bad = {b[k]: v for k, v in blame(out, len(b)).items()}
            # an instantiation that fails is reported once only: settle the rest one by one
            for i in b:
                if i not in bad:
                    rc, o = compile_(A, twins([allgood[i]]))
                    if rc != 0:
                        bad[i] = first_error(o)
            return bad

        def neg(i):
            rc, out = compile_(A, twins([rej[i][2]]))
            return rc != 0
        with ThreadPoolExecutor(8) as ex:
            pj = [ex.submit(pos, b) for b in blocks]
            nj = [ex.submit(neg, i) for i in range(len(rej))]
            bad = {}
            for j in pj:
                bad.update(j.result())
            okneg = [j.result() for j in nj]
    finally:
        for p in (pch, hdr):
            if os.path.exists(p):
                os.remove(p)
    for i, e in sorted(bad.items()):
        if i < len(rej):
            fs.append(Finding('accept/' + rej[i][0], 'a legal program is rejected: `%s` (%s)' % (rej[i][3], e), 'witness/reject.txt:' + rej[i][0]))
        else:
            r = typ[i - len(rej)]
            fs.append(Finding('type/' + r[0], '%s: `%s` %s (%s)' % (r[1], r[2], 'should have type ' + r[3] if r[3] != '-' else 'should compile', e), 'witness/types.txt:' + r[0]))
    for i, ok in enumerate(okneg):
        if not ok:
            fs.append(Finding('reject/' + rej[i][0], 'the type system lost a guarantee (%s): `%s` compiles' % (rej[i][1], rej[i][2]), 'witness/reject.txt:' + rej[i][0]))
    n = len(rej) * 2 + len(typ)
    cov = {'obligations': n, 'discharged': n - len(fs), 'rejected_programs': len(rej), 'accepted_programs': len(rej) + len(typ),
           'rule': 'each witness program is given to the compiler front end with the current headers; a program that must be rejected has a twin, '
                   'different in one construct, that must be accepted, so that a rejection for another reason does not count',
           'explanation': '%d of %d compile-time obligations hold' % (n - len(fs), n), 'samples': [' | '.join(r[:3]) for r in rej[:4]],
           'checker_cmd': 'python3 check.py <ID>', 'trusted_base': 'clang 18 front end'}
    return fs, cov, ['clang 18 front end']


def pre_decl(c):
    return ''
