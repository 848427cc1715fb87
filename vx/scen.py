"""Guarded requirements written by hand from the documentation: premises => facts at every normal exit, and
(optionally) inputs satisfying the premises must not be rejected.

scen(f) yields (name, premises, facts, accept) in the vocabulary of vx/contract.py."""
import re
import itertools
from .ir import vecinfo, base, noref, kind

SIGNED = ('int', 'long', 'short', 'long long', 'signed char', 'char')
UNS = ('unsigned long', 'unsigned int', 'unsigned short', 'unsigned long long', 'unsigned char')


def plain(t):
    t = noref(t).strip()
    if t.startswith('const '):
        t = t[6:]
    return t.strip()


def scen(f):
    T = f.P.T
    name = f.sn.rsplit('::', 1)[-1]
    ps = [plain(T[p['t']]) for p in f.d['p']]
    cls = base(T[f.d['cls']]) if 'cls' in f.d else ''
    yield from access(f, name, ps, cls)


def access(f, name, ps, cls):
    m = re.match(r'^vif::vec<(\d+), (.*)>(::safe_proxy)?$', cls)
    if not m or name not in ('operator[]', 'operator()') or not ps:
        return
    D, safe = int(m.group(1)), bool(m.group(3))
    if not all(t in SIGNED + UNS for t in ps):
        return
    if name == 'operator[]':
        dims = ['this.n']
    elif len(ps) == D:
        dims = ['this.n'] if D == 1 else ['this.d%d' % i for i in range(D)]
    else:
        return
    if safe:
        dims = [d.replace('this.', 'this.parent.') for d in dims]
    for neg in itertools.product(*[[False, True] if t in SIGNED and not safe else [False] for t in ps]):
        pre, idx = [], []
        for i, (t, ng, d) in enumerate(zip(ps, neg, dims)):
            if ng:
                pre += [('ge', -1, 'a%d' % i), ('nn', 'a%d' % i, d)]
                idx.append('(a%d+%s)' % (i, d))
            else:
                pre += [('ge', 'a%d' % i, 0), ('gt', d, 'a%d' % i)]
                idx.append('a%d' % i)
        off = idx[0]
        for i in range(1, len(idx)):
            off = '((%s)*%s)+%s' % (off, dims[i], idx[i])
        lab = 'negative' if all(neg) else 'mixed-sign' if any(neg) else 'non-negative'
        yield ('valid %s index' % lab, pre, [('eq', 'ret@', off)], True)
        # one index too far is never accepted
    if safe:
        return
    for i, (t, d) in enumerate(zip(ps, dims)):
        yield ('index past the end', [('ge', 'a%d' % i, d)], None, False)
