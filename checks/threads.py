"""Concurrency discipline: locks around shared state and non-reentrant libraries, publication order of the queue between two threads,
shutdown of worker threads. Path-sensitive flow over the syntax trees, callees of the library inlined."""
import re
from .common import programs, Finding, CheckError
from vx.flow import Flow, Out
from vx import ir

LOCKS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')
# libraries whose routines must not run concurrently
FAMILY = (('fftw', re.compile(r'^fftw[fl]?_(plan_\w+|destroy_plan|cleanup|import_\w+|export_\w+|forget_wisdom|init_threads)$')),
          ('wcs', re.compile(r'^(wcspih|wcsbth|wcsset)$')))
DEPTH = 12


def strip(e):
    while e and (e['k'] == 'cast' or e['k'] == 'ctor' and len(e.get('a', ())) == 1 and e.get('el')):
        e = e['e'] if e['k'] == 'cast' else e['a'][0]
    return e


def short(fn):
    return re.sub(r'.*::', '', ir.strip_targs(fn or ''))


class EF(Flow):
    """flow that inlines the library's own functions; client: event(kind, data, e, s) -> states"""
    FILES = re.compile(r'/vif/')

    def __init__(self, P):
        Flow.__init__(self, P)
        self.T = P.T
        self.depth = 0
        self.rets = []
        self.stack = []

    def inl(self, e):
        if e['k'] not in ('call', 'ctor') or self.depth >= DEPTH:
            return None
        g = self.P.funs.get(e.get('u'))
        if g is None or not g.d.get('body') or not self.FILES.search(g.file) or g in self.stack:
            return None
        return g if self.wants(g) else None

    def wants(self, g):
        return True

    def enter(self, g, e, s):
        return (s,)

    def exit(self, g, e, s):
        return (s,)

    def run_inlined(self, g, e, S, boolean):
        T, F, R = set(), set(), set()
        S0 = set()
        for s in S:
            S0.update(self.enter(g, e, s))
        self.depth += 1
        self.stack.append(g)
        self.rets.append((boolean, T, F, R))
        cur = self.cur
        try:
            S1 = S0
            if g.d.get('ck') == 'ctor':
                self.cur = Out()
                for i in g.d.get('inits', ()):
                    if i.get('e'):
                        S1 = self.ev(i['e'], S1)
            o = self.st(g.d['body'], S1)
        finally:
            self.cur = cur
            self.depth -= 1
            self.stack.pop()
            self.rets.pop()
        ex = lambda X: set(y for s in X for y in self.exit(g, e, s))
        return ex(T), ex(F), ex(R | o.norm)

    def st_(self, k, x, S, o):
        if k == 'ret' and self.rets:
            boolean, T, F, R = self.rets[-1]
            if x.get('e'):
                if boolean:
                    t, f = self.evc(x['e'], S)
                    T |= t
                    F |= f
                    return
                S = self.ev(x['e'], S)
            r = set()
            for s in S:
                r.update(self.retst(x, s))
            R |= r
            return
        Flow.st_(self, k, x, S, o)

    def evc(self, e, S):
        c = e
        while c and c['k'] == 'cast':
            c = c['e']
        if c and c['k'] == 'call' and S:
            g = self.inl(c)
            if g is not None and ir.base(self.P.T[g.d['rt']]) == 'bool':
                S = self.args(c, S)
                t, f, r = self.run_inlined(g, c, S, True)
                return t | r, f | r
        return Flow.evc(self, e, S)

    def args(self, e, S):
        for c in ('ce', 'obj', 'a'):
            v = e.get(c)
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x:
                    S = self.ev(x, S)
        return S

    def ev(self, e, S):
        if e is not None and S and e['k'] in ('call', 'ctor'):
            g = self.inl(e)
            if g is not None:
                S = self.args(e, S)
                S = self.apply(e, S)
                return self.run_inlined(g, e, S, False)[2]
        return Flow.ev(self, e, S)


# ---------------------------------------------------------------- locks
def mutex_key(e):
    e = strip(e)
    if e['k'] == 'call':
        return short(e.get('fn'))
    if e['k'] == 'mem':
        return e['f']
    if e['k'] == 'ref':
        return e.get('n')
    return None


class Held(EF):
    """state: frozenset of ('l', var id, mutex) locks; subclass adds others"""

    def lockvar(self, v):
        t = self.T[v['t']]
        return ir.noref(t).startswith(LOCKS)

    def decl(self, v, s):
        if self.lockvar(v):
            i = strip(v.get('init')) if v.get('init') else None
            if i is not None and i['k'] in ('ctor', 'init') and i.get('a'):
                if len(i['a']) > 1 and 'defer' in str(self.T[i['a'][1]['t']]):
                    return (s | {('d', v['id'], mutex_key(i['a'][0]))},)
                return (s | {('l', v['id'], mutex_key(i['a'][0]))},)
            if i is not None and i['k'] == 'call':
                return (s | {('l', v['id'], None)},)
        return (s,)

    def leave(self, x, s):
        ids = {v['id'] for y in x['s'] if y and y['k'] == 'decl' for v in y['v']}
        if not ids:
            return (s,)
        return (frozenset(q for q in s if q[0] not in ('l', 'd') or q[1] not in ids),)

    def held(self, s):
        return {q[2] for q in s if q[0] in ('l', 'm')}

    def node(self, e, s):
        if e['k'] == 'call':
            fn = e.get('fn', '')
            if e.get('obj') is not None and short(fn) in ('lock', 'unlock', 'try_lock'):
                o = strip(e['obj'])
                t = ir.noref(self.T[o['t']])
                if t.startswith('std::') and 'mutex' in t and not t.startswith(LOCKS):
                    k = mutex_key(o)
                    if short(fn) == 'lock':
                        return (s | {('m', 0, k)},)
                    return (frozenset(q for q in s if q != ('m', 0, k)),)
                if t.startswith(LOCKS) and o['k'] == 'ref':
                    if short(fn) == 'lock':
                        return (frozenset(('l', q[1], q[2]) if q[0] == 'd' and q[1] == o['id'] else q for q in s),)
                    return (frozenset(('d', q[1], q[2]) if q[0] == 'l' and q[1] == o['id'] else q for q in s),)
        return (s,)


class Libs(Held):
    def __init__(self, P, reach):
        Held.__init__(self, P)
        self.reach = reach
        self.sites = {}
        self.memo = {}

    def wants(self, g):
        return g.d['u'] in self.reach

    def run_inlined(self, g, e, S, boolean):
        # effects of the callee on the caller's locks: none
        for s in S:
            k = (g.d['u'], s)
            if k not in self.memo:
                self.memo[k] = True
                EF.run_inlined(self, g, e, {s}, False)
        return set(S), set(S), set(S)

    def node(self, e, s):
        if e['k'] == 'call':
            for n, r in FAMILY:
                if r.match(e.get('fn', '')):
                    f = self.stack[-1]
                    self.sites.setdefault((n, f.file, e['l'], e['fn'], f.sn), []).append(self.held(s))
        return Held.node(self, e, s)


def callees(f):
    out = set()
    for k in ('body', 'inits'):
        if f.d.get(k):
            for n in ir.nodes(f.d[k], lambda x: x.get('k') in ('call', 'ctor', 'lambda') and x.get('u')):
                out.add(n['u'])
    return out


def lib_rule(Ps, fs, cov):
    sites = {}
    for P in Ps:
        direct = set()
        calls = {}
        for u, f in P.funs.items():
            if not f.d.get('body') or '/vif/' not in f.file:
                continue
            calls[u] = callees(f)
            for n in ir.nodes(f.d['body'], lambda x: x.get('k') == 'call' and any(r.match(x.get('fn') or '') for _, r in FAMILY)):
                direct.add(u)
        reach = set(direct)
        ch = True
        while ch:
            ch = False
            for u, c in calls.items():
                if u not in reach and c & reach:
                    reach.add(u)
                    ch = True
        called = set()
        for u in reach:
            called |= calls[u] - {u}
        for u in reach:
            if u in called:
                continue
            L = Libs(P, reach)
            f = P.funs[u]
            L.stack.append(f)
            try:
                L.function(f, {frozenset()})
            except (OverflowError, RecursionError):
                continue
            for k, v in L.sites.items():
                sites.setdefault(k, []).extend(v)
    fam = {}
    for (n, file, l, fn, sn), hs in sites.items():
        fam.setdefault(n, []).append((file, l, fn, sn, hs))
    for n, r in FAMILY:
        if not fam.get(n):
            raise CheckError('no call of the %s library found' % n)
        # the mutex of the family: the one held most often
        cnt = {}
        for file, l, fn, sn, hs in fam[n]:
            for h in hs:
                for m in h:
                    cnt[m] = cnt.get(m, 0) + 1
        # a mutex that is not the same object for all threads protects nothing
        for P in Ps:
            for f in P.funs.values():
                if f.sn.rsplit('::', 1)[-1] in cnt and f.d.get('body'):
                    for d in ir.nodes(f.d['body'], lambda x: x.get('k') == 'decl'):
                        for v in d['v']:
                            t = P.T[v['t']]
                            if t.startswith('std::') and 'mutex' in t and (v.get('tls') or not v.get('static')):
                                cnt.pop(f.sn.rsplit('::', 1)[-1], None)
        best = max(cnt, key=lambda m: cnt[m]) if cnt else None
        for file, l, fn, sn, hs in fam[n]:
            cov['lock'] += 1
            if best is None or any(best not in h and None not in h for h in hs):
                key = 'unlocked/%s/%s' % (sn, fn)
                fs.setdefault(key, Finding(key, '%s is not reentrant and is called in %s without holding %s on some path' % (fn, sn, best or 'a mutex'),
                                           '%s:%s' % (file.replace('/repo/', ''), l)))


# ---------------------------------------------------------------- shared state of parallel loops
def atomic_op(P, e):
    """(field expr, 'r'/'w', memory order text) of an operation on an atomic"""
    if e['k'] != 'call' or not e.get('obj'):
        return None
    n = ir.strip_targs(e.get('fn', ''))
    if not n.startswith(('std::atomic::', 'std::__atomic_base::')):
        return None
    m = n.rsplit('::', 1)[-1]
    order = None
    for a in e['a']:
        b = strip(a)
        if 'memory_order' in P.T[b['t']] and not b.get('dflt'):
            order = b.get('n') or b.get('v')
    w = not (m == 'load' or m.startswith('operator ') or e.get('conv'))
    return e['obj'], 'w' if w else 'r', order, m


class Shared(Held):
    """accesses to the fields of classes that own a mutex, in code run by threads and while threads run"""

    def __init__(self, P, side):
        Held.__init__(self, P)
        self.acc = {}
        self.side = side
        self.caps = frozenset()
        self.capw = {}

    def wants(self, g):
        return '/thread-' in g.file or 'parallel' in g.file

    def cls(self, e):
        return ir.noref(self.T[e['o']]) if 'o' in e else None

    def rec(self, e, s, w):
        c = self.cls(e)
        f = self.stack[-1]
        self.acc.setdefault((c, e['f']), []).append((w, self.held(s), f.sn, f.file, e['l'], ('run',) in s))

    def node(self, e, s):
        k = e['k']
        if k == 'mem' and 'o' in e and ('run',) in s | ({('run',)} if self.side == 'thread' else set()):
            self.rec(e, s, False)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '<=', '>=', '!=') or k == 'un' and ('++' in e['op'] or '--' in e['op']):
            x = strip(e['x'] if k == 'bin' else e['e'])
            if x['k'] == 'mem' and 'o' in x:
                self.rec(x, s, True)
            if x['k'] == 'ref' and x.get('id') in self.caps and self.side == 'thread' and not self.held(s):
                self.capw[(x['n'], self.stack[-1].sn)] = (self.stack[-1].file, e['l'])
        if self.side == 'owner':
            if k == 'ctor' and ir.strip_targs(e.get('fn', '')) == 'std::thread::thread' and e.get('a'):
                return (s | {('run',)},)
            if k == 'call' and e.get('fn') == 'std::thread::join':
                return (s - {('run',)},)
        return Held.node(self, e, s)

    def leave(self, x, s):
        return Held.leave(self, x, s)

    def loop(self, k, x, S, o):
        Flow.loop(self, k, x, S, o)
        if any(('run',) in s for s in S) and any(('run',) not in s for s in o.norm) and self.side == 'owner':
            # a loop that waits for the threads waits for all of those started by a loop over the same workers
            o.norm = {s for s in o.norm if ('run',) not in s} | {s for s in o.norm if ('run',) in s and s not in S}


def thread_entries(P):
    """(lambda node or function, enclosing function) given to std::thread, directly or through a library function"""
    for u, f in P.funs.items():
        if not f.d.get('body') or '/vif/' not in f.file:
            continue
        for kk in ('body', 'inits'):
            if not f.d.get(kk):
                continue
            for n in ir.nodes(f.d[kk], lambda x: x.get('k') == 'ctor' and ir.strip_targs(x.get('fn', '')) == 'std::thread::thread'
                              or x.get('k') == 'call' and ir.strip_targs(x.get('fn', '')).endswith('thread_t::start')):
                for a in n['a']:
                    for l in ir.nodes(a, lambda x: x.get('k') == 'lambda'):
                        yield l, f
                        break
                    else:
                        b = strip(a)
                        while b and b['k'] == 'un' and b['op'] == '&':
                            b = strip(b['e'])
                        if b and b['k'] in ('ref', 'mref', 'fref') and b.get('u') in P.funs:
                            yield P.funs[b['u']], f


def shared_rule(Ps, fs, cov):
    nent = 0
    for P in Ps:
        mx = {}
        for r in P.recs.values():
            fl = {x['n']: ir.noref(P.T[x['t']]) for x in r['fields']}
            if any(t.startswith('std::') and 'mutex' in t for t in fl.values()):
                mx[ir.noref(P.T[r['t']])] = fl
        acc = {}
        for ent, f in thread_entries(P):
            A = Shared(P, 'thread')
            A.stack.append(f)
            body = ent['body'] if isinstance(ent, dict) else ent.d.get('body')
            if isinstance(ent, dict):
                A.caps = frozenset(c['id'] for c in ent['caps'] if c.get('ref') and 'id' in c)
            nent += 1
            try:
                A.cur = Out()
                A.st(body, {frozenset()})
            except (OverflowError, RecursionError):
                continue
            for k, v in A.acc.items():
                acc.setdefault(k, []).extend(v)
            for (n, sn), (file, l) in A.capw.items():
                key = 'race/%s/%s' % (sn, n)
                fs.setdefault(key, Finding(key, 'threads started in %s modify the shared variable %s without synchronisation' % (sn, n),
                                           '%s:%s' % (file.replace('/repo/', ''), l)))
        hot = {k for k, v in acc.items() if any(x[0] for x in v) and k[0] in mx}
        for c in mx:
            for u, f in P.funs.items():
                if f.d.get('body') and 'cls' in f.d and ir.noref(P.T[f.d['cls']]) == c and f.d.get('acc', 0) == 0 and f.d.get('ck') not in ('ctor', 'dtor'):
                    A = Shared(P, 'owner')
                    A.stack.append(f)
                    try:
                        o = A.function(f, {frozenset()})
                    except (OverflowError, RecursionError):
                        continue
                    cov['owner'] += 1
                    for k, v in A.acc.items():
                        if k in hot:
                            acc[k].extend(x for x in v if x[5])
                    if any(('run',) in s for s in o.norm | o.ret):
                        key = 'unjoined/%s' % f.sn
                        fs.setdefault(key, Finding(key, '%s can return while the threads it started are still running' % f.sn,
                                                   '%s:%s' % (f.file.replace('/repo/', ''), f.d['l'])))
        for k in hot:
            t = mx[k[0]].get(k[1], '')
            if t.startswith('std::atomic') or 'mutex' in t:
                continue
            for w, h, sn, file, l, run in acc[k]:
                cov['shared'] += 1
                if not any(m in mx[k[0]] for m in h if m) and None not in h:
                    key = 'race/%s/%s' % (sn, k[1])
                    fs.setdefault(key, Finding(key, '%s %s the field %s, which running threads modify, without holding the lock' % (
                        sn, 'modifies' if w else 'reads', k[1]), '%s:%s' % (file.replace('/repo/', ''), l)))
    if nent < 3:
        raise CheckError('only %d thread entry points found' % nent)
    cov['entries'] = nent


# ---------------------------------------------------------------- queue between two threads
class Q(EF):
    """state: (environment of local node pointers, base, linked, published, neq)"""

    def __init__(self, P, cf, pf, side, node):
        EF.__init__(self, P)
        self.cf, self.pf, self.side, self.nodet = cf, pf, side, node
        self.bad = {}

    def wants(self, g):
        return 'thread-queue' in g.file and not g.sn.endswith('::node')

    def fieldof(self, o):
        o = strip(o)
        return o['f'] if o['k'] == 'mem' else None

    def isnode(self, e):
        return e['k'] == 'mem' and 'o' in e and ir.noref(self.T[e['o']]).endswith('::node')

    def val(self, e, s):
        """abstract pointer: ('D', i) i-th node from the consumer's separator; ('L',) the producer's last node; ('C',) the separator seen by the producer"""
        e = strip(e)
        if e['k'] == 'call':
            a = atomic_op(self.P, e)
            if a and a[1] == 'r':
                f = self.fieldof(a[0])
                if f in self.cf:
                    return ('D', s[1]) if self.side == 'pop' else ('C',)
                if f in self.pf:
                    return ('L',)
            return None
        if e['k'] == 'ref':
            return dict(s[0]).get(e.get('id'))
        if e['k'] == 'mem' and self.isnode(e) and e['f'] == 'next':
            b = self.ptr(e['b'], s)
            if b and b[0] == 'D':
                return ('D', b[1] + 1) if b[1] < 8 else None
            return None
        if e['k'] == 'bin' and e['op'] == '=':
            return self.val(e['x'], s)
        return None

    def ptr(self, b, s):
        b = strip(b)
        if b['k'] == 'un' and b['op'] == '*':
            b = b['e']
        if b['k'] == 'call' and short(b.get('fn')) == 'operator->':
            return None
        return self.val(b, s)

    def setv(self, s, id, v):
        env = dict(s[0])
        env.pop(id, None)
        if v is not None:
            env[id] = v
        return (tuple(sorted(env.items())),) + s[1:]

    def decl(self, v, s):
        if v.get('init'):
            return (self.setv(s, v['id'], self.val(v['init'], s)),)
        return (s,)

    def flag(self, what, e):
        f = self.stack[-1]
        self.bad.setdefault((f.sn, what), (f.file, e['l']))

    def node(self, e, s):
        k = e['k']
        if self.isnode(e) and self.side == 'pop':
            b = self.ptr(e['b'], s)
            if b and b[0] == 'D' and b[1] < s[1]:
                self.flag('uses an element that the other thread may already have deleted', e)
        if k == 'bin' and e['op'] == '=':
            x = strip(e['x'])
            if self.isnode(x):
                s = self.nodew(x, s, e)
            elif x['k'] == 'ref':
                s = self.setv(s, x['id'], self.val(e['y'], s))
        if k == 'call' and e.get('op') == '=' and e.get('obj'):
            x = strip(e['obj'])
            if self.isnode(x):
                s = self.nodew(x, s, e)
        if k == 'del' and self.side == 'push':
            if not s[4]:
                self.flag('deletes an element without having seen that the consumer is past it', e)
            s = s[:4] + (False,)
        if k == 'del' and self.side == 'pop':
            self.flag('deletes an element in the consumer, although the producer owns them', e)
        a = atomic_op(self.P, e) if k == 'call' else None
        if a:
            f = self.fieldof(a[0])
            if a[1] == 'w':
                if str(a[2]) in ('0', 'memory_order_relaxed', 'relaxed', '2', 'memory_order_acquire', '1'):
                    self.flag('publishes a pointer without release ordering', e)
                if self.side == 'pop' and f in self.cf:
                    v = self.val(e['a'][0], s) if e['a'] else None
                    s = (s[0], v[1] if v and v[0] == 'D' else s[1] + 1) + s[2:]
                    if s[1] > 8:
                        s = (s[0], 8) + s[2:]
                if self.side == 'push' and f in self.pf:
                    if not s[2]:
                        self.flag('publishes a new element before linking it', e)
                    s = s[:3] + (True,) + s[4:]
            else:
                other = self.cf if self.side == 'push' else self.pf
                if f in other and str(a[2]) in ('0', 'memory_order_relaxed', 'relaxed'):
                    self.flag('reads the pointer published by the other thread without acquire ordering', e)
        return (s,)

    def nodew(self, x, s, e):
        if self.side == 'pop':
            if x['f'] == 'next':
                self.flag('modifies the links in the consumer', e)
            return s
        if s[3]:
            self.flag('modifies an element after publishing it', e)
        if x['f'] == 'next':
            return s[:2] + (True,) + s[3:]
        return s

    def cond(self, e, val, s):
        c = strip(e)
        if self.side == 'push' and c['k'] == 'bin' and c['op'] in ('!=', '=='):
            if ('C',) in (self.val(c['x'], s), self.val(c['y'], s)):
                return (s[:4] + ((c['op'] == '!=') == val,),)
        return (s,)


def fields_touched(P, f, seen=None):
    """{field: {'r','w'}} of `this` accessed by a method and the methods it calls"""
    seen = seen if seen is not None else set()
    out = {}
    if f is None or f in seen or not f.d.get('body'):
        return out
    seen.add(f)
    for n in ir.nodes(f.d['body'], lambda x: x.get('k') in ('mem', 'bin', 'call', 'un')):
        if n['k'] == 'mem' and strip(n['b'])['k'] == 'this':
            out.setdefault(n['f'], set()).add('r')
        t = None
        if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            t = strip(n['x'])
        if n['k'] == 'un' and ('++' in n['op'] or '--' in n['op']):
            t = strip(n['e'])
        a = atomic_op(P, n) if n['k'] == 'call' else None
        if a and a[1] == 'w':
            t = strip(a[0])
        if t and t['k'] == 'mem' and strip(t['b'])['k'] == 'this':
            out.setdefault(t['f'], set()).add('w')
        if n['k'] == 'call' and n.get('obj') and strip(n['obj'])['k'] == 'this' and n.get('u') in P.funs:
            for k, v in fields_touched(P, P.funs[n['u']], seen).items():
                out.setdefault(k, set()).update(v)
    return out


def queue_rule(Ps, fs, cov):
    n = 0
    for P in Ps:
        by = {}
        for f in P.funs.values():
            if f.d.get('body') and 'cls' in f.d and ir.strip_targs(P.T[f.d['cls']]) == 'vif::thread::lock_free_queue':
                by.setdefault(ir.noref(P.T[f.d['cls']]), {}).setdefault(f.sn.rsplit('::', 1)[-1], []).append(f)
        recs = {ir.noref(P.T[r['t']]): r for r in P.recs.values()}
        for c, m in by.items():
            if 'push' not in m or 'pop' not in m or c not in recs:
                continue
            n += 1
            ty = {x['n']: ir.noref(P.T[x['t']]) for x in recs[c]['fields']}
            pop = {}
            for f in m['pop'] + m.get('empty', []) + m.get('size', []):
                for k, v in fields_touched(P, f).items():
                    pop.setdefault(k, set()).update(v)
            push = {}
            for f in m['push']:
                for k, v in fields_touched(P, f).items():
                    push.setdefault(k, set()).update(v)
            where = '%s:%s' % (m['push'][0].file.replace('/repo/', ''), m['push'][0].d['l'])
            for k in set(pop) & set(push):
                if not ty.get(k, '').startswith('std::atomic') and 'mutex' not in ty.get(k, ''):
                    key = 'queue/shared/%s' % k
                    fs.setdefault(key, Finding(key, 'the field %s of the queue is used by both the producer and the consumer and is not atomic' % k, where))
                elif 'w' in pop[k] and 'w' in push[k]:
                    key = 'queue/twowriters/%s' % k
                    fs.setdefault(key, Finding(key, 'the field %s of the queue is modified by both the producer and the consumer' % k, where))
            cf = {k for k, v in pop.items() if 'w' in v}
            pf = {k for k, v in push.items() if 'w' in v and k in pop}
            if not cf or not pf:
                continue
            for side in ('push', 'pop'):
                for f in m[side]:
                    cov['queue'] += 1
                    A = Q(P, cf, pf, side, None)
                    A.stack.append(f)
                    try:
                        A.function(f, {((), 0, False, False, False)})
                    except (OverflowError, RecursionError):
                        continue
                    for (sn, what), (file, l) in A.bad.items():
                        key = 'queue/%s/%s' % (side, what)
                        fs.setdefault(key, Finding(key, '%s %s' % (sn, what), '%s:%s' % (file.replace('/repo/', ''), l)))
    if not n:
        raise CheckError('no instance of the queue found')


# ---------------------------------------------------------------- shutdown of workers
class Drain(EF):
    """the worker loop ends only after the stop flag was seen set and, later, the queue seen empty"""

    def __init__(self, P, flag, q):
        EF.__init__(self, P)
        self.flag, self.q = flag, q

    def wants(self, g):
        return '/thread-worker' in g.file

    def cond(self, e, val, s):
        c = strip(e)
        if c['k'] == 'call':
            a = atomic_op(self.P, c)
            if a and strip(a[0])['k'] == 'mem' and strip(a[0])['f'] in self.flag:
                return ('stop' if val and s == 'none' else s,)
            if c.get('obj') and strip(c['obj'])['k'] == 'mem' and strip(c['obj'])['f'] in self.q:
                n = short(c['fn'])
                if n == 'empty' and val or n == 'pop' and not val:
                    return ('ok' if s in ('stop', 'ok') else s,)
        if c['k'] == 'bin' and c['op'] in ('==', '!=', '>'):
            x = strip(c['x'])
            if x['k'] == 'call' and x.get('obj') and strip(x['obj'])['k'] == 'mem' and strip(x['obj'])['f'] in self.q and short(x['fn']) == 'size':
                if (c['op'] == '==') == val:
                    return ('ok' if s in ('stop', 'ok') else s,)
        return (s,)


class Stop(EF):
    """state: (flag value or None, thread: 'may'/'joined')"""

    def __init__(self, P, flags, cls):
        EF.__init__(self, P)
        self.flags = flags
        self.bad = {}
        self.njoin = 0

    def wants(self, g):
        return '/thread-' in g.file

    def thr(self, e):
        return 'std::thread' in self.T[strip(e)['t']]

    def node(self, e, s):
        if e['k'] == 'call':
            a = atomic_op(self.P, e)
            if a and a[1] == 'w' and strip(a[0])['k'] == 'mem' and strip(a[0])['f'] in self.flags:
                v = strip(e['a'][0]) if e['a'] else None
                b = v['v'] in ('1', 1, True, 'true') if v and v['k'] in ('bool', 'int') else None
                return ((b, s[1]),)
            if e.get('fn') == 'std::thread::join':
                self.njoin += 1
                if s[0] is not True and s[1] != 'joined':
                    f = self.stack[-1]
                    self.bad['waits for the thread without having told it to stop'] = (f.file, e['l'])
                return ((s[0], 'joined'),)
            if e.get('fn') == 'std::thread::detach':
                f = self.stack[-1]
                self.bad['lets the thread run on after the object is gone'] = (f.file, e['l'])
        return (s,)

    def cond(self, e, val, s):
        c = strip(e)
        if c['k'] == 'call' and (e.get('fn') == 'std::thread::joinable' or c.get('fn') == 'std::thread::joinable') and not val:
            return ((s[0], 'joined'),)
        if c['k'] == 'call' and short(c.get('fn')) == 'operator bool' and c.get('obj') and self.thr(c['obj']) and not val:
            return ((s[0], 'joined'),)
        if c['k'] in ('bin', 'call') and (c.get('op') in ('==', '!=')):
            xs = [c['x'], c['y']] if c['k'] == 'bin' else c.get('a', []) + ([c['obj']] if c.get('obj') else [])
            if any(self.thr(x) for x in xs) and (c['op'] == '==') == val:
                return ((s[0], 'joined'),)
        return (s,)


def worker_rule(Ps, fs, cov):
    nd = ns = 0
    for P in Ps:
        recs = {ir.noref(P.T[r['t']]): r for r in P.recs.values()}
        ents = {}
        for ent, f in thread_entries(P):
            if 'cls' in f.d:
                ents.setdefault(ir.noref(P.T[f.d['cls']]), []).append((ent, f))
        for c, es in ents.items():
            r = recs.get(c)
            if r is None:
                continue
            order = [x['n'] for x in r['fields']]
            ty = {x['n']: ir.noref(P.T[x['t']]) for x in r['fields']}
            flags = {n for n, t in ty.items() if t.startswith('std::atomic<bool')}
            qs = {n for n, t in ty.items() if 'lock_free_queue<' in t}
            ths = {n for n, t in ty.items() if 'std::thread' in t}
            if not ths:
                continue
            for ent, f in es:
                body = ent['body'] if isinstance(ent, dict) else ent.d.get('body')
                used = set()
                seen = set()
                todo = [body]
                while todo:
                    b = todo.pop()
                    for n in ir.nodes(b, lambda x: x.get('k') in ('mem', 'call')):
                        if n['k'] == 'mem' and 'o' in n and ir.noref(P.T[n['o']]) == c:
                            used.add(n['f'])
                        g = P.funs.get(n.get('u')) if n['k'] == 'call' else None
                        if g and g not in seen and 'cls' in g.d and ir.noref(P.T[g.d['cls']]) == c and g.d.get('body'):
                            seen.add(g)
                            todo.append(g.d['body'])
                where = '%s:%s' % (f.file.replace('/repo/', ''), f.d['l'])
                # shared scalars of the thread body are atomic
                for u in used:
                    if ty.get(u) in ('bool', 'int', 'unsigned int', 'unsigned long', 'long', 'double', 'float'):
                        key = 'race/%s/%s' % (ir.strip_targs(c), u)
                        fs.setdefault(key, Finding(key, 'the field %s of %s is shared with its thread and is not atomic' % (u, ir.strip_targs(c)), where))
                # the thread starts once everything it uses is constructed
                direct = {n for n in ths if ty[n] == 'std::thread'}
                if f.d.get('ck') == 'ctor' and isinstance(ent, dict):
                    for t in direct:
                        if any(i.get('f') == t for i in f.d.get('inits', ())):
                            for u in used - {t}:
                                cov['order'] += 1
                                if u in order and order.index(u) > order.index(t):
                                    key = 'order/%s/%s' % (ir.strip_targs(c), u)
                                    fs.setdefault(key, Finding(key, 'the thread of %s starts before the field %s it uses is constructed' % (ir.strip_targs(c), u), where))
                if ir.strip_targs(c) == 'vif::thread::worker':
                    nd += 1
                    if not (flags & used) or not (qs & used):
                        if any(k.startswith('race/' + ir.strip_targs(c)) for k in fs):
                            continue
                        raise CheckError('worker thread without stop flag or queue')
                    A = Drain(P, flags, qs)
                    A.stack.append(f)
                    A.cur = Out()
                    o = A.st(body, {'none'})
                    if any(s != 'ok' for s in o.norm | o.ret):
                        key = 'drain/%s' % ir.strip_targs(c)
                        fs.setdefault(key, Finding(key, 'the thread of %s can end without having seen its queue empty after it was told to stop: jobs pushed meanwhile are lost' % ir.strip_targs(c), where))
            if not flags:
                continue
            restart = any(f.d.get('ck') != 'ctor' for ent, f in es)
            dt = [f for f in P.funs.values() if f.d.get('body') and 'cls' in f.d and ir.noref(P.T[f.d['cls']]) == c and f.d.get('ck') == 'dtor']
            where = '%s:%s' % (r['file'].replace('/repo/', ''), r['l'])
            name = ir.strip_targs(c)
            if not dt and any(ty[n] == 'std::thread' or 'unique_ptr' in ty[n] for n in ths):
                key = 'nojoin/%s' % name
                fs.setdefault(key, Finding(key, '%s does not wait for its thread when it is destroyed' % name, where))
            for f in dt:
                ns += 1
                A = Stop(P, flags, c)
                A.stack.append(f)
                o = A.function(f, {(None, 'may')})
                for what, (file, l) in A.bad.items():
                    key = 'stop/%s/%s' % (name, what)
                    fs.setdefault(key, Finding(key, 'the destructor of %s %s' % (name, what), '%s:%s' % (file.replace('/repo/', ''), l)))
                if any(s[1] != 'joined' for s in o.norm | o.ret):
                    key = 'nojoin/%s' % name
                    fs.setdefault(key, Finding(key, 'the destructor of %s can finish while its thread is running' % name, '%s:%s' % (f.file.replace('/repo/', ''), f.d['l'])))
            if restart:
                for f in P.funs.values():
                    if f.d.get('body') and 'cls' in f.d and ir.noref(P.T[f.d['cls']]) == c and f.d.get('acc', 0) == 0 and f.d.get('ck') not in ('ctor', 'dtor'):
                        A = Stop(P, flags, c)
                        A.stack.append(f)
                        o = A.function(f, {(None, 'may')})
                        for s in o.norm | o.ret:
                            if s[0] is True:
                                key = 'restart/%s' % f.sn
                                fs.setdefault(key, Finding(key, '%s returns with the stop flag set: a thread started later ends at once and its jobs are lost' % f.sn,
                                                           '%s:%s' % (f.file.replace('/repo/', ''), f.d['l'])))
                        for what, (file, l) in A.bad.items():
                            key = 'stop/%s/%s' % (f.sn, what)
                            fs.setdefault(key, Finding(key, '%s %s' % (f.sn, what), '%s:%s' % (file.replace('/repo/', ''), l)))
    if not nd or ns < 3 and not fs:
        raise CheckError('worker classes not found')
    cov['destructors'] = ns


def check(tier):
    Ps = programs(['d_math', 'd_astro', 'd_thread'])
    fs = {}
    cov = {'lock': 0, 'shared': 0, 'owner': 0, 'queue': 0, 'order': 0}
    lib_rule(Ps, fs, cov)
    shared_rule(Ps, fs, cov)
    queue_rule(Ps, fs, cov)
    worker_rule(Ps, fs, cov)
    n = sum(v for v in cov.values())
    cov = {'sites': dict(cov), 'obligations': n, 'discharged': n - len(fs), 'call_sites': cov['lock'],
           'rule': 'lockset and typestate flow with inlining: non-reentrant libraries under one mutex; fields modified by running threads under their lock; '
                   'queue nodes linked before and untouched after publication, deleted only behind the consumer; worker threads told to stop, drained and joined',
           'explanation': '%d obligations on %d thread entry points' % (n, cov['entries'])}
    return list(fs.values()), cov, ['clang 18 front end', 'in-house exporter and flow analysis', 'sequentially consistent interleavings apart from explicit memory orders']
