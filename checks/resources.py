"""Typestate of external resources (plans, directories, files, compiled expressions, buffers): acquired -> released, exactly once."""
from .common import programs, Finding, CheckError, TUS
from vx.flow import Flow
from vx import ir
import re

# acquired as a result: function -> kind
RESULT = [(r'fftwf?_plan_\w+', 'fftw plan'), (r'opendir|fdopendir', 'directory'), (r'gsl_(\w+)_c?alloc', None), (r'(abi::)?__cxa_demangle|malloc|calloc|strdup|realpath', 'malloc'),
          (r'fopen|fdopen|tmpfile', 'file'), (r'popen', 'pipe')]
# acquired through a pointer argument: function -> (argument, kind, how failure is reported)
OUT = {'regcomp': (0, 'regex', 'result'), 'wcspih': (6, 'wcs', 'result'), 'ffhdr2str': (4, 'malloc', 'last'), 'ffcnvthdr2str': (4, 'malloc', 'last')}
for _n in ('ffopen', 'ffdkopn', 'fftopn', 'ffiopn', 'ffinit', 'ffdkinit', 'ffnopn', 'ffeopn', 'ffimem', 'ffreopen'):
    OUT[_n] = (0 if _n != 'ffreopen' else 1, 'fits file', 'last')
# released: function -> (argument, kinds)
RELEASE = [(r'fftwf?_destroy_plan', 0, 'fftw plan'), (r'closedir', 0, 'directory'), (r'gsl_(\w+)_free', 0, None), (r'free|fffree', 0, 'malloc'), (r'fclose', 0, 'file'),
           (r'pclose', 0, 'pipe'), (r'regfree', 0, 'regex'), (r'ffclos|ffdelt', 0, 'fits file'), (r'wcsvfree', 1, 'wcs')]
CLEARING = {'wcsvfree'}        # also forgets the handle


def strip(e):
    while e and e['k'] == 'cast':
        e = e['e']
    return e


def loc(e):
    e = strip(e)
    if e is None:
        return None
    if e['k'] == 'un' and e['op'] == '&':
        e = strip(e['e'])
    if e['k'] == 'ref' and 'g' not in e and 'id' in e:
        return ('v', e['id'])
    if e['k'] == 'mem' and e['b']['k'] == 'this':
        return ('m', e['f'])
    return None


def result_kind(fn):
    for r, k in RESULT:
        m = re.fullmatch(r, fn)
        if m:
            return k or 'gsl ' + m.group(1)
    return None


def release_of(fn):
    for r, a, k in RELEASE:
        m = re.fullmatch(r, fn)
        if m:
            return a, k or 'gsl ' + m.group(1)
    return None


def isnull(e):
    e = strip(e)
    return e['k'] == 'null' or e['k'] == 'int' and e['v'] == '0'


def pure(e):
    return all(n['k'] in ('ref', 'mem', 'this', 'int', 'bool', 'null', 'bin', 'un', 'cast') and n.get('op') not in ('=', '++', '--') for n in ir.nodes(e))


def ckey(e):
    e = strip(e)
    k = e['k']
    if k == 'ref':
        return 'v%s' % e.get('id', e.get('g'))
    if k == 'mem':
        return ckey(e['b']) + '.' + e['f']
    if k == 'bin':
        return '(%s%s%s)' % (ckey(e['x']), e['op'], ckey(e['y']))
    if k == 'un':
        return e['op'] + ckey(e['e'])
    return k + str(e.get('v', ''))


# items of a state: ('R', loc, 'held'|'released', kind, site, failure location)  ('C', key, variables, value)  ('A', field)
class S(Flow):
    def __init__(self, P, an, f, depth=0):
        Flow.__init__(self, P)
        self.an = an
        self.f = f
        self.T = P.T
        self.depth = depth
        self.bad = an.bad
        self.locals = set()
        self.keys = an.condkeys(P, f)

    # -- helpers on states
    def get(self, s, l):
        for x in s:
            if x[0] == 'R' and x[1] == l:
                return x
        return None

    def drop(self, s, l):
        return frozenset(x for x in s if not (x[0] == 'R' and x[1] == l))

    def put(self, s, l, st, kind, site, stat=None):
        return self.drop(s, l) | {('R', l, st, kind, site, stat)}

    def touch(self, s, l):
        """a variable or member changes: forget what was decided about it"""
        return frozenset(x for x in s if not (x[0] == 'C' and (l in x[2] or l is None)))

    def site(self, e, what):
        return '%s|%s|%s|%s' % (what, self.f.sn, self.f.file, e.get('l', self.f.l))

    def report(self, item, how, at=None):
        self.bad.setdefault((item[4] if item[4] != 'entry' else at, item[3], how, self.name(item[1])), at)

    def name(self, l):
        return l[1] if l[0] == 'm' else self.an.names.get((self.P.name, l[1]), '?')

    # -- acquisition
    def acquire(self, s, l, kind, e, what, stat=None):
        old = self.get(s, l)
        at = self.site(e, what)
        if old and old[2] == 'held' and not self.excused(s, l):
            self.report(old, 'is overwritten while it is still held', at)
        return self.put(s, l, 'held', kind, at, stat)

    def excused(self, s, l):
        """other members say whether the handle is in use"""
        return l[0] == 'm' and bool(self.an.flags(self.P, self.f.d.get('cn')))

    def acquired(self, e):
        """(kind, function) of an expression whose value is a newly acquired resource"""
        e = strip(e)
        if e['k'] == 'new':
            return ('new[]' if e.get('arr') else 'new'), 'new'
        if e['k'] == 'call':
            k = result_kind(e.get('fn', ''))
            if k:
                return k, e['fn']
            g = self.P.funs.get(e.get('u'))
            if g is not None and g.d.get('body'):
                k = self.an.returns(self.P, g)
                if k:
                    return k, g.sn
        return None

    def release(self, s, l, kind, e, what):
        old = self.get(s, l)
        at = self.site(e, what)
        if old:
            if old[2] == 'released':
                self.report(old, 'is released twice', at)
            elif old[3] != kind:
                self.report(old, 'is released with the function for a %s' % kind, at)
        self.an.sites.add(at)
        if what in CLEARING:
            return self.drop(s, l)
        return self.put(s, l, 'released', kind, at)

    def node(self, e, s):
        k = e['k']
        if k == 'call':
            return self.call(e, s)
        if k == 'del':
            l = loc(e['e'])
            return (self.release(s, l, 'new[]' if e.get('arr') else 'new', e, 'delete'),) if l else (s,)
        if k == 'bin' and e['op'] == '=':
            l = loc(e['x'])
            y = strip(e['y'])
            a = self.acquired(y)
            if l is None:
                ly = loc(y) if y['k'] in ('ref', 'mem') else None
                return (self.drop(s, ly) if ly else s,)        # the handle is kept elsewhere
            s = self.touch(s, l)
            if l[0] == 'm':
                s = s | {('A', l[1])}
            if a and self.tracked(l, a[0]):
                self.an.sites.add(self.site(e, a[1]))
                return (self.acquire(s, l, a[0], e, a[1], self.failarg(y)),)
            s = self.result(s, y, l)
            old = self.get(s, l)
            if old and old[2] == 'held' and old[4] != 'entry' and isnull(y) and l[0] == 'v':
                self.report(old, 'is forgotten without being released', self.site(e, ''))
            ly = loc(y) if y['k'] in ('ref', 'mem') else None
            if ly and ly != l:
                s = self.drop(s, ly)
            return (self.drop(s, l),)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=') or k == 'un' and '++' in e['op'] or k == 'un' and '--' in e['op']:
            l = loc(e['x'] if k == 'bin' else e['e'])
            return (self.touch(s, l) if l else s,)
        if k == 'mem' and strip(e['b'])['k'] in ('ref', 'mem') or k == 'un' and e['op'] == '*' or k == 'sub':
            l = loc(e['e'] if k == 'un' else e['b'])
            self.used(s, l, e)
            return (s,)
        if k == 'ctor':
            if 'basic_string' not in e.get('fn', ''):
                for a in e['a']:
                    l = loc(a)
                    if l:
                        s = self.drop(s, l)
            else:
                for a in e['a']:
                    self.used(s, loc(a), e)
            return (s,)
        if k in ('lambda', 'init'):
            for n in ir.nodes(e, lambda q: q['k'] in ('ref', 'mem')):
                l = loc(n)
                if l and l[0] == 'v':
                    s = self.drop(s, l)
            return (s,)
        return (s,)

    def used(self, s, l, e):
        old = self.get(s, l) if l else None
        if old and old[2] == 'released':
            self.report(old, 'is used after its release', self.site(e, ''))

    def tracked(self, l, kind):
        return not (kind in ('new', 'new[]') and l[0] == 'm')

    def failarg(self, y):
        """where a failure of this call is stored"""
        if y['k'] == 'call' and y['a']:
            x = strip(y['a'][-1])
            if x['k'] == 'un' and x['op'] == '&' and ir.base(self.T[strip(x['e'])['t']]) == 'int':
                return loc(x)
        return None

    def result(self, s, y, l):
        """the result y of a call is stored in l: it may tell whether an acquisition worked"""
        out = set()
        ids = set(('v', n['id']) for n in ir.nodes(y, lambda q: q['k'] == 'ref' and 'id' in q)) | set(('m', n['f']) for n in ir.nodes(y, lambda q: q['k'] == 'mem'))
        for x in s:
            if x[0] == 'R' and x[2] == 'held':
                if y['k'] == 'call' and y.get('fn') in OUT and OUT[y['fn']][2] == 'result' and x[5] == ('call', y.get('l')):
                    x = x[:5] + (l,)
                elif y['k'] != 'call' and (x[5] in ids or x[1] in ids) and y['k'] not in ('ref', 'mem'):
                    x = x[:5] + (('derived', l),)
                elif any(n.get('fn') in OUT and x[5] == ('call', n.get('l')) for n in ir.nodes(y, lambda q: q['k'] == 'call')):
                    x = x[:5] + (('derived', l),)
            out.add(x)
        return frozenset(out)

    def call(self, e, s):
        fn = e.get('fn', '')
        g = self.P.funs.get(e.get('u'))
        r = release_of(fn)
        if getattr(self, 'raised', None) is not None and not r:
            self.raised.add(s)
        if r and len(e['a']) > r[0]:
            l = loc(e['a'][r[0]])
            return (self.release(s, l, r[1], e, fn),) if l else (s,)
        if fn in OUT and len(e['a']) > OUT[fn][0]:
            i, kind, fail = OUT[fn]
            l = loc(e['a'][i])
            if l:
                self.an.sites.add(self.site(e, fn))
                stat = self.failarg(e) if fail == 'last' else ('call', e.get('l'))
                s = self.acquire(s, l, kind, e, fn, stat)
            return (s,)
        if g is not None and g.d.get('body') and g.u in self.an.relevant[self.P.name] and self.depth < 6:
            return self.inline(e, g, s)
        pars = g.d['p'] if g is not None else []
        for i, a in enumerate(e['a']):
            l = loc(a)
            if not l:
                continue
            x = strip(a)
            if g is not None and g.d.get('body'):
                if i < len(pars) and self.an.keeps(self.P, g, pars[i]['id']):
                    s = self.drop(s, l)
                else:
                    self.used(s, l, e)
                if i < len(pars) and ir.isref(self.T[pars[i]['t']]) and not self.T[pars[i]['t']].startswith('const'):
                    s = self.touch(s, l)
            elif '::' in fn and 'basic_string' not in fn and not fn.startswith('std::operator') or fn == '':
                s = self.drop(s, l)
                s = self.touch(s, l)
            else:
                if not e.get('op') or 'basic_string' in fn:
                    self.used(s, l, e)
                if x['k'] == 'un':
                    s = self.touch(s, l)
        if g is not None and g.d.get('body') and e.get('obj') is not None:
            s = frozenset(x for x in s if not (x[0] == 'C' and any(v[0] == 'm' for v in x[2])))
        return (s,)

    def inline(self, e, g, s):
        mine = e.get('obj') is not None and strip(e['obj'])['k'] == 'this'
        m = {}
        for a, p in zip(e['a'], g.d['p']):
            l = loc(a)
            if l:
                m[l] = ('v', p['id'])
        back = {v: k for k, v in m.items()}
        inn = set()
        keep = set()
        for x in s:
            if x[0] == 'R':
                if x[1][0] == 'm' and mine and x[1] not in m:
                    inn.add(x)
                elif x[1] in m:
                    inn.add(x[:1] + (m[x[1]],) + x[2:])
                else:
                    keep.add(x)
            elif x[0] == 'A' and mine:
                inn.add(x)
            elif x[0] == 'C':
                if not any(v[0] == 'm' or v in m for v in x[2]):
                    keep.add(x)
            else:
                keep.add(x)
        if self.T[e['t']] not in ('void',) and not inn and e['t'] is None:
            return (s,)
        outs = self.an.effect(self.P, g, frozenset(inn), self.depth + 1)
        r = set()
        for o in outs:
            q = set(keep)
            for x in o:
                if x[0] == 'R':
                    l = back.get(x[1], x[1] if x[1][0] == 'm' and mine else None)
                    if l is None:
                        continue
                    st = x[5]
                    if isinstance(st, tuple) and st in back:
                        st = back[st]
                    elif not (isinstance(st, tuple) and st[0] == 'm' and mine):
                        st = None
                    q.add(x[:1] + (l,) + x[2:5] + (st,))
                elif x[0] == 'A' and mine:
                    q.add(x)
            r.add(frozenset(q))
        return r

    def st_(self, k, x, S, o):
        if k != 'try':
            return Flow.st_(self, k, x, S, o)
        old = getattr(self, 'raised', None)
        self.raised = set(S)
        r = self.st(x['b'], S)
        thr = r.thr | self.raised
        self.raised = old
        r.thr = set()
        o.merge(r)
        o.norm |= r.norm
        for h in x['h']:
            q = self.st(h['b'], thr)
            o.merge(q)
            o.norm |= q.norm

    # -- conditions
    def cond(self, e, val, s):
        e = strip(e)
        eq = None
        h = e
        if e['k'] == 'bin' and e['op'] in ('==', '!='):
            for a, b in ((e['x'], e['y']), (e['y'], e['x'])):
                if isnull(b):
                    h, eq = strip(a), e['op'] == '=='
                    break
            else:
                h = None
        nonzero = None
        if h is not None:
            nonzero = val if eq is None else val != eq
        out = set()
        for x in s:
            if x[0] == 'R' and x[2] == 'held' and h is not None:
                l = loc(h) if h['k'] in ('ref', 'mem') else None
                if l is not None and l == x[1] and not nonzero:
                    if x[4] == 'entry':
                        return ()
                    continue                    # the acquisition had failed
                if l is not None and l == x[5] and nonzero:
                    continue
                if l is not None and x[5] == ('derived', l):
                    x = x[:2] + ('maybe',) + x[3:]
                if h['k'] == 'call' and x[5] == ('call', h.get('l')) and nonzero:
                    continue
            if x[0] == 'R' and x[2] == 'held' and h is None and isinstance(x[5], tuple):
                names = [loc(n) for n in ir.nodes(e, lambda q: q['k'] in ('ref', 'mem'))]
                if x[5] in names or x[5][0] == 'derived' and x[5][1] in names:
                    x = x[:2] + ('maybe',) + x[3:]
            out.add(x)
        s = frozenset(out)
        if pure(e):
            key = ckey(h) if h is not None else ckey(e)
            v = nonzero if h is not None else val
            for x in s:
                if x[0] == 'C' and x[1] == key:
                    return (s,) if x[3] == v else ()
            if self.keys.get(key, 0) > 1:
                vs = frozenset(l for l in (loc(n) for n in ir.nodes(e, lambda q: q['k'] in ('ref', 'mem'))) if l)
                s = s | {('C', key, vs, v)}
        return (s,)

    # -- declarations, scopes and returns
    def decl(self, v, s):
        l = ('v', v['id'])
        self.locals.add(l)
        self.an.names[(self.P.name, v['id'])] = v.get('n', '?')
        s = self.drop(self.touch(s, l), l)
        if v.get('init'):
            y = strip(v['init'])
            a = self.acquired(y)
            if a:
                self.an.sites.add(self.site(y, a[1]))
                return (self.acquire(s, l, a[0], y, a[1], self.failarg(y)),)
            s = self.result(s, y, l)
            ly = loc(y) if y['k'] in ('ref', 'mem') else None
            if y['k'] == 'un' and y['op'] == '&' or ir.isref(self.T[v['t']]):
                ly = loc(y)
            if ly:
                s = self.drop(s, ly)
        return (s,)

    def minit(self, i, s):
        l = ('m', i.get('f'))
        a = self.acquired(i['e'])
        if a and self.tracked(l, a[0]):
            return (self.acquire(s, l, a[0], i, a[1]),)
        return (s,)

    def leave(self, x, s):
        for y in x['s']:
            if y and y['k'] == 'decl':
                for v in y['v']:
                    l = ('v', v['id'])
                    old = self.get(s, l)
                    if old:
                        if old[2] == 'held':
                            self.report(old, 'is not released on a path to the end of its scope in %s' % self.f.sn, self.site(y, ''))
                        s = self.drop(s, l)
                    s = self.touch(s, l)
        return (s,)

    def retst(self, x, s):
        if x.get('e'):
            l = loc(x['e']) if strip(x['e'])['k'] in ('ref', 'mem') else None
            if l and l[0] == 'v':
                s = self.drop(s, l)
        return (s,)


class An:
    def __init__(self, Ps):
        self.bad = {}
        self.sites = set()
        self.names = {}
        self.memo = {}
        self.ret = {}
        self.kp = {}
        self.ck = {}
        self.fl = {}
        self.members = {}      # (class) -> {member: kind}
        self.relevant = {}
        self.open = set()
        for P in Ps:
            self.scan(P)

    def direct(self, P, f):
        for n in self.bodies(f):
            if n['k'] == 'del' or n['k'] == 'new':
                return True
            if n['k'] == 'call':
                fn = n.get('fn', '')
                if fn in OUT or result_kind(fn) or release_of(fn):
                    return True
        return False

    def bodies(self, f):
        for n in ir.nodes(f.d['body']):
            yield n
        for i in f.d.get('inits') or ():
            if i.get('e'):
                for n in ir.nodes(i['e']):
                    yield n

    def scan(self, P):
        fs = [f for f in P.funs.values() if f.d.get('body') and f.file.startswith('/repo/')]
        calls = {}
        rel = set()
        for f in fs:
            cs = set()
            hit = False
            for n in self.bodies(f):
                k = n['k']
                if k == 'call':
                    fn = n.get('fn', '')
                    if n.get('u'):
                        cs.add(n['u'])
                    if fn in OUT or result_kind(fn) or release_of(fn):
                        hit = True
                        l = None
                        if fn in OUT and len(n['a']) > OUT[fn][0]:
                            l = loc(n['a'][OUT[fn][0]])
                            if l and l[0] == 'm':
                                self.members.setdefault((P.name, f.d.get('cn')), {})[l[1]] = OUT[fn][1]
                elif k in ('del', 'new'):
                    hit = True
                elif k == 'ctor' and n.get('u'):
                    cs.add(n['u'])
                elif k == 'bin' and n['op'] == '=':
                    y = strip(n['y'])
                    l = loc(n['x'])
                    kd = result_kind(y.get('fn', '')) if y['k'] == 'call' else None
                    if kd and l and l[0] == 'm':
                        self.members.setdefault((P.name, f.d.get('cn')), {})[l[1]] = kd
            calls[f.u] = cs
            if hit:
                rel.add(f.u)
        # functions of a class with resources that assign one
        for f in fs:
            ms = self.members.get((P.name, f.d.get('cn')))
            if ms and any(n['k'] == 'bin' and n['op'] == '=' and (loc(n['x']) or ('',))[0] == 'm' and loc(n['x'])[1] in ms for n in self.bodies(f)):
                rel.add(f.u)
        self.direct_ = getattr(self, 'direct_', {})
        self.direct_[P.name] = set(rel)
        # helpers: close under calls, but only within the same class or for functions that are handed a resource
        ch = True
        byu = {f.u: f for f in fs}
        while ch:
            ch = False
            for f in fs:
                if f.u not in rel:
                    for c in calls[f.u]:
                        if c in rel and (byu[c].d.get('cn') and byu[c].d.get('cn') == f.d.get('cn') and self.members.get((P.name, f.d.get('cn')))
                                         or any('*' in P.T[p['t']] or 'regex_t' in P.T[p['t']] or 're_pattern_buffer' in P.T[p['t']] for p in byu[c].d['p'])
                                         or self.returns(P, byu[c])):
                            rel.add(f.u)
                            ch = True
                            break
        self.relevant[P.name] = rel

    def flags(self, P, cn):
        """boolean members of a class, which may say whether a resource is held"""
        k = (P.name, cn)
        if k not in self.fl:
            self.fl[k] = {m['n'] for r in P.recs.values() if r['fn'] == cn for m in r.get('fields', ()) if ir.base(P.T[m['t']]) == 'bool'} if cn else set()
        return self.fl[k]

    def mixed(self, P):
        """members allocated with new and released by other means only"""
        new, rel, dele = {}, {}, set()
        for f in P.funs.values():
            cn = f.d.get('cn')
            if not cn or not f.d.get('body') or not f.file.startswith('/repo/'):
                continue
            for i in f.d.get('inits') or ():
                if i.get('e') and strip(i['e'])['k'] == 'new' and i.get('f'):
                    new[(cn, i['f'])] = '%s:%s' % (f.file, i.get('l', f.l))
            for n in self.bodies(f):
                l = None
                if n['k'] == 'bin' and n['op'] == '=' and strip(n['y'])['k'] == 'new':
                    l = loc(n['x'])
                    if l and l[0] == 'm':
                        new[(cn, l[1])] = '%s:%s' % (f.file, n['l'])
                elif n['k'] == 'del':
                    l = loc(n['e'])
                    if l and l[0] == 'm':
                        dele.add((cn, l[1]))
                elif n['k'] == 'call':
                    r = release_of(n.get('fn', ''))
                    if r and len(n['a']) > r[0]:
                        l = loc(n['a'][r[0]])
                        if l and l[0] == 'm':
                            rel[(cn, l[1])] = n['fn']
        return {k: (at, rel[k]) for k, at in new.items() if k in rel and k not in dele}

    def condkeys(self, P, f):
        k = (P.name, f.u)
        if k not in self.ck:
            d = {}

            def count(e):
                e = strip(e)
                if e is None:
                    return
                if e['k'] == 'un' and e['op'] == '!':
                    return count(e['e'])
                if e['k'] == 'bin' and e['op'] in ('&&', '||'):
                    count(e['x'])
                    return count(e['y'])
                if e['k'] == 'bin' and e['op'] in ('==', '!='):
                    for a, b in ((e['x'], e['y']), (e['y'], e['x'])):
                        if isnull(b):
                            e = strip(a)
                            break
                if pure(e):
                    d[ckey(e)] = d.get(ckey(e), 0) + 1
            for n in ir.nodes(f.d['body'], lambda q: q['k'] in ('if', 'while', 'for', 'do', 'cond')):
                if n.get('c'):
                    count(n['c'])
            self.ck[k] = d
        return self.ck[k]

    def returns(self, P, g):
        """kind of the resource that every return statement hands to the caller"""
        k = (P.name, g.u)
        if k in self.ret:
            return self.ret[k]
        self.ret[k] = None
        if '*' not in P.T[g.d['rt']] and 'plan' not in P.T[g.d['rt']]:
            return None
        kinds = set()
        held = {}
        for n in ir.nodes(g.d['body']):
            if n['k'] == 'decl':
                for v in n['v']:
                    if v.get('init') and self.kind(P, v['init']):
                        held[('v', v['id'])] = self.kind(P, v['init'])
            elif n['k'] == 'bin' and n['op'] == '=' and loc(n['x']) and self.kind(P, n['y']):
                if loc(n['x'])[0] == 'v':
                    held[loc(n['x'])] = self.kind(P, n['y'])
        for n in ir.nodes(g.d['body'], lambda q: q['k'] == 'ret'):
            if n.get('e'):
                if isnull(n['e']):
                    continue
                kinds.add(self.kind(P, n['e']) or held.get(loc(n['e']) if strip(n['e'])['k'] == 'ref' else None))
        self.ret[k] = kinds.pop() if len(kinds) == 1 else None
        return self.ret[k]

    def kind(self, P, e):
        e = strip(e)
        if e['k'] == 'new':
            return 'new[]' if e.get('arr') else 'new'
        if e['k'] == 'call':
            r = result_kind(e.get('fn', ''))
            if r:
                return r
            g = P.funs.get(e.get('u'))
            if g is not None and g.d.get('body'):
                return self.returns(P, g)
        return None

    def keeps(self, P, g, pid):
        """the function may store this argument, or hand it to something that may"""
        k = (P.name, g.u, pid)
        if k not in self.kp:
            self.kp[k] = False

            def is_p(e):
                e = strip(e)
                return e is not None and loc(e) == ('v', pid)
            r = False
            for n in self.bodies(g):
                if n['k'] == 'bin' and n['op'] == '=' and is_p(n['y']) or n['k'] == 'ret' and n.get('e') and is_p(n['e']) or n['k'] == 'ctor' and 'basic_string' not in n.get('fn', '') and any(is_p(a) for a in n['a']) \
                        or n['k'] == 'lambda' and any(is_p(q) for q in ir.nodes(n, lambda q: q['k'] == 'ref')) or n['k'] == 'decl' and any(v.get('init') and is_p(v['init']) for v in n['v']):
                    r = True
                if n['k'] == 'call' and any(is_p(a) for a in n['a']) and '::' in n.get('fn', '') and 'basic_string' not in n['fn']:
                    h = P.funs.get(n.get('u'))
                    if h is None or not h.d.get('body'):
                        r = True
                    else:
                        for a, p in zip(n['a'], h.d['p']):
                            if is_p(a) and self.keeps(P, h, p['id']):
                                r = True
            for i in g.d.get('inits') or ():
                if i.get('e') and is_p(i['e']):
                    r = True
            self.kp[k] = r
        return self.kp[k]

    def effect(self, P, g, s, depth):
        k = (P.name, g.u, s)
        if k in self.memo:
            return self.memo[k]
        if (P.name, g.u) in self.open:
            return {s}
        self.open.add((P.name, g.u))
        for p in g.d['p']:
            self.names[(P.name, p['id'])] = p.get('n', '?')
        try:
            o = S(P, self, g, depth).function(g, {s})
            r = self.memo[k] = o.norm | o.ret
        finally:
            self.open.discard((P.name, g.u))
        return r


def check(tier):
    Ps = programs(TUS + ['d_res'])
    an = An(Ps)
    nf = nm = 0
    fs = {}

    def finding(key, msg, where):
        fs.setdefault(key, Finding(key, msg, where.replace('/repo/', '')))
    for P in Ps:
        for f in P.funs.values():
            if f.u not in an.relevant[P.name]:
                continue
            nf += 1
            cn = f.d.get('cn')
            ms = an.members.get((P.name, cn), {}) if cn else {}
            ent = [frozenset()]
            kind = f.d.get('ck')
            if ms and kind not in ('ctor', 'dtor') and f.d.get('acc', 0) == 0 and not f.d.get('st'):
                ent.append(frozenset(('R', ('m', m), 'held', k, 'entry', None) for m, k in ms.items()))
            if kind == 'dtor' and ms:
                ent = [frozenset(('R', ('m', m), 'held', k, 'entry', None) for m, k in ms.items())]
            for s in ent:
                try:
                    out = an.effect(P, f, s, 0)
                except (OverflowError, RecursionError):
                    continue
                where = '%s:%s' % (f.file, f.l)
                if kind == 'dtor':
                    for m, k in ms.items():
                        nm += 1
                        held = [any(x[0] == 'R' and x[1] == ('m', m) and x[2] == 'held' for x in o) for o in out]
                        if held and (all(held) or any(held) and not an.flags(P, cn)):
                            finding('%s/%s/destructor' % (cn, m), 'the %s held in member %s of %s is not released on %s path of its destructor' % (k, m, cn, 'any' if all(held) else 'some'), where)
                elif f.d.get('acc', 0) == 0 and ms:
                    for o in out:
                        for x in o:
                            if x[0] == 'R' and x[1][0] == 'm' and x[2] == 'released' and not any(('A', g) in o for g in an.flags(P, cn)):
                                finding('%s/%s/dangling' % (f.sn, x[1][1]), 'member %s still refers to the %s that %s released: a later call or the destructor uses it again' % (x[1][1], x[3], f.sn),
                                        x[4].split('|')[2] + ':' + x[4].split('|')[3] if '|' in x[4] else where)
        for f in P.funs.values():
            cn = f.d.get('cn')
            ms = an.members.get((P.name, cn), {}) if cn else {}
            if not ms or not f.d.get('body') or len(f.d['p']) != 1 or not P.T[f.d['p'][0]['t']].rstrip().endswith('&&'):
                continue
            pid = f.d['p'][0]['id']
            for i in f.d.get('inits') or ():
                if i.get('w') and i.get('e') and any(n['f'] == i['f'] and n['b']['k'] == 'this' for n in ir.nodes(i['e'], lambda q: q['k'] == 'mem')):
                    finding('%s/%s/itself' % (cn, i['f']), 'moving a %s loses its member %s, which is initialised from itself instead of the source' % (cn, i['f']), '%s:%s' % (f.file, i.get('l', f.l)))

            def source(e):
                e = strip(e) if e else None
                return e['f'] if e and e['k'] == 'mem' and loc(e['b']) == ('v', pid) else None
            taken = [i['f'] for i in f.d.get('inits') or () if i.get('f') in ms and source(i.get('e')) == i['f']]
            taken += [loc(n['x'])[1] for n in an.bodies(f) if n['k'] == 'bin' and n['op'] == '=' and loc(n['x']) and loc(n['x'])[0] == 'm' and loc(n['x'])[1] in ms and source(n['y']) == loc(n['x'])[1]]
            for m in taken:
                nm += 1
                ok = {m} | an.flags(P, cn)
                if not any(n['k'] == 'bin' and n['op'] == '=' and source(n['x']) in ok or n['k'] == 'call' and (any(source(a) in ok or loc(a) == ('v', pid) for a in n['a'] if isinstance(a, dict)) or n.get('obj') and loc(n['obj']) == ('v', pid)) for n in an.bodies(f)):
                    finding('%s/%s/moved' % (cn, m), 'moving a %s leaves its %s (member %s) with both objects, which both release it' % (cn, ms[m], m), '%s:%s' % (f.file, f.l))
        for (cn, m), (at, rel) in sorted(an.mixed(P).items(), key=str):
            finding('%s/%s/mismatch' % (cn, m), 'member %s of %s is allocated with new but released with %s' % (m, cn, rel), at)
        for (pn, cn), ms in an.members.items():
            if pn != P.name:
                continue
            for r in P.recs.values():
                if r['fn'] == cn and not (r.get('cpdel') or r.get('ucopy') or r.get('umove') or r.get('umas')):
                    finding('%s/copied' % cn, '%s can be copied, and both copies release the %s it holds' % (cn, '/'.join(sorted(set(ms.values())))), '%s:%s' % (r['file'], r['l']))
            dt = [f for f in P.funs.values() if f.d.get('cn') == cn and f.d.get('ck') == 'dtor' and f.d.get('body')]
            used = [f for f in P.funs.values() if f.d.get('cn') == cn and f.d.get('body')]
            if not dt and used:
                finding('%s/no destructor' % cn, '%s holds a %s but has no destructor that releases it' % (cn, '/'.join(sorted(set(ms.values())))), '%s:%s' % (used[0].file, used[0].l))
            elif dt and not any(f.u in an.relevant[P.name] for f in dt):
                finding('%s/no release' % cn, 'the destructor of %s does not release the %s it holds' % (cn, '/'.join(sorted(set(ms.values())))), '%s:%s' % (dt[0].file, dt[0].l))
    for (site, kind, how, name), at in an.bad.items():
        what, sn, fl, ln = (at if site == 'entry' or site is None else site).split('|')
        finding('%s/%s/%s' % (sn, name, how), 'the %s (%s) acquired in %s %s' % (kind, name, sn, how) + ((' at ' + at.split('|')[2].replace('/repo/', '') + ':' + at.split('|')[3]) if at else ''), '%s:%s' % (fl, ln))
    if len(an.sites) < 20:
        raise CheckError('only %d acquisitions and releases found' % len(an.sites))
    cov = {'functions': nf, 'call_sites': len(an.sites), 'obligations': len(an.sites) + nm, 'discharged': len(an.sites) + nm - len(fs),
           'rule': 'typestate (held / released) of each handle along every path to the end of its scope, interprocedural; members by class: released by the destructor, forgotten when released or moved, not overwritten while held',
           'explanation': '%d acquisitions and releases in %d instantiated functions, %d obligations on members' % (len(an.sites), nf, nm),
           'samples': sorted('%s %s:%s' % (x.split('|')[0], x.split('|')[2].replace('/repo/', ''), x.split('|')[3]) for x in an.sites)[:8]}
    return list(fs.values()), cov, ['clang 18 front end', 'exporter tool/vifx.cpp', 'path-set dataflow vx/flow.py', 'table of acquiring and releasing library functions']
