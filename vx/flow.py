"""Path-set dataflow over the exported syntax trees: abstract states are hashable, a set of states is carried along every path
(loops to a fixpoint), conditions are split with short-circuit semantics. The client supplies the transfer functions."""

LIMIT = 4000


class Out:
    __slots__ = ('norm', 'brk', 'cont', 'ret', 'thr')

    def __init__(self):
        self.norm = set()
        self.brk = set()
        self.cont = set()
        self.ret = set()
        self.thr = set()

    def merge(self, o):
        self.brk |= o.brk
        self.cont |= o.cont
        self.ret |= o.ret
        self.thr |= o.thr


class Flow:
    """client methods: node(e, s) -> iterable of states; cond(e, val, s) -> iterable of states; decl(v, s); ret(st, s); stops(e)"""

    def __init__(self, P):
        self.P = P

    # -- client hooks
    def node(self, e, s):
        return (s,)

    def cond(self, e, val, s):
        return (s,)

    def decl(self, v, s):
        return (s,)

    def retst(self, x, s):
        return (s,)

    def leave(self, x, s):
        """end of a block: x is the block"""
        return (s,)

    def stops(self, e):
        return bool(e.get('nr')) or e.get('fn') in ('exit', 'abort', 'std::terminate', '_exit')

    # -- expressions
    KIDS = {'call': ('ce', 'obj', 'a'), 'ctor': ('a',), 'mem': ('b',), 'mref': ('b',), 'cast': ('e',), 'un': ('e',), 'sub': ('b', 'i'),
            'init': ('a',), 'throw': ('e',), 'new': ('n', 'i'), 'del': ('e',), 'other': ('a',)}

    def ev(self, e, S):
        """evaluate an expression for effect"""
        if e is None or not S:
            return S
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||') or k == 'un' and e['op'] == '!':
            t, f = self.evc(e, S)
            return t | f
        if k == 'cond':
            t, f = self.evc(e['c'], S)
            S = self.ev(e['x'], t) | self.ev(e['y'], f)
            return self.apply(e, S)
        if k == 'bin':
            if e['op'] == '=' or e['op'].endswith('=') and e['op'] not in ('==', '<=', '>=', '!='):
                S = self.ev(e['y'], S)
                S = self.ev(e['x'], S)
            else:
                S = self.ev(e['x'], S)
                S = self.ev(e['y'], S)
            return self.apply(e, S)
        if k == 'stmtexpr':
            o = self.st(e['s'], S)
            self.cur.merge(o)
            return o.norm
        for c in self.KIDS.get(k, ()):
            v = e.get(c)
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        S = self.ev(x, S)
            elif isinstance(v, dict) and 'k' in v:
                S = self.ev(v, S)
        if k == 'throw':
            self.cur.thr |= self.apply(e, S)
            return set()
        S = self.apply(e, S)
        if k == 'call' and self.stops(e):
            return set()
        return S

    def apply(self, e, S):
        r = set()
        for s in S:
            r.update(self.node(e, s))
        return r

    def evc(self, e, S):
        """evaluate a condition -> (states when true, states when false)"""
        if e is None:
            return S, set()
        k = e['k']
        if k == 'un' and e['op'] == '!':
            t, f = self.evc(e['e'], S)
            return f, t
        if k == 'bin' and e['op'] == '&&':
            t, f = self.evc(e['x'], S)
            t2, f2 = self.evc(e['y'], t)
            return t2, f | f2
        if k == 'bin' and e['op'] == '||':
            t, f = self.evc(e['x'], S)
            t2, f2 = self.evc(e['y'], f)
            return t | t2, f2
        if k == 'bool':
            return (S, set()) if e['v'] == '1' else (set(), S)
        if k == 'int':
            return (S, set()) if e['v'] != '0' else (set(), S)
        if k == 'cast' and e.get('ck', '').endswith('ToBoolean') or k == 'cast' and e.get('imp'):
            if e['e']['k'] in ('bin', 'un', 'ref', 'mem', 'call'):
                return self.evc(e['e'], S)
        S = self.ev(e, S)
        t, f = set(), set()
        for s in S:
            t.update(self.cond(e, True, s))
            f.update(self.cond(e, False, s))
        return t, f

    # -- statements
    def st(self, x, S):
        o = Out()
        if x is None:
            o.norm = S
            return o
        if not S:
            return o
        if len(S) > LIMIT:
            raise OverflowError
        k = x['k']
        old = getattr(self, 'cur', None)
        self.cur = o
        try:
            self.st_(k, x, S, o)
        finally:
            self.cur = old
        return o

    def st_(self, k, x, S, o):
        if k == 'block':
            for y in x['s']:
                r = self.st(y, S)
                o.merge(r)
                S = r.norm
            r = set()
            for s in S:
                r.update(self.leave(x, s))
            o.norm = r
            for n in ('brk', 'cont', 'ret', 'thr'):
                q = getattr(o, n)
                if q:
                    t = set()
                    for s in q:
                        t.update(self.leave(x, s))
                    setattr(o, n, t)
        elif k == 'decl':
            for v in x['v']:
                S = self.dodecl(v, S)
            o.norm = S
        elif k == 'if':
            if x.get('var'):
                S = self.dodecl(x['var'], S)
            t, f = self.evc(x['c'], S)
            a, b = self.st(x['x'], t), self.st(x.get('y'), f)
            o.merge(a)
            o.merge(b)
            o.norm = a.norm | b.norm
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loop(k, x, S, o)
        elif k == 'ret':
            if x.get('e'):
                S = self.ev(x['e'], S)
            r = set()
            for s in S:
                r.update(self.retst(x, s))
            o.ret |= r
        elif k == 'brk':
            o.brk |= S
        elif k == 'cont':
            o.cont |= S
        elif k == 'switch':
            S = self.ev(x['c'], S)
            self.switch(x, S, o)
        elif k in ('case', 'default', 'label'):
            r = self.st(x['b'], S)
            o.merge(r)
            o.norm = r.norm
        elif k == 'try':
            r = self.st(x['b'], S)
            thr = r.thr | S | r.norm
            r.thr = set()
            o.merge(r)
            o.norm |= r.norm
            for h in x['h']:
                q = self.st(h['b'], thr)
                o.merge(q)
                o.norm |= q.norm
        elif k in ('null_stmt', 'ostmt', 'goto'):
            o.norm = S
        else:
            o.norm = self.ev(x, S)

    def dodecl(self, v, S):
        if v.get('init'):
            S = self.ev(v['init'], S)
        r = set()
        for s in S:
            r.update(self.decl(v, s))
        return r

    def switch(self, x, S, o):
        body = x['b']['s'] if x['b'] and x['b']['k'] == 'block' else [x['b']]
        cur = set()
        dflt = False

        def labels(y):
            n = False
            while y and y['k'] in ('case', 'default'):
                n = n or y['k'] == 'default'
                y = y['b']
            return n
        for y in body:
            if y and y['k'] in ('case', 'default'):
                cur = cur | S
                dflt = dflt or labels(y)
            r = self.st(y, cur)
            o.norm |= r.brk
            r.brk = set()
            o.merge(r)
            cur = r.norm
        o.norm |= cur
        if not dflt:
            o.norm |= S

    def loop(self, k, x, S, o):
        if k == 'for' and x.get('i'):
            r = self.st(x['i'], S)
            S = r.norm
        if k == 'rfor':
            S = self.ev(x['r'], S)
        seen = set()
        work = S
        exits = set()
        first = True
        for _ in range(60):
            new = work - seen
            if not new:
                break
            seen |= new
            if k == 'do':
                t = new
            elif k == 'rfor':
                t = self.dodecl(dict(x['var'], init=None), new)
                exits |= new
            else:
                if x.get('var'):
                    new = self.dodecl(x['var'], new)
                t, f = self.evc(x['c'], new) if x.get('c') else (new, set())
                exits |= f
            r = self.st(x['b'], t)
            exits |= r.brk
            r.brk = set()
            nxt = r.norm | r.cont
            r.cont = set()
            o.merge(r)
            if k == 'for' and x.get('n'):
                nxt = self.ev(x['n'], nxt)
            if k == 'do':
                nxt, f = self.evc(x['c'], nxt)
                exits |= f
            work = nxt
            first = False
        o.norm = exits

    def function(self, f, S, inits=True):
        o0 = Out()
        self.cur = o0
        if inits and f.d.get('ck') == 'ctor':
            for i in f.d.get('inits', ()):
                if i.get('e'):
                    S = self.ev(i['e'], S)
                    S = set(y for s in S for y in self.minit(i, s))
        o = self.st(f.d.get('body'), S)
        o.thr |= o0.thr
        return o

    def minit(self, i, s):
        return (s,)
