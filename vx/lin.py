"""Numeric abstract domain: polynomial terms over integer symbols, conjunctions of
polynomial inequalities (linear over monomials), with an in-house entailment test
(Gaussian substitution + Fourier-Motzkin elimination).  No external solver."""
from fractions import Fraction
from math import gcd

W64 = 1 << 64


class Sym:
    """Table of symbols. A symbol is an int id; metadata kept in parallel lists."""
    __slots__ = ('lo', 'hi', 'exact', 'name')

    def __init__(self, lo, hi, exact, name):
        self.lo = lo
        self.hi = hi
        self.exact = exact
        self.name = name


class Syms:
    def __init__(self):
        self.t = {}
        self.n = 0

    def fresh(self, name, lo=0, hi=None, exact=True):
        self.n += 1
        self.t[self.n] = Sym(lo, hi, exact, name)
        return self.n


# A polynomial is a dict {monomial: coeff}; monomial = tuple of sorted symbol ids, () = constant.
class Poly:
    __slots__ = ('m', 'h')

    def __init__(self, m):
        self.m = m
        self.h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(self.m.items()))
        return self.h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def add(self, o):
        if not o.m:
            return self
        m = dict(self.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            elif k in m:
                del m[k]
        return Poly(m)

    def neg(self):
        return Poly({k: -c for k, c in self.m.items()})

    def sub(self, o):
        return self.add(o.neg())

    def addc(self, c):
        if not c:
            return self
        return self.add(Poly({(): c}))

    def mulc(self, c):
        if c == 0:
            return ZERO
        return Poly({k: v * c for k, v in self.m.items()})

    def mul(self, o):
        if self.isconst():
            return o.mulc(self.cval())
        if o.isconst():
            return self.mulc(o.cval())
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                v = m.get(k, 0) + c1 * c2
                if v:
                    m[k] = v
                elif k in m:
                    del m[k]
        return Poly(m)

    def syms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def subst(self, mp):
        """substitute symbols by polys (mp: sym -> Poly)"""
        hit = False
        for k in self.m:
            for s in k:
                if s in mp:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return self
        r = ZERO
        for k, c in self.m.items():
            if any(s in mp for s in k):
                t = Poly({(): c})
                for s in k:
                    t = t.mul(mp[s] if s in mp else Poly({(s,): 1}))
                r = r.add(t)
            else:
                r = r.add(Poly({k: c}))
        return r

    def evalm(self, val):
        r = 0
        for k, c in self.m.items():
            for s in k:
                c *= val[s]
            r += c
        return r

    def show(self, S):
        if not self.m:
            return '0'
        out = []
        for k, c in sorted(self.m.items(), key=lambda x: (len(x[0]) == 0, x[0])):
            if not k:
                t = str(c) if abs(c) < (1 << 62) else ('%+d*2^64%+d' % (c // W64, c % W64) if c % W64 else '%d*2^64' % (c // W64))
            else:
                n = '*'.join(S.t[s].name if s in S.t else '?%d' % s for s in k)
                t = n if c == 1 else ('-' + n if c == -1 else '%d*%s' % (c, n))
            out.append(t)
        return ' + '.join(out).replace('+ -', '- ')

    __repr__ = lambda self: 'P' + str(self.m)


ZERO = Poly({})
ONE = Poly({(): 1})


class Infeasible(Exception):
    pass


class Facts:
    """Conjunction of constraints. ge: list of Poly >= 0; sub: eliminated symbols; atoms: bool atom -> value."""
    __slots__ = ('S', 'ge', 'sub', 'atoms', 'cache', 'nes', 'disj')

    def __init__(self, S):
        self.S = S
        self.ge = {}
        self.sub = {}
        self.atoms = {}
        self.cache = {}
        self.nes = {}
        self.disj = ()      # disjunctions lost by joins: pairs of alternatives (tuples of literals)

    def clone(self):
        f = Facts.__new__(Facts)
        f.S = self.S
        f.ge = dict(self.ge)
        f.sub = dict(self.sub)
        f.atoms = dict(self.atoms)
        f.cache = dict(self.cache) if len(self.cache) < 60 else {}
        f.nes = dict(self.nes)
        f.disj = self.disj
        return f

    def norm(self, p):
        if self.sub and p.m:
            for _ in range(20):
                q = p.subst(self.sub)
                if q is p:
                    return p
                p = q
        return p

    def monneg(self, k):
        """is the monomial provably >= 0 from symbol lower bounds alone"""
        t = self.S.t
        i = 0
        neg = False
        while i < len(k):
            s = t.get(k[i])
            if s is None or s.lo is None or s.lo < 0:
                # squared?
                if i + 1 < len(k) and k[i + 1] == k[i]:
                    i += 2
                    continue
                return False
            i += 1
        return not neg

    def bounds1(self, p):
        """interval of p from symbol bounds only; returns (lo, hi) (None = unbounded)"""
        lo = hi = 0
        t = self.S.t
        for k, c in p.m.items():
            if not k:
                ml = mh = 1
            else:
                ml, mh = 1, 1
                ok = True
                for s in k:
                    y = t.get(s)
                    if y is None or y.lo is None or y.lo < 0:
                        ok = False
                        break
                    ml = ml * y.lo
                    mh = None if (mh is None or y.hi is None) else mh * y.hi
                if not ok:
                    if len(k) == 1 and t.get(k[0]) is not None:
                        ml, mh = t[k[0]].lo, t[k[0]].hi
                    else:
                        ml = mh = None
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
        return lo, hi

    def entails(self, p):
        """facts |- p >= 0"""
        p = self.norm(p)
        if p.isconst():
            return p.cval() >= 0
        lo, hi = self.bounds1(p)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if p in self.ge:
            return True
        c = self.cache.get(p)
        if c is not None:
            return c
        r = self._entails(p)
        self.cache[p] = r
        return r

    def _entails(self, p):
        # quick: p - f has a nonneg lower bound
        for f in self.ge:
            lo, _ = self.bounds1(p.sub(f))
            if lo is not None and lo >= 0:
                return True
        return not self.feasible_with([p.neg().addc(-1)])

    def relevant(self, goals, maxn=60):
        atoms = set()
        for g in goals:
            atoms.update(k for k in g.m if k)
        syms = set(s for k in atoms for s in k)
        chosen = []
        rest = list(self.ge)
        changed = True
        while changed and len(chosen) < maxn:
            changed = False
            nr = []
            for f in rest:
                fs = f.syms()
                if fs & syms:
                    chosen.append(f)
                    if not fs <= syms:
                        syms |= fs
                        changed = True
                    if len(chosen) >= maxn:
                        break
                else:
                    nr.append(f)
            rest = nr
        return chosen, syms

    def feasible_with(self, goals):
        """rational feasibility of facts + goals (each >= 0). True = maybe feasible."""
        goals = [self.norm(g) for g in goals]
        for g in goals:
            if g.isconst() and g.cval() < 0:
                return False
        cons, syms = self.relevant(goals)
        allc = list(goals) + cons
        mons = set()
        for c in allc:
            for k in c.m:
                if k:
                    mons.add(k)
        # nonlinear products
        nl = [k for k in mons if len(k) >= 2]
        extra = []
        if nl:
            t = self.S.t
            lin = [c for c in allc if all(len(k) <= 1 for k in c.m)]
            seen = set()
            for k in nl:
                for i in range(len(k)):
                    s = k[i]
                    rest = k[:i] + k[i + 1:]
                    # multiply facts containing monomial `rest` by s (s>=0)
                    y = t.get(s)
                    if y is None or y.lo is None or y.lo < 0:
                        continue
                    for c in allc:
                        if rest in c.m and (id(c), s) not in seen and len(extra) < 60:
                            seen.add((id(c), s))
                            extra.append(c.mul(Poly({(s,): 1})))
                    if len(rest) == 1:
                        z = t.get(rest[0])
                        if z is not None and z.lo is not None and z.lo >= 1:
                            # rest >= lo -> s*rest >= lo*s
                            extra.append(Poly({k: 1, (s,): -z.lo}))
                        else:
                            # is rest >= 1 among facts?
                            g = Poly({rest: 1, (): -1})
                            if g in self.ge:
                                extra.append(Poly({k: 1, (s,): -1}))
            # second level products (i<a, j<b style): multiply pairs of linear facts sharing the nonlinear monomials
            if len(extra) < 40:
                nlset = set(nl)
                ll = lin[:14]
                for i in range(len(ll)):
                    for j in range(i, len(ll)):
                        q = ll[i].mul(ll[j])
                        if any(k in nlset for k in q.m if len(k) >= 2) and sum(1 for k in q.m if len(k) >= 2 and k not in nlset) <= 1:
                            extra.append(q)
                            if len(extra) > 60:
                                break
                    if len(extra) > 60:
                        break
            allc = allc + extra
            for c in extra:
                for k in c.m:
                    if k:
                        mons.add(k)
        # symbol bounds
        t = self.S.t
        base = []
        for k in mons:
            if len(k) == 1:
                y = t.get(k[0])
                if y is None:
                    continue
                if y.lo is not None:
                    base.append(Poly({k: 1, (): -y.lo}) if y.lo else Poly({k: 1}))
                if y.hi is not None:
                    base.append(Poly({k: -1, (): y.hi}))
            elif self.monneg(k):
                base.append(Poly({k: 1}))
        return fm_feasible([c.m for c in allc + base])

    # ---- adding facts
    def add_ge(self, p):
        p = self.norm(p)
        if p.isconst():
            if p.cval() < 0:
                raise Infeasible()
            return
        g = 0
        for k, c in p.m.items():
            if k:
                g = gcd(g, abs(c))
        if g > 1:
            m = {k: c // g for k, c in p.m.items()}   # floor for the constant: sound for integers
            m = {k: c for k, c in m.items() if c}
            p = Poly(m)
        lo, hi = self.bounds1(p)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            raise Infeasible()
        if p in self.ge:
            return
        if not self.feasible_with([p]):
            raise Infeasible()
        n = p.neg()
        self.cache = {k: v for k, v in self.cache.items() if v}
        if n in self.ge:
            del self.ge[n]
            self.add_eq(p, check=False)
            return
        self.ge[p] = None
        # disequalities now decidable?
        if self.nes:
            for q in list(self.nes):
                if q not in self.nes:
                    continue
                qq = self.norm(q)
                if self.entails(qq):
                    self.nes.pop(q, None)
                    self.add_ge(qq.addc(-1))
                elif self.entails(qq.neg()):
                    self.nes.pop(q, None)
                    self.add_ge(qq.neg().addc(-1))

    def add_eq(self, p, check=True):
        p = self.norm(p)
        if p.isconst():
            if p.cval() != 0:
                raise Infeasible()
            return
        if check:
            if not self.feasible_with([p, p.neg()]):
                raise Infeasible()
        # choose symbol to eliminate: coefficient +-1, linear, not elsewhere in p; prefer newest
        best = None
        for k, c in p.m.items():
            if len(k) == 1 and abs(c) == 1:
                s = k[0]
                if any(s in kk for kk in p.m if kk != k):
                    continue
                y = self.S.t[s]
                score = (not y.exact, s)
                if best is None or score > best[0]:
                    best = (score, s, c)
        self.cache = {k: v for k, v in self.cache.items() if v}
        if best is None:
            self.ge[p] = None
            self.ge[p.neg()] = None
            return
        s, c = best[1], best[2]
        rest = Poly({k: v for k, v in p.m.items() if k != (s,)})
        val = rest.mulc(-c)      # c*s + rest = 0 -> s = -rest/c
        y = self.S.t[s]
        self.sub[s] = val
        old = list(self.ge)
        mp = {s: val}
        new = {}
        pend = []
        for f in old:
            q = f.subst(mp)
            if q is f:
                new[f] = None
            else:
                pend.append(q)
        self.ge = new
        self.cache = {}
        if y.lo is not None:
            pend.append(val.addc(-y.lo))
        if y.hi is not None:
            pend.append(val.neg().addc(y.hi))
        for q in pend:
            self.add_ge(q)
        if self.nes:
            for q in list(self.nes):
                if s in q.syms() and q in self.nes:
                    self.nes.pop(q, None)
                    self.add_ne(q)

    def add_ne(self, p):
        """p != 0; returns False if it could not be decided and is only recorded"""
        p = self.norm(p)
        if p.isconst():
            if p.cval() == 0:
                raise Infeasible()
            return True
        if self.entails(p):
            self.add_ge(p.addc(-1))
            return True
        if self.entails(p.neg()):
            self.add_ge(p.neg().addc(-1))
            return True
        self.nes[p] = None
        return False

    def truth(self, c):
        """c = (op, poly); returns True/False/None"""
        op, p = c
        if op == 'ge':
            if self.entails(p):
                return True
            if self.entails(p.neg().addc(-1)):
                return False
            return None
        q = self.norm(p)
        if q.isconst():
            z = q.cval() == 0
        elif self.entails(q) and self.entails(q.neg()):
            z = True
        elif self.entails(q.addc(-1)) or self.entails(q.neg().addc(-1)) or q in self.nes or q.neg() in self.nes:
            z = False
        else:
            return None
        return z if op == 'eq' else not z

    def exact_model(self, extra, budget=40):
        """model of facts + extra that mentions exact symbols only and respects the disjunctions lost by joins"""
        t = self.S.t
        left = [budget]

        def literals(F, alt, todo):
            for l in alt:
                if l[0] == 'ge':
                    F.add_ge(l[1])
                elif l[0] == 'ne':
                    z = F.norm(l[1])
                    if z.isconst():
                        if z.cval() == 0:
                            raise Infeasible()
                    else:
                        F.nes[z] = None
                elif l[0] == 'at':
                    if F.atoms.setdefault(l[1], l[2]) != l[2]:
                        raise Infeasible()
                else:
                    todo.append(l[1])

        def rec(F, todo):
            left[0] -= 1
            if left[0] < 0:
                return None
            if not todo:
                ex = [F.norm(e) for e in extra]
                _, syms = F.relevant(ex, maxn=200)
                if not all(t[s].exact for s in syms if s in t):
                    return None
                return F.model(ex)
            d, rest = todo[0], todo[1:]
            if d is None:
                return None
            for alt in d:
                G = F.clone()
                more = []
                try:
                    literals(G, alt, more)
                except Infeasible:
                    continue
                m = rec(G, more + rest)
                if m is not None:
                    return m
            return None
        ex = [self.norm(e) for e in extra]
        _, syms = self.relevant(ex, maxn=200)
        if not all(t[s].exact for s in syms if s in t):
            return None
        return rec(self, list(self.disj))

    def model(self, extra, limit=6000):
        """search small integer model of facts + extra (list of Poly>=0) over connected symbols.
        returns (dict, syms) or None"""
        extra = [self.norm(e) for e in extra]
        cons, syms = self.relevant(extra, maxn=200)
        allc = extra + cons
        nes = []
        for q in self.nes:
            qs = q.syms()
            if qs & syms:
                nes.append(q)
                syms |= qs
        for q in nes:
            pass
        order = sorted(syms)
        if len(order) > 14:
            return None
        bys = []
        cs = [(c, c.syms()) for c in allc]
        t = self.S.t
        # eliminated symbols whose definition touches these syms: keep their bounds
        for s, v in self.sub.items():
            pass
        # order symbols: exact inputs first
        val = {}
        cnt = [0]

        def dom(s):
            y = t[s]
            lo = y.lo
            if lo is None:
                d = [0, 1, -1, 2, -2, 3, 4, 5]
                if y.hi is not None:
                    d = [x for x in d if x <= y.hi] or [y.hi, y.hi - 1]
                return d
            d = list(range(lo, lo + 6))
            if y.hi is not None:
                d = [x for x in d if x <= y.hi]
            return d

        def partial_ok(cons_here):
            for c, ss in cons_here:
                if all(x in val for x in ss):
                    if c.evalm(val) < 0:
                        return False
            return True
        # determine for each position the constraints to be checked
        chk = []
        done = set()
        for i, s in enumerate(order):
            seen = set(order[:i + 1])
            here = []
            for j, (c, ss) in enumerate(cs):
                if j not in done and ss <= seen:
                    here.append(c)
                    done.add(j)
            hn = [q for q in nes if q.syms() <= seen and s in q.syms()]
            chk.append((here, hn))

        def rec(i):
            if i == len(order):
                return True
            s = order[i]
            here, hn = chk[i]
            # derive values forced by equalities/linear bounds
            cand = dom(s)
            lo = None
            hi = None
            for c in here:
                a = c.m.get((s,), 0)
                if a and not any(s in k and len(k) > 1 for k in c.m):
                    r = 0
                    for k, cc in c.m.items():
                        if k != (s,):
                            v = cc
                            for x in k:
                                v *= val[x]
                            r += v
                    # a*s + r >= 0
                    if a > 0:
                        b = -(r // a)
                        b = (-r + a - 1) // a
                        lo = b if lo is None else max(lo, b)
                    else:
                        b = r // (-a)
                        hi = b if hi is None else min(hi, b)
            y = t[s]
            if y.lo is not None:
                lo = y.lo if lo is None else max(lo, y.lo)
            if y.hi is not None:
                hi = y.hi if hi is None else min(hi, y.hi)
            if lo is not None and hi is not None and lo > hi:
                return False
            if lo is not None:
                cand = [x for x in range(lo, lo + 5) if hi is None or x <= hi]
                if hi is not None and hi not in cand:
                    cand.append(hi)
            elif hi is not None:
                cand = [x for x in cand if x <= hi] or [hi, hi - 1, hi - 2]
            for x in cand:
                cnt[0] += 1
                if cnt[0] > limit:
                    return False
                val[s] = x
                ok = True
                for c in here:
                    if c.evalm(val) < 0:
                        ok = False
                        break
                if ok:
                    for q in hn:
                        if q.evalm(val) == 0:
                            ok = False
                            break
                if ok and rec(i + 1):
                    return True
            val.pop(s, None)
            return False
        for c, ss in cs:
            if not ss and c.cval() < 0:
                return None
        if rec(0):
            return dict(val)
        return None


def fm_feasible(cons, maxc=260):
    """cons: list of dict monomial->int meaning sum >= 0 (with () constant). Rational feasibility."""
    work = []
    seen = set()
    for m in cons:
        m = {k: c for k, c in m.items() if c}
        if not any(k for k in m):
            if m.get((), 0) < 0:
                return False
            continue
        key = _norm_key(m)
        if key in seen:
            continue
        seen.add(key)
        work.append(m)
    # tighten: keep for the same linear part only strongest constant
    work = _dedupe(work)
    while True:
        if not work:
            return True
        pos = {}
        neg = {}
        for m in work:
            for k, c in m.items():
                if k:
                    if c > 0:
                        pos[k] = pos.get(k, 0) + 1
                    else:
                        neg[k] = neg.get(k, 0) + 1
        best = None
        for k in set(pos) | set(neg):
            a, b = pos.get(k, 0), neg.get(k, 0)
            cost = a * b - a - b
            if best is None or cost < best[0]:
                best = (cost, k)
        k = best[1]
        P = [m for m in work if m.get(k, 0) > 0]
        N = [m for m in work if m.get(k, 0) < 0]
        rest = [m for m in work if k not in m]
        for p in P:
            cp = p[k]
            for n in N:
                cn = -n[k]
                g = gcd(cp, cn)
                a, b = cn // g, cp // g
                m = {}
                for kk, c in p.items():
                    if kk != k:
                        m[kk] = c * a
                for kk, c in n.items():
                    if kk != k:
                        v = m.get(kk, 0) + c * b
                        if v:
                            m[kk] = v
                        elif kk in m:
                            del m[kk]
                if not any(kk for kk in m):
                    if m.get((), 0) < 0:
                        return False
                    continue
                rest.append(m)
        work = _dedupe(rest)
        if len(work) > maxc:
            return True


def _norm_key(m):
    return tuple(sorted(m.items()))


def _dedupe(ms):
    best = {}
    for m in ms:
        g = 0
        for k, c in m.items():
            if k:
                g = gcd(g, abs(c))
        c0 = m.get((), 0)
        if g > 1:
            m = {k: c // g for k, c in m.items() if k}
            c0 = c0 // g     # integer tightening (floor)
        else:
            m = {k: c for k, c in m.items() if k}
        key = tuple(sorted(m.items()))
        o = best.get(key)
        if o is None or c0 < o[1]:
            best[key] = (m, c0)
    out = []
    for key, (m, c0) in best.items():
        if c0:
            m = dict(m)
            m[()] = c0
        # contradictory opposite pair?
        nk = tuple(sorted((k, -c) for k, c in m.items() if k))
        o = best.get(nk)
        if o is not None and o[1] + c0 < 0:
            return [{(): 0, ('x',): 1, }, ] if False else [dict(a) for a in _contr()]
        out.append(m)
    return out


def _contr():
    return [{('_',): 1, (): -1}, {('_',): -1}]
