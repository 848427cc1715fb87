"""Rational functions over uninterpreted atoms: normal form of float expressions in real arithmetic (rounding ignored)."""
import math
from fractions import Fraction
from .lin import Poly

MAXT = 600
LOGS = {'log': 1.0, 'std::log': 1.0, 'log10': 1 / math.log(10), 'std::log10': 1 / math.log(10)}
EXPS = ('exp', 'std::exp')


class TooBig(Exception):
    pass


def frac(x):
    f = Fraction(x)
    g = f.limit_denominator(10 ** 6)
    return g if abs(float(g) - x) <= 1e-15 * abs(x) else f


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > MAXT:
        raise TooBig()
    return r


def pmul(a, b):
    if len(a) * len(b) > MAXT * 20:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXT:
        raise TooBig()
    return r


def reduce(f, memo):
    """replaces the squares of square roots by their argument"""
    sq = memo.get('sq')
    if not sq:
        return f
    for _ in range(20):
        f, ch = reduce1(f, sq)
        if not ch:
            break
    return f


def reduce1(f, sq):
    for w in (0, 1):
        for m in f[w]:
            for x in set(m):
                if x in sq and m.count(x) >= 2:
                    n, d = sq[x]
                    p0, p1 = {}, {}
                    for k, c in f[w].items():
                        if k.count(x) >= 2:
                            l = list(k)
                            l.remove(x)
                            l.remove(x)
                            p1[tuple(l)] = c
                        else:
                            p0[k] = c
                    p = padd(pmul(p0, d), pmul(n, p1))
                    o = pmul(f[1 - w], d)
                    return ((p, o) if w == 0 else (o, p)), True
    return f, False


ONE = {(): Fraction(1)}


def canon(p):
    return tuple(sorted((m, '%.11e' % float(c)) for m, c in p.items()))


def lowest(f):
    """cancels the common monomial and scales the denominator"""
    n, d = f
    if not n or not d:
        return n, ONE if d else d
    com = None
    for p in (n, d):
        for m in p:
            c = {}
            for x in m:
                c[x] = c.get(x, 0) + 1
            com = c if com is None else {x: min(k, c[x]) for x, k in com.items() if x in c}
    lead = d[min(d)]

    def cut(p):
        r = {}
        for m, c in p.items():
            l = list(m)
            for x, k in com.items():
                for _ in range(k):
                    l.remove(x)
            r[tuple(l)] = c / lead
        return r
    return cut(n), cut(d)


def norm(key, memo):
    """(numerator, denominator) as polynomials over atoms"""
    if key in memo:
        return memo[key]
    h = key[0] if isinstance(key, tuple) else None
    r = None
    if h == 'flt' and isinstance(key[1], (int, float)):
        x = float(key[1])
        if x == x and abs(x) != float('inf'):
            r = ({(): frac(x)} if x else {}, ONE)
    elif h == 'i2f' and isinstance(key[1], Poly) and key[1].isconst():
        r = ({(): Fraction(key[1].cval())} if key[1].cval() else {}, ONE)
    elif h == 'i2f' and isinstance(key[1], tuple) and len(key[1]) == 2 and key[1][0] in ('eq', 'ne', 'ge') and isinstance(key[1][1], Poly) and key[1][1].isconst():
        c = key[1][1].cval()
        v = c == 0 if key[1][0] == 'eq' else c != 0 if key[1][0] == 'ne' else c >= 0
        r = ({(): Fraction(1)} if v else {}, ONE)
    elif h == 'i2f' and key[1] in (('t',), ('f',)):
        r = ({(): Fraction(1)} if key[1] == ('t',) else {}, ONE)
    elif h in ('+', '-', '*', '/') and len(key) == 3:
        a, b = norm(key[1], memo), norm(key[2], memo)
        if h in '+-':
            s = 1 if h == '+' else -1
            if a[1] == b[1]:
                r = (padd(a[0], b[0], s), a[1])
            else:
                r = (padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1]))
        elif h == '*':
            r = (pmul(a[0], b[0]), pmul(a[1], b[1]))
        elif b[0]:
            r = (pmul(a[0], b[1]), pmul(a[1], b[0]))
    elif h == 'neg':
        a = norm(key[1], memo)
        r = ({m: -c for m, c in a[0].items()}, a[1])
    elif h in LOGS and len(key) == 2 and isinstance(key[1], tuple):
        # logarithm of an exponential times a constant
        n, d = lowest(norm(key[1], memo))
        if len(n) == 1 and len(d) == 1:
            (m, c), (o, q) = next(iter(n.items())), next(iter(d.items()))
            c = float(c / q)
            ex = memo.get('ex', {})
            if c > 0 and all(x in ex for x in m + o):
                r = ({(): frac(math.log(c) * LOGS[h])} if c != 1 else {}, ONE)
                for x, sg in [(x, 1) for x in m] + [(x, -1) for x in o]:
                    a, b = ex[x]
                    a = pmul(a, {(): frac(LOGS[h])}) if LOGS[h] != 1 else a
                    r = (padd(pmul(r[0], b), pmul(a, r[1]), sg), pmul(r[1], b))
                # rounding of the conversion factor
                r = ({k: v for k, v in ((k, Fraction(float(v)).limit_denominator(10 ** 9) if abs(v) < 10 ** 6 else v) for k, v in r[0].items()) if v}, r[1])
        if r is None:
            n, d = lowest(reduce((n, d), memo))
            r = ({(('f', h, canon(n), canon(d)).__repr__(),): Fraction(1)}, ONE)
    elif h in EXPS and len(key) == 2 and isinstance(key[1], tuple):
        a = lowest(reduce(norm(key[1], memo), memo))
        if not a[0]:
            r = (ONE, ONE)
        else:
            q = ratio(a[0], a[1])
            if q is not None:
                r = ({(): frac(math.exp(float(q)))}, ONE)
            else:
                n = ('f', 'exp', canon(a[0]), canon(a[1])).__repr__()
                memo.setdefault('ex', {})[n] = a
                r = ({(n,): Fraction(1)}, ONE)
    elif h in ('sqrt', 'exp', 'log', 'cos', 'sin', 'abs', 'fabs', 'std::sqrt') or isinstance(h, str) and len(key) == 2 and isinstance(key[1], tuple):
        a = norm(key[1], memo)
        a = lowest(reduce(a, memo))
        n = ('f', h, canon(a[0]), canon(a[1])).__repr__()
        if h in ('sqrt', 'std::sqrt'):
            memo.setdefault('sq', {})[n] = a
        r = ({(n,): Fraction(1)}, ONE)
    if r is None:
        r = ({(repr(key),): Fraction(1)}, ONE)
    memo[key] = r
    return r


def ratio(n, d):
    """the constant n/d, if it is one"""
    if not d or len(n) != len(d):
        return None
    m = next(iter(d))
    q = n.get(m, 0) / d[m]
    return q if q and all(n.get(k, 0) == q * c for k, c in d.items()) else None


def equal(k1, k2):
    """True: equal in real arithmetic wherever both are defined; None: not shown"""
    memo = {}
    if isinstance(k1, tuple) and isinstance(k2, tuple) and len(k1) == 2 and len(k2) == 2 and k1[0] == k2[0] and isinstance(k1[0], str) \
            and isinstance(k1[1], tuple) and isinstance(k2[1], tuple) and k1[0] not in ('in', 'fresh', 'flt', 'i2f'):
        if equal(k1[1], k2[1]):
            return True
    try:
        a, b = norm(k1, memo), norm(k2, memo)
        if memo.get('sq'):
            z = (padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1), ONE)
            return True if not reduce(z, memo)[0] else None
        p, q = pmul(a[0], b[1]), pmul(b[0], a[1])
        return True if p == q or p.keys() == q.keys() and all(abs(c - q[m]) <= abs(c) / 10 ** 12 for m, c in p.items()) else None
    except (TooBig, RecursionError):
        return None
