"""std::string with known characters (laws only): a string is a tuple of character values, its operations are those of the standard."""
from .lin import Poly, ZERO, ONE, W64
from .ir import kind
from .eng import Str, Arr, Vec, Op, B, PtrV, TRUE, FALSE, Thrown

NPOS = Poly.const(W64 - 1)
MAXLEN = 40


def law(E):
    return bool(E.hooks.get('expect'))


def chars(E, o):
    """character values of a string object, or None"""
    if not isinstance(o, Str):
        return None
    if o.key[0] == 'lit':
        b = o.key[1].encode('utf8', 'replace')
        return [Poly.const(c if c < 128 else c - 256) for c in b]
    if o.key[0] == 'ch':
        return list(o.key[1])
    n = E.st.facts.norm(o.len)
    if n.isconst() and n.cval() == 0:
        return []
    return None


def mk(cs):
    return Str(Poly.const(len(cs)), ('ch', tuple(cs)))


def unknown(E):
    return Str(E.fresh('len', 0, 1 << 40, False), ('h', E.nsym()))


def new(E, cs):
    return ('o', E.newobj(mk(cs) if cs is not None else unknown(E)))


def cval(E, v, hi):
    """a position as a number; one case per value up to hi, anything above is hi + 1"""
    if not isinstance(v, Poly):
        return None
    p = E.st.facts.norm(v)
    if p.isconst():
        return p.cval()
    for c in range(hi + 1):
        if E.decide(('eq', p.addc(-c))):
            return c
    return hi + 1 if E.st.facts.entails(p.addc(-hi - 1)) else None


def source(E, x, fr):
    """('s', chars or None) / ('c', char) / ('n', value) / ('it', PtrV) of one argument"""
    k = kind(fr.T[x['t']])
    if k[0] in ('int', 'bool'):
        v = E.val(x, fr)
        return ('c' if k[0] == 'int' and k[2] == 8 else 'n', v)
    v = E.ev(x, fr)
    l = E.obj_of(v, x, fr) if not isinstance(v, PtrV) else v.loc
    if isinstance(l, tuple) and l and l[0] == 'o':
        o = E.st.get(l[1])
        if isinstance(o, Str):
            return ('s', chars(E, o))
        if isinstance(o, PtrV):
            l = o.loc
        elif isinstance(o, Arr) and all(isinstance(c, Poly) for c in o.vals):
            return ('s', list(o.vals))
        elif isinstance(o, Vec) and o.known is not None and all(isinstance(c, Poly) for c in o.known):
            return ('s', list(o.known))
    if isinstance(l, tuple) and l and l[0] == 'e':
        o = E.st.get(l[1])
        if isinstance(o, Str):
            if kind(fr.T[x['t']])[0] in ('iter', 'cls'):
                return ('it', PtrV(l))
            cs = chars(E, o)
            i = E.st.facts.norm(l[2])
            if cs is not None and i.isconst() and 0 <= i.cval() <= len(cs):
                return ('s', cs[i.cval():])
            return ('s', None)
        w = E.load(l, '?')
        if isinstance(w, tuple) and w and w[0] == 'o' and isinstance(E.st.get(w[1]), Str):
            return ('s', chars(E, E.st.get(w[1])))
    return ('s', None)


def text(s):
    return s[1] if s[0] == 's' else [s[1]] if s[0] == 'c' and isinstance(s[1], Poly) else None


def eqc(E, a, b):
    d = E.st.facts.norm(a.sub(b))
    if d.isconst():
        return d.cval() == 0
    return E.decide(('eq', d))


def equal(E, a, b):
    return len(a) == len(b) and all(eqc(E, x, y) for x, y in zip(a, b))


def search(E, name, cs, pat, p0):
    n = len(cs)
    if name == 'find':
        for i in range(p0, n - len(pat) + 1):
            if all(eqc(E, cs[i + j], pat[j]) for j in range(len(pat))):
                return i
        return None
    if name == 'rfind':
        for i in range(min(p0, n - len(pat)), -1, -1):
            if all(eqc(E, cs[i + j], pat[j]) for j in range(len(pat))):
                return i
        return None
    want = 'not' not in name
    rng = range(p0, n) if 'first' in name else range(min(p0, n - 1), -1, -1)
    for i in rng:
        if any(eqc(E, cs[i], c) for c in pat) == want:
            return i
    return None


def method(E, name, e, fr, oid, o):
    """NotImplemented: not handled here (arguments not evaluated)"""
    cs = chars(E, o)
    a = e['a']
    if name in ('size', 'length', 'empty', 'c_str', 'data', 'begin', 'cbegin', 'end', 'cend', 'reserve', 'operator[]', 'at', 'front', 'back', 'clear'):
        return NotImplemented
    if name not in ('resize', 'push_back', 'pop_back', 'operator+=', 'append', 'operator=', 'assign', 'substr', 'erase', 'insert', 'replace', 'compare',
                    'find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        return NotImplemented
    if any(kind(fr.T[x['t']])[0] in ('iter',) for x in a) and name != 'erase':
        return NotImplemented
    if name == 'erase' and a and kind(fr.T[a[0]['t']])[0] not in ('int',):
        if cs is None:
            return NotImplemented
        p = E.val(a[0], fr)
        q = E.val(a[1], fr) if len(a) > 1 else None
        if isinstance(p, PtrV) and p.loc[0] == 'e' and (q is None or isinstance(q, PtrV) and q.loc[0] == 'e'):
            i = cval(E, p.loc[2], len(cs))
            j = i + 1 if q is None else cval(E, q.loc[2], len(cs))
            if i is not None and j is not None and i <= j <= len(cs):
                E.st.put(oid, mk(cs[:i] + cs[j:]))
                return p
        E.st.put(oid, unknown(E))
        return p
    if cs is None and name in ('operator=', 'assign') and len(a) == 1:
        cs = []
    if cs is None:
        return NotImplemented
    s = [source(E, x, fr) for x in a]
    n = len(cs)

    def put(r):
        E.st.put(oid, mk(r) if r is not None and len(r) <= MAXLEN else unknown(E))
        return ('o', oid)

    def num(i, dflt):
        if i >= len(s):
            return dflt
        if s[i][0] not in ('n', 'c'):
            return None
        v = E.intcast(s[i][1], 'unsigned long', fr.T[a[i]['t']])
        return cval(E, v, n)
    if name == 'resize':
        k = num(0, None)
        if k is None or k > MAXLEN:
            put(None)
            return None
        put(cs[:k] + [s[1][1] if len(s) > 1 else ZERO] * (k - n))
        return None
    if name == 'push_back':
        put(cs + [s[0][1]] if isinstance(s[0][1], Poly) else None)
        return None
    if name == 'pop_back':
        E.ob('string pop_back', [Poly.const(n - 1)], e, fr, 'pop_back() of an empty string')
        put(cs[:-1])
        return None
    if name in ('operator+=', 'append', 'operator=', 'assign'):
        base = cs if name in ('operator+=', 'append') else []
        t = None
        if len(s) == 1:
            t = text(s[0])
        elif len(s) == 2 and s[0][0] == 'n' and s[1][0] == 'c':
            k = num(0, None)
            t = [s[1][1]] * k if k is not None and k <= MAXLEN and isinstance(s[1][1], Poly) else None
        elif len(s) == 3 and text(s[0]) is not None and s[0][0] == 's':
            p, k = num(1, None), num(2, None)
            if p is not None and k is not None and p <= len(s[0][1]):
                t = s[0][1][p:p + min(k, MAXLEN)]
        return put(base + t if t is not None else None)
    if name == 'substr' or name == 'erase':
        p, k = num(0, 0), num(1, 1 << 62)
        if p is None or k is None:
            if name == 'erase':
                return put(None)
            return new(E, None)
        E.ob('%s position' % name, [Poly.const(n - p)], e, fr, '%s() position beyond the end (throws std::out_of_range)' % name)
        if p > n:
            raise Thrown()
        k = min(k, n - p)
        if name == 'erase':
            return put(cs[:p] + cs[p + k:])
        return new(E, cs[p:p + k])
    if name == 'insert':
        p = num(0, 0)
        t = None
        if len(s) == 2:
            t = text(s[1])
        elif len(s) == 3 and s[2][0] == 'c':
            k = num(1, None)
            t = [s[2][1]] * k if k is not None and k <= MAXLEN and isinstance(s[2][1], Poly) else None
        if p is None:
            return put(None)
        if p > n:
            raise Thrown()
        return put(cs[:p] + t + cs[p:] if t is not None else None)
    if name == 'replace':
        p, k = num(0, None), num(1, None)
        t = text(s[2]) if len(s) == 3 else None
        if p is None or k is None or t is None:
            return put(None)
        if p > n:
            raise Thrown()
        return put(cs[:p] + t + cs[p + min(k, n - p):])
    if name == 'compare':
        t = text(s[0]) if len(s) == 1 else None
        if len(s) == 3 and s[2][0] == 's' and s[2][1] is not None:
            p, k = num(0, None), num(1, None)
            if p is not None and k is not None:
                if p > n:
                    raise Thrown()
                t, cs = s[2][1], cs[p:p + min(k, n - p)]
        if t is not None and equal(E, cs, t):
            return ZERO
        r = E.fresh('cmp', -(1 << 31), (1 << 31) - 1, False)
        if t is not None:
            E.st.facts.add_ne(r) if hasattr(E.st.facts, 'add_ne') else None
        return r
    t = text(s[0])
    p = num(1, 0 if name in ('find', 'find_first_of', 'find_first_not_of') else 1 << 62)
    if t is None or p is None or len(s) > 2:
        return E.fresh('pos?', 0, W64 - 1, False)
    r = search(E, name, cs, t, p)
    return NPOS if r is None else Poly.const(r)


def compare(E, op, a, b):
    """== / != of two string objects with known characters"""
    x, y = chars(E, a), chars(E, b)
    if x is None or y is None:
        return None
    r = equal(E, x, y)
    return B(TRUE if r == (op == '==') else FALSE)
