"""Trace partitioning on the sizes of the arguments: each entry point is also analysed with every vector argument of a fixed
small shape (contents stay arbitrary). Loops over the data are then unrolled exactly, which decides what the general
analysis leaves unknown. The expected outcome of each partition is frozen in spec/small.json:
  out    'ret' (always returns), 'err' (always stops with an error), absent: depends on the values
  k      constants of the shape of the results
  m      for results made of elements of the arguments: which element ends where
"""
import math
import json
import re
import time
import random
from .lin import Poly, ZERO
from .ir import kind, vecinfo
from . import roots, contract, ir
from .eng import Vec, Arr, Rec, Op, B, PtrV, ffold

PARTS = ['0', '1', '2', '3', 'up', 'down', 'l1', 'f1', 'mix', 's', 'c']
PAT = (2, 3, 2)
ROWS = 64


class Pick:
    def __init__(self, label, nvec=1):
        self.label = label
        self.last = nvec - 1
        self.names = {}

    def __call__(self, name, D):
        k = self.names.setdefault(name, len(self.names))
        if k >= 8:
            return None
        l = self.label
        if l == '0':
            return [0] * D
        if l == '1':
            return [1] * D
        if l == '2':
            return list(PAT[:D])
        if l == '3':
            return [3, 2, 2][:D]
        if l == 's':
            return [2] * D
        if l == 'c':
            return [3] if D == 1 else [2, 3, 2][:D]
        if l == 'l1':
            return [1] * D if k == self.last else [2, 3, 2][:D] if D > 1 else [3]
        if l == 'f1':
            return [1] * D if k == 0 else [2, 3, 2][:D] if D > 1 else [3]
        if l == 'up':
            return [2 + k] + [2] * (D - 1)
        if l == 'mix':
            return ([2] + [2 + k] * (D - 1)) if D > 1 else [2 + k]
        if l == 'down':
            return [max(1, 4 - k)] + [2] * (D - 1)


class IntPick:
    """constants for integer and boolean inputs: m = z, o, n"""
    def __init__(self, mode):
        self.m = mode

    def __call__(self, name, n, k, t):
        m = self.m
        t = t.replace('const ', '')
        sg = not t.startswith('unsigned') and t != 'bool'
        if n is None:
            if k == 'bool':
                return m == 'o'
            return {'z': 0, 'o': 1, 'n': -1 if sg else 2}[m]
        if k == 'bool':
            return [(i % 2 == 0) if m == 'z' else False if m == 'o' else i % 3 != 0 for i in range(n)]
        if m == 'z':
            return list(range(n))
        if m == 'o':
            return [n - 1 - i for i in range(n)]
        return [-1 - i for i in range(n)] if sg else [i + 1 for i in range(n)]


def has_int(f):
    T = f.P.T
    if 'cls' in f.d:
        v = vecinfo(T[f.d['cls']])
        if v and kind(v[1].rstrip(' *'))[0] in ('int', 'bool'):
            return True
    for p in f.d['p']:
        t = T[p['t']]
        b = contract.isref(t) and not contract.is_const_ref(t)
        k = kind(ir.noref(t))
        if k[0] in ('int', 'bool') and not b:
            return True
        v = vecinfo(ir.noref(t))
        if v and kind(v[1].rstrip(' *'))[0] in ('int', 'bool'):
            return True
    return False


def has_vec(f):
    T = f.P.T
    ts = [T[p['t']] for p in f.d['p']]
    if 'cls' in f.d and f.d.get('ck') != 'ctor' and not f.d.get('st'):
        ts.append(T[f.d['cls']])
    n = sum(1 for t in ts if 'vif::vec<' in t or 'matrix::' in t)
    return n


def parts(f):
    n = has_vec(f)
    if n == 0:
        T = f.P.T
        if not f.d['p'] or any(kind(ir.noref(T[p['t']]))[0] not in ('int', 'bool', 'flt') for p in f.d['p']):
            return []
        return ['1', '1/z', '1/o', '1/n'] if has_int(f) else ['1']
    T = f.P.T
    ts = [T[p['t']] for p in f.d['p']] + ([T[f.d['cls']]] if 'cls' in f.d else [])
    deep = any('vif::vec<%d' % d in t for t in ts for d in (2, 3, 4)) or any('matrix::' in t for t in ts)
    own = 'cls' in f.d and vecinfo(T[f.d['cls']])
    r = PARTS[:4] if n < 2 else PARTS[:6] if own else PARTS[:8]
    if deep:
        r = r + (PARTS[8:] if n > 1 else ['s'])
    if has_int(f):
        r = r + ['%s/%s' % (x, m) for x in r[1:] for m in 'zon']
    return r


def key(f):
    """identity of an instance: signature and constant template arguments"""
    m = re.search(r'%d%sI((?:L[a-z]n?\d+E)+)' % (len(f.d['n']), re.escape(f.d['n'])), f.u)
    return contract.sig(f) + ('<%s>' % ','.join(re.findall(r'L[a-z](n?\d+)E', m.group(1))) if m else '')


def analyse(P, f, label, tmax=3.0, budget=30000):
    lab, _, mode = label.partition('/')
    pk = Pick(lab, has_vec(f))

    def pre(E):
        E.pick = pk
        E.intpick = IntPick(mode) if mode else lambda *a: None
        E.UNROLL = 26
        E.maxcont = 64
        E.KMAX = 64
        E.obfilter = lambda st, neg: witnessed(E, st, neg)
    R = roots.analyse(P, f, budget=budget, tmax=tmax, pre=pre)
    return R


def elemname(E, v):
    """name of the input element a value is a copy of, or a constant"""
    if isinstance(v, Op):
        if v.key and v.key[0] == 'flt' and len(v.key) == 2:
            return 'c%r' % (v.key[1],)
        return E.inel.get(v.key)
    if isinstance(v, B):
        return E.inel.get(v.c)
    if isinstance(v, Poly):
        if v.isconst():
            return 'c%d' % v.cval()
        return E.inel.get(v)
    if isinstance(v, PtrV):
        l = v.loc
        if l[0] == 'e':
            i = l[2]
            return ('p', l[1], i)
        if l[0] == 've':
            return ('v', l[1], l[2])
    return None


def argnames(f, R):
    """object id of the element storage of the arguments -> name"""
    out = {}

    def rec(v, name, d=0):
        if not (isinstance(v, tuple) and v and v[0] == 'o'):
            return
        o = R.st0.get(v[1])
        if isinstance(o, Rec):
            if 'data' in o.f and 'dims' in o.f:
                out[o.f['data'][1]] = name
            elif d < 2:
                for n, l in o.f.items():
                    if n not in ('safe', 'parent'):
                        rec(l, name + '.' + n, d + 1)
    out.update(R.E.viewpar)
    if R.this is not None and f.d.get('ck') != 'ctor':
        rec(R.this, 'this')
    for i, v in enumerate(R.argv):
        rec(v, 'a%d' % i)
    return out


def datas(f, R, s, v):
    """name -> element storage (Vec) of results"""
    out = {}
    T = f.P.T

    def rec(x, name, d=0):
        if not (isinstance(x, tuple) and x and x[0] == 'o'):
            return
        o = s.get(x[1])
        if isinstance(o, Rec):
            if 'data' in o.f and 'dims' in o.f:
                q = s.get(o.f['data'][1])
                if isinstance(q, Vec):
                    out[name] = q
            elif d < 1:
                for n, l in o.f.items():
                    if n not in ('safe', 'parent'):
                        rec(l, name + '.' + n, d + 1)
    if R.this is not None and (f.d.get('ck') == 'ctor' or not f.d.get('cm')):
        rec(R.this, "this'")
    for i, p in enumerate(f.d['p']):
        t = T[p['t']]
        if contract.isref(t) and not contract.is_const_ref(t) and not t.endswith('&&'):
            rec(R.argv[i], "a%d'" % i)
    if v is not None:
        rec(v, 'ret')
    return out


def cells(f, R, s, v, an):
    """name -> [source of each element] for results whose elements are all known"""
    out = {}
    for name, q in datas(f, R, s, v).items():
        if q.known is None or not q.size.isconst() or q.size.cval() != len(q.known) or not q.known:
            continue
        row = []
        for x in q.known:
            e = elemname(R.E, x)
            if isinstance(e, tuple):
                i = s.facts.norm(e[2])
                e = '&%s[%d]' % (an[e[1]], i.cval()) if e[1] in an and i.isconst() else None
            row.append(e)
        out[name] = row
    # scalar results
    if isinstance(v, (Op, B)) or (isinstance(v, Poly)):
        e = elemname(R.E, v)
        if isinstance(e, str) and not e.startswith('c'):
            out['ret'] = [e]
    elif isinstance(v, tuple) and v and v[0] in ('e', 've'):
        i = s.facts.norm(v[2])
        if v[1] in an and i.isconst():
            out['ret'] = ['&%s[%d]' % (an[v[1]], i.cval())]
    return out


# ------------------------------------------------------------------ value terms
INPUT = re.compile(r"^(a\d+|this)(\[\d+\])?$")


def pterm(E, p):
    """integer polynomial over the inputs as a term, or None"""
    acc = None
    for k in sorted(p.m):
        c = p.m[k]
        t = c if not k or c != 1 else None
        for x in k:
            y = E.S.t.get(x)
            if x in E.symdef:
                n = dterm(E, E.symdef[x], y)
                if n is None:
                    return None
                t = n if t is None else ['*', t, n]
                continue
            if y is None or not y.exact or not INPUT.match(y.name):
                return None
            n = ['u' if y.lo is not None and y.lo >= 0 else 'z', y.name]
            t = n if t is None else ['*', t, n]
        acc = t if acc is None else ['+', acc, t]
    return 0 if acc is None else acc


def dterm(E, d, y):
    """definition of a derived integer symbol as a term, or None"""
    if d[0] == 'uninit':
        return ['uninit']
    if d[0] == 'f2i':
        t = kterm(E, d[1])
        return None if t is None else ['utrunc' if y.lo is not None and y.lo >= 0 else 'itrunc', t]
    a, b = pterm(E, d[1]), pterm(E, d[2])
    return None if a is None or b is None else [d[0], a, b]


def kterm(E, k, at=None):
    """key of an opaque scalar -> term over the inputs, or None"""
    h = k[0]
    if h == 'in':
        return ['i', k[1]]
    if h == 'flt':
        return k[1] if isinstance(k[1], (int, float)) and k[1] == k[1] and abs(k[1]) != float('inf') else ['c', repr(k[1])] if isinstance(k[1], float) else None
    if h == 'i2f':
        x = k[1]
        if isinstance(x, Poly):
            if x.isconst():
                return x.cval()
            return pterm(E, x)
        return None
    if h == 'lim':
        return ['lim', k[1]]
    if h == 'uninit':
        return ['uninit']
    if h in ('+', '-', '*', '/', 'neg', 'abs', 'floor', 'ceil', 'round', 'std::min', 'std::max', '<', '<=', '==', 'isnan', 'isfinite', 'isinf') or h in MATHF:
        a = [kterm(E, x, at) if isinstance(x, tuple) else None for x in k[1:]]
        return None if None in a else [h] + a
    return None


MATHF = {'sqrt': math.sqrt, 'pow': math.pow, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'exp2': lambda x: 2.0 ** x,
         'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2,
         'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'erf': math.erf, 'erfc': math.erfc, 'hypot': math.hypot, 'fmod': math.fmod,
         'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.0), x), 'trunc': lambda x: float(math.trunc(x)), 'lgamma': math.lgamma, 'tgamma': math.gamma,
         'log1p': math.log1p, 'expm1': math.expm1, 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'fmin': min, 'fmax': max}


def atmap(s):
    return {a[1]: key[1] for key, a in s.tags.items() if isinstance(key, tuple) and key and key[0] == 'atom' and isinstance(a, tuple)}


def cterm(E, s, c, am):
    """condition -> term, or None"""
    k = c[0]
    if k in ('t', 'f'):
        return ['b', k == 't']
    t = E_truth(E, s, c)
    if t is not None and k != 'at':
        return ['b', t]
    if k == 'at':
        n = E.inel.get(c)
        if n is None and c[1] in E.atominfo and c[2] and str(E.atominfo[c[1]]).startswith(('a', 'this')) and c[1] not in am:
            n = None
        if n:
            return ['i', n]
        if not c[2] or c[1] not in am:
            return None
        return kterm(E, am[c[1]])
    if k == 'not':
        x = cterm(E, s, c[1], am)
        return None if x is None else ['!', x]
    if k in ('and', 'or'):
        x, y = cterm(E, s, c[1], am), cterm(E, s, c[2], am)
        return None if x is None or y is None else [k, x, y]
    return None


def E_truth(E, s, c):
    o = E.st
    E.st = s
    try:
        return E.truth(c)
    finally:
        E.st = o


def vterm(E, s, v, am, an):
    if isinstance(v, Poly):
        v = s.facts.norm(v)
        if v.isconst():
            return v.cval()
        return pterm(E, v)
    if isinstance(v, B):
        return cterm(E, s, v.c, am)
    if isinstance(v, Op):
        return kterm(E, v.key) if v.exact else None
    if isinstance(v, PtrV) and v.loc[0] == 'e' and v.loc[1] in an:
        i = s.facts.norm(v.loc[2])
        return ['p', an[v.loc[1]], i.cval()] if i.isconst() else None
    return None


def scalars(f, R, s, v):
    """name -> scalar result value"""
    out = {}
    T = f.P.T

    def rec(x, name, d):
        if isinstance(x, (Poly, Op, B)):
            out[name] = x
            return
        if isinstance(x, PtrV):
            out[name] = x
            return
        if not (isinstance(x, tuple) and x):
            return
        if x[0] == 'e' and name == 'ret':
            out[name] = PtrV(x)
            return
        if x[0] != 'o':
            return
        try:
            o = s.get(x[1])
        except KeyError:
            return
        if isinstance(o, (Poly, Op, B, PtrV)):
            out[name] = o
        elif isinstance(o, Rec):
            if 'data' in o.f and 'dims' in o.f:
                return
            if d < 2:
                for n, l in o.f.items():
                    if n not in ('safe', 'parent', 'base'):
                        rec(l, name + '.' + n, d + 1)
        elif isinstance(o, Arr) and len(o.vals) <= 6:
            for i, e in enumerate(o.vals):
                rec(e, '%s.%d' % (name, i), d + 1)
    for i, p in enumerate(f.d['p']):
        t = T[p['t']]
        if contract.isref(t) and not contract.is_const_ref(t) and not t.endswith('&&'):
            rec(R.argv[i], "a%d'" % i, 0)
    if v is not None:
        rec(v, 'ret', 0)
    return out


def guard(E, s):
    """path condition as terms, or None when it is not expressible"""
    if s.inex:
        return None
    g = atoms(E, s)
    if g is None or s.facts.disj:
        return None
    h = intguard(E, s)
    if h is None:
        return None
    g += h
    g.sort(key=repr)
    return g


def intguard(E, s):
    """integer facts of the path as terms, or None"""
    g = []
    F = s.facts
    for p in F.ge:
        if p in E.deffacts:
            continue
        t = pterm(E, p)
        if t is None:
            return None
        g.append([True, ['<=', 0, t]])
    for p in F.nes:
        t = pterm(E, p)
        if t is None:
            return None
        g.append([False, ['==', 0, t]])
    for x, p in F.sub.items():
        y = E.S.t.get(x)
        if x not in E.symdef and y is not None and y.exact and not INPUT.match(y.name):
            return None
        if x not in E.symdef and (y is None or not y.exact):
            continue
        t = pterm(E, F.norm(p))
        if t is None:
            return None
        g.append([True, ['==', pterm(E, Poly.sym(x)), t]])
    return g


def atoms(E, s):
    am = atmap(s)
    g = []
    for a, val in s.facts.atoms.items():
        n = E.inel.get(('at', a, True))
        if not n and a not in am and INPUT.match(str(E.atominfo.get(a))):
            n = E.atominfo[a]
        if n:
            t = ['i', n]
        elif a in am:
            t = kterm(E, am[a])
        else:
            return None
        if t is None:
            return None
        g.append([bool(val), t])
    return g


def witnessed(E, s, neg):
    """is there a content of the inputs that follows the path of the state and violates the obligation?"""
    g = atoms(E, s)
    if g is None:
        return False
    ig = intguard(E, s)
    if ig is None:
        return False
    g += ig
    t = pterm(E, s.facts.norm(neg))
    if t is not None:
        g.append([True, ['<=', 0, t]])
    elif any(x in E.symdef for x in s.facts.norm(neg).syms()):
        return False
    acc, bools = {}, set()
    for _, t in g:
        inputs(t, acc)
    boolnames([t for _, t in g], bools)
    nan = acc.pop('?nan', False)
    return bool(witnesses(g, acc, bools, nan, 1, 3000))


def rows(f, R):
    """table [{'g': guard, 'o': 'r'|'e', 'k': {...}, 'm': {...}}] or None"""
    if R.err:
        return None
    E = R.E
    an = argnames(f, R)
    out = []
    # each row is an exact path of its own: the paths that cannot be expressed are left out
    for s, v in R.ret:
        g = guard(E, s)
        if g is None or not contract.exact_state(R, s):
            continue
        pt, pv = contract.post_terms(f, R, s, v)
        k = {}
        for n, p in pt.items():
            q = s.facts.norm(p)
            if q.isconst() and not n.endswith('@') and 0 <= q.cval() < 1 << 40:
                k[n] = q.cval()
        # vectors whose storage does not hold the product of the dimensions
        bad = [n for n, (a, b) in pv.items() if s.facts.norm(a.sub(b)).isconst() and s.facts.norm(a.sub(b)).cval() != 0]
        am = atmap(s)
        m = {}
        for n, q in datas(f, R, s, v).items():
            if q.known is None or not q.size.isconst() or q.size.cval() != len(q.known) or not q.known:
                continue
            m[n] = [vterm(E, s, x, am, an) for x in q.known]
        for n, x in scalars(f, R, s, v).items():
            t = vterm(E, s, x, am, an)
            if t is not None:
                m[n] = [t]
        out.append({'g': g, 'o': 'r', 'k': k, 'm': {n: t for n, t in m.items() if any(x is not None for x in t)}, 's': s})
        if bad:
            out[-1]['x'] = bad
    for s, site in R.E.exits + [(s, None) for s in R.thrs]:
        g = guard(E, s)
        if g is None or not contract.exact_state(R, s):
            continue
        out.append({'g': g, 'o': 'e', 's': s, 'site': site})
    return out


class Undef(Exception):
    pass


def ev(t, w):
    """value of a term for a witness w (input name -> value)"""
    if isinstance(t, (int, float)):
        return t
    h = t[0]
    if h in ('i', 'u', 'z'):
        if t[1] not in w:
            raise Undef()
        return w[t[1]]
    if h == 'c':
        return float(t[1])
    if h == 'uninit':
        return float('nan')
    if h == 'b':
        return t[1]
    if h == 'p':
        return ('p', t[1], t[2])
    if h == 'lim':
        n = t[1]
        if 'float' in n and 'max' in n:
            return 3.4028234663852886e38
        if 'max' in n:
            return 1.7976931348623157e308
        if 'lowest' in n:
            return -1.7976931348623157e308 if 'float' not in n else -3.4028234663852886e38
        raise Undef()
    if h == 'and':
        return ev(t[1], w) and ev(t[2], w)
    if h == 'or':
        return ev(t[1], w) or ev(t[2], w)
    a = [ev(x, w) for x in t[1:]]
    if h == '!':
        return not a[0]
    x = a[0]
    y = a[1] if len(a) > 1 else None
    if h in ('<', '<=', '=='):
        if x != y and (abs(x - y) < 1e-7 * max(abs(x), abs(y)) or 0 < abs(x - y) < 1e-12 and isinstance(x, float)):
            raise Undef()          # too close to decide reliably
        return x < y if h == '<' else x <= y if h == '<=' else x == y
    try:
        if h in ('div', 'mod'):
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if h == 'div' else x - q * y
        if h in ('itrunc', 'utrunc'):
            if x != x or abs(x) > 2.0 ** 62 or h == 'utrunc' and x <= -1:
                raise Undef()
            return int(x)
        if h == '+':
            return x + y
        if h == '-':
            return x - y
        if h == '*':
            return x * y
        if h == '/':
            return ffold('/', x, y)
        if h == 'neg':
            return -x
        if h == 'abs':
            return abs(x)
        if h in ('floor', 'ceil'):
            return float(getattr(math, h)(x))
        if h == 'round':
            return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
        if h == 'std::min':
            return y if y < x else x
        if h == 'std::max':
            return y if x < y else x
        if h == 'isnan':
            return x != x
        if h == 'isinf':
            return abs(x) == float('inf')
        if h == 'isfinite':
            return x == x and abs(x) != float('inf')
        if h in ('sqrt', 'log', 'log10', 'log2') and (x < 0 or x != x):
            return float('nan')
        if h in ('log', 'log10', 'log2') and x == 0:
            return -float('inf')
        return MATHF[h](*a)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        raise Undef()


def inputs(t, acc):
    if isinstance(t, list):
        if t and t[0] in ('i', 'u', 'z'):
            acc[t[1]] = t[0]
        elif t and t[0] not in ('c', 'b', 'p', 'lim'):
            if t[0] in ('isnan', 'isfinite', 'isinf'):
                acc['?nan'] = True
            for x in t[1:]:
                inputs(x, acc)


INTS = [0, 1, 2, 3, 4, 5, 7, -1, -2, -3]
VALS = [1.0, 2.0, 3.0, 0.5, 4.0, -1.0, 5.0, 0.25, -2.0, 7.0, 1.5, 0.0, 10.0, -0.5, 6.0, 0.75]


def holds(g, w):
    for val, t in g:
        if bool(ev(t, w)) != val:
            return False
    return True


def boolnames(ts, acc):
    """inputs used directly as truth values"""
    def rec(t):
        if isinstance(t, list) and t and t[0] in ('!', 'and', 'or'):
            for x in t[1:]:
                rec(x)
        elif isinstance(t, list) and t and t[0] == 'i':
            acc.add(t[1])
    for t in ts:
        rec(t)


def witnesses(g, names, bools, nan, limit, tries):
    """assignments of the inputs that satisfy the guard"""
    rnd = random.Random(12345)
    out = []
    kinds = names
    names = sorted(names)
    for k in range(tries):
        w = {}
        pool = VALS[:6 + (k % 11)]
        for n in names:
            if n in bools:
                w[n] = rnd.random() < 0.5
            elif kinds[n] in ('u', 'z'):
                w[n] = rnd.choice(INTS[:4 + (k % 4)]) if kinds[n] == 'u' else rnd.choice(INTS)
            elif nan and rnd.random() < 0.3:
                w[n] = rnd.choice([float('nan'), float('inf'), -float('inf')])
            else:
                w[n] = rnd.choice(pool)
        try:
            if holds(g, w):
                out.append(w)
                if len(out) >= limit:
                    break
        except Undef:
            continue
    return out


def same(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if abs(x) == float('inf') or abs(y) == float('inf'):
        return False
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-3)


def strip(r):
    return {k: v for k, v in r.items() if k in ('g', 'o', 'k', 'm', 'x')}


def check_rows(f, R, spec):
    """compare the table of the current tree with the frozen one; list of (status, kind, text, model)"""
    new = rows(f, R)
    if new is None:
        return [('unknown', 'result', 'outcome table', None)]
    byg = {}
    for r in spec:
        byg.setdefault(json.dumps(r['g']), r)
    st = 'proven'
    t0 = time.time()
    for r in new:
        if time.time() - t0 > 4:
            return [('unknown', 'result', 'outcome table', None)]
        q = byg.get(json.dumps(r['g']))
        if q is not None and q['o'] == r['o'] and set(r.get('x', ())) <= set(q.get('x', ())) and (q['o'] == 'e' or (
                all(r['k'].get(n) == c for n, c in q['k'].items()) and all(r['m'].get(n) == t or all(x is None or i < len(r['m'].get(n, ())) and json.dumps(r['m'][n][i]) == json.dumps(x) for i, x in enumerate(t)) for n, t in q['m'].items()))):
            continue
        st = 'unknown'
        acc, bools = {}, set()
        for row in [r] + spec:
            for _, t in row['g']:
                inputs(t, acc)
            boolnames([t for _, t in row['g']], bools)
            for n, ts in row.get('m', {}).items():
                for t in ts:
                    if t is not None:
                        inputs(t, acc)
        nan = acc.pop('?nan', False)
        for w in witnesses(r['g'], acc, bools, nan, 25, 1500):
            d = differs(r, spec, w)
            if d:
                wt = ', '.join('%s=%s' % (n, str(x).lower() if isinstance(x, bool) else '%g' % x) for n, x in sorted(w.items()))
                return [('refuted', d[0], d[1] + (' (rejected at %s)' % r['site'] if r.get('site') else ''), wt or 'any content')]
    return [(st, 'result', 'outcome table', None)]


def differs(r, spec, w):
    q = None
    for x in spec:
        try:
            if holds(x['g'], w):
                q = x
                break
        except Undef:
            return None
    if q is None:
        return None
    if q['o'] != r['o']:
        return ('accepts', 'valid input is rejected') if q['o'] == 'r' else ('rejects', 'inconsistent input is accepted')
    if q['o'] == 'e':
        return None
    for n in r.get('x', ()):
        if n not in q.get('x', ()):
            return ('result', 'storage of %s does not hold the product of its dimensions' % n)
    for n, c in q['k'].items():
        if n in r['k'] and r['k'][n] != c:
            return ('result', '%s is %d instead of %d' % (n, r['k'][n], c))
    for n, ts in q['m'].items():
        got = r['m'].get(n)
        if got is None or len(got) != len(ts):
            continue
        for i, (a, b) in enumerate(zip(ts, got)):
            if a is None or b is None:
                continue
            try:
                x, y = ev(a, w), ev(b, w)
            except Undef:
                continue
            if not same(x, y):
                return ('result', '%s%s is %s instead of %s' % (n, '[%d]' % i if len(ts) > 1 else '', show(b), show(a)))
    return None


def show(t):
    if not isinstance(t, list):
        return '%g' % t if isinstance(t, float) else str(t)
    if t[0] in ('i', 'c', 'u', 'z'):
        return str(t[1])
    if t[0] == 'b':
        return str(t[1]).lower()
    if t[0] == 'p':
        return '&%s[%d]' % (t[1], t[2])
    r = '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
    return r if len(r) < 160 else r[:157] + '...'


def mine(f, R):
    """expected outcome of one partition, or None"""
    if R.err:
        return None
    r = {}
    tb = rows(f, R)
    full = tb is not None and len(tb) == len(R.ret) + len(R.E.exits) + len(R.thrs)
    if tb:
        tb = [strip(x) for x in tb]
        tb.sort(key=lambda x: len(x['g']))
        n = 0
        for i, x in enumerate(tb):
            n += len(json.dumps(x))
            if n > 14000 or i >= ROWS:
                tb = tb[:i]
                break
        if full and any(x['o'] == 'e' or x['k'] or x['m'] for x in tb):
            return {'t': tb}
        if tb:
            r['t'] = tb
    if R.ret and not R.E.exits and not R.thr:
        r['out'] = 'ret'
    elif not R.ret and (R.E.exits or R.thr):
        r['out'] = 'err'
        return r
    if not R.ret:
        return None
    an = argnames(f, R)
    pre, _ = contract.pre_terms(f, R)
    ks, ms = None, None
    for s, v in R.ret:
        pt, pv = contract.post_terms(f, R, s, v)
        k = {}
        for n, p in pt.items():
            q = s.facts.norm(p)
            if q.isconst() and not n.endswith('@') and 0 <= q.cval() < 1 << 40:
                k[n] = q.cval()
        m = cells(f, R, s, v, an)
        if ks is None:
            ks, ms = k, m
        else:
            ks = {n: c for n, c in ks.items() if k.get(n) == c}
            ms = {n: [x if i < len(m.get(n, [])) and m[n][i] == x else None for i, x in enumerate(row)]
                  for n, row in ms.items() if n in m and len(m[n]) == len(row)}
    if ks:
        r['k'] = ks
    ms = {n: row for n, row in (ms or {}).items() if any(isinstance(x, str) for x in row)}
    # unchanged arguments are not worth a contract only if identical; keep them: an argument must not be modified
    if ms:
        r['m'] = {n: [x if isinstance(x, str) else None for x in row] for n, row in ms.items()}
    return r or None


def check(f, R, c):
    """list of (status, kind, text, model)"""
    if R.err:
        return [('undecided', 'all', R.err, None)]
    out = check_rows(f, R, c['t']) if 't' in c else []
    o = c.get('out')
    if o:
        sts = [(s, None) for s, _ in R.ret] if o == 'err' else [(s, site) for s, site in R.E.exits]
        st, mod, txt = 'proven', None, 'this input is always accepted' if o == 'ret' else 'this input is always rejected'
        for s, site in sts:
            if s.inex or not contract.exact_state(R, s):
                st = 'unknown'
                continue
            m = contract.model_all(R, s)
            if m is None:
                st = 'unknown'
            else:
                st, mod = 'refuted', m
                if site:
                    txt += ' (rejected at %s)' % site
                break
        out.append((st, 'accepts' if o == 'ret' else 'rejects', txt, mod))
    an = argnames(f, R)
    ks, ms = c.get('k', {}), c.get('m', {})
    if not (ks or ms):
        return out
    post = []
    for s, v in R.ret:
        pt, _ = contract.post_terms(f, R, s, v)
        post.append((s, pt, cells(f, R, s, v, an) if ms else {}))
    for n, cv in ks.items():
        st, mod = 'proven', None
        for s, pt, _ in post:
            if n not in pt:
                st = 'unknown'
                continue
            r = contract.Ev(R, s).eq(pt[n].addc(-cv))
            if isinstance(r, tuple):
                st, mod = 'refuted', r[1]
                break
            if r == 'unknown':
                st = 'unknown'
        out.append((st, 'result', '%s == %d' % (n, cv), mod))
    for n, row in ms.items():
        st, mod, txt = 'proven', None, '%s consists of the expected elements' % n
        for s, _, cl in post:
            got = cl.get(n)
            if got is None or len(got) != len(row):
                st = 'unknown'
                continue
            bad = [i for i, (x, y) in enumerate(zip(row, got)) if isinstance(x, str) and x != y]
            if not bad:
                continue
            i = bad[0]
            # a different *identified* source is a definite difference (all contents are arbitrary)
            if isinstance(got[i], str) and not s.inex and contract.exact_state(R, s) and distinct(row[i], got[i]):
                m = contract.model_all(R, s)
                if m is not None:
                    st, mod = 'refuted', m
                    txt = 'element %d of %s is %s instead of %s' % (i, n, got[i], row[i])
                    break
            st = 'unknown'
        out.append((st, 'result', txt, mod))
    return out


def distinct(a, b):
    """can the two sources differ in value? (two different inputs, an input and a constant, two different constants)"""
    return a != b


def describe(l):
    """a partition label in words"""
    a, _, b = l.partition('/')
    t = {'up': 'arguments of increasing sizes', 'down': 'arguments of decreasing sizes', 's': 'arguments with 2 elements in every dimension', 'c': '2x3 arrays and lists of 3 elements', 'l1': 'a last argument of 1 element', 'f1': 'a first argument of 1 element', 'mix': 'arguments of mixed sizes'}.get(
        a, 'arguments with %s element%s per dimension' % (a, '' if a == '1' else 's'))
    return t + {'': '', 'z': ' and integer inputs 0/increasing', 'o': ' and integer inputs 1/reversed',
                'n': ' and integer inputs negative/shifted'}.get(b, ' ' + b)
