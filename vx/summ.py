"""Summaries of the standard library used by the abstract interpreter (vx/eng.py)."""
import math
from .lin import Poly, ZERO, ONE, W64, Infeasible
from . import ir
from .ir import kind, base, isref, strip_targs as sn
from .eng import (CALLS, METHODS, CTORS, STD_CTORS, B, Op, PtrV, NULLP, Clo, FnV, Vec, Str, Arr, Rec,
                  TRUE, FALSE, BIG, Thrown, Exited, Frame)

NPOS = Poly.const(W64 - 1)


def call(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


# ---------------------------------------------------------------- helpers
def cont_of(E, e, fr):
    """(oid, object) of the container expression e"""
    v = E.ev(e, fr)
    l = E.obj_of(v, e, fr)
    if l[0] == 'o':
        return l[1], E.st.get(l[1])
    return None, None


def size_of(o):
    if isinstance(o, Vec):
        return o.size
    if isinstance(o, Str):
        return o.len
    if isinstance(o, Arr):
        return Poly.const(len(o.vals))
    return None


def arg(E, e, i, fr):
    return E.val(e['a'][i], fr)


def iarg(E, e, i, fr):
    return E.as_int(E.val(e['a'][i], fr), fr.T[e['a'][i]['t']])


def is_iter_t(t):
    k = kind(t)
    return k[0] in ('iter', 'ptr') or (k[0] == 'cls' and ('iterator' in k[1]))


def alloc_ob(E, n, e, fr):
    """sizes computed by a wrapped unsigned subtraction"""
    m = E.st.facts.norm(n).m
    if any(abs(c) >= (1 << 60) for c in m.values()) or E.st.facts.bounds1(n)[1] is None:
        big = n.addc(-(1 << 60))
        if E.st.facts.truth(('ge', big)) is not False and E.decide(('ge', big)):
            raise Thrown()      # std::length_error / std::bad_alloc


# ---------------------------------------------------------------- pass-through
@call('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref')
def _fwd(E, e, fr):
    v = E.ev(e['a'][0], fr)
    return v


@call('exit', 'abort', 'std::exit', 'std::terminate', '_exit', '__builtin_unreachable', 'std::abort')
def _exit(E, e, fr):
    E.exit_here(e, fr)


@call('std::swap')
def _swap(E, e, fr):
    a = E.ev(e['a'][0], fr)
    b = E.ev(e['a'][1], fr)
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return None
    t = fr.T[e['a'][0]['t']]
    va = E.load(a, t)
    vb = E.load(b, t)
    if isinstance(va, tuple) and isinstance(vb, tuple) and va[0] == 'o' and vb[0] == 'o':
        tmp = ('o', E.deepcopy(va[1]))
        E.assign_obj(va, vb)
        E.assign_obj(vb, tmp)
        return None
    if isinstance(va, tuple) or isinstance(vb, tuple):
        E.havoc_loc(a)
        E.havoc_loc(b)
        return None
    E.store(a, vb)
    E.store(b, va)
    return None


@call('std::min', 'std::max')
def _minmax(E, e, fr):
    n = sn(e['fn'])
    if len(e['a']) != 2:
        return NotImplemented
    a, b = E.val(e['a'][0], fr), E.val(e['a'][1], fr)
    if isinstance(a, Poly) and isinstance(b, Poly):
        c = E.decide(('ge', b.sub(a)))
        r = (a if c else b) if n == 'std::min' else (b if c else a)
        return ('o', E.newobj(r)) if isref(fr.T[e['t']]) else r
    if isinstance(a, Op) and isinstance(b, Op):
        r = Op((n, a.key, b.key), a.exact and b.exact) if len(repr(a.key)) + len(repr(b.key)) < (6000 if E.hooks.get('expect') else 400) else Op(('deep', E.nsym()), False)
        return ('o', E.newobj(r)) if isref(fr.T[e['t']]) else r
    return ('o', E.newobj(Op(('mm', E.nsym()), False)))


@call('std::abs', 'abs', 'labs', 'std::fabs', 'fabs')
def _abs(E, e, fr):
    v = E.val(e['a'][0], fr)
    if isinstance(v, Poly):
        return v if E.decide(('ge', v)) else v.neg()
    if isinstance(v, Op):
        if v.key[0] == 'flt' and isinstance(v.key[1], (int, float)):
            return Op(('flt', abs(v.key[1])))
        if v.key[0] == 'i2f' and isinstance(v.key[1], Poly):
            p = v.key[1]
            return Op(('i2f', p if E.decide(('ge', p)) else p.neg()), v.exact)
        return Op(('abs', v.key), v.exact)
    return v


@call('std::isnan', 'isnan', 'std::isfinite', 'std::isinf', 'isfinite', 'isinf')
def _isnan(E, e, fr):
    v = E.val(e['a'][0], fr)
    if isinstance(v, Poly):
        return B(FALSE if 'isfinite' not in e['fn'] else TRUE)
    if isinstance(v, Op):
        if E.hooks.get('expect') and v.key[0] == 'flt' and isinstance(v.key[1], float) and v.key[1] != v.key[1]:
            return B(TRUE if 'isnan' in e['fn'] else FALSE)
        if v.key[0] == 'flt' and isinstance(v.key[1], (int, float)) and v.key[1] == v.key[1]:
            return B(FALSE if 'isfinite' not in e['fn'] else TRUE)
        return B(E.atom((sn(e['fn']).replace('std::', ''), v.key), 'isnan', v.exact))
    return NotImplemented


@call('floor', 'ceil', 'round', 'std::floor', 'std::ceil', 'std::round')
def _floor(E, e, fr):
    v = E.val(e['a'][0], fr)
    if isinstance(v, Poly):
        return Op(('i2f', v), False)
    if isinstance(v, Op):
        if v.key[0] == 'i2f':
            return v
        n = sn(e['fn']).replace('std::', '')
        if E.pick and v.key[0] == 'flt' and isinstance(v.key[1], (int, float)) and abs(v.key[1]) < 2 ** 52:
            x = v.key[1]
            return Op(('flt', float(math.floor(x) if n == 'floor' else math.ceil(x) if n == 'ceil' else math.copysign(math.floor(abs(x) + 0.5), x))))
        return Op((n, v.key), v.exact)
    return NotImplemented


@call('std::numeric_limits::quiet_NaN', 'std::numeric_limits::infinity')
def _nlq(E, e, fr):
    if not E.pick:
        return NotImplemented
    return Op(('flt', float('nan') if e['fn'].endswith('NaN') else float('inf')))


@call('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def _nl(E, e, fr):
    k = kind(fr.T[e['t']])
    if k[0] == 'int':
        sg, bits = k[1], k[2]
        if e['fn'].endswith('max'):
            return Poly.const((1 << (bits - 1)) - 1 if sg else (1 << bits) - 1)
        return Poly.const(-(1 << (bits - 1)) if sg else 0)
    return Op(('lim', e['fn']))


MATH = ('sqrt', 'pow', 'exp', 'log', 'log10', 'log2', 'exp2', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'erf',
        'erfc', 'hypot', 'fmod', 'cbrt', 'trunc', 'lgamma', 'tgamma', 'log1p', 'expm1', 'asinh', 'acosh', 'atanh', 'fmin', 'fmax')


@call(*([m for m in MATH] + ['std::' + m for m in MATH]))
def _math(E, e, fr):
    if not E.pick or kind(fr.T[e['t']])[0] != 'flt':
        return NotImplemented
    ks, ex = [], True
    for a in e['a']:
        v = E.val(a, fr)
        if isinstance(v, Poly):
            v = E.st.facts.norm(v)
            v = Op(('flt', float(v.cval()))) if v.isconst() else Op(('i2f', v), False)
        if not isinstance(v, Op):
            return Op(('math', E.nsym()), False)
        ks.append(v.key)
        ex = ex and v.exact
    fn = sn(e['fn']).replace('std::', '')
    if E.hooks.get('expect'):
        ks = cs = [E.lawsimp(k) for k in ks]
        if all(c[0] == 'flt' and isinstance(c[1], (int, float)) for c in cs):
            from . import small
            try:
                r = small.MATHF[fn](*[float(c[1]) for c in cs])
                if isinstance(r, float) and r - r == 0:
                    return Op(('flt', r), ex)
            except (KeyError, ValueError, OverflowError, ZeroDivisionError):
                pass
    return Op((fn,) + tuple(ks), ex)


# ---------------------------------------------------------------- std::vector / initializer_list
def vec_new(E, size, et, **kw):
    return ('o', E.newobj(Vec(size, et, E.nsym(), **kw)))


def elem_bounds(E, et, v):
    if kind(et)[0] == 'int' and isinstance(v, Poly):
        return (v, v)
    if kind(et)[0] == 'int' and isinstance(v, B):
        return (ZERO, ONE)
    return None


def range_size(E, a, b, e, fr):
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc[0] == 'e' and b.loc[0] == 'e' and a.loc[1] == b.loc[1]:
        n = b.loc[2].sub(a.loc[2])
        E.ob('iterator range', [n], e, fr, 'iterator range reversed')
        return n, E.st.get(a.loc[1])
    return E.fresh('range', 0, BIG, False), None


def c_vec(E, e, fr, t, k):
    et = k[1]
    a = e['a']
    fn = e['fn']
    if e.get('cp') or e.get('mv'):
        v = E.ev(a[0], fr)
        l = E.obj_of(v, a[0], fr)
        if l[0] != 'o' or not isinstance(E.st.get(l[1]), Vec):
            return E.mk(t, 'vec', False, 1, E.st)
        o = E.st.get(l[1])
        n = E.newobj(o)
        if e.get('mv') and not base(t).startswith('std::initializer_list'):
            E.st.put(l[1], Vec(ZERO, o.et, E.nsym(), 'bot'))
        return ('o', n)
    if not a:
        return vec_new(E, ZERO, et, eb='bot')
    t0 = fr.T[a[0]['t']]
    k0 = kind(t0)
    if k0[0] == 'vec':
        oid, o = cont_of(E, a[0], fr)
        if isinstance(o, Vec):
            return ('o', E.newobj(o.w(ver=E.nsym())))
        return E.mk(t, 'vec', False, 1, E.st)
    if k0[0] == 'int':
        n = E.intcast(E.val(a[0], fr), 'unsigned long', t0)
        alloc_ob(E, n, e, fr)
        eb = None
        if len(a) >= 2 and kind(fr.T[a[1]['t']])[0] != 'cls':
            v = E.val(a[1], fr)
            eb = elem_bounds(E, et, v)
        else:
            v = zero_of(et)
            if kind(et)[0] == 'int':
                eb = (ZERO, ZERO)
        r = vec_new(E, n, et, eb=eb)
        c = csize(E, n)
        v = E.sval(v)
        if v is None and kind(et)[0] == 'str' and E.hooks.get('expect'):
            v = Str(ZERO, ('lit', ''))
        if c is not None and 0 <= c <= 24 and isinstance(v, (Poly, B, Op, PtrV, Str)):
            E.st.put(r[1], E.st.get(r[1]).w(known=(v,) * c))
        return r
    if len(a) >= 2:
        x, y = E.val(a[0], fr), E.val(a[1], fr)
        n, o = range_size(E, x, y, e, fr)
        eb = o.eb if isinstance(o, Vec) and kind(o.et) == kind(et) else None
        r = vec_new(E, n, et, eb=eb)
        els = elems(E, o)
        if els is not None and kind(o.et) == kind(et):
            i, j = csize(E, x.loc[2]), csize(E, y.loc[2])
            if i is not None and j is not None and 0 <= i <= j <= len(els):
                E.st.put(r[1], E.st.get(r[1]).w(known=tuple(els[i:j])))
        return r
    for x in a:
        E.ev(x, fr)
    return vec_new(E, ZERO, et, eb='bot') if k0[0] == 'cls' and 'allocator' in k0[1] else E.mk(t, 'vec', False, 1, E.st)


CTORS['vec'] = c_vec


def zero_of(et):
    k = kind(et)[0]
    return ZERO if k == 'int' else B(FALSE) if k == 'bool' else Op(('flt', 0.0)) if k == 'flt' else NULLP if k == 'ptr' else None


def elems(E, o):
    """list of the element values of a container of known size, or None"""
    if not isinstance(o, Vec) or not o.size.isconst():
        return None
    n = o.size.cval()
    if n == 0:
        return []
    if o.known is not None and len(o.known) == n and all(isinstance(x, (Poly, B, Op, PtrV, Str)) for x in o.known):
        return list(o.known)
    return None


def csize(E, p):
    """constant value of a polynomial in the current state, or None"""
    q = E.st.facts.norm(p)
    return q.cval() if q.isconst() else None


def set_size(E, oid, o, n, v=None, keep=True):
    els = elems(E, o)
    filler = E.sval(v) if v is not None else zero_of(o.et)
    if filler is None and kind(o.et)[0] == 'str' and E.hooks.get('expect'):
        filler = Str(ZERO, ('lit', ''))
    eb = o.eb
    if v is None and kind(o.et)[0] == 'int':
        v = ZERO
    if eb == 'bot':
        eb = elem_bounds(E, o.et, v) if v is not None else None
        if isinstance(n, Poly) and n.isconst() and n.cval() == 0:
            eb = 'bot'
    elif isinstance(eb, tuple) and isinstance(v, Poly):
        eb = E.widen_eb(o, v, False)
    elif isinstance(eb, tuple):
        eb = None
    known = None
    nn = E.st.facts.norm(n)
    if els is not None and nn.isconst() and 0 <= nn.cval() <= 24 and isinstance(filler, (Poly, B, Op, PtrV, Str)):
        known = tuple((els + [filler] * nn.cval())[:nn.cval()])
    ver = E.nsym()
    if nn == E.st.facts.norm(o.size):
        ver = o.ver
    E.st.put(oid, Vec(n, o.et, ver, eb, None if ver != o.ver else o.origin, known))


def m_vec(E, name, e, fr):
    oid, o = cont_of(E, e['obj'], fr)
    a = e['a']
    t = fr.T[e['t']]
    if not isinstance(o, Vec):
        args = [E.ev(x, fr) for x in a]
        if name == 'size':
            return E.fresh('size?', 0, BIG, False)
        return E.mkval(ir.noref(t), name, False, 2, E.st) if kind(t)[0] != 'void' else None
    if name == 'size':
        return o.size
    if name == 'empty':
        return B(('eq', o.size)) if not o.size.isconst() else B(TRUE if o.size.cval() == 0 else FALSE)
    if name in ('operator[]', 'at'):
        i = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
        o = E.st.get(oid)
        if name == 'operator[]':
            E.ob('vector index', [i, o.size.addc(-1).sub(i)], e, fr, 'index outside of the storage')
        else:
            if not E.decide(('ge', o.size.addc(-1).sub(i))):
                raise Thrown()
        return ('e', oid, i)
    if name in ('front', 'back'):
        E.ob('vector front/back', [o.size.addc(-1)], e, fr, '%s() of an empty container' % name)
        return ('e', oid, ZERO if name == 'front' else o.size.addc(-1))
    if name in ('begin', 'cbegin', 'data'):
        return PtrV(('e', oid, ZERO))
    if name in ('end', 'cend'):
        return PtrV(('e', oid, o.size))
    if name in ('rbegin', 'rend', 'crbegin', 'crend', 'get_allocator', 'capacity', 'max_size'):
        return NotImplemented
    if name in ('reserve', 'shrink_to_fit'):
        for x in a:
            E.ev(x, fr)
        return None
    if name == 'clear':
        E.st.put(oid, Vec(ZERO, o.et, E.nsym(), 'bot'))
        return None
    if name == 'resize':
        n = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
        v = E.val(a[1], fr) if len(a) > 1 else None
        alloc_ob(E, n, e, fr)
        set_size(E, oid, E.st.get(oid), n, v)
        return None
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and kind(o.et)[0] == 'cls' and not (len(a) == 1 and base(fr.T[a[0]['t']]) == base(o.et)):
            ct = [f for f in E.P.funs.values() if 'cls' in f.d and f.d.get('ck') and base(E.P.T[f.d['cls']]) == base(o.et) and f.d.get('body') is not None
                  and len(f.d['p']) == len(a) and not (len(a) == 1 and base(E.P.T[f.d['p'][0]['t']]) == base(o.et))] if base(o.et) in E.P.recs else []
            if len(ct) == 1:
                q = E.alloc_rec(base(o.et))
                E.inline(ct[0], ('o', q), a, e, fr)
                v = ('o', q)
            else:
                for x in a:
                    E.ev(x, fr)
                v = E.mk(o.et, 'emplaced', False, 1, E.st)
        else:
            v = E.val(a[0], fr) if a else None
        v = E.sval(v)
        o = E.st.get(oid)
        eb = o.eb
        if isinstance(v, Poly):
            eb = E.widen_eb(o, v, False)
        elif kind(o.et)[0] == 'int':
            eb = E.widen_eb(o, E.as_int(v), False) if isinstance(v, B) else None
        known = None
        if o.known is not None and o.size.isconst() and o.size.cval() == len(o.known) < 12:
            known = o.known + (v,)
        if o.size.isconst() and o.size.cval() == 0:
            known = (v,)
        n = Vec(o.size.addc(1), o.et, E.nsym(), eb, None, known)
        E.st.put(oid, n)
        if isinstance(v, (Poly, B, Op, PtrV)):
            E.st.tags[('el', oid, n.ver, E.st.facts.norm(o.size))] = v
        return None if name == 'push_back' else ('e', oid, o.size)
    if name == 'pop_back':
        E.ob('vector pop_back', [o.size.addc(-1)], e, fr, 'pop_back() of an empty container')
        els = elems(E, o)
        E.st.put(oid, o.w(size=o.size.addc(-1), ver=E.nsym(), known=tuple(els[:-1]) if els else None, origin=None))
        return None
    if name == 'operator=':
        src = E.ev(a[0], fr)
        l = E.obj_of(src, a[0], fr)
        s = E.st.get(l[1]) if l[0] == 'o' else None
        if isinstance(s, Vec):
            if l[1] != oid:
                E.st.put(oid, s.w(et=o.et))
                # keep element knowledge of the source
                for (kk, v) in [(q, w) for q, w in E.st.tags.items() if q[0] == 'el' and q[1] == l[1] and q[2] == s.ver]:
                    E.st.tags[('el', oid, s.ver, kk[3])] = v
                if e.get('pm', '')[:1] == 'm' or 'move' in (a[0].get('fn') or ''):
                    if kind(fr.T[a[0]['t']])[0] == 'vec' and not base(fr.T[a[0]['t']]).startswith('std::initializer_list'):
                        E.st.put(l[1], Vec(ZERO, s.et, E.nsym(), 'bot'))
        else:
            E.havoc_loc(('o', oid))
        return ('o', oid)
    if name == 'assign':
        if len(a) == 2 and kind(fr.T[a[0]['t']])[0] == 'int':
            n = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
            v = E.val(a[1], fr)
            c = csize(E, n)
            E.st.put(oid, Vec(n, o.et, E.nsym(), elem_bounds(E, o.et, v), known=(v,) * c if c is not None and 0 <= c <= 24 and isinstance(v, (Poly, B, Op, PtrV)) else None))
            return None
        if len(a) == 2:
            n, so = range_size(E, E.val(a[0], fr), E.val(a[1], fr), e, fr)
            E.st.put(oid, Vec(n, o.et, E.nsym(), so.eb if isinstance(so, Vec) else None))
            return None
        return NotImplemented
    if name == 'insert':
        p = E.val(a[0], fr)
        if isinstance(p, PtrV) and p.loc[0] == 'e' and p.loc[1] == oid:
            E.ob('insert position', [p.loc[2], o.size.sub(p.loc[2])], e, fr, 'insert position outside of [begin, end]')
            pos = p.loc[2]
        else:
            pos = None
        n = ONE
        eb = None
        new = None
        if len(a) == 3:
            if kind(fr.T[a[1]['t']])[0] == 'int' and not is_iter_t(fr.T[a[2]['t']]):
                n = E.intcast(E.val(a[1], fr), 'unsigned long', fr.T[a[1]['t']])
                v = E.val(a[2], fr)
                if csize(E, n) is not None and isinstance(v, (Poly, B, Op, PtrV)) and 0 <= csize(E, n) <= 24:
                    new = [v] * csize(E, n)
                eb = E.widen_eb(o, v, False) if isinstance(v, Poly) and o.eb is not None else None
            else:
                x, y = E.val(a[1], fr), E.val(a[2], fr)
                n, so = range_size(E, x, y, e, fr)
                els = elems(E, so)
                if els is not None and kind(so.et) == kind(o.et):
                    i, j = csize(E, x.loc[2]), csize(E, y.loc[2])
                    if i is not None and j is not None and 0 <= i <= j <= len(els):
                        new = els[i:j]
                if isinstance(so, Vec) and isinstance(so.eb, tuple) and (o.eb == 'bot' or o.eb == so.eb):
                    eb = so.eb
        elif len(a) == 2:
            if kind(fr.T[a[1]['t']])[0] == 'vec':
                _, so = cont_of(E, a[1], fr)
                n = so.size if isinstance(so, Vec) else E.fresh('n', 0, BIG, False)
            else:
                v = E.val(a[1], fr)
                if isinstance(v, (Poly, B, Op, PtrV)):
                    new = [v]
                eb = E.widen_eb(o, v, False) if isinstance(v, Poly) and o.eb is not None else None
        o = E.st.get(oid)
        els, known = elems(E, o), None
        if els is not None and new is not None and pos is not None and csize(E, pos) is not None and 0 <= csize(E, pos) <= len(els):
            c = csize(E, pos)
            known = tuple(els[:c] + new + els[c:])
        E.st.put(oid, Vec(o.size.add(n), o.et, E.nsym(), eb, known=known))
        return PtrV(('e', oid, pos)) if pos is not None else PtrV(('u', '?', E.nsym()))
    if name == 'erase':
        p = E.val(a[0], fr)
        if len(a) == 1:
            if isinstance(p, PtrV) and p.loc[0] == 'e' and p.loc[1] == oid:
                E.ob('erase position', [p.loc[2], o.size.addc(-1).sub(p.loc[2])], e, fr, 'erase position outside of [begin, end)')
                els, c = elems(E, o), csize(E, p.loc[2])
                E.st.put(oid, o.w(size=o.size.addc(-1), ver=E.nsym(), known=tuple(els[:c] + els[c + 1:]) if els and c is not None and 0 <= c < len(els) else None, origin=None))
                return p
            E.havoc_loc(('o', oid))
            return PtrV(('e', oid, E.fresh('er', 0, None, False)))
        q = E.val(a[1], fr)
        n, _ = range_size(E, p, q, e, fr)
        if isinstance(p, PtrV) and p.loc[0] == 'e':
            E.ob('erase range', [p.loc[2], o.size.sub(q.loc[2])], e, fr, 'erase range outside of [begin, end]') if isinstance(q, PtrV) and q.loc[0] == 'e' else None
        els, known = elems(E, o), None
        if els is not None and isinstance(p, PtrV) and p.loc[0] == 'e' and isinstance(q, PtrV) and q.loc[0] == 'e':
            i, j = csize(E, p.loc[2]), csize(E, q.loc[2])
            if i is not None and j is not None and 0 <= i <= j <= len(els):
                known = tuple(els[:i] + els[j:])
        E.st.put(oid, o.w(size=o.size.sub(n), ver=E.nsym(), known=known, origin=None))
        return p
    if name == 'swap':
        l = E.obj_of(E.ev(a[0], fr), a[0], fr)
        if l[0] == 'o' and isinstance(E.st.get(l[1]), Vec):
            x = E.st.get(l[1])
            E.st.put(l[1], o)
            E.st.put(oid, x)
        return None
    return NotImplemented


METHODS['vec'] = m_vec


# ---------------------------------------------------------------- std::array
def c_arr(E, e, fr, t, k):
    a = e['a']
    if (e.get('cp') or e.get('mv')) and a:
        l = E.obj_of(E.ev(a[0], fr), a[0], fr)
        if l[0] == 'o':
            return ('o', E.deepcopy(l[1]))
        return E.mk(t, 'arr', False, 1, E.st)
    return E.mk(t, 'arr', False, 1, E.st)


CTORS['arr'] = c_arr


def m_arr(E, name, e, fr):
    oid, o = cont_of(E, e['obj'], fr)
    t = fr.T[e['t']]
    k = kind(fr.T[e['cls']]) if 'cls' in e else None
    if name == 'size':
        return Poly.const(k[2]) if k else size_of(o)
    if oid is None or not isinstance(o, (Arr, Vec)):
        for x in e['a']:
            E.ev(x, fr)
        return E.mkval(ir.noref(t), name, False, 2, E.st) if kind(t)[0] != 'void' else None
    n = size_of(o)
    if name in ('operator[]', 'at'):
        i = E.intcast(E.val(e['a'][0], fr), 'unsigned long', fr.T[e['a'][0]['t']])
        E.ob('array index', [i, n.addc(-1).sub(i)], e, fr, 'array index out of bounds')
        return ('e', oid, i)
    if name in ('begin', 'cbegin', 'data'):
        return PtrV(('e', oid, ZERO))
    if name in ('end', 'cend'):
        return PtrV(('e', oid, n))
    if name == 'empty':
        return B(TRUE if n.cval() == 0 else FALSE)
    if name in ('front', 'back'):
        return ('e', oid, ZERO if name == 'front' else n.addc(-1))
    if name == 'fill':
        v = E.val(e['a'][0], fr)
        o = E.st.get(oid)
        if isinstance(o, Arr):
            E.st.put(oid, Arr(tuple(v for _ in o.vals), o.et))
        else:
            E.st.put(oid, o.w(ver=E.nsym(), eb=elem_bounds(E, o.et, v), known=None, origin=None))
        return None
    if name == 'operator=':
        l = E.obj_of(E.ev(e['a'][0], fr), e['a'][0], fr)
        E.assign_obj(('o', oid), l)
        return ('o', oid)
    return NotImplemented


METHODS['arr'] = m_arr


@call('std::operator==', 'std::operator!=')
def _eq(E, e, fr):
    neg = sn(e['fn']).endswith('!=')
    if len(e['a']) != 2:
        return NotImplemented
    ts = [kind(fr.T[x['t']])[0] for x in e['a']]
    if ts == ['arr', 'arr']:
        l1 = E.obj_of(E.ev(e['a'][0], fr), e['a'][0], fr)
        l2 = E.obj_of(E.ev(e['a'][1], fr), e['a'][1], fr)
        a = E.st.get(l1[1]) if l1[0] == 'o' else None
        b = E.st.get(l2[1]) if l2[0] == 'o' else None
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.vals) == len(b.vals):
            c = TRUE
            for x, y in zip(a.vals, b.vals):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    return B(('at', E.newatom('arr==', False), False))
                q = E.compare('==', x, y)
                tq = E.truth(q)
                if tq is True:
                    continue
                if tq is False:
                    c = FALSE
                    break
                c = q if c == TRUE else ('and', c, q)
            return B(c if not neg else ('not', c) if c not in (TRUE, FALSE) else (FALSE if c == TRUE else TRUE))
        return B(('at', E.newatom('arr==', False), False))
    if 'str' in ts:
        ks = []
        for x in e['a']:
            o = strobj(E, x, fr)
            ks.append(o)
        if all(isinstance(o, Str) for o in ks):
            a, b = ks
            if E.hooks.get('expect'):
                r = strs.compare(E, '!=' if neg else '==', a, b)
                if r is not None:
                    return r
            if a.key[0] == 'lit' and b.key[0] == 'lit':
                r = a.key == b.key
                return B((TRUE if r else FALSE) if not neg else (FALSE if r else TRUE))
            if a.key == b.key:
                return B(FALSE if neg else TRUE)
            # equality of strings implies equality of lengths
            c = E.atom(('str==',) + tuple(sorted((repr(a.key), repr(b.key)))), 'str==', not (a.key[0] == 'h' or b.key[0] == 'h'))
            if E.decide(c):
                E.st.facts.add_eq(a.len.sub(b.len))
                return B(FALSE if neg else TRUE)
            if a.key == ('lit', ''):
                E.st.facts.add_ge(b.len.addc(-1))
            if b.key == ('lit', ''):
                E.st.facts.add_ge(a.len.addc(-1))
            return B(TRUE if neg else FALSE)
        return B(('at', E.newatom('str==', False), False))
    for x in e['a']:
        E.ev(x, fr)
    return B(('at', E.newatom('==', False), False))


# ---------------------------------------------------------------- iterators
def m_iter(E, name, e, fr):
    ov = E.ev(e['obj'], fr)
    loc = ov if isinstance(ov, tuple) else None
    v = E.load(ov, '?') if isinstance(ov, tuple) else ov
    if isinstance(v, tuple) and v and v[0] == 'o' and isinstance(E.st.get(v[1]), PtrV):
        v = E.st.get(v[1])
    a = e['a']
    t = fr.T[e['t']]
    if name in ('operator*', 'operator->', 'operator[]', 'base') or not isinstance(v, PtrV):
        if name == 'base':
            return v
        if not isinstance(v, PtrV):
            for x in a:
                E.ev(x, fr)
            return E.mkval(ir.noref(t), name, False, 2, E.st)
        if name == 'operator[]':
            v = E.ptr_arith('+', v, E.as_int(E.val(a[0], fr)), e, fr)
        d = E.deref(v, e, fr)
        return PtrV(d) if name == 'operator->' else d
    if name in ('operator++', 'operator--'):
        n = E.ptr_arith('+' if name == 'operator++' else '-', v, ONE, e, fr)
        if loc is not None:
            E.store(loc, n)
        return (ov if loc is not None else n) if not a else v
    if name in ('operator+', 'operator-'):
        i = E.val(a[0], fr)
        if isinstance(i, PtrV):
            return E.ptr_arith('-', v, i, e, fr)
        return E.ptr_arith('+' if name == 'operator+' else '-', v, E.as_int(i), e, fr)
    if name in ('operator+=', 'operator-='):
        i = E.as_int(E.val(a[0], fr))
        n = E.ptr_arith('+' if name == 'operator+=' else '-', v, i, e, fr)
        if loc is not None:
            E.store(loc, n)
        return ov
    if name == 'operator=':
        n = E.val(a[0], fr)
        if loc is not None and isinstance(n, PtrV):
            E.store(loc, n)
        return ov
    return NotImplemented


METHODS['iter'] = m_iter


def _itop(op):
    def f(E, e, fr):
        a, b = E.val(e['a'][0], fr), E.val(e['a'][1], fr)
        if op == '-':
            return E.ptr_arith('-', a, b, e, fr)
        if op == '+':
            return E.ptr_arith('+', a, b, e, fr)
        return B(E.compare(op, a, b))
    return f


for _op in ('==', '!=', '<', '<=', '>', '>=', '-', '+'):
    CALLS['__gnu_cxx::operator' + _op] = _itop(_op)


@call('std::begin', 'std::end')
def _begin(E, e, fr):
    oid, o = cont_of(E, e['a'][0], fr)
    n = size_of(o)
    if n is None:
        return NotImplemented
    return PtrV(('e', oid, ZERO if sn(e['fn']) == 'std::begin' else n))


@call('std::distance')
def _distance(E, e, fr):
    return E.ptr_arith('-', E.val(e['a'][1], fr), E.val(e['a'][0], fr), e, fr)


@call('std::next', 'std::prev')
def _next(E, e, fr):
    v = E.val(e['a'][0], fr)
    i = E.as_int(E.val(e['a'][1], fr)) if len(e['a']) > 1 else ONE
    return E.ptr_arith('+' if 'next' in e['fn'] else '-', v, i, e, fr)


@call('std::advance')
def _advance(E, e, fr):
    l = E.ev(e['a'][0], fr)
    v = E.load(l, '?') if isinstance(l, tuple) else l
    n = E.ptr_arith('+', v, E.as_int(E.val(e['a'][1], fr)), e, fr)
    if isinstance(l, tuple):
        E.store(l, n)
    return None


# ---------------------------------------------------------------- algorithms
def the_range(E, e, fr, i=0):
    a, b = E.val(e['a'][i], fr), E.val(e['a'][i + 1], fr)
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc[0] == 'e' and b.loc[0] == 'e' and a.loc[1] == b.loc[1]:
        o = E.st.get(a.loc[1])
        n = size_of(o)
        E.ob('iterator range', [a.loc[2], b.loc[2].sub(a.loc[2]), n.sub(b.loc[2])], e, fr, 'iterator range outside of the container')
        return a.loc[1], a.loc[2], b.loc[2]
    return None


def pred_effects(E, fv, oid, lo, hi, nargs, e, fr, extra=None, swapped=False):
    """analyse the user-provided callable on arbitrary elements of the range (nothing is recorded from its result)"""
    if fv is None:
        return
    F = fv
    if isinstance(F, tuple) and F and F[0] == 'o':
        F = E.st.get(F[1])
    if not isinstance(F, (Clo, FnV, Rec)):
        return
    args = []
    if oid is not None:
        if E.truth(('ge', hi.sub(lo).addc(-nargs if nargs > 1 else -1))) is False:
            return
        o = E.st.get(oid)
        for j in range(nargs):
            i = E.fresh('it', 0, None, False)
            try:
                E.st.facts.add_ge(i.sub(lo))
                E.st.facts.add_ge(hi.addc(-1).sub(i))
            except Infeasible:
                return
            el = ('e', oid, i)
            if isinstance(o, Vec) and kind(o.et)[0] in ('cls', 'vec', 'str', 'arr'):
                w = E.load(el, o.et)
                if isinstance(w, tuple):
                    el = w
            elif isinstance(o, Vec):
                el = ('o', E.newobj(E.load(el, o.et)))
            args.append(el)
    if extra is not None:
        args = [extra] + args if swapped else args + [extra]
    call_callable(E, fv, args, e, fr)


def call_callable(E, fv, argv, e, fr):
    F = fv
    if isinstance(F, tuple) and F and F[0] == 'o':
        F2 = E.st.get(F[1])
        if isinstance(F2, (Clo, FnV)):
            F = F2
    if isinstance(F, Clo):
        E.nfid += 1
        nf = Frame(E.nfid, F.fr.P, F.fr.fun, F.this, fr.depth + 1, F.fr.name + '::lambda', F.fr.file, fr)
        nf.caps = F.caps
        nf.callline = e.get('l', 0)
        return E.run_body(nf, F.node['p'], argv, None, F.node['body'], fr, F.node.get('rt'))
    if isinstance(F, FnV):
        f = E.P.funs.get(F.node['u'])
        if f is not None and f.d.get('body') is not None and fr.depth < 60:
            return E.inline_v(f, F.obj, argv, e, fr)
        return None
    if isinstance(F, tuple) and F and F[0] == 'o' and isinstance(E.st.get(F[1]), Rec):
        r = E.st.get(F[1])
        f = E.find_method(r.t, 'operator()')
        if f is not None and len(f.d['p']) == len(argv) and fr.depth < 60:
            return E.inline_v(f, F, argv, e, fr)
    return None


def small_range(E, r, nmax=4):
    """elements of a range of known small size (partitions of small sizes only)"""
    if not E.pick or r is None:
        return None
    els, i, j = elems(E, E.st.get(r[0])), csize(E, r[1]), csize(E, r[2])
    if els is None or i is None or j is None or not 0 <= i <= j <= len(els) or j - i > nmax:
        return None
    if not all(isinstance(x, (Poly, Op, B, PtrV)) for x in els[i:j]):
        return None
    return els, i, j


def small_test(E, fv, args, e, fr):
    """truth of a predicate on values; None: unknown"""
    if fv is None:
        c = E.compare('<', args[0], args[1]) if isinstance(args[0], (Poly, Op, B)) else None
    else:
        v = call_callable(E, fv, [('o', E.newobj(x)) for x in args], e, fr)
        if isinstance(v, tuple) and v and v[0] in ('o', 'e'):
            v = E.load(v, 'bool')
        c = E.as_cond(v) if isinstance(v, (B, Poly)) else None
    return None if c is None else E.decide(c)


def small_sort(E, part, fv, e, fr):
    out = []
    for x in part:
        q = len(out)
        while q > 0:
            t = small_test(E, fv, [x, out[q - 1]], e, fr)
            if t is None:
                return None
            if not t:
                break
            q -= 1
        out.insert(q, x)
    return out


def permuted(E, oid):
    o = E.st.get(oid)
    if isinstance(o, Vec):
        E.st.put(oid, o.w(ver=E.nsym(), known=None, origin=None))
    elif isinstance(o, Str):
        E.st.put(oid, Str(o.len, ('h', E.nsym())))
    else:
        E.havoc_loc(('o', oid))


@call('std::sort', 'std::stable_sort', 'std::partial_sort', 'std::reverse', 'std::random_shuffle', 'std::shuffle',
      'std::rotate', 'std::nth_element', 'std::partition', 'std::stable_partition', 'std::inplace_merge', 'std::make_heap')
def _sort(E, e, fr):
    n = sn(e['fn'])
    if n in ('std::nth_element', 'std::rotate', 'std::partial_sort'):
        a, m, b = E.val(e['a'][0], fr), E.val(e['a'][1], fr), E.val(e['a'][2], fr)
        if all(isinstance(x, PtrV) and x.loc[0] == 'e' for x in (a, m, b)) and a.loc[1] == b.loc[1]:
            sz = size_of(E.st.get(a.loc[1]))
            E.ob('iterator range', [a.loc[2], m.loc[2].sub(a.loc[2]), b.loc[2].sub(m.loc[2]), sz.sub(b.loc[2])], e, fr, 'iterator range outside of the container')
            fv = E.ev(e['a'][3], fr) if len(e['a']) > 3 else None
            if n != 'std::rotate':
                sr = small_range(E, (a.loc[1], a.loc[2], b.loc[2]))
                new = small_sort(E, sr[0][sr[1]:sr[2]], fv, e, fr) if sr else None
                if new is not None:
                    org = E.st.get(a.loc[1]).origin
                    permuted(E, a.loc[1])
                    E.st.put(a.loc[1], E.st.get(a.loc[1]).w(known=tuple(sr[0][:sr[1]] + new + sr[0][sr[2]:]), origin=org))
                    return None
            if fv is not None:
                pred_effects(E, fv, a.loc[1], a.loc[2], b.loc[2], 2, e, fr)
            els, i, j, q = elems(E, E.st.get(a.loc[1])), csize(E, a.loc[2]), csize(E, b.loc[2]), csize(E, m.loc[2])
            permuted(E, a.loc[1])
            if n == 'std::rotate' and els is not None and None not in (i, j, q) and 0 <= i <= q <= j <= len(els):
                E.st.put(a.loc[1], E.st.get(a.loc[1]).w(known=tuple(els[:i] + els[q:j] + els[i:q] + els[j:])))
            if n == 'std::rotate':
                return PtrV(('e', a.loc[1], a.loc[2].add(b.loc[2].sub(m.loc[2]))))
        return None if n != 'std::rotate' else PtrV(('u', '?', E.nsym()))
    r = the_range(E, e, fr)
    na = 1 if 'partition' in n else 2
    fv = E.ev(e['a'][2], fr) if len(e['a']) > 2 else None
    if n in ('std::sort', 'std::stable_sort', 'std::partition', 'std::stable_partition'):
        sr = small_range(E, r, 8 if E.hooks.get('expect') and 'sort' in n else 4)
        if sr:
            els, i, j = sr
            if 'sort' in n:
                new = small_sort(E, els[i:j], fv, e, fr)
                ret = None
            else:
                ts = [small_test(E, fv, [x], e, fr) for x in els[i:j]]
                new = None if None in ts else [x for x, t in zip(els[i:j], ts) if t] + [x for x, t in zip(els[i:j], ts) if not t]
                ret = None if None in ts else PtrV(('e', r[0], Poly.const(i + sum(ts))))
            if new is not None:
                org = E.st.get(r[0]).origin
                permuted(E, r[0])
                E.st.put(r[0], E.st.get(r[0]).w(known=tuple(els[:i] + new + els[j:]), origin=org))
                return ret
    if len(e['a']) > 2:
        if n not in ('std::random_shuffle', 'std::shuffle'):
            pred_effects(E, fv, r[0] if r else None, r[1] if r else None, r[2] if r else None, na, e, fr) if r else None
    if r:
        els, i, j = elems(E, E.st.get(r[0])), csize(E, r[1]), csize(E, r[2])
        org = E.st.get(r[0]).origin if els is not None else None
        permuted(E, r[0])
        if els is not None and i is not None and j is not None and 0 <= i <= j <= len(els):
            new = None
            if j - i <= 1:
                new = els
            elif n == 'std::reverse':
                new = els[:i] + els[i:j][::-1] + els[j:]
            elif n in ('std::sort', 'std::stable_sort') and j - i <= 3 and all(isinstance(x, Poly) for x in els[i:j]) and (
                    len(e['a']) == 2 or 'comparator_less' in fr.T[e['a'][2]['t']]):
                part = []
                for x in els[i:j]:
                    q = len(part)
                    while q > 0 and E.decide(('ge', part[q - 1].sub(x).addc(-1))):
                        q -= 1
                    part.insert(q, x)
                new = els[:i] + part + els[j:]
            if new is not None:
                E.st.put(r[0], E.st.get(r[0]).w(known=tuple(new), origin=org))
        if 'partition' in n:
            p = E.fresh('part', 0, BIG, False)
            E.st.facts.add_ge(p.sub(r[1]))
            E.st.facts.add_ge(r[2].sub(p))
            return PtrV(('e', r[0], p))
    return PtrV(('u', '?', E.nsym())) if 'partition' in n else None


def small_find(E, n, sr, rest, e, fr):
    els, i, j = sr[:3]
    part = els[i:j]

    def val(x):
        return E.load(x, '?') if isinstance(x, tuple) else x
    if n in ('std::lower_bound', 'std::upper_bound'):
        x = val(rest[0])
        if not isinstance(x, (Poly, Op, B)):
            return None
        fv = rest[1] if len(rest) == 2 else None
        res = None
        for q, y in enumerate(part):
            t = small_test(E, fv, [y, x] if n == 'std::lower_bound' else [x, y], e, fr)
            if t is None:
                return None
            if t == (n == 'std::upper_bound'):
                if res is None:
                    res = i + q
            elif res is not None:
                raise Infeasible()      # the range has to be partitioned with respect to the value
        return j if res is None else res
    if n in ('std::min_element', 'std::max_element'):
        if not part:
            return j
        fv = rest[0] if rest else None
        b = 0
        for q in range(1, len(part)):
            t = small_test(E, fv, [part[q], part[b]] if n == 'std::min_element' else [part[b], part[q]], e, fr)
            if t is None:
                return None
            if t:
                b = q
        return i + b
    if n == 'std::find':
        x = val(rest[0])
        if not isinstance(x, (Poly, Op, B)):
            return None
        for q, y in enumerate(part):
            if E.decide(E.compare('==', y, x)):
                return i + q
        return j
    if n == 'std::find_if':
        for q, y in enumerate(part):
            t = small_test(E, rest[0], [y], e, fr)
            if t is None:
                return None
            if t:
                return i + q
        return j
    if n in ('std::unique', 'std::remove_if', 'std::remove') and (n != 'std::unique' or not rest):
        keep = []
        for y in part:
            if n == 'std::unique':
                t = bool(keep) and E.decide(E.compare('==', keep[-1], y))
            elif n == 'std::remove':
                t = E.decide(E.compare('==', y, val(rest[0])))
            else:
                t = small_test(E, rest[0], [y], e, fr)
            if t is None:
                return None
            if not t:
                keep.append(y)
        new = keep + part[len(keep):]
        o = E.st.get(sr[3])
        E.st.put(sr[3], o.w(ver=E.nsym(), known=tuple(els[:i] + new + els[j:])))
        return i + len(keep)
    return None


@call('std::min_element', 'std::max_element', 'std::lower_bound', 'std::upper_bound', 'std::find', 'std::find_if', 'std::unique', 'std::remove_if', 'std::remove', 'std::adjacent_find', 'std::is_sorted_until')
def _find(E, e, fr):
    n = sn(e['fn'])
    r = the_range(E, e, fr)
    rest = [E.ev(x, fr) for x in e['a'][2:]]
    if r is None:
        return PtrV(('u', '?', E.nsym()))
    oid, lo, hi = r
    sr = small_range(E, r, 6)
    if sr:
        q = small_find(E, n, sr + (oid,), rest, e, fr)
        if q is not None:
            return PtrV(('e', oid, Poly.const(q)))
    if n in ('std::lower_bound', 'std::upper_bound') and len(rest) == 2:
        x = rest[0] if isinstance(rest[0], tuple) else ('o', E.newobj(rest[0]))
        pred_effects(E, rest[1], oid, lo, hi, 1, e, fr, extra=x, swapped=(n == 'std::upper_bound'))
    elif rest and n in ('std::min_element', 'std::max_element', 'std::unique'):
        pred_effects(E, rest[0], oid, lo, hi, 2, e, fr)
    elif rest and n in ('std::find_if', 'std::remove_if'):
        pred_effects(E, rest[0], oid, lo, hi, 1, e, fr)
    o = E.st.get(oid)
    ex = isinstance(o, Vec) and o.origin == 'in' and not E.st.inex
    p = E.fresh('found', 0, BIG, bool(ex and n not in ('std::find_if',)))
    E.st.facts.add_ge(p.sub(lo))
    E.st.facts.add_ge(hi.sub(p))
    if n in ('std::min_element', 'std::max_element'):
        if E.decide(('ge', hi.sub(lo).addc(-1))):
            E.st.facts.add_ge(hi.addc(-1).sub(p))
        else:
            return PtrV(('e', oid, hi))
    if n in ('std::unique', 'std::remove_if', 'std::remove'):
        permuted(E, oid)
    return PtrV(('e', oid, p))


@call('std::set_intersection', 'std::set_union', 'std::set_difference')
def _setop(E, e, fr):
    """merge of two small known ranges into the end of a container"""
    n = sn(e['fn'])
    if len(e['a']) < 5:
        return NotImplemented
    x = e['a'][4]
    while isinstance(x, dict) and x.get('k') in ('cast', 'ctor', 'tmp', 'mte', 'paren') and (x.get('e') or x.get('a')):
        x = x.get('e') or x['a'][0]
    if not (isinstance(x, dict) and x.get('k') == 'call' and sn(x['fn']) == 'std::back_inserter'):
        return NotImplemented
    r1, r2 = the_range(E, e, fr, 0), the_range(E, e, fr, 2)
    dst = E.ev(x['a'][0], fr)
    fv = E.ev(e['a'][5], fr) if len(e['a']) > 5 else None
    s1 = small_range(E, r1, 6) if r1 else None
    s2 = small_range(E, r2, 6) if r2 else None
    if s1 is None or s2 is None or not (isinstance(dst, tuple) and dst[0] == 'o' and isinstance(E.st.get(dst[1]), Vec)):
        if isinstance(dst, tuple):
            E.havoc_loc(dst)
        return PtrV(('u', '?', E.nsym()))
    a, b = s1[0][s1[1]:s1[2]], s2[0][s2[1]:s2[2]]
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        t = small_test(E, fv, [a[i], b[j]], e, fr)
        u = small_test(E, fv, [b[j], a[i]], e, fr) if t is False else False
        if t is None or u is None:
            E.havoc_loc(dst)
            return PtrV(('u', '?', E.nsym()))
        if t:
            if n != 'std::set_intersection':
                out.append(a[i])
            i += 1
        elif u:
            if n == 'std::set_union':
                out.append(b[j])
            j += 1
        else:
            if n != 'std::set_difference':
                out.append(a[i])
            i += 1
            j += 1
    if n != 'std::set_intersection':
        out += a[i:]
    if n == 'std::set_union':
        out += b[j:]
    o = E.st.get(dst[1])
    old = elems(E, o)
    if old is None:
        E.havoc_loc(dst)
    else:
        els = tuple(list(old) + out)
        eb = o.eb
        if kind(o.et)[0] == 'int':
            eb = None
        E.st.put(dst[1], Vec(Poly.const(len(els)), o.et, E.nsym(), eb, None, els))
    return PtrV(('u', '?', E.nsym()))


@call('std::equal_range')
def _equal_range(E, e, fr):
    r = the_range(E, e, fr)
    rest = [E.ev(x, fr) for x in e['a'][2:]]
    if r is None:
        return E.mk(fr.T[e['t']], 'pair', False, 1, E.st)
    oid, lo, hi = r
    sr = small_range(E, r, 6)
    p = q = None
    if sr and len(rest) == 1:
        p = small_find(E, 'std::lower_bound', sr + (oid,), rest, e, fr)
        q = small_find(E, 'std::upper_bound', sr + (oid,), rest, e, fr) if p is not None else None
    if q is not None:
        p, q = Poly.const(p), Poly.const(q)
    else:
        p, q = E.fresh('eq0', 0, BIG, False), E.fresh('eq1', 0, BIG, False)
    E.st.facts.add_ge(p.sub(lo))
    E.st.facts.add_ge(q.sub(p))
    E.st.facts.add_ge(hi.sub(q))
    return ('o', E.newobj(Rec(base(fr.T[e['t']]), {'first': ('o', E.newobj(PtrV(('e', oid, p)))), 'second': ('o', E.newobj(PtrV(('e', oid, q))))})))


@call('std::copy', 'std::copy_n', 'std::transform', 'std::memcpy', 'memcpy', 'std::memmove', 'memmove')
def _copy(E, e, fr):
    n = sn(e['fn'])
    if n == 'std::copy':
        r = the_range(E, e, fr)
        d = E.val(e['a'][2], fr)
        if r and isinstance(d, PtrV) and d.loc[0] == 'e':
            o = E.st.get(d.loc[1])
            k = r[2].sub(r[1])
            sz = size_of(o)
            if sz is not None:
                E.ob('copy destination', [d.loc[2], sz.sub(d.loc[2]).sub(k)], e, fr, 'copy writes outside of the destination')
                src = E.st.get(r[0])
                if isinstance(o, Vec):
                    eb = None
                    if isinstance(src, Vec) and isinstance(src.eb, tuple):
                        eb = src.eb if o.eb == 'bot' or o.eb == src.eb or E.st.facts.norm(sz.sub(k)).m == {} else None
                    known, de, se = None, elems(E, o), elems(E, src)
                    i, j, q = csize(E, r[1]), csize(E, r[2]), csize(E, d.loc[2])
                    if de is not None and se is not None and None not in (i, j, q) and 0 <= i <= j <= len(se) and 0 <= q and q + j - i <= len(de) and kind(src.et) == kind(o.et):
                        known = tuple(de[:q] + se[i:j] + de[q + j - i:])
                    E.st.put(d.loc[1], o.w(ver=E.nsym(), eb=eb, known=known, origin=None))
                else:
                    E.havoc_loc(('o', d.loc[1]))
            return PtrV(('e', d.loc[1], d.loc[2].add(k)))
        if isinstance(d, PtrV):
            E.havoc_ptr(d)
        return PtrV(('u', '?', E.nsym()))
    args = [E.ev(x, fr) for x in e['a']]
    for x in args:
        if isinstance(x, tuple) and x and x[0] == 'o' and isinstance(E.st.get(x[1]), PtrV):
            x = E.st.get(x[1])
        if isinstance(x, PtrV):
            E.havoc_ptr(x)
    return PtrV(('u', '?', E.nsym()))


@call('std::fill', 'std::iota')
def _fill(E, e, fr):
    r = the_range(E, e, fr)
    v = E.val(e['a'][2], fr)
    if r:
        o = E.st.get(r[0])
        if isinstance(o, Vec):
            whole = r[1].isconst() and r[1].cval() == 0 and E.st.facts.norm(o.size.sub(r[2])).m == {}
            eb = None
            if isinstance(v, Poly) and kind(o.et)[0] == 'int' and whole:
                eb = (v, v) if sn(e['fn']) == 'std::fill' else (v, v.add(r[2]).addc(-1))
            els, i, j, known = elems(E, o), csize(E, r[1]), csize(E, r[2]), None
            if els is not None and i is not None and j is not None and 0 <= i <= j <= len(els) and isinstance(v, (Poly, B, Op)):
                if sn(e['fn']) == 'std::fill':
                    known = tuple(els[:i] + [v] * (j - i) + els[j:])
                elif isinstance(v, Poly):
                    known = tuple(els[:i] + [v.addc(q) for q in range(j - i)] + els[j:])
            E.st.put(r[0], o.w(ver=E.nsym(), eb=eb, known=known, origin=None))
        else:
            E.havoc_loc(('o', r[0]))
    return None


@call('std::accumulate')
def _acc(E, e, fr):
    the_range(E, e, fr)
    for x in e['a'][2:]:
        E.ev(x, fr)
    return E.mkval(fr.T[e['t']], 'acc', False, 2, E.st)


# ---------------------------------------------------------------- std::string
def strobj(E, x, fr):
    v = E.ev(x, fr)
    l = E.obj_of(v, x, fr)
    if l[0] == 'o':
        o = E.st.get(l[1])
        if isinstance(o, Str):
            return o
    if l[0] == 'e':
        o = E.st.get(l[1])
        if isinstance(o, Str):
            return Str(E.fresh('cstr', 0, BIG, False), ('h', E.nsym()))
        w = E.load(l, 'char')
        if isinstance(w, Poly):
            return Str(ONE, ('h', E.nsym()))
    return None


def str_new(E, ln, key=None):
    return ('o', E.newobj(Str(ln, key or ('h', E.nsym()))))


def arg_len(E, x, fr):
    """length of a string-like argument (string, literal, char)"""
    k = kind(fr.T[x['t']])
    if k[0] == 'int':
        E.ev(x, fr)
        return ONE
    o = strobj(E, x, fr)
    if isinstance(o, Str):
        return o.len
    return E.fresh('len', 0, BIG, False)


def c_str(E, e, fr, t, k):
    a = e['a']
    if e.get('cp') or e.get('mv'):
        l = E.obj_of(E.ev(a[0], fr), a[0], fr)
        o = E.st.get(l[1]) if l[0] == 'o' else None
        if isinstance(o, Str):
            n = E.newobj(o)
            if e.get('mv') and a[0]['k'] in ('call',) and 'move' in a[0].get('fn', ''):
                E.st.put(l[1], Str(E.fresh('moved', 0, BIG, False), ('h', E.nsym())))
            return ('o', n)
        if isinstance(l, tuple) and l[0] == 'e':
            w = E.load(l, '?')
            if isinstance(w, tuple) and w[0] == 'o' and isinstance(E.st.get(w[1]), Str):
                return ('o', E.newobj(E.st.get(w[1])))
        return E.mk(t, 's', False, 1, E.st)
    if not a:
        return str_new(E, ZERO, ('lit', ''))
    ks = [kind(fr.T[x['t']]) for x in a]
    if E.hooks.get('expect'):
        if ks[0][0] == 'vec' and 'initializer_list' in fr.T[a[0]['t']]:
            return strs.new(E, strs.text(strs.source(E, a[0], fr)))
        if ks[0][0] == 'int' and len(a) >= 2 and ks[1][0] == 'int':
            n = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
            c = E.val(a[1], fr)
            k = strs.cval(E, n, 12)
            if k is not None and k <= strs.MAXLEN and isinstance(c, Poly):
                return strs.new(E, [c] * k)
            return str_new(E, n)
        if ks[0][0] in ('ptr', 'arr', 'str'):
            t0 = strs.text(strs.source(E, a[0], fr))
            r = [E.val(x, fr) for x in a[1:] if kind(fr.T[x['t']])[0] != 'cls']
            if t0 is not None and all(isinstance(x, Poly) for x in r):
                r = [strs.cval(E, x, len(t0)) for x in r]
                if None not in r:
                    if not r:
                        return strs.new(E, t0)
                    if ks[0][0] in ('ptr', 'arr') and len(r) == 1:
                        return strs.new(E, t0[:r[0]])
                    if ks[0][0] == 'str' and r[0] <= len(t0):
                        return strs.new(E, t0[r[0]:] if len(r) == 1 else t0[r[0]:r[0] + min(r[1], len(t0))])
            return str_new(E, E.fresh('len', 0, BIG, False))
    if ks[0][0] == 'int' and len(a) >= 2 and ks[1][0] == 'int':
        n = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
        alloc_ob(E, n, e, fr)
        E.ev(a[1], fr)
        return str_new(E, n)
    if ks[0][0] in ('ptr', 'arr', 'str'):
        o = strobj(E, a[0], fr)
        rest = [E.val(x, fr) for x in a[1:] if kind(fr.T[x['t']])[0] != 'cls']
        if not rest and isinstance(o, Str):
            return ('o', E.newobj(o))
        if len(rest) == 1 and isinstance(rest[0], Poly) and ks[0][0] == 'ptr':
            return str_new(E, rest[0])
        return str_new(E, E.fresh('len', 0, BIG, False))
    for x in a:
        E.ev(x, fr)
    return str_new(E, E.fresh('len', 0, BIG, False))


CTORS['str'] = c_str


def m_str(E, name, e, fr):
    if not E.hooks.get('expect'):
        oid, o = cont_of(E, e['obj'], fr)
        return m_str_of(E, name, e, fr, oid, o)
    v = E.ev(e['obj'], fr)
    w = v
    while isinstance(w, PtrV) or isinstance(w, tuple) and w and w[0] == 'o' and isinstance(E.st.get(w[1]), PtrV):
        w = w.loc if isinstance(w, PtrV) else E.st.get(w[1]).loc
    l = E.obj_of(v, e['obj'], fr)
    oid, o = (l[1], E.st.get(l[1])) if l[0] == 'o' else (None, None)
    r = m_str_of(E, name, e, fr, oid, o)
    if isinstance(w, tuple) and w and w[0] == 'e' and not e.get('cm') and isinstance(o, Str):
        # an element of a container of strings: written back
        c = E.st.get(w[1])
        if isinstance(c, Vec):
            n = E.st.get(oid)
            if name in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'data'):
                E.st.put(w[1], c.w(ver=E.nsym(), known=None))
            elif n is not o:
                E.vec_store(w[1], c, w[2], n)
    return r


def m_str_of(E, name, e, fr, oid, o):
    a = e['a']
    t = fr.T[e['t']]
    if not isinstance(o, Str):
        for x in a:
            E.ev(x, fr)
        if name in ('size', 'length'):
            return E.fresh('len?', 0, BIG, False)
        return E.mkval(ir.noref(t), name, False, 2, E.st) if kind(t)[0] != 'void' else None
    if E.hooks.get('expect'):
        r = strs.method(E, name, e, fr, oid, o)
        if r is not NotImplemented:
            return r
    if name in ('size', 'length'):
        return o.len
    if name == 'empty':
        return B(('eq', o.len)) if not o.len.isconst() else B(TRUE if o.len.cval() == 0 else FALSE)
    if name in ('operator[]', 'at'):
        i = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
        if name == 'operator[]':
            E.ob('string index', [i, o.len.sub(i)], e, fr, 'index outside of the string')
        elif not E.decide(('ge', o.len.addc(-1).sub(i))):
            raise Thrown()
        return ('e', oid, i)
    if name in ('front', 'back'):
        E.ob('string front/back', [o.len.addc(-1)], e, fr, '%s() of an empty string' % name)
        return ('e', oid, ZERO if name == 'front' else o.len.addc(-1))
    if name in ('c_str', 'data', 'begin', 'cbegin'):
        return PtrV(('e', oid, ZERO))
    if name in ('end', 'cend'):
        return PtrV(('e', oid, o.len))
    if name == 'clear':
        E.st.put(oid, Str(ZERO, ('lit', '')))
        return None
    if name == 'reserve':
        for x in a:
            E.ev(x, fr)
        return None
    if name == 'resize':
        n = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']])
        for x in a[1:]:
            E.ev(x, fr)
        alloc_ob(E, n, e, fr)
        E.st.put(oid, Str(n, ('h', E.nsym())))
        return None
    if name in ('push_back',):
        E.ev(a[0], fr)
        E.st.put(oid, Str(o.len.addc(1), ('h', E.nsym())))
        return None
    if name == 'pop_back':
        E.ob('string pop_back', [o.len.addc(-1)], e, fr, 'pop_back() of an empty string')
        E.st.put(oid, Str(o.len.addc(-1), ('h', E.nsym())))
        return None
    if name in ('operator+=', 'append'):
        if len(a) == 1:
            n = arg_len(E, a[0], fr)
        else:
            for x in a:
                E.ev(x, fr)
            n = E.fresh('app', 0, BIG, False)
        o = E.st.get(oid)
        E.st.put(oid, Str(o.len.add(n), ('h', E.nsym())))
        return ('o', oid)
    if name in ('operator=', 'assign'):
        if len(a) == 1:
            k0 = kind(fr.T[a[0]['t']])
            if k0[0] == 'int':
                E.ev(a[0], fr)
                E.st.put(oid, Str(ONE, ('h', E.nsym())))
            else:
                s = strobj(E, a[0], fr)
                E.st.put(oid, s if isinstance(s, Str) else Str(E.fresh('len', 0, BIG, False), ('h', E.nsym())))
        else:
            for x in a:
                E.ev(x, fr)
            E.st.put(oid, Str(E.fresh('len', 0, BIG, False), ('h', E.nsym())))
        return ('o', oid)
    if name == 'substr':
        p = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']]) if a else ZERO
        n = E.intcast(E.val(a[1], fr), 'unsigned long', fr.T[a[1]['t']]) if len(a) > 1 else NPOS
        E.ob('substr position', [o.len.sub(p)], e, fr, 'substr() position beyond the end (throws std::out_of_range)')
        rest = o.len.sub(p)
        if E.decide(('ge', n.sub(rest))):
            return str_new(E, rest)
        return str_new(E, n)
    if name == 'erase':
        if a and is_iter_t(fr.T[a[0]['t']]):
            p = E.val(a[0], fr)
            q = E.val(a[1], fr) if len(a) > 1 else None
            if isinstance(p, PtrV) and p.loc[0] == 'e':
                if q is None:
                    E.ob('erase position', [p.loc[2], o.len.addc(-1).sub(p.loc[2])], e, fr, 'erase() position outside')
                    E.st.put(oid, Str(o.len.addc(-1), ('h', E.nsym())))
                    return p
                if isinstance(q, PtrV) and q.loc[0] == 'e':
                    E.ob('erase range', [p.loc[2], q.loc[2].sub(p.loc[2]), o.len.sub(q.loc[2])], e, fr, 'erase() range outside')
                    E.st.put(oid, Str(o.len.sub(q.loc[2].sub(p.loc[2])), ('h', E.nsym())))
                    return p
            E.havoc_loc(('o', oid))
            return PtrV(('u', '?', E.nsym()))
        p = E.intcast(E.val(a[0], fr), 'unsigned long', fr.T[a[0]['t']]) if a else ZERO
        n = E.intcast(E.val(a[1], fr), 'unsigned long', fr.T[a[1]['t']]) if len(a) > 1 else NPOS
        E.ob('erase position', [o.len.sub(p)], e, fr, 'erase() position beyond the end')
        if E.decide(('ge', n.sub(o.len.sub(p)))):
            E.st.put(oid, Str(p, ('h', E.nsym())))
        else:
            E.st.put(oid, Str(o.len.sub(n), ('h', E.nsym())))
        return ('o', oid)
    if name == 'insert':
        vals = [E.ev(x, fr) for x in a]
        E.st.put(oid, Str(E.fresh('ins', 0, BIG, False), ('h', E.nsym())))
        E.st.facts.add_ge(E.st.get(oid).len.sub(o.len))
        return ('o', oid)
    if name == 'replace':
        for x in a:
            E.ev(x, fr)
        E.st.put(oid, Str(E.fresh('repl', 0, BIG, False), ('h', E.nsym())))
        return ('o', oid)
    if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        nl = arg_len(E, a[0], fr)
        p0 = None
        if len(a) > 1:
            p0 = E.intcast(E.val(a[1], fr), 'unsigned long', fr.T[a[1]['t']])
        # npos or a valid position
        if E.decide(('at', E.newatom('found', True), True)):
            r = E.fresh('pos', 0, BIG, False)
            F = E.st.facts
            if name == 'find' or name == 'rfind':
                F.add_ge(o.len.sub(r).sub(nl))
            else:
                F.add_ge(o.len.addc(-1).sub(r))
            if p0 is not None:
                if name in ('find', 'find_first_of', 'find_first_not_of'):
                    F.add_ge(r.sub(p0))
                elif F.entails(Poly.const(BIG).sub(p0)):
                    F.add_ge(p0.sub(r))
            return r
        return NPOS
    if name == 'compare':
        for x in a:
            E.ev(x, fr)
        return E.fresh('cmp', None, None, False)
    return NotImplemented


METHODS['str'] = m_str


@call('std::operator+')
def _splus(E, e, fr):
    ks = [kind(fr.T[x['t']])[0] for x in e['a']]
    if len(e['a']) == 2 and 'str' in ks:
        if E.hooks.get('expect'):
            x, y = [strs.text(strs.source(E, z, fr)) for z in e['a']]
            return strs.new(E, x + y if x is not None and y is not None and len(x) + len(y) <= strs.MAXLEN else None)
        n = arg_len(E, e['a'][0], fr).add(arg_len(E, e['a'][1], fr))
        return str_new(E, n)
    return NotImplemented


@call('std::operator<<')
def _shl(E, e, fr):
    if len(e['a']) == 2:
        l = E.ev(e['a'][0], fr)
        E.ev(e['a'][1], fr)
        return l
    return NotImplemented


@call('std::basic_ostream::operator<<')
def _shl2(E, e, fr):
    l = E.ev(e['obj'], fr)
    for x in e['a']:
        if x['k'] != 'fref':
            E.ev(x, fr)
    return l


@call('std::make_pair')
def _mkpair(E, e, fr):
    vs = [E.init_field(ir.noref(fr.T[x['t']]), x, fr) for x in e['a']]
    return ('o', E.newobj(Rec(base(fr.T[e['t']]), {'first': vs[0], 'second': vs[1]})))


def c_pair(E, e, fr, t, k):
    a = e['a']
    if (e.get('cp') or e.get('mv')) and a:
        l = E.obj_of(E.ev(a[0], fr), a[0], fr)
        if l[0] == 'o':
            return ('o', E.deepcopy(l[1]))
        return E.mk(t, 'pair', False, 1, E.st)
    if len(a) == 2:
        ts = ir.split_targs(k[1])
        vs = [E.init_field(ts[i], a[i], fr) for i in range(2)]
        return ('o', E.newobj(Rec(k[1], {'first': vs[0], 'second': vs[1]})))
    for x in a:
        E.ev(x, fr)
    ts = ir.split_targs(k[1])

    def blank(x, n):
        if not a and E.hooks.get('expect') and (kind(x)[0] in ('int', 'bool', 'flt', 'str', 'vec') or ir.vecinfo(x)):
            return E.mk(x, n, True, 2, E.st, True)
        return E.mk(x, n, False, 2, E.st)
    return ('o', E.newobj(Rec(k[1], {'first': blank(ts[0], 'first'), 'second': blank(ts[1], 'second')})))


STD_CTORS['std::pair'] = c_pair


def c_uptr(E, e, fr, t, k):
    a = e['a']
    if not a:
        return ('o', E.newobj(Rec(k[1], {'p': ('o', E.newobj(NULLP))})))
    v = E.val(a[0], fr)
    if isinstance(v, tuple) and v[0] == 'o' and isinstance(E.st.get(v[1]), Rec):
        r = E.st.get(v[1])
        if 'p' in r.f:
            p = E.st.get(r.f['p'][1])
            E.st.put(r.f['p'][1], NULLP)
            return ('o', E.newobj(Rec(k[1], {'p': ('o', E.newobj(p))})))
    if not isinstance(v, PtrV):
        v = PtrV(('u', '?', E.nsym()))
    return ('o', E.newobj(Rec(k[1], {'p': ('o', E.newobj(v))})))


STD_CTORS['std::unique_ptr'] = c_uptr


def _uptr_obj(E, e, fr):
    l = E.obj_of(E.ev(e['obj'], fr), e['obj'], fr)
    if l[0] == 'o':
        r = E.st.get(l[1])
        if isinstance(r, Rec) and 'p' in r.f:
            return r.f['p'][1], E.st.get(r.f['p'][1])
    return None, None


@call('std::unique_ptr::operator->', 'std::unique_ptr::get', 'std::unique_ptr::operator*', 'std::unique_ptr::release')
def _uarrow(E, e, fr):
    o, p = _uptr_obj(E, e, fr)
    if not isinstance(p, PtrV):
        t = fr.T[e['t']]
        return PtrV(E.mk(kind(t)[1] if kind(t)[0] == 'ptr' else ir.noref(t), 'up', False, 2, E.st)) if kind(t)[0] == 'ptr' else E.mk(ir.noref(t), 'up', False, 2, E.st)
    n = sn(e['fn'])
    if n.endswith('release'):
        E.st.put(o, NULLP)
        return p
    if n.endswith('operator*'):
        return E.deref(p, e, fr)
    return p


@call('std::unique_ptr::operator bool')
def _ubool(E, e, fr):
    o, p = _uptr_obj(E, e, fr)
    if isinstance(p, PtrV):
        return B(E.as_cond(p))
    return B(('at', E.newatom('uptr', False), False))


@call('std::unique_ptr::operator=', 'std::unique_ptr::reset')
def _uassign(E, e, fr):
    o, p = _uptr_obj(E, e, fr)
    v = E.val(e['a'][0], fr) if e['a'] else NULLP
    if isinstance(v, tuple) and v[0] == 'o' and isinstance(E.st.get(v[1]), Rec) and 'p' in E.st.get(v[1]).f:
        q = E.st.get(v[1]).f['p'][1]
        v = E.st.get(q)
        E.st.put(q, NULLP)
    if o is not None:
        E.st.put(o, v if isinstance(v, PtrV) else PtrV(('u', '?', E.nsym())))
    return E.ev(e['obj'], fr)


# ---------------------------------------------------------------- algorithms over the library's own iterators
def rec_ops(E, t):
    ne = E.find_method(t, 'operator!=')
    de = E.find_method(t, 'operator*')
    idx = E.P._midx
    inc = [f for f in idx.get((t, 'operator++'), []) if not f.d['p']]
    dec = [f for f in idx.get((t, 'operator--'), []) if not f.d['p']]
    return ne, de, inc[0] if inc else None, dec[0] if dec else None


def rec_walk(E, a, b, ops, e, fr):
    """locations designated by the iterators a..b (the last iterator reached equals b); None: not enumerable"""
    ne, de, inc, dec = ops
    c = ('o', E.deepcopy(a[1]))
    out = []
    while True:
        v = E.inline_v(ne, c, [b], e, fr)
        if isinstance(v, tuple):
            v = E.load(v, 'bool')
        if not isinstance(v, (B, Poly)):
            return None
        if not E.decide(E.as_cond(v)):
            return out
        if len(out) >= 40:
            return None
        l = E.inline_v(de, c, [], e, fr)
        if not (isinstance(l, tuple) and l and l[0] in ('e', 'o')):
            return None
        out.append(l)
        E.inline_v(inc, c, [], e, fr)


def loc_type(E, l):
    o = E.st.get(l[1])
    return o.et if isinstance(o, (Vec, Arr)) and l[0] == 'e' else 'double' if not isinstance(o, Rec) else o.t


def rec_algo(E, e, fr):
    n = sn(e['fn'])
    args = [E.ev(x, fr) for x in e['a']]
    its = [i for i, x in enumerate(e['a']) if 'iterator_adaptor<' in fr.T[x['t']]]
    args = [E.obj_of(v, x, fr) if i in its else v for i, (v, x) in enumerate(zip(args, e['a']))]
    r0 = E.st.get(args[0][1]) if args[0][0] == 'o' else None
    et = None
    if E.pick and its[:2] == [0, 1] and isinstance(r0, Rec) and args[1][0] == 'o':
        ops = rec_ops(E, r0.t)
        src = None
        if ops[0] and ops[1] and ops[2]:
            if n == 'std::rotate' and its == [0, 1, 2]:
                x, y = rec_walk(E, args[0], args[1], ops, e, fr), None
                if x is not None:
                    y = rec_walk(E, args[1], args[2], ops, e, fr)
                if y is not None:
                    ls = x + y
                    vs = [E.load(l, loc_type(E, l)) for l in y + x]
                    for l, v in zip(ls, vs):
                        E.store(l, v)
                    res = ('o', E.deepcopy(args[0][1]))
                    for _ in y:
                        E.inline_v(ops[2], res, [], e, fr)
                    return res
            elif n in ('std::copy', 'std::copy_backward') and its == [0, 1, 2]:
                src = rec_walk(E, args[0], args[1], ops, e, fr)
                st = ops[2] if n == 'std::copy' else ops[3]
                if src is not None and st is not None:
                    res = ('o', E.deepcopy(args[2][1]))
                    for l in (src if n == 'std::copy' else reversed(src)):
                        if n == 'std::copy_backward':
                            E.inline_v(st, res, [], e, fr)
                        d = E.inline_v(ops[1], res, [], e, fr)
                        E.store(d, E.load(l, loc_type(E, l)))
                        if n == 'std::copy':
                            E.inline_v(st, res, [], e, fr)
                    return res
            elif n in ('std::fill', 'std::reverse') and its == [0, 1]:
                src = rec_walk(E, args[0], args[1], ops, e, fr)
                if src is not None:
                    if n == 'std::fill':
                        v = args[2]
                        if isinstance(v, tuple) and v and v[0] in ('o', 'e'):
                            v = E.load(v, fr.T[e['a'][2]['t']])
                        for l in src:
                            E.store(l, v)
                    else:
                        vs = [E.load(l, loc_type(E, l)) for l in reversed(src)]
                        for l, v in zip(src, vs):
                            E.store(l, v)
                    return None
    # anything may have been written in the underlying container
    done = set()
    for i in its:
        if args[i][0] == 'o' and isinstance(E.st.get(args[i][1]), Rec):
            ops = rec_ops(E, E.st.get(args[i][1]).t)
            l = None
            if ops[1]:
                E.quiet += 1
                try:
                    l = E.inline_v(ops[1], args[i], [], e, fr)
                finally:
                    E.quiet -= 1
            if isinstance(l, tuple) and l and l[0] == 'e' and l[1] not in done:
                done.add(l[1])
                permuted(E, l[1])
    for i, x in enumerate(args):
        if i not in its and isinstance(x, tuple) and x and x[0] == 'o' and isinstance(E.st.get(x[1]), (Clo, Rec)):
            pred_effects(E, x, None, None, None, 2, e, fr)
    return E.mkval(fr.T[e['t']], 'alg', False, 2, E.st) if 't' in e and fr.T[e['t']] != 'void' else None


def _guard(n, g):
    def f(E, e, fr):
        if e['a'] and 't' in e['a'][0] and 'iterator_adaptor<' in fr.T[e['a'][0]['t']]:
            return rec_algo(E, e, fr)
        return g(E, e, fr) if g else NotImplemented
    return f


for _n in ('std::rotate', 'std::copy', 'std::copy_backward', 'std::fill', 'std::reverse', 'std::sort', 'std::stable_sort', 'std::nth_element',
           'std::partition', 'std::partial_sort', 'std::iota', 'std::random_shuffle', 'std::shuffle'):
    CALLS[_n] = _guard(_n, CALLS.get(_n))


def c_thread(E, e, fr, t, k):
    """a started thread runs to completion at once (laws only)"""
    if not E.hooks.get('expect') or len(e['a']) != 1:
        return NotImplemented
    fv = E.ev(e['a'][0], fr)
    F = fv
    if isinstance(F, tuple) and F and F[0] == 'o':
        F = E.st.get(F[1])
    if not isinstance(F, Clo):
        return NotImplemented
    if E.hooks.get('late'):
        # the other extreme: the thread does nothing until it is waited for
        return ('o', E.newobj(Rec('std::thread', {'job': fv if isinstance(fv, tuple) else ('o', E.newobj(fv))})))
    call_callable(E, fv, [], e, fr)
    return ('o', E.newobj(Rec('std::thread', {})))


STD_CTORS['std::thread'] = c_thread


@call('std::thread::join')
def _tjoin(E, e, fr):
    l = E.obj_of(E.ev(e['obj'], fr), e['obj'], fr)
    r = E.st.get(l[1]) if l[0] == 'o' else None
    if isinstance(r, Rec) and 'job' in r.f:
        job = r.f['job']
        E.st.put(l[1], Rec('std::thread', {'done': job}))
        call_callable(E, job, [], e, fr)
    elif E.hooks.get('late') and not (isinstance(r, Rec) and 'done' in r.f):
        E.st.inex = True
    return None


@call('std::toupper', 'std::tolower', 'toupper', 'tolower')
def _toupper(E, e, fr):
    if not E.hooks.get('expect') or len(e['a']) != 1:
        return NotImplemented
    v = E.val(e['a'][0], fr)
    if not isinstance(v, Poly):
        return NotImplemented
    v = E.st.facts.norm(v)
    n = sn(e['fn']).replace('std::', '')
    if v.isconst():
        c = v.cval()
        return Poly.const(ord(getattr(chr(c), n[2:])()) if 0 <= c < 128 else c)
    k = ('cfun', n, v)
    r = E.st.tags.get(k)
    if r is None:
        r = E.st.tags[k] = E.fresh(n, -128, 255, False)
    return r


from . import strs  # noqa: E402
