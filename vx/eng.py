"""Abstract interpreter over the exported, resolved AST.

Abstract state = abstract heap (objects with symbolic sizes) + conjunction of polynomial facts.
Trace partitioning with a bounded number of disjuncts, joins at control-flow merges, loop heads
summarised by induction-variable recognition and Houdini-style candidate invariants.  Calls are
analysed in context (inlined) when their body is part of the analysed program, otherwise through
summaries of the standard library.  Nothing is executed."""
import re
import sys
import math
import time
from .lin import Poly, Facts, Syms, Infeasible, ZERO, ONE, W64
from . import ir, rat
from .ir import kind, base, isref, strip_targs as sn, vecinfo

sys.setrecursionlimit(12000)
BIG = 1 << 40      # assumed upper bound of container sizes
TRUE = ('t',)
FALSE = ('f',)


class Budget(Exception):
    pass


class Thrown(Exception):
    pass


class Exited(Exception):
    pass


class B:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, B) and self.c == o.c

    def __hash__(self):
        return hash(self.c)


def ffold(op, a, b):
    try:
        return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
    except ZeroDivisionError:
        return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a) * math.copysign(1.0, b)
    except OverflowError:
        return float('inf')


class Op:
    """opaque scalar value; key identifies it (equal keys = equal values)"""
    __slots__ = ('key', 'exact')

    def __init__(self, key, exact=True):
        self.key = key
        self.exact = exact

    def __eq__(self, o):
        return isinstance(o, Op) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class PtrV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, PtrV) and self.loc == o.loc

    def __hash__(self):
        return hash(self.loc)


NULLP = PtrV(('null',))


class Clo:
    __slots__ = ('node', 'caps', 'this', 'fr')

    def __init__(self, node, caps, this, fr):
        self.node = node
        self.caps = caps
        self.this = this
        self.fr = fr


class FnV:
    __slots__ = ('node', 'obj')

    def __init__(self, node, obj=None):
        self.node = node
        self.obj = obj


class Vec:
    __slots__ = ('size', 'et', 'ver', 'eb', 'origin', 'known')

    def __init__(self, size, et, ver=0, eb=None, origin=None, known=None):
        self.size = size
        self.et = et
        self.ver = ver
        self.eb = eb          # None: unknown; 'bot': no element yet; (lo, hi): lo <= e <= hi (Poly or None)
        self.origin = origin  # 'in' when the contents are unconstrained inputs
        self.known = known    # tuple of Locs/values for literal lists

    def w(self, **kw):
        v = Vec(self.size, self.et, self.ver, self.eb, self.origin, self.known)
        for k, x in kw.items():
            setattr(v, k, x)
        return v


class Str:
    __slots__ = ('len', 'ver', 'key')

    def __init__(self, ln, key):
        self.len = ln
        self.key = key


class Arr:
    __slots__ = ('vals', 'et')

    def __init__(self, vals, et):
        self.vals = vals      # tuple of Values (scalars) or Locs ('o', id)
        self.et = et


class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t
        self.f = f            # name -> Loc ; refs bound directly


class State:
    __slots__ = ('base', 'delta', 'facts', 'env', 'inex', 'written', 'tags')

    def __init__(self, S):
        self.base = {}
        self.delta = {}
        self.facts = Facts(S)
        self.env = {}
        self.inex = False
        self.written = set()
        self.tags = {}

    def clone(self):
        s = State.__new__(State)
        if len(self.delta) > 96:
            b = dict(self.base)
            b.update(self.delta)
            self.base = b
            self.delta = {}
        s.base = self.base
        s.delta = dict(self.delta)
        s.facts = self.facts.clone()
        s.env = {k: dict(v) for k, v in self.env.items()}
        s.inex = self.inex
        s.written = set(self.written)
        s.tags = dict(self.tags)
        return s

    def get(self, o):
        v = self.delta.get(o)
        if v is None:
            v = self.base.get(o)
        return v

    def put(self, o, v):
        self.delta[o] = v
        self.written.add(o)

    def keys(self):
        if self.delta:
            b = dict(self.base)
            b.update(self.delta)
            self.base = b
            self.delta = {}
        return self.base.keys()


class Frame:
    __slots__ = ('fid', 'P', 'T', 'fun', 'this', 'depth', 'name', 'file', 'up', 'caps', 'callline')

    def __init__(self, fid, P, fun, this, depth, name, file, up):
        self.fid = fid
        self.P = P
        self.T = P.T
        self.fun = fun
        self.this = this
        self.depth = depth
        self.name = name
        self.file = file
        self.up = up
        self.caps = None
        self.callline = 0


class Choice:
    __slots__ = ('outs', 'idx', 'n', 'bump')


class Outc:
    """outcome lists of a statement"""
    __slots__ = ('norm', 'brk', 'cont', 'ret', 'thr')

    def __init__(self):
        self.norm = []
        self.brk = []
        self.cont = []
        self.ret = []     # (state, value)
        self.thr = []


class Obl:
    __slots__ = ('kind', 'file', 'line', 'status', 'msg', 'root', 'n', 'fn', 'model', 'path')


PURE_CALLS = {'std::isnan', 'std::isfinite', 'std::isinf', 'std::abs', 'std::move', 'std::forward', 'isnan'}


def tiny_body(b):
    """a single assignment without calls"""
    while isinstance(b, dict) and b.get('k') == 'block' and len(b.get('s', b.get('b', []))) == 1:
        b = b.get('s', b.get('b'))[0]
    if not isinstance(b, dict) or b.get('k') not in ('bin', 'un'):
        return False

    def calls(x):
        if isinstance(x, dict):
            return x.get('k') in ('ctor', 'lambda', 'new') or (x.get('k') == 'call' and not str(x.get('fn', '')).startswith('std::')) or any(calls(y) for y in x.values())
        if isinstance(x, list):
            return any(calls(y) for y in x)
        return False
    return not calls(b)


class Engine:
    KMAX = 10
    UNROLL = 9

    def __init__(self, P, budget=400000, root=None, hooks=None):
        self.P = P
        self.S = Syms()
        self.nobj = 0
        self.nfid = 0
        self.natom = 0
        self.steps = 0
        self.budget = budget
        self.quiet = 0
        self.obls = {}
        self.root = root
        self.inl = set()
        self.pick = None
        self.inel = {}
        self.viewpar = {}
        self.symdef = {}        # partitions: derived integer symbols -> definition over the inputs
        self.deffacts = set()
        self.obfilter = None
        self.intpick = None
        self.maxcont = 4
        self.stack = []
        self.trace = None
        self.pos = 0
        self.hooks = hooks or {}
        self.atoms = {}
        self.atominfo = {}
        self.canonrep = {}
        self.atomkey = {}
        self.events = []
        self.unknown_calls = {}
        self.st = State(self.S)
        self.heapclass = {}
        self.tend = 1e18
        self.capt = None
        self.exits = []
        self.nexit = 0

    # ------------------------------------------------------------------ objects
    def newobj(self, v, st=None):
        self.nobj += 1
        st = st or self.st
        st.delta[self.nobj] = v
        return self.nobj

    def fresh(self, name, lo=0, hi=None, exact=True):
        return Poly.sym(self.S.fresh(name, lo, hi, exact))

    def fresh_of(self, t, name, exact=True):
        k = kind(t)
        if k[0] == 'int':
            sg, bits = k[1], k[2]
            if sg:
                return self.fresh(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1, exact)
            return self.fresh(name, 0, (1 << bits) - 1, exact)
        if k[0] == 'bool':
            return B(('at', self.newatom(name, exact), exact))
        return Op(('fresh', name, self.nsym()), exact)

    def exit_here(self, e, fr):
        self.nexit += 1
        if not self.quiet and len(self.exits) < 400:
            self.exits.append((self.st.clone(), '%s:%s %s' % (fr.file.replace('/repo/', ''), e.get('l', 0), fr.name)))
        raise Exited()

    def S_fresh_free(self, name, nonneg):
        return self.fresh(name, 0 if nonneg else None, None, True)

    def nsym(self):
        self.S.n += 1
        return self.S.n

    def newatom(self, name, exact=True):
        n = self.nsym()
        self.atominfo[n] = name
        return n

    def mk(self, t, name, exact=True, depth=0, st=None, zero=False):
        """new symbolic object of type t; returns Loc"""
        k = kind(t)
        st = st or self.st
        if k[0] == 'vec':
            if zero:
                return ('o', self.newobj(Vec(ZERO, k[1], eb='bot'), st))
            sz = self.fresh(name + '.size', 0, BIG, exact)
            return ('o', self.newobj(Vec(sz, k[1], origin='in' if exact else None), st))
        if k[0] == 'str':
            if zero:
                return ('o', self.newobj(Str(ZERO, ('lit', '')), st))
            return ('o', self.newobj(Str(self.fresh(name + '.len', 0, BIG, exact), ('s', self.nsym())), st))
        if k[0] == 'arr':
            n = k[2]
            if n > 16 or n == 0:
                v = Vec(Poly.const(n), k[1], origin='in' if exact else None)
                return ('o', self.newobj(v, st))
            vals = []
            for i in range(n):
                vals.append(self.mkval(k[1], '%s[%d]' % (name, i), exact, depth + 1, st, zero))
            return ('o', self.newobj(Arr(tuple(vals), k[1]), st))
        if k[0] == 'cls':
            vi = vecinfo(t)
            if vi and base(t) in self.P.recs:
                return self.mkvec(base(t), vi, name, exact, st, zero)
            r = self.P.recs.get(k[1])
            if r is not None and depth < 5:
                f = {}
                if k[1].startswith(('vif::matrix::mat<', 'vif::matrix::wrapper<', 'vif::matrix::const_wrapper<')) and not zero:
                    bt = [self.P.T[x['t']] for x in r['fields'] if x['n'] == 'base']
                    if bt:
                        bl = self.mk(ir.noref(bt[0]), name, exact, depth + 1, st)
                        bo = st.get(bl[1])
                        if isinstance(bo, Rec) and 'dims' in bo.f and 'safe' in bo.f:
                            f = {'base': bl, 'dims': bo.f['dims'], 'safe': bo.f['safe']}
                            return ('o', self.newobj(Rec(k[1], f), st))
                self.rec_fields(r, name, exact, depth, st, zero, f)
                return ('o', self.newobj(Rec(k[1], f), st))
            return ('o', self.newobj(Op(('obj', name, self.nsym()), exact), st))
        return ('o', self.newobj(self.mkval(t, name, exact, depth, st, zero), st))

    def rec_fields(self, r, name, exact, depth, st, zero, f):
        T = self.P.T
        for b in r.get('bases', []):
            br = self.P.recs.get(base(T[b]))
            if br is not None:
                self.rec_fields(br, name, exact, depth, st, zero, f)
        for fd in r['fields']:
            ft = T[fd['t']]
            f[fd['n']] = self.mk(ir.noref(ft), name + '.' + fd['n'], exact, depth + 1, st, zero and not isref(ft))

    def mkval(self, t, name, exact, depth, st, zero=False):
        k = kind(t)
        if k[0] in ('int',):
            if zero:
                return ZERO
            return self.fresh_of(t, name, exact)
        if k[0] == 'bool':
            if zero:
                return B(FALSE)
            return self.fresh_of(t, name, exact)
        if k[0] == 'flt':
            if zero:
                return Op(('flt', 0.0))
            return Op(('in', name, self.nsym()), exact)
        if k[0] in ('ptr', 'iter'):
            if zero:
                return NULLP
            return PtrV(('u', k[1], self.nsym()))
        if k[0] in ('vec', 'str', 'arr', 'cls'):
            return self.mk(t, name, exact, depth, st, zero)
        return Op(('in', name, self.nsym()), exact)

    def in_elems(self, et, n, name, exact, st, zero):
        """named elements of an input of known size"""
        c = self.intpick(name, n, kind(et)[0], et) if self.pick and exact and not zero and kind(et)[0] in ('int', 'bool') else None
        if c is not None:
            return tuple(B(TRUE if x else FALSE) if kind(et)[0] == 'bool' else Poly.const(x) for x in c)
        known = tuple(self.mkval(et, '%s[%d]' % (name, i), exact, 3, st) for i in range(n))
        if exact and not zero:
            for i, v in enumerate(known):
                self.inel[v.key if isinstance(v, Op) else v.c if isinstance(v, B) else v] = '%s[%d]' % (name, i)
        return known

    def mkvec(self, t, vi, name, exact, st, zero=False):
        D, E = vi
        dims = []
        prod = ONE
        pick = self.pick(name, D) if self.pick and exact and not zero else None
        for i in range(D):
            d = ZERO if zero else Poly.const(pick[i]) if pick else self.fresh('%s.dims[%d]' % (name, i) if D > 1 else name + '.size', 0, BIG if D == 1 else (1 << 20), exact)
            dims.append(d)
            prod = prod.mul(d)
        r = self.P.recs[t]
        f = {}
        o = self.newobj(None, st)
        det = E
        for fd in r['fields']:
            ft = self.P.T[fd['t']]
            if fd['n'] == 'data':
                det = kind(ft)[1] if kind(ft)[0] == 'vec' else E
                known = None
                if zero or (prod.isconst() and prod.cval() <= 24 and kind(det)[0] in ('int', 'bool', 'flt')):
                    known = self.in_elems('bool' if E == 'bool' and self.pick else det, prod.cval(), name, exact, st, zero)
                elif pick and exact and prod.isconst() and prod.cval() <= 24 and kind(det)[0] == 'ptr' and kind(kind(det)[1])[0] in ('int', 'bool', 'flt'):
                    # a view: its elements are distinct elements of some other vector
                    n = prod.cval()
                    et = kind(det)[1]
                    po = self.newobj(Vec(Poly.const(n), 'unsigned char' if et == 'bool' else et, origin='in', known=self.in_elems(et, n, name, exact, st, False)), st)
                    self.viewpar[po] = name
                    known = tuple(PtrV(('e', po, Poly.const(i))) for i in range(n))
                f['data'] = ('o', self.newobj(Vec(prod, det, origin='in' if exact else None, eb='bot' if zero else None, known=known), st))
            elif fd['n'] == 'dims':
                f['dims'] = ('o', self.newobj(Arr(tuple(dims), 'unsigned long'), st))
            elif fd['n'] == 'safe':
                f['safe'] = ('o', self.newobj(Rec(base(ft), {'parent': ('o', o)}), st))
            elif fd['n'] == 'parent':
                f['parent'] = ('o', self.newobj(PtrV(('o', self.newobj(Op(('parent', name), False), st)) if pick else ('u', 'void', self.nsym())), st))
            else:
                f[fd['n']] = self.mk(ft, name + '.' + fd['n'], exact, 1, st, zero)
        st.delta[o] = Rec(t, f)
        return ('o', o)

    # ------------------------------------------------------------------ splitting
    def run_split(self, st, f):
        """run f() on clones of st for every combination of choices; returns list of (state, result|exc)"""
        res = []
        trace = []
        saved = (self.st, self.trace, self.pos)
        base_n, base_o, base_f = self.S.n, self.nobj, self.nfid
        mx = [base_n, base_o, base_f]
        first = True
        while True:
            self.S.n, self.nobj, self.nfid = base_n, base_o, base_f
            self.st = st.clone()
            self.trace = trace
            self.pos = 0
            try:
                r = f()
                res.append((self.st, r, None))
            except Infeasible:
                pass
            except Thrown:
                res.append((self.st, None, 'throw'))
            except Exited:
                res.append((self.st, None, 'exit'))
            mx = [max(mx[0], self.S.n), max(mx[1], self.nobj), max(mx[2], self.nfid)]
            while trace and trace[-1].idx >= trace[-1].n - 1:
                trace.pop()
            if not trace:
                break
            trace[-1].idx += 1
            trace[-1].bump = tuple(mx)
            if len(res) > 64:
                raise Budget()
        self.S.n, self.nobj, self.nfid = mx
        self.st, self.trace, self.pos = saved
        return res

    def choose(self, n, thunk=None):
        """choice point with n alternatives (or alternatives computed by thunk() -> list)"""
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
            self.pos += 1
            if c.bump is not None:
                # symbols created after taking a later alternative never share ids with earlier alternatives
                self.S.n = max(self.S.n, c.bump[0])
                self.nobj = max(self.nobj, c.bump[1])
                self.nfid = max(self.nfid, c.bump[2])
            return c
        c = Choice()
        c.outs = None
        c.bump = None
        if thunk is not None:
            c.outs = thunk()
            c.n = len(c.outs)
            if c.n == 0:
                raise Infeasible()
        else:
            c.n = n
        c.idx = 0
        self.trace.append(c)
        self.pos += 1
        return c

    # ------------------------------------------------------------------ conditions
    def truth(self, c):
        k = c[0]
        F = self.st.facts
        if k == 't':
            return True
        if k == 'f':
            return False
        if k in ('ge', 'eq', 'ne'):
            return F.truth(c)
        if k == 'at':
            return F.atoms.get(c[1])
        if k == 'not':
            t = self.truth(c[1])
            return None if t is None else not t
        a = self.truth(c[1])
        if k == 'and':
            if a is False:
                return False
            b = self.truth(c[2])
            if b is False:
                return False
            return True if (a and b) else None
        if k == 'or':
            if a is True:
                return True
            b = self.truth(c[2])
            if b is True:
                return True
            return False if (a is False and b is False) else None
        return None

    def inexact_cond(self, c):
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            return any(not self.S.t[s].exact for s in self.st.facts.norm(c[1]).syms() if s in self.S.t)
        if k == 'at':
            return not c[2]
        return False

    def decide(self, c):
        k = c[0]
        if k == 'not':
            return not self.decide(c[1])
        if k == 'and':
            t = self.truth(c)
            if t is not None:
                return t
            return self.decide(c[1]) and self.decide(c[2])
        if k == 'or':
            t = self.truth(c)
            if t is not None:
                return t
            return self.decide(c[1]) or self.decide(c[2])
        t = self.truth(c)
        if t is not None:
            return t
        if self.inexact_cond(c):
            self.st.inex = True
        if self.capt is not None:
            self.capt.append((c[0], self.st.facts.norm(c[1])) if c[0] in ('eq', 'ne', 'ge') else c)
        ch = self.choose(2)
        v = ch.idx == 0
        self.assume(c, v)
        return v

    def assume(self, c, v):
        """assume leaf/compound condition c has value v in the current state (may raise Infeasible)"""
        k = c[0]
        F = self.st.facts
        if k == 't':
            if not v:
                raise Infeasible()
            return
        if k == 'f':
            if v:
                raise Infeasible()
            return
        if k == 'not':
            return self.assume(c[1], not v)
        if k == 'at':
            o = F.atoms.get(c[1])
            if o is None:
                F.atoms[c[1]] = v
                if self.pick and c[1] in self.atomkey and not self.order_ok(F):
                    raise Infeasible()
            elif o != v:
                raise Infeasible()
            return
        if k == 'ge':
            F.add_ge(c[1] if v else c[1].neg().addc(-1))
            return
        if k in ('eq', 'ne'):
            if (k == 'eq') == v:
                F.add_eq(c[1])
            else:
                F.add_ne(c[1])
            return
        if k == 'and':
            if v:
                self.assume(c[1], True)
                self.assume(c[2], True)
            else:
                if self.decide(c):
                    raise Infeasible()
            return
        if k == 'or':
            if not v:
                self.assume(c[1], False)
                self.assume(c[2], False)
            else:
                if not self.decide(c):
                    raise Infeasible()
            return

    def order_ok(self, F):
        """are the known comparisons of real values consistent with a total order (invalid numbers compare to nothing)?"""
        ak = self.atomkey
        pos, neg, valid = [], [], set()
        for i, v in F.atoms.items():
            k = ak.get(i)
            if k is None:
                continue
            if k[0] == 'isnan':
                if not v:
                    valid.add(k[1])
            elif k[0] == 'isfinite':
                if v:
                    valid.add(k[1])
            elif v:
                pos.append(k)
                valid.add(k[1])
                valid.add(k[2])
            else:
                neg.append(k)
        for i, v in F.atoms.items():
            k = ak.get(i)
            if k is not None and k[0] == 'isnan' and v and k[1] in valid:
                return False
        le, lt, ne = {}, set(), []
        keys = set()

        def isc(k):
            return isinstance(k, tuple) and k and k[0] == 'flt' and len(k) == 2 and isinstance(k[1], (int, float)) and k[1] == k[1]

        def add(a, b, strict):
            le.setdefault(a, set()).add(b)
            le.setdefault(b, set())
            if strict:
                lt.add((a, b))
        for k in pos + neg:
            for x in (k[1], k[2]):
                if isc(x):
                    keys.add(x)
                    valid.add(x)
        for op, a, b in pos:
            add(a, b, op == '<')
            if op == '==':
                add(b, a, False)
        for op, a, b in neg:
            if a == b:
                if a in valid:
                    if op != '<':
                        return False
                continue
            if a in valid and b in valid:
                if op == '==':
                    ne.append((a, b))
                else:
                    add(b, a, op == '<=')
        ks = sorted(keys, key=lambda k: k[1])
        for x, y in zip(ks, ks[1:]):
            add(x, y, x[1] < y[1])
        if len(le) > 24:
            return True
        # strict step on a cycle, or disequality inside of one
        reach = {}
        for a in le:
            seen, work = {a}, [a]
            while work:
                for y in le[work.pop()]:
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            reach[a] = seen
        for a, b in lt:
            if a in reach[b]:
                return False
        for a, b in ne:
            if a in reach and b in reach and a in reach[b] and b in reach[a]:
                return False
        return True

    # ------------------------------------------------------------------ obligations
    def ob(self, kindname, conds, e, fr, msg, what=None):
        """obligation: every Poly in conds must be >= 0"""
        F = self.st.facts
        if self.quiet:
            ok = all(F.entails(p) for p in conds)
            for p in conds:
                F.add_ge(p)
            return ok
        f2, line = fr.file, e.get('l', 0)
        key = (f2, line, kindname)
        o = self.obls.get(key)
        if o is None:
            o = Obl()
            o.kind, o.file, o.line, o.status, o.msg, o.root, o.n, o.fn, o.model, o.path = kindname, f2, line, 'proven', '', self.root, 0, fr.name, None, ''
            self.obls[key] = o
        o.n += 1
        ok = True
        for p in conds:
            if not F.entails(p):
                ok = False
                if o.status != 'refuted':
                    neg = F.norm(p.neg().addc(-1))
                    model = None
                    if not self.st.inex:
                        model = F.exact_model([neg])
                    if model is not None and self.obfilter and not self.obfilter(self.st, neg):
                        model = None
                    if model is not None:
                        o.status = 'refuted'
                        o.model = self.showmodel(model)
                        o.msg = '%s: needs %s >= 0' % (msg, F.norm(p).show(self.S))
                        o.path = self.callpath(fr)
                    elif o.status == 'proven':
                        o.status = 'unknown'
                        o.msg = '%s: cannot show %s >= 0' % (msg, F.norm(p).show(self.S))
                        o.path = self.callpath(fr)
        for p in conds:
            F.add_ge(p)
        return ok

    def callpath(self, fr):
        out = []
        f = fr
        while f is not None:
            out.append('%s (%s:%s)' % (f.name, f.file.replace('/repo/', ''), f.callline or (f.fun.l if f.fun else 0)))
            f = f.up
        return ' <- '.join(out[:8])

    def showmodel(self, m):
        # resolve eliminated symbols as well
        F = self.st.facts
        out = []
        for s, v in sorted(m.items()):
            y = self.S.t.get(s)
            if y is not None:
                out.append('%s=%s' % (y.name, v if abs(v) < (1 << 62) else hex(v)))
        for s, p in F.sub.items():
            q = F.norm(p)
            y = self.S.t.get(s)
            if y is not None and not y.name.startswith('k#') and all(x in m for x in q.syms()):
                v = q.evalm(m)
                out.append('%s=%s' % (y.name, v if abs(v) < (1 << 62) else hex(v)))
        return ', '.join(out[:14])

    # ------------------------------------------------------------------ memory
    def load(self, loc, t, fr=None, e=None):
        """load scalar value from loc"""
        if loc[0] == 'o':
            v = self.st.get(loc[1])
            if v is None:
                v = self.mkval(t, 'uninit', False, 3, self.st)
                if isinstance(v, tuple):
                    return v
                self.st.delta[loc[1]] = v
            if isinstance(v, (Vec, Str, Arr, Rec)):
                return loc
            return v
        if loc[0] == 'e':
            o = self.st.get(loc[1])
            if isinstance(o, Arr):
                i = self.st.facts.norm(loc[2])
                if i.isconst() and 0 <= i.cval() < len(o.vals):
                    return o.vals[i.cval()]
                return self.fresh_of(o.et, 'arr[?]', False) if kind(o.et)[0] in ('int', 'bool', 'flt') else self.mkval(o.et, 'arr[?]', False, 3, self.st)
            if isinstance(o, Vec):
                if o.known is not None:
                    i = self.small_index(loc[2], len(o.known))
                    if i.isconst() and 0 <= i.cval() < len(o.known):
                        v = o.known[i.cval()]
                        return ('o', self.newobj(v)) if isinstance(v, Str) else v
                return self.elem(loc[1], o, loc[2], t)
            if isinstance(o, Str):
                if o.key[0] in ('ch', 'lit') and self.hooks.get('expect'):
                    cs = summ.strs.chars(self, o) + [ZERO]
                    i = self.small_index(loc[2], len(cs))
                    if i.isconst() and 0 <= i.cval() < len(cs):
                        return cs[i.cval()]
                return self.memo_val(('sc', o.key, self.st.facts.norm(loc[2])), 'char', 'char')
        return self.mkval(t, 'mem', False, 3, self.st)

    def small_index(self, idx, n):
        """in a partition of small sizes: one case per value of an index that is known to be in bounds"""
        F = self.st.facts
        i = F.norm(idx)
        if i.isconst() or not self.pick or n > 6 or not F.entails(i) or not F.entails(i.neg().addc(n - 1)):
            return i
        for k in range(n - 1):
            if self.decide(('eq', i.addc(-k))):
                return Poly.const(k)
        return self.st.facts.norm(i) if not self.st.facts.entails(i.addc(1 - n)) else Poly.const(n - 1)

    def elem(self, oid, o, idx, t):
        ek = kind(o.et)
        idx = self.st.facts.norm(idx)
        key = ('el', oid, o.ver, idx)
        if ek[0] in ('int', 'bool', 'flt', 'ptr'):
            v = self.st.tags.get(key)
            if v is not None:
                return v
            exact = o.origin == 'in'
            if ek[0] == 'ptr':
                v = PtrV(('ve', oid, idx, ek[1]))      # valid element pointer of a view
            elif ek[0] == 'flt':
                v = Op(key, exact)
            elif ek[0] == 'bool':
                v = B(('at', self.newatom('elem', exact), exact))
            else:
                v = self.fresh_of(o.et, 'elem', exact)
                if isinstance(o.eb, tuple):
                    if o.eb[0] is not None:
                        self.st.facts.add_ge(v.sub(o.eb[0]))
                    if o.eb[1] is not None:
                        self.st.facts.add_ge(o.eb[1].sub(v))
                    if not exact:
                        pass
            self.st.tags[key] = v
            return v
        v = self.st.tags.get(key)
        if v is None:
            v = self.mk(o.et, 'elem', o.origin == 'in', 2, self.st)
            self.st.tags[key] = v
        return v

    def memo_val(self, key, t, name, exact=True):
        v = self.st.tags.get(key)
        if v is None:
            v = self.fresh_of(t, name, exact)
            self.st.tags[key] = v
        return v

    def store(self, loc, v):
        if loc[0] == 'o':
            cur = self.st.get(loc[1])
            if isinstance(v, tuple) and v and v[0] in ('o', 'e', 'u'):
                self.assign_obj(loc, v)
                return
            if isinstance(cur, (Vec, Str, Arr, Rec)):
                self.havoc_loc(loc)
                return
            self.st.put(loc[1], v)
        elif loc[0] == 'e':
            o = self.st.get(loc[1])
            if isinstance(o, Arr):
                i = self.st.facts.norm(loc[2])
                if i.isconst() and 0 <= i.cval() < len(o.vals):
                    vals = list(o.vals)
                    vals[i.cval()] = v
                    self.st.put(loc[1], Arr(tuple(vals), o.et))
                else:
                    self.havoc_loc(('o', loc[1]))
            elif isinstance(o, Vec):
                self.vec_store(loc[1], o, loc[2], v)
            elif isinstance(o, Str):
                if o.key[0] in ('ch', 'lit') and self.hooks.get('expect') and isinstance(v, Poly):
                    cs = summ.strs.chars(self, o)
                    i = self.small_index(loc[2], len(cs))
                    if i.isconst() and 0 <= i.cval() < len(cs):
                        cs[i.cval()] = v
                        self.st.put(loc[1], summ.strs.mk(cs))
                        return
                self.st.put(loc[1], Str(o.len, ('s', self.nsym())))
        elif loc[0] == 've':
            pass

    def sval(self, v):
        """strings held by containers are values (laws)"""
        if isinstance(v, tuple) and v and v[0] == 'o' and self.hooks.get('expect'):
            x = self.st.get(v[1])
            if isinstance(x, Str):
                return x
        return v

    def vec_store(self, oid, o, idx, v):
        eb = o.eb
        v = self.sval(v)
        known = o.known
        if isinstance(v, Poly):
            eb = self.widen_eb(o, v, full=False)
        elif isinstance(v, Op) or isinstance(v, B):
            eb = None if kind(o.et)[0] == 'int' else eb
        if known is not None:
            i = self.small_index(idx, len(known))
            if i.isconst() and 0 <= i.cval() < len(known):
                k2 = list(known)
                k2[i.cval()] = v
                known = tuple(k2)
            else:
                known = None
        n = o.w(ver=self.nsym(), eb=eb, origin=None if not isinstance(v, Op) or kind(o.et)[0] != 'flt' else o.origin, known=known)
        self.st.put(oid, n)
        if isinstance(v, (Poly, B, Op, PtrV)):
            self.st.tags[('el', oid, n.ver, self.st.facts.norm(idx))] = v

    def widen_eb(self, o, v, full):
        """element bounds after storing v"""
        F = self.st.facts
        if o.eb == 'bot':
            return (v, v)
        if o.eb is None:
            return None
        lo, hi = o.eb
        if lo is not None and not F.entails(v.sub(lo)):
            if F.entails(lo.sub(v)):
                lo = v
            else:
                lo = ZERO if (F.entails(v) and F.entails(lo)) else None
        if hi is not None and not F.entails(hi.sub(v)):
            if F.entails(v.sub(hi)):
                hi = v
            else:
                # a common upper bound among facts
                c = self.common_upper([hi, v])
                hi = c
        if lo is None and hi is None:
            return None
        return (lo, hi)

    def upper_cands(self, F, v, allowed=None):
        v = F.norm(v)
        out = []
        for f in F.ge:
            q = f.add(v)
            # f >= 0 <=> q >= v ; useful if q does not contain v's symbols
            if all(k in f.m and f.m[k] == -c for k, c in v.m.items() if k):
                if allowed is None or all(allowed(s) for s in q.syms()):
                    out.append(q)
        return out

    def common_upper(self, vs):
        F = self.st.facts
        for c in self.upper_cands(F, vs[0]) + self.upper_cands(F, vs[-1]):
            if all(F.entails(c.sub(v)) for v in vs):
                return c
        return None

    def deepcopy(self, oid, mp=None, st=None):
        st = st or self.st
        if mp is None:
            mp = {}
        if oid in mp:
            return mp[oid]
        v = st.get(oid)
        if isinstance(v, Rec):
            n = self.newobj(None, st)
            mp[oid] = n
            f = {}
            for k, l in v.f.items():
                if self.is_ref_field(v.t, k):
                    f[k] = l
                else:
                    f[k] = ('o', self.deepcopy(l[1], mp, st)) if l[0] == 'o' else l
            for k, l in list(f.items()):
                if l[0] == 'o' and l[1] in mp:
                    f[k] = ('o', mp[l[1]])
            st.delta[n] = Rec(v.t, f)
            if v.t.startswith('vif::vec<') and 'safe' in f:
                # every vec owns its proxy
                sp = st.get(f['safe'][1])
                if isinstance(sp, Rec):
                    st.delta[f['safe'][1]] = Rec(sp.t, {'parent': ('o', n)})
            return n
        if isinstance(v, Arr):
            vals = []
            for x in v.vals:
                if isinstance(x, tuple) and x and x[0] == 'o':
                    vals.append(('o', self.deepcopy(x[1], mp, st)))
                else:
                    vals.append(x)
            n = self.newobj(Arr(tuple(vals), v.et), st)
        else:
            n = self.newobj(v, st)
        mp[oid] = n
        return n

    def is_ref_field(self, t, name):
        r = self.P.recs.get(t)
        if r is None:
            return name == 'parent'
        for fd in r['fields']:
            if fd['n'] == name:
                return isref(self.P.T[fd['t']])
        for b in r.get('bases', []):
            if self.is_ref_field(base(self.P.T[b]), name):
                return True
        return False

    def assign_obj(self, dst, src):
        """memberwise assignment of object contents"""
        if dst[0] != 'o':
            if dst[0] == 'e':
                o = self.st.get(dst[1])
                if isinstance(o, Vec):
                    v = self.sval(self.obj_of(src, None, None)) if self.hooks.get('expect') else None
                    if isinstance(v, Str):
                        self.vec_store(dst[1], o, dst[2], v)
                        return
                    self.st.put(dst[1], o.w(ver=self.nsym(), known=None))
                elif isinstance(o, Arr):
                    i = self.st.facts.norm(dst[2])
                    if i.isconst() and 0 <= i.cval() < len(o.vals):
                        cell = o.vals[i.cval()]
                        if isinstance(cell, tuple) and cell[0] == 'o':
                            self.assign_obj(cell, src)
            return
        if src[0] != 'o':
            if src[0] == 'e':
                o = self.st.get(src[1])
                if isinstance(o, (Vec, Arr)):
                    v = self.load(src, o.et)
                    if isinstance(v, tuple) and v and v[0] == 'o':
                        return self.assign_obj(dst, v)
                    if not isinstance(v, tuple):
                        return self.store(dst, v)
            self.havoc_loc(dst)
            return
        if dst[1] == src[1]:
            return
        a, b = self.st.get(dst[1]), self.st.get(src[1])
        if isinstance(a, Rec) and isinstance(b, Rec):
            for k, l in a.f.items():
                if k in b.f and not self.is_ref_field(a.t, k):
                    if k == 'safe' and a.t.startswith('vif::vec<'):
                        continue
                    self.assign_obj(l, b.f[k])
        elif isinstance(a, Rec):
            self.havoc_loc(dst)
        elif isinstance(b, Rec):
            n = self.deepcopy(src[1])
            self.st.put(dst[1], self.st.get(n))
        elif isinstance(b, Arr):
            n = self.deepcopy(src[1])
            self.st.put(dst[1], self.st.get(n))
        elif b is None:
            self.havoc_loc(dst)
        else:
            if isinstance(b, Vec) and isinstance(a, Vec):
                b = b.w(et=a.et) if False else b
            self.st.put(dst[1], b)

    def havoc_loc(self, loc, seen=None, contents_only=False):
        if loc[0] == 'e':
            o = self.st.get(loc[1])
            if isinstance(o, Vec):
                self.st.put(loc[1], o.w(ver=self.nsym(), eb=None, origin=None, known=None))
            elif isinstance(o, Arr):
                i = self.st.facts.norm(loc[2])
                if i.isconst() and 0 <= i.cval() < len(o.vals):
                    self.store(loc, self.mkval(o.et, 'hav', False, 3, self.st))
                else:
                    self.havoc_loc(('o', loc[1]), seen)
            return
        if loc[0] != 'o':
            return
        if seen is None:
            seen = set()
        if loc[1] in seen:
            return
        seen.add(loc[1])
        v = self.st.get(loc[1])
        if isinstance(v, Rec):
            for k, l in v.f.items():
                if v.t.startswith('vif::vec<') and k == 'safe':
                    continue
                self.havoc_loc(l, seen, contents_only)
            vi = vecinfo(v.t)
            if vi and not contents_only and 'dims' in v.f and 'data' in v.f:
                # keep the class invariant for unknown modifications
                d = self.st.get(v.f['dims'][1])
                da = self.st.get(v.f['data'][1])
                if isinstance(d, Arr) and isinstance(da, Vec):
                    prod = ONE
                    for x in d.vals:
                        prod = prod.mul(x) if isinstance(x, Poly) else prod
                    self.st.put(v.f['data'][1], da.w(size=prod))
        elif isinstance(v, Vec):
            if contents_only:
                self.st.put(loc[1], v.w(ver=self.nsym(), eb=None, origin=None, known=None))
            else:
                self.st.put(loc[1], Vec(self.fresh('hav.size', 0, BIG, False), v.et, self.nsym()))
        elif isinstance(v, Str):
            self.st.put(loc[1], Str(self.fresh('hav.len', 0, BIG, False), ('s', self.nsym())))
        elif isinstance(v, Arr):
            if v.et == 'unsigned long':
                vals = tuple(self.fresh('hav.dim', 0, 1 << 20, False) for x in v.vals)
                self.st.put(loc[1], Arr(vals, v.et))
            else:
                vals = []
                for x in v.vals:
                    if isinstance(x, tuple) and x and x[0] == 'o':
                        self.havoc_loc(x, seen)
                        vals.append(x)
                    else:
                        vals.append(self.mkval(v.et, 'hav', False, 3, self.st))
                self.st.put(loc[1], Arr(tuple(vals), v.et))
        elif isinstance(v, Poly):
            lo, hi = self.polyrange(v)
            self.st.put(loc[1], self.fresh('hav', lo, hi, False))
        elif isinstance(v, B):
            self.st.put(loc[1], B(('at', self.newatom('hav', False), False)))
        elif isinstance(v, PtrV):
            self.st.put(loc[1], PtrV(('u', '?', self.nsym())))
        elif isinstance(v, Clo):
            pass
        else:
            self.st.put(loc[1], Op(('hav', self.nsym()), False))

    def polyrange(self, v):
        return (None, None)

    # ------------------------------------------------------------------ expressions
    def tick(self):
        self.steps += 1
        if self.steps > self.budget or (self.steps & 255) == 0 and time.time() > self.tend:
            raise Budget()

    def is_scalar_t(self, t):
        return kind(t)[0] in ('int', 'bool', 'flt', 'ptr', 'fptr', 'iter', 'void')

    def ev(self, e, fr):
        """rvalue. scalars -> Value; class types -> Loc"""
        self.tick()
        if e is None:
            return None
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.e_other(e, fr)
        return m(e, fr)

    def val(self, e, fr):
        v = self.ev(e, fr)
        if isinstance(v, tuple) and v and v[0] in ('o', 'e', 'u', 've'):
            return self.load(v, fr.T[e['t']], fr, e)
        return v

    def ival(self, e, fr):
        return self.as_int(self.val(e, fr), fr.T[e['t']])

    def as_int(self, v, t='long'):
        if isinstance(v, Poly):
            return v
        if isinstance(v, B):
            tv = self.truth(v.c)
            if tv is not None:
                return ONE if tv else ZERO
            return self.memo_val(('b2i', v.c), 'unsigned char', 'b2i') if False else (ONE if self.decide(v.c) else ZERO)
        if isinstance(v, Op):
            key = ('opint', v.key)
            r = self.st.tags.get(key)
            if r is None:
                k = kind(t)
                if k[0] == 'int':
                    r = self.fresh_of(t, 'opq', False)
                else:
                    r = self.fresh('opq', None, None, False)
                self.st.tags[key] = r
            return r
        return self.fresh('int?', None, None, False)

    def cnd(self, e, fr):
        """condition tuple of a boolean expression"""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            if self.pure(e['y']):
                a = self.cnd(e['x'], fr)
                ta = self.truth(a)
                if e['op'] == '&&':
                    if ta is False:
                        return FALSE
                    b = self.cnd(e['y'], fr)
                    return b if ta else ('and', a, b)
                if ta is True:
                    return TRUE
                b = self.cnd(e['y'], fr)
                return b if ta is False else ('or', a, b)
            a = self.decide(self.cnd(e['x'], fr))
            if e['op'] == '&&':
                return self.cnd(e['y'], fr) if a else FALSE
            return TRUE if a else self.cnd(e['y'], fr)
        if k == 'un' and e['op'] == '!':
            c = self.cnd(e['e'], fr)
            return FALSE if c == TRUE else TRUE if c == FALSE else ('not', c)
        v = self.val(e, fr)
        return self.as_cond(v)

    def as_cond(self, v):
        if isinstance(v, B):
            return v.c
        if isinstance(v, Poly):
            if v.isconst():
                return TRUE if v.cval() else FALSE
            return ('ne', v)
        if isinstance(v, PtrV):
            if v.loc[0] == 'null':
                return FALSE
            if v.loc[0] in ('u',):
                return self.atom(('ptr', v.loc), 'ptr!=0', True)
            return TRUE
        if isinstance(v, Op):
            return self.atom(('true', v.key), 'opaque', v.exact)
        if isinstance(v, (Clo, FnV)):
            return TRUE
        return ('at', self.newatom('?', False), False)

    def atom(self, key, name, exact=True):
        a = self.st.tags.get(('atom', key))
        if a is None:
            a = ('at', self.newatom(name, exact), exact)
            self.st.tags[('atom', key)] = a
            if isinstance(key, tuple) and key and key[0] in ('<', '<=', '==', 'isnan', 'isfinite'):
                self.atomkey[a[1]] = key
        return a

    def pure(self, e):
        k = e.get('k')
        if k in ('ref', 'int', 'bool', 'flt', 'str', 'null', 'this', 'zero'):
            return True
        if k == 'mem':
            return self.pure(e['b'])
        if k == 'bin':
            if e['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
                return False
            return self.pure(e['x']) and self.pure(e['y']) and e['op'] not in ('/', '%', '&&', '||')
        if k == 'un':
            return e['op'] in ('!', '-', '+') and self.pure(e['e'])
        if k == 'cast':
            return self.pure(e['e'])
        if k == 'call':
            n = sn(e.get('fn', ''))
            if n in PURE_CALLS or n in ('std::vector::size', 'std::vector::empty', 'vif::vec::size', 'vif::vec::empty', 'std::basic_string::size', 'std::basic_string::empty'):
                return all(self.pure(a) for a in e['a']) and ('obj' not in e or self.pure(e['obj']))
        return False

    # ---- leaves
    def e_int(self, e, fr):
        return Poly.const(int(e['v']))

    def e_bool(self, e, fr):
        return B(TRUE if e['v'] not in ('0', 'false') else FALSE)

    def e_flt(self, e, fr):
        return Op(('flt', e['v']))

    def e_str(self, e, fr):
        n = len(e['v'].encode('utf8', 'replace'))
        vals = Vec(Poly.const(n + 1), 'char', origin=None, eb=None)
        return ('o', self.newobj(Str(Poly.const(n), ('lit', e['v']))))

    def e_null(self, e, fr):
        return NULLP

    def e_zero(self, e, fr):
        t = fr.T[e['t']]
        return self.mkval(t, 'zero', True, 0, self.st, zero=True)

    def e_this(self, e, fr):
        return PtrV(fr.this) if fr.this is not None else PtrV(('u', 'this', self.nsym()))

    def e_ref(self, e, fr):
        return self.lv_ref(e, fr)

    def lv_ref(self, e, fr):
        env = self.st.env.get(fr.fid, {})
        l = env.get(e['id'])
        if l is None and fr.caps is not None:
            l = fr.caps.get(e['id'])
        if l is None:
            g = e.get('g')
            key = ('g', g) if g else ('v', fr.fid, e['id'])
            l = self.st.tags.get(key)
            if l is None:
                l = self.mkglobal(g, e, fr)
                self.st.tags[key] = l
        return l

    def mkglobal(self, g, e, fr):
        t = ir.noref(fr.T[e['t']])
        if g and g.startswith('std::basic_string') and g.endswith('::npos'):
            return ('o', self.newobj(Poly.const(W64 - 1)))
        if g and g in self.P.gvars:
            gv = self.P.gvars[g]
            if gv.get('init') is not None and (gv.get('const') or gv.get('cx')):
                try:
                    v = self.val(gv['init'], Frame(0, self.P, None, None, 0, g, gv['file'], None))
                    if isinstance(v, tuple):
                        return v
                    return ('o', self.newobj(v))
                except Exception as ex:
                    if isinstance(ex, (Infeasible, Budget)):
                        raise
        return self.mk(t, g or e.get('n', 'var'), False, 2, self.st)

    def e_mem(self, e, fr):
        return self.lv_mem(e, fr)

    def lv_mem(self, e, fr):
        b = self.ev(e['b'], fr)
        l = self.obj_of(b, e['b'], fr)
        return self.field(l, e['f'], fr.T[e['t']])

    def obj_of(self, v, e, fr):
        """Loc of the object designated by value v (Loc or pointer)"""
        for _ in range(4):
            if isinstance(v, PtrV):
                l = v.loc
                if l[0] in ('o',):
                    cur = self.st.get(l[1])
                    if isinstance(cur, PtrV):
                        v = cur
                        continue
                return l
            if isinstance(v, tuple) and v:
                if v[0] == 'o':
                    cur = self.st.get(v[1])
                    if isinstance(cur, PtrV):
                        v = cur
                        continue
                    return v
                if v[0] == 'e':
                    o = self.st.get(v[1])
                    x = self.load(v, o.et if isinstance(o, (Vec, Arr)) else '?')
                    if isinstance(x, tuple) and x and x[0] == 'o':
                        return x
                    if isinstance(x, PtrV):
                        v = x
                        continue
                    return v
                return v
            return ('u', '?', self.nsym())
        return ('u', '?', self.nsym())

    def field(self, l, name, t):
        if l[0] == 'o':
            o = self.st.get(l[1])
            if isinstance(o, Rec):
                f = o.f.get(name)
                if f is not None:
                    return f
                n = self.mk(ir.noref(t), name, False, 2, self.st)
                f2 = dict(o.f)
                f2[name] = n
                self.st.delta[l[1]] = Rec(o.t, f2)
                return n
            if o is None or isinstance(o, Op):
                f2 = {name: self.mk(ir.noref(t), name, False, 2, self.st)}
                self.st.delta[l[1]] = Rec('?', f2)
                return f2[name]
        if l[0] == 'e':
            x = self.obj_of(l, None, None)
            if x[0] == 'o':
                return self.field(x, name, t)
        key = ('uf', l, name)
        n = self.st.tags.get(key)
        if n is None:
            n = self.mk(ir.noref(t), name, False, 3, self.st)
            self.st.tags[key] = n
        return n

    def e_sub(self, e, fr):
        b = self.ev(e['b'], fr)
        i = self.ival(e['i'], fr)
        if isinstance(b, tuple) and b and b[0] == 'o':
            o = self.st.get(b[1])
            if isinstance(o, PtrV):
                b = o
        if isinstance(b, PtrV):
            return self.ptr_add_deref(b, i, e, fr)
        if isinstance(b, tuple) and b and b[0] == 'o':
            o = self.st.get(b[1])
            if isinstance(o, Arr):
                self.ob('array index', [i, Poly.const(len(o.vals) - 1).sub(i)], e, fr, 'array index out of bounds')
                return ('e', b[1], i)
            if isinstance(o, Vec):
                self.ob('array index', [i, o.size.addc(-1).sub(i)], e, fr, 'array index out of bounds')
                return ('e', b[1], i)
            if isinstance(o, Str):
                return ('e', b[1], i)
        return ('u', fr.T[e['t']], self.nsym())

    def ptr_add_deref(self, p, i, e, fr):
        l = p.loc
        if l[0] == 'e':
            n = l[2].add(i)
            self.check_elem(l[1], n, e, fr, 'pointer access')
            return ('e', l[1], n)
        if l[0] == 'o':
            return l
        return ('u', '?', self.nsym())

    def check_elem(self, oid, idx, e, fr, what):
        o = self.st.get(oid)
        if isinstance(o, Vec):
            self.ob(what, [idx, o.size.addc(-1).sub(idx)], e, fr, '%s outside of the storage' % what)
        elif isinstance(o, Arr):
            self.ob(what, [idx, Poly.const(len(o.vals) - 1).sub(idx)], e, fr, '%s outside of the array' % what)
        elif isinstance(o, Str):
            self.ob(what, [idx, o.len.sub(idx)], e, fr, '%s outside of the string' % what)

    # ---- casts
    def e_cast(self, e, fr):
        ck = e['ck']
        t = fr.T[e['t']]
        if ck in ('NoOp', 'BitCast', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueToRValue', 'Dynamic', 'ArrayToPointerDecay'):
            return self.ev(e['e'], fr)
        if ck == 'ToVoid':
            self.ev(e['e'], fr)
            return None
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return B(self.as_cond(self.val(e['e'], fr)))
        v = self.val(e['e'], fr)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.intcast(v, t, fr.T[e['e']['t']])
        if ck == 'IntegralToFloating':
            if isinstance(v, Poly):
                v = self.st.facts.norm(v)
                if v.isconst():
                    return Op(('flt', float(v.cval())))
                return Op(('i2f', v), bool(self.pick))
            if self.hooks.get('expect') and isinstance(v, B):
                t = self.truth(v.c)
                if t is not None:
                    return Op(('flt', 1.0 if t else 0.0), True)
            return Op(('i2f', getattr(v, 'key', None) or getattr(v, 'c', None)), True)
        if ck == 'FloatingToIntegral':
            key = v.key if isinstance(v, Op) else self.nsym()
            if isinstance(key, tuple) and key[0] == 'flt' and isinstance(key[1], (int, float)) and abs(key[1]) < 2**62:
                return Poly.const(int(key[1]))
            if isinstance(key, tuple) and key[0] == 'i2f':
                return key[1] if isinstance(key[1], Poly) else self.memo_val(('f2i', key, t), t, 'f2i', False)
            if self.pick and isinstance(v, Op) and v.exact and isinstance(key, tuple):
                r = self.memo_val(('f2i', key, t), t, 'f2i', True)
                if isinstance(r, Poly):
                    self.symdef[min(r.syms())] = ('f2i', key)
                return r
            return self.memo_val(('f2i', key, t), t, 'f2i', False)
        if ck == 'FloatingCast':
            return v
        if ck in ('NullToPointer',):
            return NULLP
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return self.fresh_of(t, 'pi', False)
        return v

    def intcast(self, v, t, src):
        k = kind(t)
        if isinstance(v, (B, Op)):
            if isinstance(v, B):
                return self.as_int(v)
            v = self.as_int(v, src)
        if not isinstance(v, Poly):
            return self.fresh_of(t, 'cast', False) if k[0] == 'int' else v
        if k[0] != 'int':
            return v
        if not k[1]:   # to unsigned
            F = self.st.facts
            ks = kind(src)
            if ks[0] == 'int' and not ks[1]:
                return v
            if F.entails(v):
                return v
            if self.decide(('ge', v)):
                return v
            return v.addc(1 << max(k[2], 32) if k[2] < 64 else W64)
        else:
            # to signed: values above the signed maximum wrap
            F = self.st.facts
            if k[2] == 64:
                half = 1 << 63
                n = F.norm(v)
                lo, hi = F.bounds1(n)
                if lo is not None and lo >= half:
                    return v.addc(-W64)
                if n.isconst() and n.cval() >= half:
                    return v.addc(-W64)
                if len(n.m) <= 2 and n.cval() >= half:
                    # wrapped difference (a - b + 2^64)
                    return v.addc(-W64)
            return v

    # ---- operators
    def arith(self, op, a, b, t, e, fr):
        k = kind(t)
        if op == '+':
            r = a.add(b)
            if k[0] == 'int' and not k[1]:
                c = r.cval()
                if abs(c) >= (1 << 62):
                    # wrapped operand: fold modulo 2^64 when the result is small
                    r2 = r.addc(-W64)
                    if self.st.facts.entails(r2):
                        return r2
            return r
        if op == '-':
            r = a.sub(b)
            if k[0] == 'int' and not k[1]:
                n = self.st.facts.norm(r)
                if n.cval() >= (1 << 62) and self.st.facts.entails(n.addc(-W64)):
                    return n.addc(-W64)
                if self.st.facts.entails(r):
                    return r
                if self.decide(('ge', r)):
                    return r
                return r.addc(W64)
            return r
        if op == '*':
            if k[0] == 'int' and not k[1]:
                an, bn = self.st.facts.norm(a), self.st.facts.norm(b)
                for x, y in ((an, b), (bn, a)):
                    if x.isconst() and x.cval() >= (1 << 63):
                        # factor is a wrapped negative number: arithmetic modulo 2^64
                        r = y.mulc(x.cval() - W64)
                        return r if self.decide(('ge', r)) else r.addc(W64)
            return a.mul(b)
        if op in ('/', '%'):
            F = self.st.facts
            an, bn = F.norm(a), F.norm(b)
            # division by zero
            if not bn.isconst():
                z = F.truth(('eq', bn))
                if z is not False:
                    if F.entails(bn):
                        self.ob('division by zero', [bn.addc(-1)], e, fr, 'integer division by zero')
                    else:
                        if not self.quiet:
                            pass
                        F.add_ne(bn)
            else:
                if bn.cval() == 0:
                    self.ob('division by zero', [bn.addc(-1)], e, fr, 'integer division by zero')
                    raise Infeasible()
            if bn.isconst() and bn.cval() == 1:
                return an if op == '/' else ZERO
            if an.isconst() and bn.isconst():
                q = abs(an.cval()) // abs(bn.cval())
                if (an.cval() < 0) != (bn.cval() < 0):
                    q = -q
                return Poly.const(q if op == '/' else an.cval() - q * bn.cval())
            if an == bn:
                return ONE if op == '/' else ZERO
            if an == bn.neg():
                return ONE.neg() if op == '/' else ZERO
            # exact monomial division
            if len(bn.m) == 1:
                (bk, bc), = bn.m.items()
                qq = {}
                okd = True
                for kk, cc in an.m.items():
                    rest = list(kk)
                    good = True
                    for s in bk:
                        if s in rest:
                            rest.remove(s)
                        else:
                            good = False
                    if not good or cc % bc:
                        okd = False
                        break
                    qq[tuple(rest)] = cc // bc
                if okd:
                    return Poly(qq) if op == '/' else ZERO
            nonneg = F.entails(an) and F.entails(bn)
            ex = all(self.S.t[s].exact for s in an.syms() | bn.syms() if s in self.S.t)
            key = ('div', an, bn)
            q = self.st.tags.get(key)
            if q is None:
                if nonneg:
                    q = self.fresh('(%s/%s)' % (an.show(self.S), bn.show(self.S)), 0, None, ex)
                    self.st.tags[key] = q
                    if self.pick:
                        self.symdef[min(q.syms())] = ('div', an, bn)
                        self.deffacts |= {an.sub(bn.mul(q)), bn.mul(q).add(bn).addc(-1).sub(an), an.sub(q)}
                    F.add_ge(an.sub(bn.mul(q)))
                    F.add_ge(bn.mul(q).add(bn).addc(-1).sub(an))
                    if F.entails(bn.addc(-1)):
                        F.add_ge(an.sub(q))
                else:
                    q = self.fresh('div', None, None, False)
                    self.st.tags[key] = q
            if op == '/':
                return q
            if nonneg:
                # remainder as its own symbol keeps 0 <= r < b linear
                rk = ('mod', an, bn)
                r = self.st.tags.get(rk)
                if r is None:
                    r = self.fresh('(%s%%%s)' % (an.show(self.S), bn.show(self.S)), 0, None, ex)
                    self.st.tags[rk] = r
                    if self.pick:
                        self.symdef[min(r.syms())] = ('mod', an, bn)
                        self.deffacts |= {bn.addc(-1).sub(r), an.sub(r)}
                    F.add_ge(bn.addc(-1).sub(r))
                    F.add_ge(an.sub(r))
                    F.add_eq(an.sub(bn.mul(q)).sub(r))
                return r
            r = self.fresh('mod', None, None, False)
            if bn.isconst():
                m = abs(bn.cval())
                F.add_ge(r.addc(m - 1))
                F.add_ge(r.neg().addc(m - 1))
            return r
        if op in ('&', '|', '^', '<<', '>>'):
            an, bn = self.st.facts.norm(a), self.st.facts.norm(b)
            if an.isconst() and bn.isconst() and an.cval() >= 0 and bn.cval() >= 0 and bn.cval() < 4096:
                x, y = an.cval(), bn.cval()
                return Poly.const({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << min(y, 64), '>>': x >> y}[op])
            return self.fresh('bits', 0 if op in ('&',) else None, None, False)
        return self.fresh('arith', None, None, False)

    def compare(self, op, a, b):
        """values -> cond"""
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptrcmp(op, a, b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a.sub(b)
            if op == '<':
                return ('ge', d.neg().addc(-1))
            if op == '<=':
                return ('ge', d.neg())
            if op == '>':
                return ('ge', d.addc(-1))
            if op == '>=':
                return ('ge', d)
            if op == '==':
                return ('eq', d)
            if op == '!=':
                return ('ne', d)
        if isinstance(a, B) and isinstance(b, B) and op in ('==', '!='):
            ta, tb = self.truth(a.c), self.truth(b.c)
            if tb is not None:
                c = a.c if tb else ('not', a.c)
            elif ta is not None:
                c = b.c if ta else ('not', b.c)
            else:
                c = ('or', ('and', a.c, b.c), ('and', ('not', a.c), ('not', b.c)))
            return c if op == '==' else ('not', c)
        if isinstance(a, B) and isinstance(b, Poly):
            a = self.as_int(a)
            return self.compare(op, a, b)
        if isinstance(b, B) and isinstance(a, Poly):
            return self.compare(op, a, self.as_int(b))
        if isinstance(a, Op) and isinstance(b, Poly):
            return self.compare(op, self.as_int(a), b)
        if isinstance(b, Op) and isinstance(a, Poly):
            return self.compare(op, a, self.as_int(b))
        if isinstance(a, Str) and isinstance(b, Str) and op in ('==', '!='):
            r = summ.strs.compare(self, op, a, b)
            if r is not None:
                return r.c
        ka = a.key if isinstance(a, Op) else getattr(a, 'c', None)
        kb = b.key if isinstance(b, Op) else getattr(b, 'c', None)
        if ka is None or kb is None:
            return ('at', self.newatom('cmp', False), False)
        if self.hooks.get('expect'):
            ka, kb = self.lawsimp(ka), self.lawsimp(kb)
            z = ('flt', 0.0)
            for x, y, o in ((ka, kb, op), (kb, ka, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if y == z and isinstance(x, tuple) and len(x) == 2 and x[0] in ('abs', 'fabs', 'std::abs', 'std::fabs'):
                    # |v| against zero
                    v, Z = Op(x[1]), Op(z)
                    if o == '<':
                        return FALSE
                    if o in ('<=', '=='):
                        return self.compare('==', v, Z)
                    if o == '!=':
                        return self.compare('!=', v, Z)
                    if o == '>':
                        return ('or', self.compare('<', v, Z), self.compare('>', v, Z))
                    return self.compare('==', v, v)
        ex = getattr(a, 'exact', True) and getattr(b, 'exact', True)
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == 'i2f' and kb[0] == 'i2f' and isinstance(ka[1], Poly) and isinstance(kb[1], Poly):
            return self.compare(op, ka[1], kb[1])
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == 'i2f' and isinstance(ka[1], Poly) and kb[0] == 'flt' and isinstance(kb[1], (int, float)) and kb[1] == int(kb[1]):
            return self.compare(op, ka[1], Poly.const(int(kb[1])))
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == 'flt' and kb[0] == 'flt' and ka[1] is not None and kb[1] is not None:
            r = {'<': ka[1] < kb[1], '<=': ka[1] <= kb[1], '>': ka[1] > kb[1], '>=': ka[1] >= kb[1], '==': ka[1] == kb[1], '!=': ka[1] != kb[1]}[op]
            return TRUE if r else FALSE
        if op in ('==', '!='):
            if repr(ka) > repr(kb):
                ka, kb = kb, ka
            c = self.atom(('==', ka, kb), 'a==b', ex)
            return c if op == '==' else ('not', c)
        if op == '>':
            return self.atom(('<', kb, ka), 'a<b', ex)
        if op == '>=':
            return self.atom(('<=', kb, ka), 'a<=b', ex)
        return self.atom((op, ka, kb), 'cmp', ex)

    def lawsimp(self, k):
        """a computed real that is, over finite inputs, one of the inputs or a constant"""
        if not (isinstance(k, tuple) and k):
            return k
        if len(k) == 2 and k[0] in ('abs', 'fabs', 'std::abs', 'std::fabs'):
            x = self.lawsimp(k[1])
            if x[0] == 'flt' and isinstance(x[1], (int, float)):
                return ('flt', abs(x[1]))
            if len(x) == 2 and x[0] in ('abs', 'neg'):
                x = x[1]
            return (k[0], x)
        if k[0] not in ('+', '-', '*', '/', 'neg'):
            return k
        x = self.lawfold(k)
        return x if x is not k or len(repr(k)) > 3000 else self.lawcanon(k)

    def lawcanon(self, k):
        """one representative for the ways to write the same expression of the same inputs"""
        memo = {}
        try:
            n, d = rat.lowest(rat.reduce(rat.norm(k, memo), memo))
        except (rat.TooBig, RecursionError, ZeroDivisionError):
            return k
        ls = set()

        def walk(x):
            if isinstance(x, tuple) and x and x[0] in ('+', '-', '*', '/', 'neg') or isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], str) and x[0] not in ('in', 'fresh', 'flt', 'i2f'):
                for y in x[1:]:
                    walk(y)
            elif not (isinstance(x, tuple) and x and x[0] == 'flt'):
                ls.add(repr(x))
        walk(k)
        c = (rat.canon(n), rat.canon(d), tuple(sorted(ls)))
        return self.canonrep.setdefault(c, k)

    def lawfold(self, k):
        leaves, divs = {}, []

        def walk(x):
            if isinstance(x, tuple) and x and x[0] in ('+', '-', '*', '/') and len(x) == 3:
                if x[0] == '/':
                    divs.append(x[2])
                return walk(x[1]) and walk(x[2])
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'neg':
                return walk(x[1])
            if isinstance(x, tuple) and len(x) == 2 and x[0] in ('flt', 'i2f'):
                return True
            leaves[repr(x)] = x
            return self.truth(self.atom(('isfinite', x), 'isnan', True)) is True
        if not walk(k):
            return k
        memo = {}
        try:
            for d in divs:
                if rat.norm(d, memo)[0] == {}:
                    return k
                if self.truth(self.compare('==', Op(d), Op(('flt', 0.0)))) is not False:
                    return k
            n, d = rat.norm(k, memo)
            if not n:
                return ('flt', 0.0)
            q = rat.ratio(n, d)
            if q is not None and float(q) == q:
                return ('flt', float(q))
            for x in (1, -1):
                for y, lv in leaves.items():
                    if n == {m: c * x for m, c in rat.pmul(d, {(y,): rat.Fraction(1)}).items()}:
                        return lv if x == 1 else ('neg', lv)
        except (rat.TooBig, RecursionError):
            pass
        return k

    def ptrcmp(self, op, a, b):
        if not (isinstance(a, PtrV) and isinstance(b, PtrV)):
            return ('at', self.newatom('pcmp', False), False)
        la, lb = a.loc, b.loc
        if la[0] == 'e' and lb[0] == 'e' and la[1] == lb[1]:
            return self.compare(op, la[2], lb[2])
        if la == lb:
            return TRUE if op in ('==', '<=', '>=') else FALSE
        if op in ('==', '!='):
            if 'u' not in (la[0], lb[0]) and 've' not in (la[0], lb[0]):
                # distinct objects
                return FALSE if op == '==' else TRUE
            x, y = (la, lb) if repr(la) < repr(lb) else (lb, la)
            c = self.atom(('p==', x, y), 'p==q', True)
            return c if op == '==' else ('not', c)
        return ('at', self.newatom('pcmp', False), False)

    def e_bin(self, e, fr):
        op = e['op']
        if op == ',':
            self.ev(e['x'], fr)
            return self.ev(e['y'], fr)
        if op in ('&&', '||'):
            return B(self.cnd(e, fr))
        if op == '=':
            l = self.ev(e['x'], fr)
            v = self.val(e['y'], fr)
            self.assign(l, v, e, fr)
            return l
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            l = self.ev(e['x'], fr)
            cur = self.loadx(l, fr.T[e['x']['t']])
            v = self.val(e['y'], fr)
            r = self.binop(op[:-1], cur, v, fr.T[e['x']['t']], e, fr)
            self.assign(l, r, e, fr)
            return l
        a = self.val(e['x'], fr)
        b = self.val(e['y'], fr)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return B(self.compare(op, a, b))
        return self.binop(op, a, b, fr.T[e['t']], e, fr)

    def loadx(self, l, t):
        if isinstance(l, tuple):
            return self.load(l, t)
        return l

    def binop(self, op, a, b, t, e, fr):
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptr_arith(op, a, b, e, fr)
        k = kind(t)
        if k[0] == 'int' or (isinstance(a, Poly) and isinstance(b, Poly) and k[0] != 'flt'):
            if isinstance(a, (Poly, B)) or isinstance(b, (Poly, B)):
                return self.arith(op, self.as_int(a, t), self.as_int(b, t), t, e, fr)
            if isinstance(a, Op) and isinstance(b, Op) and k[0] == 'int':
                return self.arith(op, self.as_int(a, t), self.as_int(b, t), t, e, fr)
        if k[0] == 'bool':
            if op in ('&', '|') and isinstance(a, B) and isinstance(b, B):
                return B(('and' if op == '&' else 'or', a.c, b.c))
            return B(('at', self.newatom('bitop', False), False))
        ka = a.key if isinstance(a, Op) else (('i2f', a) if isinstance(a, Poly) else ('?', self.nsym()))
        kb = b.key if isinstance(b, Op) else (('i2f', b) if isinstance(b, Poly) else ('?', self.nsym()))
        if ka[0] == 'i2f' and kb[0] == 'flt' and op == '+' and isinstance(kb[1], (int, float)) and kb[1] == int(kb[1]) and isinstance(ka[1], Poly):
            return Op(('i2f', ka[1].addc(int(kb[1]))), False)
        if self.pick:
            ka, kb = self.fconst(ka), self.fconst(kb)
            if ka[0] == 'flt' and kb[0] == 'flt' and isinstance(ka[1], (int, float)) and isinstance(kb[1], (int, float)) and op in '+-*/':
                return Op(('flt', ffold(op, float(ka[1]), float(kb[1]))))
        lim = 6000 if self.pick else 400
        if self.hooks.get('expect') and k[0] == 'flt':
            lim = 30000
            if op == '+' and ka == ('flt', 0.0):
                return Op(kb, getattr(b, 'exact', True) and kb[0] != 'i2f')
            if op in '+-' and kb == ('flt', 0.0) or op in '*/' and kb == ('flt', 1.0):
                return Op(ka, getattr(a, 'exact', True) and ka[0] != 'i2f')
            if op == '*' and ka == ('flt', 1.0):
                return Op(kb, getattr(b, 'exact', True) and kb[0] != 'i2f')
        if repr(ka).__len__() > lim or repr(kb).__len__() > lim:
            return Op(('deep', self.nsym()), False)
        return Op((op, ka, kb), False if (ka[0] == 'i2f' or kb[0] == 'i2f') else (getattr(a, 'exact', True) and getattr(b, 'exact', True)))

    def fconst(self, k):
        if k[0] == 'i2f' and isinstance(k[1], Poly):
            n = self.st.facts.norm(k[1])
            if n.isconst():
                return ('flt', float(n.cval()))
        return k

    def ptr_arith(self, op, a, b, e, fr):
        if op == '-' and isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.loc[0] == 'e' and b.loc[0] == 'e' and a.loc[1] == b.loc[1]:
                return a.loc[2].sub(b.loc[2])
            return self.fresh('ptrdiff', None, None, False)
        p, i = (a, b) if isinstance(a, PtrV) else (b, a)
        if not isinstance(i, Poly):
            i = self.as_int(i)
        if op == '-':
            i = i.neg()
        if p.loc[0] == 'e':
            n = p.loc[2].add(i)
            self.check_iter(p.loc[1], n, e, fr)
            return PtrV(('e', p.loc[1], n))
        if p.loc[0] == 'o' and isinstance(self.st.get(p.loc[1]), (Arr, Vec, Str)):
            return PtrV(('e', p.loc[1], i))
        return PtrV(('u', '?', self.nsym()))

    def check_iter(self, oid, n, e, fr):
        o = self.st.get(oid)
        sz = o.size if isinstance(o, Vec) else o.len if isinstance(o, Str) else Poly.const(len(o.vals)) if isinstance(o, Arr) else None
        if sz is not None and 'raw_strided_iterator_policy' not in fr.name:   # strided ends lie past the container; dereferencing is what is checked
            self.ob('iterator arithmetic', [n, sz.sub(n)], e, fr, 'iterator moved outside of [begin, end]')

    def assign(self, l, v, e, fr):
        if isinstance(l, tuple) and l and l[0] in ('o', 'e'):
            self.store(l, v)
        elif isinstance(l, PtrV):
            self.store(l.loc, v)

    def e_un(self, e, fr):
        op = e['op']
        if op == '!':
            return B(self.cnd(e, fr))
        if op in ('++', '--'):
            l = self.ev(e['e'], fr)
            t = fr.T[e['e']['t']]
            cur = self.loadx(l, t)
            if isinstance(cur, PtrV):
                new = self.ptr_arith('+' if op == '++' else '-', cur, ONE, e, fr)
            elif kind(t)[0] == 'int':
                new = self.arith('+' if op == '++' else '-', self.as_int(cur, t), ONE, t, e, fr)
            else:
                new = self.binop('+', cur, Op(('flt', 1.0)), t, e, fr)
            self.assign(l, new, e, fr)
            return cur if e.get('post') else l
        if op == '*':
            v = self.val(e['e'], fr)
            return self.deref(v, e, fr)
        if op == '&':
            l = self.ev(e['e'], fr)
            if isinstance(l, tuple):
                if l and l[0] == 've':
                    return PtrV(l)
                return PtrV(l)
            return PtrV(('u', '?', self.nsym()))
        v = self.val(e['e'], fr)
        if op == '-':
            t = fr.T[e['t']]
            if isinstance(v, Poly):
                if kind(t)[0] == 'int' and not kind(t)[1]:
                    return self.arith('-', ZERO, v, t, e, fr)
                return v.neg()
            if isinstance(v, Op):
                if self.pick and v.key[0] == 'flt' and isinstance(v.key[1], (int, float)):
                    return Op(('flt', -v.key[1]))
                return Op(('neg', v.key), v.exact)
            return v
        if op == '+':
            return v
        if op == '~':
            return self.fresh_of(fr.T[e['t']], 'not', False)
        return v

    def deref(self, v, e, fr):
        if isinstance(v, PtrV):
            l = v.loc
            if l[0] == 'e':
                self.check_elem(l[1], l[2], e, fr, 'dereference')
                return l
            if l[0] == 'o':
                return l
            if l[0] == 've':
                return l
            if l[0] == 'null':
                if not self.quiet and not self.st.inex:
                    pass
                raise Infeasible()
        return ('u', fr.T[e['t']] if e else '?', self.nsym())

    def e_cond(self, e, fr):
        c = self.cnd(e['c'], fr)
        t = fr.T[e['t']]
        if kind(t)[0] in ('flt',) and self.pure(e['x']) and self.pure(e['y']) and self.truth(c) is None and not self.pick:
            return Op(('cond', self.nsym()), False)
        return self.ev(e['x'] if self.decide(c) else e['y'], fr)

    def e_init(self, e, fr):
        t = fr.T[e['t']]
        k = kind(t)
        if k[0] == 'arr':
            n = k[2]
            # std::array<T,N>{{...}} : nested
            a = e['a']
            if len(a) == 1 and a[0] is not None and a[0]['k'] == 'init' and kind(fr.T[a[0]['t']])[0] == 'arr' and base(t).startswith('std::array'):
                a = a[0]['a']
            vals = [self.fieldval(self.val(x, fr)) for x in a if x is not None]
            if n > 16:
                return ('o', self.newobj(Vec(Poly.const(n), k[1])))
            while len(vals) < n:
                vals.append(self.mkval(k[1], 'z', True, 0, self.st, zero=True))
            return ('o', self.newobj(Arr(tuple(vals), k[1])))
        if k[0] == 'vec':   # initializer_list
            vals = tuple(self.sval(self.fieldval(self.val(x, fr))) for x in e['a'])
            return ('o', self.newobj(Vec(Poly.const(len(vals)), k[1], eb=self.bounds_of(vals), known=vals)))
        if k[0] == 'cls':
            r = self.P.recs.get(k[1])
            if r is None:
                vals = [self.val(x, fr) for x in e['a'] if x is not None]
                return ('o', self.newobj(Op(('init', self.nsym()), True)))
            f = {}
            fields = [fd for fd in r['fields']]
            a = e['a']
            ai = 0
            for fd in fields:
                ft = fr.T[fd['t']] if False else self.P.T[fd['t']]
                x = a[ai] if ai < len(a) else None
                ai += 1
                if x is None:
                    f[fd['n']] = self.mk(ir.noref(ft), fd['n'], True, 1, self.st, zero=True)
                    continue
                f[fd['n']] = self.init_field(ft, x, fr)
            return ('o', self.newobj(Rec(k[1], f)))
        if len(e['a']) == 1:
            return self.val(e['a'][0], fr)
        if not e['a']:
            return self.mkval(t, 'z', True, 0, self.st, zero=True)
        return Op(('init', self.nsym()))

    def bounds_of(self, vals):
        if not vals:
            return 'bot'
        if all(isinstance(v, Poly) and v.isconst() for v in vals):
            c = [v.cval() for v in vals]
            return (Poly.const(min(c)), Poly.const(max(c)))
        if len(vals) == 1 and isinstance(vals[0], Poly):
            return (vals[0], vals[0])
        return None

    def fieldval(self, v):
        return v

    def init_field(self, ft, x, fr):
        """initialise a field/variable of type ft from expr x -> Loc"""
        v = self.ev(x, fr)
        if isref(ft):
            if isinstance(v, tuple) and v:
                return v
            if isinstance(v, PtrV):
                return ('o', self.newobj(v))
            return ('o', self.newobj(v))
        if isinstance(v, tuple) and v and v[0] in ('o', 'e', 'u', 've'):
            if self.is_scalar_t(ft):
                v = self.load(v, ft)
                if isinstance(v, tuple):
                    return v
                return ('o', self.newobj(v))
            if v[0] == 'o':
                if x['k'] in ('ref', 'mem', 'sub') or (x['k'] == 'un' and x['op'] == '*') or (x['k'] == 'call' and isref_call(x, fr)):
                    return ('o', self.deepcopy(v[1]))
                return v
            x2 = self.load(v, ft)
            if isinstance(x2, tuple):
                if x2[0] == 'o':
                    return ('o', self.deepcopy(x2[1]))
                return self.mk(ft, 'init', False, 2, self.st)
            return ('o', self.newobj(x2))
        if v is None:
            return self.mk(ir.noref(ft), 'init', False, 2, self.st)
        return ('o', self.newobj(v))

    def e_lambda(self, e, fr):
        caps = {}
        for c in e['caps']:
            if c.get('this') or 'id' not in c:
                continue
            l = self.lv_ref({'id': c['id'], 'n': c['n'], 't': 0}, fr) if True else None
            if c.get('ref'):
                caps[c['id']] = l
            else:
                if l[0] == 'o':
                    caps[c['id']] = ('o', self.deepcopy(l[1]))
                else:
                    caps[c['id']] = l
        return Clo(e, caps, fr.this, fr)

    def e_fref(self, e, fr):
        return FnV(e)

    def e_mref(self, e, fr):
        return FnV(e, self.obj_of(self.ev(e['b'], fr), e['b'], fr))

    def e_throw(self, e, fr):
        raise Thrown()

    def e_new(self, e, fr):
        at = fr.T[e['at']]
        if e.get('arr'):
            n = self.ival(e['n'], fr) if e.get('n') else ZERO
            o = self.newobj(Vec(n, at, origin=None))
            return PtrV(('e', o, ZERO))
        if e.get('i') is not None:
            v = self.ev(e['i'], fr)
            if isinstance(v, tuple) and v and v[0] == 'o':
                return PtrV(v)
            return PtrV(('o', self.newobj(v)))
        return PtrV(self.mk(at, 'new', False, 1, self.st))

    def e_del(self, e, fr):
        self.ev(e['e'], fr)
        return None

    def e_typeid(self, e, fr):
        return ('o', self.newobj(Op(('typeid', self.nsym()))))

    def e_stmtexpr(self, e, fr):
        outs = self.sub_exec(e['s'], fr)
        return None

    def e_other(self, e, fr):
        for a in e.get('a', []) or []:
            if isinstance(a, dict):
                self.ev(a, fr)
        t = fr.T[e['t']] if 't' in e else '?'
        return self.mkval(t, 'other', False, 3, self.st)

    # ------------------------------------------------------------------ calls
    def atomic_call(self, name, e, fr):
        """atomic cells as plain cells (one thread at a time)"""
        m = name.rsplit('::', 1)[-1] if '::operator' not in name else name[name.index('::operator') + 2:]
        l = self.ev(e['obj'], fr)
        if isinstance(l, PtrV):
            l = l.loc
        if not (isinstance(l, tuple) and l and l[0] in ('o', 'e')):
            return NotImplemented
        t = fr.T[e['t']]
        if m == 'store':
            self.assign(l, self.val(e['a'][0], fr), e, fr)
            return None
        if m in ('operator=', 'exchange'):
            v = self.val(e['a'][0], fr)
            old = self.loadx(l, t)
            self.assign(l, v, e, fr)
            return v if m == 'operator=' else old
        if m in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
            old = self.loadx(l, t)
            post = m.startswith('fetch') or (m in ('operator++', 'operator--') and e['a'])
            d = ONE if m in ('operator++', 'operator--') else self.val(e['a'][0], fr)
            op = '+' if m in ('operator++', 'fetch_add', 'operator+=') else '-'
            if isinstance(old, PtrV) or not isinstance(d, Poly):
                return NotImplemented
            new = self.arith(op, self.as_int(old, t), d, t, e, fr)
            self.assign(l, new, e, fr)
            return old if post else new
        if m == 'load' or m.startswith('operator '):
            return self.loadx(l, t)
        return NotImplemented

    def e_ctor(self, e, fr):
        t = fr.T[e['t']]
        if base(t).startswith('std::atomic<'):
            return self.val(e['a'][0], fr) if e['a'] else self.mkval(t, 'atomic', False, 1, self.st)
        k = kind(t)
        h = CTORS.get(k[0])
        if h is not None:
            return h(self, e, fr, t, k)
        if k[0] == 'cls' and k[1].startswith('std::') or k[0] in ('iter', 'ptr'):
            n = sn(e['fn'])
            if k[0] in ('iter', 'ptr'):
                if e['a']:
                    return self.val(e['a'][0], fr)
                return NULLP
            h = STD_CTORS.get(sn(k[1]))
            if h is not None:
                r = h(self, e, fr, t, k)
                if r is not NotImplemented:
                    return r
        f = self.P.funs.get(e['u'])
        if f is None or (f.d.get('dflt') and not f.d.get('inits') and not f.d.get('body', {}).get('s')):
            # implicit/defaulted or external constructor
            args = [self.ev(a, fr) for a in e['a']]
            if (e.get('cp') or e.get('mv')) and args:
                l = self.obj_of(args[0], e['a'][0], fr)
                if l[0] == 'o':
                    if e.get('mv'):
                        n = self.deepcopy(l[1])
                        self.mark_moved(l)
                        return ('o', n)
                    return ('o', self.deepcopy(l[1]))
                return self.mk(t, 'copy', False, 1, self.st)
            self.ext_effects(e, args, fr)
            r = self.P.recs.get(k[1])
            if r is not None:
                return self.default_construct(k[1], r, fr)
            return self.mk(t, 'obj', False, 1, self.st)
        if f.d.get('dflt') and (e.get('cp') or e.get('mv')) and e['a']:
            a = self.ev(e['a'][0], fr)
            l = self.obj_of(a, e['a'][0], fr)
            if l[0] == 'o':
                n = ('o', self.deepcopy(l[1]))
                if e.get('mv'):
                    self.mark_moved(l)
                return n
            return self.mk(t, 'copy', False, 1, self.st)
        o = self.alloc_rec(k[1])
        self.inline(f, ('o', o), e['a'], e, fr)
        return ('o', o)

    def mark_moved(self, l, seen=None):
        """default move of a record: every movable sub-object is left empty"""
        if seen is None:
            seen = set()
        if l[0] != 'o' or l[1] in seen:
            return
        seen.add(l[1])
        v = self.st.get(l[1])
        if isinstance(v, Vec):
            self.st.put(l[1], Vec(ZERO, v.et, self.nsym(), 'bot'))
        elif isinstance(v, Rec):
            if v.t.startswith('vif::vec<'):
                # calls vec's own move constructor: modelled by inlining in e_ctor for direct vec; here by definition
                self.st.put(v.f['data'][1], Vec(ZERO, self.st.get(v.f['data'][1]).et, self.nsym(), 'bot'))
                d = self.st.get(v.f['dims'][1])
                if isinstance(d, Arr):
                    self.st.put(v.f['dims'][1], Arr(tuple(ZERO for _ in d.vals), d.et))
                return
            for k, x in v.f.items():
                if not self.is_ref_field(v.t, k):
                    self.mark_moved(x, seen)

    def alloc_rec(self, t):
        """storage with one sub-object per field, uninitialised"""
        r = self.P.recs.get(t)
        f = {}
        o = self.newobj(None)
        if r is not None:
            self.alloc_fields(r, f)
        self.st.delta[o] = Rec(t, f)
        return o

    def alloc_fields(self, r, f):
        for b in r.get('bases', []):
            br = self.P.recs.get(base(self.P.T[b]))
            if br is not None:
                self.alloc_fields(br, f)
        for fd in r['fields']:
            ft = self.P.T[fd['t']]
            k = kind(ft)
            if k[0] == 'vec' and not isref(ft):
                f[fd['n']] = ('o', self.newobj(Vec(ZERO, k[1], eb='bot')))
            elif k[0] == 'str' and not isref(ft):
                f[fd['n']] = ('o', self.newobj(Str(ZERO, ('lit', ''))))
            elif k[0] == 'arr' and not isref(ft):
                f[fd['n']] = self.mk(ft, fd['n'], False, 2, self.st)
            elif k[0] == 'cls' and not isref(ft) and k[1] in self.P.recs:
                f[fd['n']] = ('o', self.newobj(None))
            else:
                f[fd['n']] = ('o', self.newobj(self.mkval(ft, fd['n'], False, 4, self.st) if k[0] not in ('cls',) and not isref(ft) else Op(('un', self.nsym()), False)))

    def default_construct(self, t, r, fr):
        f = {}
        o = self.newobj(None)
        self.default_fields(r, f, fr)
        self.st.delta[o] = Rec(t, f)
        return ('o', o)

    def default_fields(self, r, f, fr):
        T = self.P.T
        for b in r.get('bases', []):
            br = self.P.recs.get(base(T[b]))
            if br is not None:
                self.default_fields(br, f, fr)
        for fd in r['fields']:
            ft = T[fd['t']]
            if fd.get('init') is not None:
                f[fd['n']] = self.init_field(ft, fd['init'], Frame(fr.fid, self.P, None, None, fr.depth, 'init', fr.file, fr))
            else:
                vi = vecinfo(ft)
                if vi and base(ft) in self.P.recs:
                    f[fd['n']] = self.mkvec(base(ft), vi, fd['n'], True, self.st, True)
                else:
                    k = kind(ft)
                    f[fd['n']] = self.mk(ir.noref(ft), fd['n'], k[0] in ('vec', 'str'), 1, self.st, zero=k[0] in ('vec', 'str', 'cls'))

    def e_call(self, e, fr):
        fnm = e.get('fn')
        if fnm is None:
            return self.call_value(e, fr)
        name = sn(fnm)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, e, fr)
            if r is not NotImplemented:
                return r
        h = CALLS.get(name)
        if h is None and name.startswith(('std::atomic::', 'std::__atomic_base::')) and e.get('obj') is not None:
            h = self.atomic_call
        if h is not None:
            r = h(self, e, fr) if h != self.atomic_call else h(name, e, fr)
            if r is not NotImplemented:
                return r
        if e.get('nr'):
            self.exit_here(e, fr)
        # class-level dispatch
        if 'obj' in e:
            ot = kind(fr.T[e['cls']])[0] if 'cls' in e else None
            hm = METHODS.get(ot)
            if hm is not None:
                r = hm(self, name.rsplit('::', 1)[-1], e, fr)
                if r is not NotImplemented:
                    return r
        f = self.P.funs.get(e['u'])
        if f is not None and f.d.get('body') is not None:
            if e.get('obj') is not None and (f.d.get('cas') or f.d.get('mas')) and f.d.get('dflt'):
                dst = self.obj_of(self.ev(e['obj'], fr), e['obj'], fr)
                src = self.obj_of(self.ev(e['a'][0], fr), e['a'][0], fr)
                self.assign_obj(dst, src)
                return dst
            this = None
            if 'obj' in e and not e.get('st'):
                ov = self.ev(e['obj'], fr)
                if isinstance(ov, Clo):
                    return self.call_closure(ov, e['a'], e, fr)
                this = self.obj_of(ov, e['obj'], fr)
                if this[0] == 'o':
                    c = self.st.get(this[1])
                    if isinstance(c, Clo):
                        return self.call_closure(c, e['a'], e, fr)
            return self.inline(f, this, e['a'], e, fr)
        if 'obj' in e:
            ov = self.ev(e['obj'], fr)
            if isinstance(ov, tuple) and ov and ov[0] == 'o' and isinstance(self.st.get(ov[1]), Clo):
                ov = self.st.get(ov[1])
            if isinstance(ov, Clo):
                return self.call_closure(ov, e['a'], e, fr)
            args = [self.ev(a, fr) for a in e['a']]
            if not e.get('cm'):
                l = self.obj_of(ov, e['obj'], fr)
                if l[0] == 'o':
                    self.havoc_loc(l)
            self.ext_effects(e, args, fr)
            return self.ext_result(e, args, fr, ov)
        args = [self.ev(a, fr) for a in e['a']]
        self.ext_effects(e, args, fr)
        return self.ext_result(e, args, fr, None)

    def ext_effects(self, e, args, fr):
        pm = e.get('pm', '')
        for i, a in enumerate(args):
            m = pm[i] if i < len(pm) else 'v'
            if m in ('r', 'p'):
                if isinstance(a, tuple) and a and a[0] in ('o', 'e'):
                    if m == 'p':
                        c = self.st.get(a[1]) if a[0] == 'o' else None
                        if isinstance(c, PtrV):
                            self.havoc_ptr(c)
                            continue
                        self.havoc_loc(a, contents_only=True)
                    else:
                        self.havoc_loc(a)
                elif isinstance(a, PtrV):
                    self.havoc_ptr(a)
            elif isinstance(a, Clo):
                pass

    def havoc_ptr(self, p):
        l = p.loc
        if l[0] == 'e':
            o = self.st.get(l[1])
            if isinstance(o, Vec):
                self.st.put(l[1], o.w(ver=self.nsym(), eb=None, origin=None, known=None))
            elif isinstance(o, Arr):
                self.havoc_loc(('o', l[1]))
        elif l[0] == 'o':
            self.havoc_loc(l, contents_only=isinstance(self.st.get(l[1]), (Vec, Str)))

    def ext_result(self, e, args, fr, ov):
        t = fr.T[e['t']]
        name = sn(e.get('fn', '?'))
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        k = kind(t)
        if k[0] == 'void':
            return None
        if k[0] in ('flt', 'bool', 'int') and not isref(t):
            keys = []
            for a in args:
                if isinstance(a, tuple) and a and a[0] in ('o', 'e'):
                    a = self.load(a, '?')
                if isinstance(a, Op):
                    keys.append(a.key)
                elif isinstance(a, Poly):
                    keys.append(('i2f', a))
                elif isinstance(a, B):
                    keys.append(a.c)
                else:
                    keys.append(('?', self.nsym()))
            ex = all((isinstance(a, Op) and a.exact) for a in args) and ov is None
            if k[0] == 'flt':
                key = (name,) + tuple(keys)
                if len(repr(key)) > (6000 if self.hooks.get('expect') else 400):
                    key = ('deep', self.nsym())
                return Op(key, ex)
            if k[0] == 'bool':
                return B(self.atom((name,) + tuple(keys) + ((self.nsym(),) if ov is not None else ()), name, ex))
            return self.fresh_of(t, name, False)
        if isref(t) and ov is not None and isinstance(ov, tuple):
            # e.g. stream << x returns the stream
            if base(t) == base(fr.T[e['obj']['t']]) if 'obj' in e else False:
                return ov
        if isref(t) and e['a'] and base(fr.T[e['a'][0]['t']]) == base(t) and args and isinstance(args[0], tuple):
            return args[0]
        return self.mkval(ir.noref(t), name, False, 2, self.st)

    def call_value(self, e, fr):
        c = self.ev(e['ce'], fr) if 'ce' in e else None
        if isinstance(c, tuple) and c and c[0] == 'o':
            c = self.st.get(c[1])
        if isinstance(c, PtrV) and c.loc[0] == 'o':
            c = self.st.get(c.loc[1])
        if isinstance(c, Clo):
            return self.call_closure(c, e['a'], e, fr)
        if isinstance(c, FnV):
            f = self.P.funs.get(c.node['u'])
            if f is not None and f.d.get('body') is not None:
                return self.inline(f, c.obj, e['a'], e, fr)
        args = [self.ev(a, fr) for a in e['a']]
        for a in args:
            if isinstance(a, PtrV):
                self.havoc_ptr(a)
        return self.ext_result(e, args, fr, None)

    def call_closure(self, c, args, e, fr):
        if fr.depth > 60:
            return self.mkval(fr.T[e['t']], 'deep', False, 2, self.st)
        argv = [self.ev(a, fr) for a in args]
        self.nfid += 1
        fid = self.nfid
        nf = Frame(fid, c.fr.P, c.fr.fun, c.this, fr.depth + 1, c.fr.name + '::lambda', c.fr.file, fr)
        nf.caps = c.caps
        nf.callline = e.get('l', 0)
        pars = c.node['p']
        # generic lambdas / instantiated operator(): use the function table when available
        f = self.P.funs.get(e.get('u', '')) if e.get('op') == '()' else None
        body = c.node['body']
        return self.run_body(nf, pars, argv, args, body, fr, c.node.get('rt'))

    def inline(self, f, this, args, e, fr):
        if fr.depth > 60 or self.stack.count(f.u) >= 2:
            argv = [self.ev(a, fr) for a in args]
            self.ext_effects(e, argv, fr)
            if this is not None and not e.get('cm'):
                self.havoc_loc(this)
            return self.mkval(ir.noref(fr.T[e['t']]), 'rec', False, 2, self.st) if 't' in e else None
        argv = [self.ev(a, fr) for a in args]
        self.nfid += 1
        nf = Frame(self.nfid, f.P, f, this, fr.depth + 1, f.sn, f.file, fr)
        nf.callline = e.get('l', 0)
        self.inl.add(f.u)
        return self.run_body(nf, f.d['p'], argv, args, f.d['body'], fr, f.d.get('rt'), inits=f.d.get('inits') if f.d.get('ck') == 'ctor' else None)

    def bind_params(self, nf, pars, argv, args, fr):
        env = {}
        for i, p in enumerate(pars):
            pt = nf.T[p['t']]
            if i >= len(argv):
                env[p['id']] = self.mk(ir.noref(pt), p['n'] or 'p', False, 2, self.st)
                continue
            env[p['id']] = self.bind_one(pt, argv[i], args[i] if args else None, fr)
        self.st.env[nf.fid] = env

    def bind_one(self, pt, v, x, fr):
        if isref(pt):
            if isinstance(v, tuple) and v:
                return v
            return ('o', self.newobj(v))
        if isinstance(v, tuple) and v and v[0] == 'o' and base(pt).startswith('std::initializer_list') and isinstance(self.st.get(v[1]), Arr):
            return self.ilist(v, pt)
        if isinstance(v, tuple) and v and v[0] in ('o', 'e', 'u', 've'):
            if self.is_scalar_t(pt):
                w = self.load(v, pt)
                if isinstance(w, tuple):
                    return ('o', self.newobj(w)) if w[0] != 'o' else w
                return ('o', self.newobj(w))
            if v[0] == 'o':
                if x is not None and x['k'] in ('ref', 'mem', 'sub'):
                    return ('o', self.deepcopy(v[1]))
                return v
            w = self.load(v, pt)
            return w if isinstance(w, tuple) else ('o', self.newobj(w))
        if v is None:
            return self.mk(ir.noref(pt), 'arg', False, 2, self.st)
        return ('o', self.newobj(v))

    def ilist(self, v, t):
        """initializer list made of an array of known values"""
        et = kind(t)[1]
        vals = self.st.get(v[1]).vals
        if base(et).startswith('std::initializer_list'):
            vals = tuple(self.ilist(x, et) if isinstance(x, tuple) and x[0] == 'o' and isinstance(self.st.get(x[1]), Arr) else x for x in vals)
        return ('o', self.newobj(Vec(Poly.const(len(vals)), et, self.nsym(), eb=self.bounds_of(vals), known=tuple(vals))))

    def run_body(self, nf, pars, argv, args, body, fr, rt, inits=None):
        self.bind_params(nf, pars, argv, args, fr)

        def thunk():
            st = self.st
            saved_stack = self.stack
            if nf.fun is not None:
                self.stack = self.stack + [nf.fun.u]
            try:
                states = [st]
                o = Outc()
                if inits is not None:
                    states = self.exec_inits(inits, states, nf, o)
                if body is not None:
                    o2 = self.exec(body, states, nf)
                    o.norm = o2.norm
                    o.ret += o2.ret
                    o.thr += o2.thr
                else:
                    o.norm = states
            finally:
                self.stack = saved_stack
            res = [(s, v, None) for s, v in o.ret] + [(s, None, None) for s in o.norm] + [(s, None, 'throw') for s in o.thr]
            for r in res:
                r[0].env.pop(nf.fid, None)
            res = self.merge_results(res)
            return [(s, v, x, self.S.n, self.nobj, self.nfid) for s, v, x in res]
        ch = self.choose(0, thunk)
        s, v, x, n1, n2, n3 = ch.outs[ch.idx]
        self.st = s.clone()
        self.S.n = max(self.S.n, n1)
        self.nobj = max(self.nobj, n2)
        self.nfid = max(self.nfid, n3)
        if x == 'throw':
            raise Thrown()
        return v

    def sub_exec(self, stmt, fr):
        def thunk():
            o = self.exec(stmt, [self.st], fr)
            res = [(s, None, None) for s in o.norm] + [(s, None, 'throw') for s in o.thr]
            return [(s, v, x, self.S.n, self.nobj, self.nfid) for s, v, x in res]
        ch = self.choose(0, thunk)
        s, v, x, n1, n2, n3 = ch.outs[ch.idx]
        self.st = s.clone()
        self.S.n = max(self.S.n, n1)
        self.nobj = max(self.nobj, n2)
        self.nfid = max(self.nfid, n3)
        if x == 'throw':
            raise Thrown()

    def exec_inits(self, inits, states, fr, o):
        for it in inits:
            ns = []
            for st in states:
                def f():
                    self.init_member(it, fr)
                    return None
                for s, r, x in self.run_split(st, f):
                    if x is None:
                        ns.append(s)
                    elif x == 'throw':
                        o.thr.append(s)
            states = self.limit(ns)
        return states

    def init_member(self, it, fr):
        if it.get('deleg') or 'base' in it:
            x = it['e']
            if x is not None and x['k'] == 'ctor':
                f = self.P.funs.get(x['u'])
                if f is not None and f.d.get('body') is not None:
                    self.inline(f, fr.this, x['a'], x, fr)
                    return
                for a in x['a']:
                    self.ev(a, fr)
            elif x is not None:
                self.ev(x, fr)
            return
        if 'f' not in it or it.get('e') is None:
            return
        o = self.st.get(fr.this[1]) if fr.this and fr.this[0] == 'o' else None
        ft = None
        if isinstance(o, Rec):
            ft = self.field_type(o.t, it['f'])
        l = self.init_field(ft or fr.T[it['e']['t']], it['e'], fr)
        if isinstance(o, Rec):
            o = self.st.get(fr.this[1])
            f2 = dict(o.f)
            f2[it['f']] = l
            self.st.put(fr.this[1], Rec(o.t, f2))

    def field_type(self, t, name):
        r = self.P.recs.get(t)
        if r is None:
            return None
        for fd in r['fields']:
            if fd['n'] == name:
                return self.P.T[fd['t']]
        for b in r.get('bases', []):
            x = self.field_type(base(self.P.T[b]), name)
            if x:
                return x
        return None

    # ------------------------------------------------------------------ joins
    def limit(self, states, kmax=None):
        kmax = kmax or self.KMAX
        if self.pick and len(states) <= kmax:
            return states
        states = self.join_similar(states)
        while len(states) > kmax:
            a = states.pop()
            b = states.pop()
            states.append(self.join2(a, b, force=True))
        return states

    def merge_results(self, res):
        if len(res) <= 1:
            return res
        groups = {}
        out = []
        for s, v, x in res:
            k = (x, self.vkey(s, v))
            groups.setdefault(k, []).append((s, v, x))
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            sts = self.limit([a[0] for a in g])
            if len(sts) == len(g):
                out += g
            else:
                for s in sts:
                    out.append((s, g[0][1], g[0][2]))
        if len(out) > self.KMAX:
            # force: drop to KMAX by joining states with opaque scalar results
            keep = out[:self.KMAX]
            rest = out[self.KMAX:]
            for r in rest:
                placed = False
                for i in range(len(keep) - 1, -1, -1):
                    if keep[i][2] == r[2]:
                        v = keep[i][1]
                        if isinstance(v, tuple) and v and v[0] == 'o' and isinstance(r[1], tuple) and r[1] and r[1][0] == 'o' and v[1] != r[1][1]:
                            # align objects: copy contents of r's result into v's slot when both exist
                            s2 = r[0]
                            self.alias_obj(s2, v[1], r[1][1], keep[i][0])
                        elif not (isinstance(v, tuple) and v and v[0] == 'o') and v != r[1]:
                            v = self.joinval(v, r[1])
                        keep[i] = (self.join2(keep[i][0], r[0], force=True), v, r[2])
                        placed = True
                        break
                if not placed:
                    keep.append(r)
            out = keep
        return out

    def alias_obj(self, s, dst, src, other):
        if s.get(dst) is None:
            s.put(dst, s.get(src))

    def joinval(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.fresh('join', None, None, False)
        if isinstance(a, B) and isinstance(b, B):
            return B(('at', self.newatom('join', False), False))
        return Op(('join', self.nsym()), False)

    def vkey(self, s, v):
        if isinstance(v, Poly):
            return ('p', s.facts.norm(v))
        if isinstance(v, B):
            return ('b', v.c)
        if isinstance(v, Op):
            return ('op',)
        if isinstance(v, tuple):
            return v
        if isinstance(v, PtrV):
            return v
        if v is None:
            return None
        return id(v)

    def join_similar(self, states):
        if len(states) <= 1:
            return states
        out = []
        for s in states:
            done = False
            for i, t in enumerate(out):
                j = self.join2(t, s, force=False)
                if j is not None:
                    out[i] = j
                    done = True
                    break
            if not done:
                out.append(s)
        return out

    def relevant_val(self, v):
        """values whose difference must keep disjuncts apart"""
        return isinstance(v, (Poly, Vec, Str, Arr, Rec, B, PtrV, Clo))

    def same_val(self, a, b, fa, fb):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a == b or (fa.norm(a) == fb.norm(b))
        if isinstance(a, Vec) and isinstance(b, Vec):
            return (a.size == b.size or fa.norm(a.size) == fb.norm(b.size)) and a.eb == b.eb
        if isinstance(a, Str) and isinstance(b, Str):
            if self.hooks.get('expect') and a.key != b.key:
                return False
            return a.len == b.len or fa.norm(a.len) == fb.norm(b.len)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return len(a.vals) == len(b.vals) and all(self.same_val(x, y, fa, fb) or (isinstance(x, Op) and isinstance(y, Op)) for x, y in zip(a.vals, b.vals))
        if isinstance(a, Rec) and isinstance(b, Rec):
            return a.t == b.t and a.f == b.f
        if isinstance(a, B) and isinstance(b, B):
            return a.c == b.c
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            la, lb = a.loc, b.loc
            if la[0] == 'e' and lb[0] == 'e' and la[1] == lb[1]:
                return fa.norm(la[2]) == fb.norm(lb[2])
            return la == lb
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == b
        return False

    def join2(self, a, b, force):
        """join two states; when not force returns None unless they agree on all sizes/integers"""
        fa, fb = a.facts, b.facts
        diff = []
        ka = a.keys()
        kb = b.keys()
        if a.base is not b.base:
            for o, v in a.base.items():
                w = b.base.get(o)
                if w is None or v is None or v is w:
                    continue
                if self.same_val(v, w, fa, fb):
                    if isinstance(v, Vec) and v.ver != w.ver:
                        diff.append((o, v, w))
                    continue
                if not force and self.relevant_val(v) and self.relevant_val(w):
                    return None
                if not force and self.relevant_val(v) != self.relevant_val(w):
                    return None
                diff.append((o, v, w))
        if not force:
            # keep partitions whose facts on exact input symbols differ by an equality (size == 0 cases)
            if set(fa.sub) != set(fb.sub):
                # equalities only in one branch: only merge when the other entails nothing lost of interest
                pass
        if a.env.keys() != b.env.keys() or any(a.env[f] != b.env[f] for f in a.env if f in b.env):
            # variables declared only in one branch are out of scope after the join; differing bindings are not
            for f in a.env:
                if f in b.env:
                    for k in a.env[f]:
                        if k in b.env[f] and a.env[f][k] != b.env[f][k]:
                            if not force:
                                return None
        s = a.clone()
        s.written = a.written | b.written
        s.inex = a.inex or b.inex
        base_ = dict(b.base)
        base_.update(a.base)
        s.base = base_
        s.delta = {}
        for f in list(s.env):
            if f not in b.env:
                continue
            for k in list(s.env[f]):
                if b.env[f].get(k) != s.env[f][k]:
                    del s.env[f][k]
        # facts
        F = Facts(self.S)
        common = {}
        for k_, p in fa.sub.items():
            if fb.sub.get(k_) == p:
                F.sub[k_] = p
        for p in fa.ge:
            if p in fb.ge or fb.entails(p):
                common[p] = None
        for p in fb.ge:
            if p not in common and fa.entails(p):
                common[p] = None
        eqs = []
        for k_, p in fa.sub.items():
            if k_ not in F.sub:
                q = Poly.sym(k_).sub(p)
                if fb.entails(q):
                    eqs.append(q)
                if fb.entails(q.neg()):
                    eqs.append(q.neg())
        for k_, p in fb.sub.items():
            if k_ not in F.sub and k_ not in fa.sub:
                q = Poly.sym(k_).sub(p)
                if fa.entails(q):
                    eqs.append(q)
                if fa.entails(q.neg()):
                    eqs.append(q.neg())
        s.facts = F
        F.ge = {}
        for p in common:
            q = F.norm(p)
            if not q.isconst():
                F.ge[q] = None
        for q in eqs:
            try:
                F.add_ge(q)
            except Infeasible:
                pass
        F.atoms = {k: v for k, v in fa.atoms.items() if fb.atoms.get(k) == v}
        F.nes = {k: None for k in fa.nes if k in fb.nes}
        self.keep_disj(F, fa, fb, common)
        s.tags = {k: v for k, v in a.tags.items() if k not in b.tags or b.tags[k] == v}
        for k, v in b.tags.items():
            if k not in a.tags:
                s.tags[k] = v
        save = self.st
        self.st = s
        try:
            for o, v, w in diff:
                self.join_obj(s, o, v, w, fa, fb)
        finally:
            self.st = save
        return s

    def keep_disj(self, F, fa, fb, common):
        """remember what the join of facts fa, fb into F forgets"""
        F.disj = tuple(d for d in fa.disj if d in fb.disj)
        alts = []
        for f in (fa, fb):
            alt = [('ge', p) for p in f.ge if p not in common]
            for k, p in f.sub.items():
                if F.sub.get(k) != p:
                    q = Poly.sym(k).sub(p)
                    if not F.entails(q):
                        alt.append(('ge', q))
                    if not F.entails(q.neg()):
                        alt.append(('ge', q.neg()))
            alt += [('ne', p) for p in f.nes if p not in F.nes]
            alt += [('at', k, v) for k, v in f.atoms.items() if F.atoms.get(k) != v]
            alt += [('dj', d) for d in f.disj if d not in F.disj]
            if not alt:
                return
            alts.append(tuple(alt))
        x, y = alts
        if len(x) == 1 and len(y) == 1:
            a, b = x[0], y[0]
            if a[0] == 'at' and b[0] == 'at' and a[1] == b[1]:
                return
            if a[0] == 'ge' and b[0] == 'ge' and a[1].add(b[1]).addc(1).isconst() and a[1].add(b[1]).addc(1).cval() >= 0:
                return
            if {a[0], b[0]} == {'ge', 'ne'}:
                pass
        d = (x, y)
        if self.djsize(d) > 80:
            d = None
        if d not in F.disj:
            F.disj += (d,)

    def djsize(self, d):
        if d is None:
            return 1
        return sum(self.djsize(l[1]) if l[0] == 'dj' else 1 for a in d for l in a)

    def join_int(self, v, w, fa, fb, name='join'):
        """fresh symbol bounded by what both sides agree on"""
        x = self.fresh(name, None, None, False)
        F = self.st.facts
        # v <= x <= w or the converse
        if fb.entails(w.sub(v)) and fa.entails(ZERO):
            if fb.entails(w.sub(v)):
                F.add_ge(x.sub(v))        # x >= v in both
            if fa.entails(w.sub(v)):
                F.add_ge(w.sub(x))
        elif fb.entails(v.sub(w)):
            F.add_ge(v.sub(x))
            if fa.entails(v.sub(w)):
                F.add_ge(x.sub(w))
        if fa.entails(v) and fb.entails(w):
            F.add_ge(x)
        cands = []
        for c in self.upper_cands(fa, v) + self.upper_cands(fb, w):
            if c not in cands:
                cands.append(c)
        for c in cands[:6]:
            if fa.entails(c.sub(v)) and fb.entails(c.sub(w)):
                F.add_ge(c.sub(x))
        return x

    def join_obj(self, s, o, v, w, fa, fb):
        if isinstance(v, Poly) and isinstance(w, Poly):
            s.put(o, self.join_int(v, w, fa, fb))
        elif isinstance(v, Vec) and isinstance(w, Vec):
            sz = v.size if self.same_val(v.size, w.size, fa, fb) else self.join_int(v.size, w.size, fa, fb, 'join.size')
            eb = v.eb if v.eb == w.eb else (w.eb if v.eb == 'bot' else v.eb if w.eb == 'bot' else None)
            s.put(o, Vec(sz, v.et, self.nsym(), eb, v.origin if v.origin == w.origin else None))
        elif isinstance(v, Str) and isinstance(w, Str):
            ln = v.len if self.same_val(v.len, w.len, fa, fb) else self.join_int(v.len, w.len, fa, fb, 'join.len')
            s.put(o, Str(ln, ('s', self.nsym())))
        elif isinstance(v, Arr) and isinstance(w, Arr) and len(v.vals) == len(w.vals):
            vals = []
            for x, y in zip(v.vals, w.vals):
                if self.same_val(x, y, fa, fb):
                    vals.append(x)
                elif isinstance(x, Poly) and isinstance(y, Poly):
                    vals.append(self.join_int(x, y, fa, fb, 'join.dim'))
                else:
                    vals.append(self.mkval(v.et, 'join', False, 3, s))
            s.put(o, Arr(tuple(vals), v.et))
        elif isinstance(v, B) and isinstance(w, B):
            s.put(o, B(('at', self.newatom('join', False), False)))
        elif isinstance(v, PtrV) and isinstance(w, PtrV):
            la, lb = v.loc, w.loc
            if la[0] == 'e' and lb[0] == 'e' and la[1] == lb[1]:
                s.put(o, PtrV(('e', la[1], self.join_int(la[2], lb[2], fa, fb))))
            else:
                s.put(o, PtrV(('u', '?', self.nsym())))
        elif isinstance(v, Rec) or isinstance(w, Rec):
            s.delta[o] = v if isinstance(v, Rec) else w
            s.put(o, s.delta[o])
        else:
            s.put(o, Op(('join', self.nsym()), getattr(v, 'exact', False) and getattr(w, 'exact', False)))

    # ------------------------------------------------------------------ statements
    def exec(self, s, states, fr):
        """states: list of State -> Outc"""
        out = Outc()
        if s is None:
            out.norm = states
            return out
        if not states:
            return out
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s, states, fr)
        # expression statement
        for st in states:
            for s2, r, x in self.run_split(st, lambda: self.ev(s, fr)):
                if x is None:
                    out.norm.append(s2)
                elif x == 'throw':
                    out.thr.append(s2)
        out.norm = self.limit(out.norm)
        return out

    def is_dead_block(self, s):
        """block that unconditionally ends in a noreturn call"""
        if s is None:
            return False
        if s['k'] == 'block':
            for x in s['s']:
                if x['k'] == 'call' and x.get('nr'):
                    return True
                if x['k'] in ('ret', 'brk', 'cont', 'throw', 'goto'):
                    return False
                if x['k'] == 'block' and self.is_dead_block(x):
                    return True
        return s['k'] == 'call' and bool(s.get('nr'))

    def s_block(self, s, states, fr):
        out = Outc()
        cur = states
        if self.is_dead_block(s):
            self.nexit += len(cur)
            if not self.quiet:
                l = s.get('l') or next((x.get('l') for x in s['s'] if x.get('l')), 0)
                for st in cur:
                    if len(self.exits) < 400:
                        self.exits.append((st.clone(), '%s:%s %s' % (fr.file.replace('/repo/', ''), l, fr.name)))
            return out
        for x in s['s']:
            if not cur:
                break
            o = self.exec(x, cur, fr)
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            out.thr += o.thr
            cur = o.norm
        out.norm = cur
        return out

    def s_null_stmt(self, s, states, fr):
        o = Outc()
        o.norm = states
        return o

    s_ostmt = s_null_stmt

    def s_decl(self, s, states, fr):
        out = Outc()
        cur = states
        for v in s['v']:
            ns = []
            for st in states if cur is None else cur:
                def f(v=v):
                    self.declare(v, fr)
                for s2, r, x in self.run_split(st, f):
                    if x is None:
                        ns.append(s2)
                    elif x == 'throw':
                        out.thr.append(s2)
            cur = self.limit(ns)
        out.norm = cur
        return out

    def declare(self, v, fr):
        t = fr.T[v['t']]
        if v.get('init') is not None:
            l = self.init_field(t, v['init'], fr)
        else:
            k = kind(t)
            if k[0] in ('vec', 'str'):
                l = self.mk(t, v['n'], True, 1, self.st, zero=True)
            else:
                l = self.mk(t, v['n'], False, 1, self.st)
                if self.pick and not v.get('static') and not isref(t):
                    self.mark_uninit(l, 0)
        if v.get('static') and not kind(t)[0] == 'cls':
            c = self.st.get(l[1]) if l[0] == 'o' else None
            if isinstance(c, Poly) and not t.startswith('const'):
                l = self.mk(ir.noref(t), v['n'], False, 1, self.st)
        self.st.env.setdefault(fr.fid, {})[v['id']] = l

    def mark_uninit(self, l, d):
        """partitions: scalars declared without a value"""
        if not (isinstance(l, tuple) and l and l[0] == 'o'):
            return
        o = self.st.get(l[1])
        if isinstance(o, Op) and o.key and o.key[0] == 'in':
            self.st.put(l[1], Op(('uninit', o.key[1]), True))
        elif isinstance(o, Poly) and len(o.syms()) == 1:
            self.symdef[min(o.syms())] = ('uninit',)
        elif isinstance(o, Arr):
            vals = []
            for x in o.vals:
                if isinstance(x, Poly) and len(x.syms()) == 1:
                    self.symdef[min(x.syms())] = ('uninit',)
                vals.append(Op(('uninit', x.key[1]), True) if isinstance(x, Op) and x.key and x.key[0] == 'in' else x)
            self.st.put(l[1], Arr(tuple(vals), o.et))

    def s_if(self, s, states, fr):
        out = Outc()
        tr, fl = [], []
        for st in states:
            def f():
                if s.get('var') is not None:
                    self.declare(s['var'], fr)
                return self.decide(self.cnd(s['c'], fr))
            for s2, r, x in self.run_split(st, f):
                if x == 'throw':
                    out.thr.append(s2)
                elif x is None:
                    (tr if r else fl).append(s2)
        o1 = self.exec(s['x'], self.limit(tr), fr)
        if s.get('y') is not None:
            o2 = self.exec(s['y'], self.limit(fl), fr)
        else:
            o2 = Outc()
            o2.norm = fl
        for o in (o1, o2):
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            out.thr += o.thr
        out.norm = self.limit(o1.norm + o2.norm)
        return out

    def s_ret(self, s, states, fr):
        out = Outc()
        rt = None
        if fr.fun is not None and '::lambda' not in fr.name:
            rt = fr.T[fr.fun.d['rt']]
        for st in states:
            def f():
                if s.get('e') is None:
                    return None
                if rt is not None and isref(rt):
                    return self.ev(s['e'], fr)
                v = self.ev(s['e'], fr)
                t = fr.T[s['e']['t']]
                if isinstance(v, tuple) and v and v[0] in ('o', 'e', 'u', 've'):
                    if rt is None:
                        # lambda: the type of the returned expression decides
                        if self.is_scalar_t(t):
                            return self.load(v, t)
                        return v
                    if self.is_scalar_t(rt):
                        return self.load(v, t)
                    if v[0] == 'e':
                        w = self.load(v, t)
                        if isinstance(w, tuple) and w[0] == 'o':
                            return ('o', self.deepcopy(w[1]))
                        return v
                return v
            for s2, r, x in self.run_split(st, f):
                if x is None:
                    out.ret.append((s2, r))
                elif x == 'throw':
                    out.thr.append(s2)
        return out

    def s_brk(self, s, states, fr):
        o = Outc()
        o.brk = states
        return o

    def s_cont(self, s, states, fr):
        o = Outc()
        o.cont = states
        return o

    def s_goto(self, s, states, fr):
        # conservative: give up on this path
        o = Outc()
        for st in states:
            st.inex = True
        return o

    def s_label(self, s, states, fr):
        for st in states:
            st.inex = True
        return self.exec(s['b'], states, fr)

    def s_try(self, s, states, fr):
        out = self.exec(s['b'], states, fr)
        thr = out.thr
        out.thr = []
        if thr:
            thr = self.limit(thr)
            for h in s['h']:
                sts = [t.clone() for t in thr]
                for t in sts:
                    t.inex = True
                    if 'var' in h:
                        self.st = t
                        t.env.setdefault(fr.fid, {})[h['var']['id']] = self.mk(ir.noref(fr.T[h['var']['t']]), 'exc', False, 2, t)
                o = self.exec(h['b'], sts, fr)
                out.norm += o.norm
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
                out.thr += o.thr
            if not any(h.get('any') for h in s['h']):
                out.thr += thr
        out.norm = self.limit(out.norm)
        return out

    def s_switch(self, s, states, fr):
        out = Outc()
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        # flatten cases: list of (labels, start index)
        flat = []
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('lab', x))
                x = x.get('b')
            if x is not None:
                flat.append(('st', x))
        for st in states:
            cases = [x for k, x in flat if k == 'lab' and x['k'] == 'case']

            def f():
                v = self.val(s['c'], fr)
                v = self.as_int(v, fr.T[s['c']['t']])
                for i, c in enumerate(cases):
                    cv = self.ival(c['v'], fr)
                    if self.decide(self.compare('==', v, cv)):
                        return id(c)
                return 'default'
            for s2, r, x in self.run_split(st, f):
                if x is not None:
                    if x == 'throw':
                        out.thr.append(s2)
                    continue
                start = None
                for i, (k, y) in enumerate(flat):
                    if k == 'lab' and ((r != 'default' and id(y) == r) or (r == 'default' and y['k'] == 'default')):
                        start = i
                        break
                if start is None:
                    out.norm.append(s2)
                    continue
                cur = [s2]
                for k, y in flat[start:]:
                    if k != 'st' or not cur:
                        continue
                    o = self.exec(y, cur, fr)
                    out.norm += o.brk
                    out.cont += o.cont
                    out.ret += o.ret
                    out.thr += o.thr
                    cur = o.norm
                out.norm += cur
        out.norm = self.limit(out.norm)
        return out

    def s_case(self, s, states, fr):
        return self.exec(s.get('b'), states, fr)

    s_default = s_case

    # ------------------------------------------------------------------ loops
    def s_for(self, s, states, fr):
        out = Outc()
        if s.get('i') is not None:
            o = self.exec(s['i'], states, fr)
            out.thr += o.thr
            states = o.norm

        def cond():
            return self.decide(self.cnd(s['c'], fr)) if s.get('c') is not None else True

        def inc():
            if s.get('n') is not None:
                self.ev(s['n'], fr)
        for st in states:
            self.loop(st, cond, s['b'], inc, fr, out, s, condexpr=s.get('c'))
        out.norm = self.limit(out.norm)
        return out

    def s_while(self, s, states, fr):
        out = Outc()

        def cond():
            if s.get('var') is not None:
                self.declare(s['var'], fr)
            return self.decide(self.cnd(s['c'], fr))
        for st in states:
            self.loop(st, cond, s['b'], None, fr, out, s, condexpr=s.get('c'))
        out.norm = self.limit(out.norm)
        return out

    def s_do(self, s, states, fr):
        out = Outc()
        # first iteration unconditionally, then while
        o = self.exec(s['b'], states, fr)
        out.norm += o.brk
        out.ret += o.ret
        out.thr += o.thr

        def cond():
            return self.decide(self.cnd(s['c'], fr))
        for st in self.limit(o.norm + o.cont):
            self.loop(st, cond, s['b'], None, fr, out, s, condexpr=s.get('c'))
        out.norm = self.limit(out.norm)
        return out

    def s_rfor(self, s, states, fr):
        out = Outc()
        for st in states:
            def f():
                return self.ev(s['r'], fr)
            for s2, rv, x in self.run_split(st, f):
                if x == 'throw':
                    out.thr.append(s2)
                    continue
                if x is not None:
                    continue
                self.st = s2
                self.range_loop(s2, rv, s, fr, out)
        out.norm = self.limit(out.norm)
        return out

    def range_loop(self, st, rv, s, fr, out):
        var = s['var']
        vt = fr.T[var['t']]
        saved = self.st
        self.st = st
        l = self.obj_of(rv, s['r'], fr)
        o = st.get(l[1]) if l[0] == 'o' else None
        if isinstance(o, Rec) and 'vif::matrix::' in o.t and 'base' in o.f:
            l = o.f['base']
            o = st.get(l[1]) if l[0] == 'o' else None
        if isinstance(o, Rec) and o.t.startswith('vif::vec<') and 'data' in o.f:
            dl = o.f['data']
            d = st.get(dl[1])
            viewp = ir.kind(d.et)[0] == 'ptr' if isinstance(d, Vec) else False
            cont = dl if isinstance(d, Vec) else None
        elif isinstance(o, (Vec, Str, Arr)):
            cont = l
            viewp = False
        else:
            cont = None
        if cont is not None:
            co = st.get(cont[1])
            n = co.size if isinstance(co, Vec) else co.len if isinstance(co, Str) else Poly.const(len(co.vals))
            ic = self.newobj(ZERO, st)

            def cond():
                return self.decide(('ge', n.sub(self.st.get(ic)).addc(-1)))

            def pre():
                i = self.st.get(ic)
                el = ('e', cont[1], i)
                if viewp:
                    p = self.load(el, co.et)
                    el = p.loc if isinstance(p, PtrV) else ('u', '?', self.nsym())
                if isref(vt):
                    c2 = self.st.get(cont[1])
                    if isinstance(c2, (Vec, Arr)) and ir.kind(c2.et)[0] in ('cls', 'vec', 'str', 'arr'):
                        w = self.load(el, c2.et)
                        b = w if isinstance(w, tuple) else el
                    else:
                        b = el
                else:
                    v = self.load(el, vt)
                    if isinstance(v, tuple) and v and v[0] == 'o':
                        b = ('o', self.deepcopy(v[1]))
                    elif isinstance(v, tuple):
                        b = self.mk(ir.noref(vt), var['n'], False, 2, self.st)
                    else:
                        if isinstance(v, Poly) and var.get('init') is not None and kind(vt)[0] == 'int':
                            ek = ir.kind(co.et if isinstance(co, (Vec, Arr)) else 'char')
                            src = co.et if isinstance(co, (Vec, Arr)) else 'char'
                            if ek[0] == 'ptr':
                                src = ek[1]
                            v = self.intcast(v, vt, src)
                        b = ('o', self.newobj(v))
                self.st.env.setdefault(fr.fid, {})[var['id']] = b

            def inc():
                self.st.put(ic, self.st.get(ic).addc(1))
            self.st = saved
            self.loop(st, cond, s['b'], inc, fr, out, s, pre=pre)
            return
        # class with begin()/end(): generic iteration through the inlined iterator
        bf = self.find_method(o.t if isinstance(o, Rec) else None, 'begin')
        ef = self.find_method(o.t if isinstance(o, Rec) else None, 'end')
        if bf is not None and ef is not None:
            it = self.find_iter_ops(bf)
            if it is not None:
                dummy = {'l': s['l'], 't': bf.d['rt'], 'a': [], 'pm': '', 'cm': True}

                def f0():
                    b = self.inline(bf, l, [], dummy, fr)
                    e2 = self.inline(ef, l, [], dummy, fr)
                    return b, e2
                self.st = saved
                for s3, r, x in self.run_split(st, f0):
                    if x is not None or r is None:
                        continue
                    b, e2 = r
                    if not (isinstance(b, tuple) and isinstance(e2, tuple)):
                        s3.inex = True
                        out.norm.append(s3)
                        continue
                    ne, inc_f, deref_f = it
                    d2 = {'l': s['l'], 't': ne.d['rt'], 'a': [], 'pm': 'c', 'cm': True}
                    d3 = {'l': s['l'], 't': inc_f.d['rt'], 'a': [], 'pm': ''}
                    d4 = {'l': s['l'], 't': deref_f.d['rt'], 'a': [], 'pm': '', 'cm': True}

                    def cond():
                        v = self.inline_v(ne, b, [e2], d2, fr)
                        return self.decide(self.as_cond(v))

                    def pre():
                        v = self.inline_v(deref_f, b, [], d4, fr)
                        if isinstance(v, Poly) and kind(vt)[0] == 'int':
                            v = self.intcast(v, vt, self.P.T[deref_f.d['rt']])
                        if isinstance(v, tuple):
                            bl = v
                        else:
                            bl = ('o', self.newobj(v))
                        self.st.env.setdefault(fr.fid, {})[var['id']] = bl

                    def inc():
                        self.inline_v(inc_f, b, [], d3, fr)
                    self.loop(s3, cond, s['b'], inc, fr, out, s, pre=pre)
                return
        # unknown range: arbitrary number of iterations over unknown elements
        self.st = saved
        ic = self.newobj(ZERO, st)

        def cond():
            self.st.inex = True
            return self.decide(('at', self.newatom('iter', False), False))

        def pre():
            self.st.env.setdefault(fr.fid, {})[var['id']] = self.mk(ir.noref(vt), var['n'], False, 2, self.st)

        def inc():
            self.st.put(ic, self.st.get(ic).addc(1))
        self.loop(st, cond, s['b'], inc, fr, out, s, pre=pre)

    def inline_v(self, f, this, argv, e, fr):
        self.nfid += 1
        nf = Frame(self.nfid, f.P, f, this, fr.depth + 1, f.sn, f.file, fr)
        nf.callline = e.get('l', 0)
        return self.run_body(nf, f.d['p'], argv, None, f.d['body'], fr, f.d.get('rt'))

    def find_method(self, t, name):
        if t is None:
            return None
        idx = getattr(self.P, '_midx', None)
        if idx is None:
            idx = {}
            for f in self.P.funs.values():
                if 'cls' in f.d and f.d.get('body') is not None:
                    idx.setdefault((base(self.P.T[f.d['cls']]), f.n), []).append(f)
            self.P._midx = idx
        c = idx.get((t, name))
        if not c:
            return None
        c = [f for f in c if f.d.get('cm')] or c
        return c[0]

    def find_iter_ops(self, bf):
        it = base(self.P.T[bf.d['rt']])
        ne = self.find_method(it, 'operator!=')
        de = self.find_method(it, 'operator*')
        idx = self.P._midx
        incs = [f for f in idx.get((it, 'operator++'), []) if not f.d['p']]
        if ne is None or de is None or not incs:
            return None
        return ne, incs[0], de

    def step(self, st, f):
        """run_split returning only normal results"""
        return self.run_split(st, f)

    def loop(self, st, cond, body, inc, fr, out, s, pre=None, condexpr=None):
        # phase A: unrolling while the condition is decided
        cur = [st]
        tot = 0
        n = 0
        outA = Outc()
        while True:
            nxt = []
            undecided = False
            for x in cur:
                res = self.run_split(x, cond)
                if not self.pick and sum(1 for r in res if r[2] is None) > 1 and not all(r[1] == res[0][1] for r in res):
                    undecided = True
                    break
                nxt.append((x, res))
            if undecided:
                break
            cont = []
            for x, res in nxt:
                for s2, r, ex in res:
                    if ex == 'throw':
                        outA.thr.append(s2)
                    elif ex is None:
                        if r:
                            cont.append(s2)
                        else:
                            outA.norm.append(s2)
            if not cont:
                out.norm += outA.norm
                out.ret += outA.ret
                out.thr += outA.thr
                return
            n += 1
            if n > self.UNROLL or len(cont) > self.maxcont:
                undecided = True
                break
            ends = self.iter_body(cont, body, inc, fr, outA, pre)
            if not ends:
                out.norm += outA.norm
                out.ret += outA.ret
                out.thr += outA.thr
                return
            cur = ends
        if undecided and n > 0 and n <= self.UNROLL and all(len(c) for c in [cur]):
            # some iterations were decided, then it became undecided: restart symbolically from the initial state
            pass
        if self.hooks.get('diverge') and n > self.UNROLL and not self.quiet:
            # laws: a feasible state from which no path leaves the loop any more
            for x in cont[:2]:
                if x.inex:
                    continue
                o2, ne = Outc(), len(self.exits)
                save = self.st
                y = x.clone()
                self.quiet += 1
                try:
                    self.loop_from(y, cond, body, inc, fr, o2, s, pre)
                finally:
                    self.quiet -= 1
                    self.st = save
                if not (o2.norm or o2.ret or o2.thr) and len(self.exits) == ne:
                    self.hooks['diverge'](self, x, s, fr)
        if self.pick:
            # too many iterations for the partition: nothing is claimed about what follows
            st = st.clone()
            st.inex = True
        self.loop_sym(st, cond, body, inc, fr, out, s, pre, condexpr)

    def iter_body(self, states, body, inc, fr, out, pre):
        cur = states
        if pre is not None:
            ns = []
            for x in cur:
                for s2, r, ex in self.run_split(x, pre):
                    if ex is None:
                        ns.append(s2)
                    elif ex == 'throw':
                        out.thr.append(s2)
            cur = ns
        o = self.exec(body, cur, fr)
        out.norm += o.brk
        out.ret += o.ret
        out.thr += o.thr
        cur = self.limit(o.norm + o.cont)
        if inc is not None:
            ns = []
            for x in cur:
                for s2, r, ex in self.run_split(x, inc):
                    if ex is None:
                        ns.append(s2)
                    elif ex == 'throw':
                        out.thr.append(s2)
            cur = ns
        return cur

    def loop_sym(self, st, cond, body, inc, fr, out, s, pre, condexpr):
        # entry test
        entries = []
        for s2, r, ex in self.run_split(st, cond):
            if ex == 'throw':
                out.thr.append(s2)
            elif ex is None:
                if r:
                    entries.append(s2)
                else:
                    out.norm.append(s2)
        if entries and pre is None and inc is None and s.get('k') == 'while' and tiny_body(body):
            # peel one iteration: the states that leave after exactly one iteration stay exact
            ends = self.iter_body(self.limit(entries), body, inc, fr, out, pre)
            entries = []
            for x in ends:
                for s2, r, ex in self.run_split(x, cond):
                    if ex == 'throw':
                        out.thr.append(s2)
                    elif ex is None:
                        if r:
                            entries.append(s2)
                        else:
                            out.norm.append(s2)
        for en in self.limit(entries):
            self.loop_from(en, cond, body, inc, fr, out, s, pre)

    def loop_from(self, en, cond, body, inc, fr, out, s, pre):
        """en: state in which the condition has just been found true for the first iteration"""
        outer_written = en.written
        entry = en.clone()
        headkeys = set(entry.keys())
        M = {}          # objid -> mode
        ivs = {}        # loc key -> delta poly (over invariant symbols)
        cands = None
        mark = self.S.n
        savemark = self._mark
        savecapt = self.capt
        condcapt = bodycapt = []
        lost = True
        k = self.S.fresh('k#%d' % s.get('l', 0), 0, BIG, True)
        kp = Poly.sym(k)
        self.quiet += 1
        dropped = set()
        headsyms = {}
        envkeys = {f: set(v) for f, v in entry.env.items()}
        try:
            prevM = None
            for rnd in range(9):
                head, hs = self.mk_head(entry, M, ivs, kp, cands)
                if head is None:
                    break
                o2 = Outc()
                # condition holds at the head (assumed for k>=1 by re-evaluating it)
                ts = []
                self.capt = []
                for s2, r, ex in self.run_split(head, cond):
                    if ex is None and r:
                        ts.append(s2)
                condcapt = self.capt
                self.capt = []
                for t in ts:
                    t.written = set()
                nx0 = self.nexit
                ends = self.iter_body(self.limit(ts), body, inc, fr, o2, pre)
                bodycapt = self.capt
                lost = bool(o2.norm or o2.ret or o2.thr or self.nexit != nx0)
                allends = ends
                changed = False
                self._mark = mark
                # which head objects were modified
                wr = set()
                for t in allends:
                    wr |= t.written
                for t in ts:
                    wr |= t.written
                for t in o2.norm:
                    wr |= t.written & set()     # break states handled at exit
                newM = [o for o in wr if o in headkeys and o not in M and self.really_changed(head, allends, o)]
                for o in newM:
                    M[o] = True
                    changed = True
                # induction variables
                if not changed:
                    used = set(ivs)
                    for q in used:
                        if not self.iv_ok(q, ivs[q], entry, allends, kp):
                            dropped.add(q)
                            del ivs[q]
                            changed = True
                    if not changed:
                        for key, sym in hs.items():
                            if key in ivs or key in dropped:
                                continue
                            d = self.delta_of(key, sym, head, allends, M, hs)
                            if d is not None:
                                ivs[key] = d
                                changed = True
                if changed:
                    cands = None
                    continue
                if cands is None:
                    cands = self.make_cands(entry, M, ivs, hs, kp, allends, head)
                    for c in condcapt:
                        if c[0] in ('ne', 'eq') and c[1].m.get((k,), 0) in (1, -1) and not any(k in q and len(q) > 1 for q in c[1].m):
                            a = c[1].m[(k,)]
                            u = Poly({q: -x * a for q, x in c[1].m.items() if q != (k,)})
                            if all(s2 <= mark for s2 in u.syms()) and ('kub', u) not in cands:
                                cands.append(('kub', u))
                        elif c[0] == 'ge' and c[1].m.get((k,), 0) == -1 and not any(k in q and len(q) > 1 for q in c[1].m):
                            # the condition held in the previous iteration: k - 1 <= r
                            u = Poly({q: x for q, x in c[1].m.items() if q != (k,)}).addc(1)
                            if all(s2 <= mark for s2 in u.syms()) and ('kub', u) not in cands:
                                cands.append(('kub', u))
                    if cands:
                        continue
                    break
                bad = [c for c in cands if not self.cand_ok(c, allends, entry, M, ivs, kp)]
                if not bad:
                    break
                cands = [c for c in cands if c not in bad]
        finally:
            self.quiet -= 1
            self._mark = savemark
            self.capt = savecapt
        # k stands for a reachable iteration number unless an equality test on it can leave the loop early
        if any((c[0] in ('eq', 'ne') or (c[0] == 'ge' and lost)) and k in c[1].syms() for c in bodycapt):
            self.S.t[k].exact = False
        if any(c[0] in ('eq', 'ne', 'ge') and k in c[1].syms() for c in condcapt) and not any(c[0] == 'kub' for c in cands or []):
            self.S.t[k].exact = False
        if self.capt is not None:
            self.capt.extend(bodycapt)
        # final pass, recording obligations
        head, hs = self.mk_head(entry, M, ivs, kp, cands or [])
        if head is None:
            return
        # first iteration precisely?  the head state covers k = 0 as well
        ts = []
        exits = []
        for s2, r, ex in self.run_split(head, cond):
            if ex == 'throw':
                out.thr.append(s2)
            elif ex is None:
                if r:
                    ts.append(s2)
                else:
                    try:
                        s2.facts.add_ge(kp.addc(-1))
                        exits.append(s2)
                    except Infeasible:
                        pass
        o2 = Outc()
        self.iter_body(self.limit(ts), body, inc, fr, o2, pre)
        for t in exits + o2.norm + [x[0] for x in o2.ret] + o2.thr:
            t.written |= outer_written
        for o in M:
            for t in exits + o2.norm + [x[0] for x in o2.ret] + o2.thr:
                t.written.add(o)
        out.norm += exits + o2.norm
        out.ret += o2.ret
        out.thr += o2.thr

    def really_changed(self, head, ends, o):
        v = head.get(o)
        for t in ends:
            w = t.get(o)
            if w is v:
                continue
            if isinstance(v, Vec) and isinstance(w, Vec):
                return True
            if not self.same_val(v, w, t.facts, t.facts):
                return True
        return False

    def mk_head(self, entry, M, ivs, kp, cands):
        head = entry.clone()
        head.written = set()
        hs = {}
        save = self.st
        self.st = head
        try:
            for o in sorted(M):
                v = entry.get(o)
                head.delta[o] = self.head_val(o, v, ivs, kp, hs, entry)
            # atoms decided inside are path facts of the entry; they stay (they are about immutable values)
            if cands:
                for c in cands:
                    self.assume_cand(c, hs, entry, ivs, kp)
        except Infeasible:
            return None, hs
        finally:
            self.st = save
        return head, hs

    def hv_int(self, key, v, ivs, kp, hs, lo=None, name='i'):
        if key in ivs:
            hs[key] = (v.add(kp.mul(ivs[key])), v)
            return hs[key][0]
        x = self.fresh('%s~' % name, lo, None, False)
        hs[key] = (x, v)
        return x

    def head_val(self, o, v, ivs, kp, hs, entry):
        if isinstance(v, Poly):
            return self.hv_int((o,), v, ivs, kp, hs)
        if isinstance(v, Vec):
            sz = self.hv_int((o, 'size'), v.size, ivs, kp, hs, 0, 'size')
            eb = v.eb
            hs[(o, 'eb')] = (None, v)
            return Vec(sz, v.et, self.nsym(), ('cand' if False else eb), v.origin)
        if isinstance(v, Str):
            return Str(self.hv_int((o, 'len'), v.len, ivs, kp, hs, 0, 'len'), ('s', self.nsym()))
        if isinstance(v, Arr):
            vals = []
            for i, x in enumerate(v.vals):
                if isinstance(x, Poly):
                    vals.append(self.hv_int((o, i), x, ivs, kp, hs, 0 if v.et.startswith('unsigned') else None, 'a'))
                elif isinstance(x, B):
                    vals.append(B(('at', self.newatom('hv', False), False)))
                elif isinstance(x, tuple):
                    vals.append(x)
                else:
                    vals.append(Op(('hv', self.nsym()), True))
            return Arr(tuple(vals), v.et)
        if isinstance(v, B):
            return B(('at', self.newatom('hv', False), False))
        if isinstance(v, PtrV):
            if v.loc[0] == 'e':
                return PtrV(('e', v.loc[1], self.hv_int((o, 'ptr'), v.loc[2], ivs, kp, hs, None, 'p')))
            return PtrV(('u', '?', self.nsym()))
        if isinstance(v, Rec):
            return v
        if isinstance(v, (Clo, FnV)):
            return v
        return Op(('hv', self.nsym()), getattr(v, 'exact', False))

    def cur_int(self, t, key):
        v = t.get(key[0])
        if len(key) == 1:
            return v if isinstance(v, Poly) else None
        if key[1] == 'size':
            return v.size if isinstance(v, Vec) else None
        if key[1] == 'len':
            return v.len if isinstance(v, Str) else None
        if key[1] == 'ptr':
            return v.loc[2] if isinstance(v, PtrV) and v.loc[0] == 'e' else None
        if key[1] == 'eb':
            return None
        if isinstance(v, Arr) and isinstance(key[1], int):
            x = v.vals[key[1]]
            return x if isinstance(x, Poly) else None
        return None

    def delta_of(self, key, sym, head, ends, M, hs):
        if key[-1] == 'eb':
            return None
        x = sym[0]
        d = None
        msyms = set()
        for k2, (y, _) in hs.items():
            if y is not None:
                msyms |= y.syms() if k2 != key else set()
        for t in ends:
            v = self.cur_int(t, key)
            if v is None:
                return None
            q = t.facts.norm(v.sub(x))
            if d is None:
                d = q
            elif d != q:
                return None
        if d is None:
            return None
        hsy = set()
        for k2, (y, v0) in hs.items():
            if y is not None:
                hsy |= (y.syms() - v0.syms())
        if d.syms() & hsy:
            return None
        # symbols created inside the loop body are not invariant
        if any(s2 > self._mark for s2 in d.syms()):
            return None
        return d

    _mark = 1 << 60

    def iv_ok(self, key, d, entry, ends, kp):
        e0 = self.cur_int(entry, key)
        if e0 is None:
            return False
        want = e0.add(kp.addc(1).mul(d))
        for t in ends:
            v = self.cur_int(t, key)
            if v is None or not t.facts.norm(v.sub(want)).m == {}:
                if v is None:
                    return False
                q = t.facts.norm(v.sub(want))
                if not (t.facts.entails(q) and t.facts.entails(q.neg())):
                    return False
        return True

    # candidate invariants: ('ge', fn) built from keys: (kind, key, extra)
    def make_cands(self, entry, M, ivs, hs, kp, ends, head):
        c = []
        keys = [k for k in hs if k not in ivs and k[-1] != 'eb' and self.cur_int(entry, k) is not None]
        for k in keys:
            c.append(('lo', k, None))
            c.append(('hi', k, None))
            c.append(('hik', k, None))
            # entry upper bounds
            e0 = self.cur_int(entry, k)
            for u in self.upper_cands(entry.facts, e0)[:6]:
                if not (u.syms() & self.msyms(hs)):
                    c.append(('ub', k, u))
            # bounds holding at the end of an iteration over invariant symbols
            for t in ends[:2]:
                v = self.cur_int(t, k)
                if v is None:
                    continue
                for u in self.upper_cands(t.facts, v)[:6]:
                    if not (u.syms() & self.msyms(hs)) and all(s2 <= self.entry_mark(entry) for s2 in u.syms()):
                        if entry.facts.entails(u.sub(e0)):
                            c.append(('ub', k, u))
        allk = [k for k in hs if k[-1] != 'eb' and self.cur_int(entry, k) is not None]
        if len(keys) <= 12:
            for i in range(len(keys)):
                for k2 in allk:
                    if k2 == keys[i]:
                        continue
                    if k2 in keys and keys.index(k2) < i:
                        continue
                    d = entry.facts.norm(self.cur_int(entry, keys[i]).sub(self.cur_int(entry, k2)))
                    if d.isconst() or len(d.m) <= 2:
                        c.append(('rel', keys[i], k2, 1))
                        c.append(('rel', keys[i], k2, -1))
        # element bounds of modified vectors
        for k in hs:
            if k[-1] == 'eb':
                v0 = hs[k][1]
                if kind(v0.et)[0] != 'int':
                    continue
                if v0.eb == 'bot' or isinstance(v0.eb, tuple):
                    c.append(('eblo', k[0], None))
                    seen = []
                    for t in ends:
                        w = t.get(k[0])
                        if isinstance(w, Vec) and isinstance(w.eb, tuple) and w.eb[1] is not None:
                            us = self.upper_cands(t.facts, w.eb[1]) + [t.facts.norm(w.eb[1])]
                            for u in us[:8]:
                                if u not in seen and not (u.syms() & self.msyms(hs)) and all(s2 <= self.entry_mark(entry) for s2 in u.syms()):
                                    seen.append(u)
                                    c.append(('ebhi', k[0], u))
        out = []
        for x in c:
            if x not in out:
                out.append(x)
        return out[:60]

    def entry_mark(self, entry):
        return self._mark

    def msyms(self, hs):
        s = set()
        for k2, (y, v0) in hs.items():
            if y is not None:
                s |= (y.syms() - v0.syms())
        return s

    def cand_poly(self, c, getk, entry, kp):
        """poly >= 0 for the candidate given current values via getk"""
        kind_, k = c[0], c[1]
        if kind_ == 'kub':
            return c[1].sub(kp)
        if kind_ in ('lo', 'hi', 'hik', 'ub'):
            x = getk(k)
            e0 = self.cur_int(entry, k)
            if x is None:
                return None
            if kind_ == 'lo':
                return x.sub(e0)
            if kind_ == 'hi':
                return e0.sub(x)
            if kind_ == 'hik':
                return e0.add(kp).sub(x)
            return c[2].sub(x)
        if kind_ == 'rel':
            x, y = getk(k), getk(c[2])
            if x is None or y is None:
                return None
            d = x.sub(y).sub(self.cur_int(entry, k).sub(self.cur_int(entry, c[2])))
            return d if c[3] > 0 else d.neg()
        return None

    def assume_cand(self, c, hs, entry, ivs, kp):
        if c[0] in ('eblo', 'ebhi'):
            o = c[1]
            v = self.st.get(o)
            if not isinstance(v, Vec):
                return
            if (o, 'eb') not in hs:
                return
            v0 = hs[(o, 'eb')][1]
            lo, hi = (None, None)
            if isinstance(v.eb, tuple) and getattr(self, '_ebset', {}).get(v.ver):
                lo, hi = v.eb
            if c[0] == 'eblo':
                lo = ZERO if v0.eb == 'bot' or (v0.eb[0] is not None and entry.facts.entails(v0.eb[0])) else None
            else:
                if hi is None:
                    hi = c[2]
            nv = v.w(eb=(lo, hi) if (lo is not None or hi is not None) else None)
            self._ebset = getattr(self, '_ebset', {})
            self._ebset[nv.ver] = True
            self.st.delta[o] = nv
            return
        p = self.cand_poly(c, lambda k: self.cur_int(self.st, k), entry, kp)
        if p is not None:
            self.st.facts.add_ge(p)

    def cand_ok(self, c, ends, entry, M, ivs, kp):
        if c[0] in ('eblo', 'ebhi'):
            o = c[1]
            v0 = entry.get(o)
            if c[0] == 'ebhi' and isinstance(v0.eb, tuple):
                if v0.eb[1] is None or not entry.facts.entails(c[2].sub(v0.eb[1])):
                    return False
            for t in ends:
                w = t.get(o)
                if not isinstance(w, Vec):
                    return False
                if w.eb == 'bot':
                    continue
                if w.eb is None:
                    return False
                if c[0] == 'eblo':
                    if w.eb[0] is None or not t.facts.entails(w.eb[0]):
                        return False
                else:
                    if w.eb[1] is None or not t.facts.entails(c[2].sub(w.eb[1])):
                        return False
            return True
        p0 = self.cand_poly(c, lambda k: self.cur_int(entry, k), entry, ZERO)
        if p0 is None or not entry.facts.entails(p0):
            return False
        for t in ends:
            p = self.cand_poly(c, lambda k: self.cur_int(t, k), entry, kp.addc(1))
            if p is None or not t.facts.entails(p):
                return False
        return True


def isref_call(x, fr):
    return False


CALLS = {}
METHODS = {}
CTORS = {}
STD_CTORS = {}

from . import summ  # noqa: E402,F401
