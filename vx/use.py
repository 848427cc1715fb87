"""Obligation programs: client code of the public interface (drivers/use) with require()/expect(), interpreted abstractly
for arbitrary contents, first for arbitrary shapes and then on each partition of small shapes."""
import time
from . import small, roots, contract, rat
from .lin import Poly, Infeasible
from .eng import B, Op
from .ir import kind

LABELS = ['0', '1', '2', '3', 's', 'c']


class Use:
    def __init__(self, E):
        self.E = E
        self.n = {}          # line -> [status, msg]

    def require(self, E, e, fr):
        c = E.cnd(e['a'][0], fr)
        E.assume(c, True)
        return None

    def expect(self, E, e, fr):
        c = E.cnd(e['a'][0], fr)
        line = e.get('l', 0)
        fp = fr
        while fp.up is not None and fp.up.fun is not None:
            line = fp.callline if fp.up.up is None else line
            fp = fp.up
        o = self.n.setdefault((fr.file, e.get('l', 0)), ['proven', ''])
        if E.quiet:
            E.assume(c, True)
            return None
        t = E.truth(c)
        if t is True:
            return None
        if not E.decide(c):
            st = E.st
            if not st.inex and o[0] != 'refuted':
                m = st.facts.exact_model([])
                if m is not None and (not E.obfilter or E.obfilter(st, Poly.const(0))):
                    o[0] = 'refuted'
                    o[1] = E.showmodel(m)
            if o[0] == 'proven':
                o[0] = 'unknown'
            raise Infeasible()
        return None

    def diverge(self, E, st, s, fr):
        m = st.facts.exact_model([])
        if m is not None and (not E.obfilter or E.obfilter(st, Poly.const(0))):
            self.n[(fr.file, s.get('l', 0))] = ['refuted', 'the loop never ends, ' + E.showmodel(m)]

    def pick(self, E, a):
        while a.key[0] in ('std::min', 'std::max'):
            n, x, y = a.key
            x, y = Op(x, a.exact), Op(y, a.exact)
            c = E.decide(E.compare('<', y, x) if n == 'std::min' else E.compare('<', x, y))
            a = self.pick(E, y if c else x)
        return a

    def each(self, E, e, fr):
        """case analysis over the integers lo..hi"""
        k, lo, hi = (E.intcast(E.val(x, fr), fr.T[e['t']], fr.T[x['t']]) for x in e['a'])
        for c in range(lo.cval(), hi.cval() + 1):
            if E.decide(('eq', k.addc(-c))):
                return Poly.const(c)
        raise Infeasible()

    def same(self, E, e, fr):
        a, b = E.val(e['a'][0], fr), E.val(e['a'][1], fr)
        if type(a) is type(b) and isinstance(a, (Op, Poly, B)) and a == b:
            return B(('t',))
        if isinstance(a, Op) and isinstance(b, Op):
            a, b = self.pick(E, a), self.pick(E, b)
            if a == b or rat.equal(a.key, b.key):
                return B(('t',))
        if isinstance(a, tuple) or isinstance(b, tuple):
            return NotImplemented
        c = E.compare('==', a, b)
        if isinstance(a, Op) and isinstance(b, Op) and E.truth(c) is None:
            if E.decide(c):
                return B(('t',))
            return B(('t',)) if E.decide(E.compare('!=', a, a)) and E.decide(E.compare('!=', b, b)) else B(('f',))
        return B(c)


def analyse(P, f, label, tmax=8.0, budget=250000):
    U = Use(None)
    hooks = {'require': U.require, 'expect': U.expect, 'same': U.same, 'each': U.each, 'diverge': U.diverge}
    if f.sn.rsplit('::', 1)[-1].startswith('late_'):
        hooks['late'] = True
    if label:
        lab, _, mode = label.partition('/')
        pk = small.Pick(lab, small.has_vec(f))

    def pre(E):
        U.E = E
        if label:
            E.pick = pk
            E.intpick = small.IntPick(mode) if mode else lambda *a: None
            E.UNROLL = 66
            E.maxcont = 64
            E.KMAX = 400
            E.obfilter = lambda st, neg: small.witnessed(E, st, neg)
    R = roots.analyse(P, f, budget=budget, tmax=tmax, pre=pre, hooks=hooks)
    R.use = U
    R.bad = []
    # a program stops with an error although its inputs are valid
    for s, site in R.E.exits + [(s, None) for s in R.thrs] if not f.sn.split('::')[-1].startswith('rejects_') else []:
        if not contract.exact_state(R, s):
            continue
        m = s.facts.exact_model([])
        if m is not None and (not label or small.witnessed(R.E, s, Poly.const(0))):
            R.bad.append((site, R.E.showmodel(m)))
    return R
