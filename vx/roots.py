"""Entry points: analyse one public function with arbitrary (symbolic) arguments."""
import time
from .lin import Poly, ZERO, ONE, Infeasible
from . import ir
from .ir import kind, base, isref, strip_targs as sn, vecinfo
from .eng import Engine, Frame, State, Budget, Outc, B, Op, PtrV, Vec, Str, Arr, Rec


class Result:
    pass


EXACT_CLS = ('vif::vec<', 'vif::impl::range_impl', 'vif::impl::vec_access', 'std::', 'vif::matrix::mat<', 'vif::matrix::wrapper<',
             'vif::matrix::const_wrapper<', 'vif::impl::repeated_value')


def exact_type(t):
    """classes whose public state is unconstrained; the state of any other class obeys invariants of
    that class that are not known here, so its fields are never used as a counterexample"""
    k = kind(t)
    return k[0] != 'cls' or base(t).startswith(EXACT_CLS)


def sym_args(E, f, exact=True):
    """(this loc, arg values)"""
    this = None
    T = f.P.T
    if 'cls' in f.d and f.d.get('ck') != 'ctor' and not f.d.get('st'):
        t = base(T[f.d['cls']])
        this = E.mk(t, 'this', exact_type(t), 0, E.st)
    argv = []
    for i, p in enumerate(f.d['p']):
        t = T[p['t']]
        n = 'a%d' % i if E.pick else p['n'] or 'arg%d' % i
        k = kind(t)
        if k[0] == 'ptr':
            argv.append(PtrV(('u', k[1], E.nsym())))
        elif E.pick and E.intpick and kind(ir.noref(t))[0] in ('int', 'bool') and E.intpick(n, None, kind(ir.noref(t))[0], ir.noref(t)) is not None:
            c = E.intpick(n, None, kind(ir.noref(t))[0], ir.noref(t))
            v = (B(('t',)) if c else B(('f',))) if kind(ir.noref(t))[0] == 'bool' else Poly.const(c)
            argv.append(('o', E.newobj(v, E.st)))
        else:
            argv.append(E.mk(ir.noref(t), n, exact_type(ir.noref(t)), 0, E.st))
    return this, argv


def analyse(P, f, budget=60000, hooks=None, tmax=20.0, setup=None, pre=None):
    E = Engine(P, budget, root=f.fn, hooks=hooks)
    if pre:
        pre(E)
    E.tend = time.time() + tmax
    R = Result()
    R.E = E
    R.err = None
    R.ret = []
    R.thr = 0
    R.thrs = []
    R.this = None
    try:
        this, argv = sym_args(E, f)
        if f.d.get('ck') == 'ctor':
            this = ('o', E.alloc_rec(base(P.T[f.d['cls']])))
        if setup:
            setup(E, f, this, argv)
        R.this, R.argv = this, argv
        R.st0 = E.st.clone()
        fr0 = Frame(0, P, None, None, 0, '<root>', f.file, None)
        E.nfid += 1
        nf = Frame(E.nfid, P, f, this, 1, f.sn, f.file, None)
        nf.callline = f.l

        def go():
            return E.run_body(nf, f.d['p'], argv, None, f.d['body'], fr0, f.d.get('rt'),
                              inits=f.d.get('inits') if f.d.get('ck') == 'ctor' else None)
        for s, r, x in E.run_split(E.st, go):
            if x is None:
                R.ret.append((s, r))
            elif x == 'throw':
                R.thr += 1
                R.thrs.append(s)
    except Budget:
        R.err = 'budget'
    except RecursionError:
        R.err = 'recursion'
    R.obls = list(E.obls.values())
    R.steps = E.steps
    return R
