"""Contracts over the observable shape of values at the entry and at every normal exit of a function.

A contract is a set of facts in a small vocabulary:
  a0, a1, ...  arguments (entry values); this: the object (entry value)
  a0', this'   value of a mutable argument / the object on exit;  ret: returned value
  x.d0, x.d1.. dimensions of a vif::vec, x.n its number of elements (product of the dimensions)
  x.len        length of a string, x.sz size of a std::vector, x[i] element of an array of integers,
  x            value of an integer
Kinds: 'eq' (lhs == rhs), 'ge' (lhs >= rhs), 'inv' (element storage of a vec holds exactly
product-of-dimensions elements), 'acc' (no error exit is feasible when all rejection facts hold).
"""
import re
from .lin import Poly, ZERO, ONE, Infeasible
from . import ir
from .ir import kind, base, isref, vecinfo
from .eng import Vec, Str, Arr, Rec, B, Op, PtrV

LAM = re.compile(r'\(lambda at [^()]*?\)')


def sig(f):
    T = f.P.T
    ps = ','.join(LAM.sub('(lambda)', T[p['t']]) for p in f.d['p'])
    s = '%s(%s)%s' % (LAM.sub('(lambda)', f.fn), ps, ' const' if f.d.get('cm') else '')
    return s.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')


def is_const_ref(t):
    t = t.strip()
    return t.startswith('const ') or ' const &' in t or t.endswith('const')


def walk(E, st, v, name, out, vecs, depth=0):
    """named integer terms of the value v in state st"""
    if isinstance(v, Poly):
        out[name] = v
        return
    if isinstance(v, tuple) and v:
        if v[0] == 'o':
            o = st.get(v[1])
        elif v[0] == 'e':
            o = st.get(v[1])
            if isinstance(o, (Vec, Arr)):
                out[name + '@'] = v[2]
            return
        elif v[0] == 've':          # element designated by a view
            out[name + '@'] = v[2]
            return
        else:
            return
        if isinstance(o, Poly):
            out[name] = o
        elif isinstance(o, Str):
            out[name + '.len'] = o.len
        elif isinstance(o, Vec):
            out[name + '.sz'] = o.size
        elif isinstance(o, Arr):
            if len(o.vals) <= 4:
                for i, x in enumerate(o.vals):
                    if isinstance(x, Poly):
                        out['%s[%d]' % (name, i)] = x
                    elif depth < 2:
                        walk(E, st, x, '%s[%d]' % (name, i), out, vecs, depth + 1)
        elif isinstance(o, Rec):
            if vecinfo(o.t) and 'dims' in o.f and 'data' in o.f:
                d = st.get(o.f['dims'][1])
                s = st.get(o.f['data'][1])
                if isinstance(d, Arr) and isinstance(s, Vec) and all(isinstance(x, Poly) for x in d.vals):
                    prod = ONE
                    for i, x in enumerate(d.vals):
                        prod = prod.mul(x)
                        if len(d.vals) > 1:
                            out['%s.d%d' % (name, i)] = x
                    out[name + '.n'] = prod
                    vecs[name] = (prod, s.size)
            elif depth < 2:
                for n, l in o.f.items():
                    if n == 'safe' or (n == 'parent' and '::safe_proxy' not in o.t):
                        continue
                    walk(E, st, l, '%s.%s' % (name, n), out, vecs, depth + 1)


def pre_terms(f, R):
    out, vecs = {}, {}
    if R.this is not None and f.d.get('ck') != 'ctor':
        walk(R.E, R.st0, R.this, 'this', out, vecs)
    for i, v in enumerate(R.argv):
        walk(R.E, R.st0, v, 'a%d' % i, out, vecs)
    return out, vecs


def post_terms(f, R, s, v):
    out, vecs = {}, {}
    T = f.P.T
    if R.this is not None and (f.d.get('ck') == 'ctor' or not f.d.get('cm')):
        walk(R.E, s, R.this, "this'", out, vecs)
    for i, p in enumerate(f.d['p']):
        t = T[p['t']]
        if isref(t) and not is_const_ref(t):
            walk(R.E, s, R.argv[i], "a%d'" % i, out, vecs)
    rt = T[f.d['rt']] if 'rt' in f.d else 'void'
    if v is not None and rt != 'void':
        if isref(rt) and isinstance(v, tuple) and v[0] == 'o' and R.this is not None and v[1] == R.this[1]:
            pass
        else:
            walk(R.E, s, v, 'ret', out, vecs)
    return out, vecs


class Ev:
    """decides facts in one state"""

    def __init__(self, R, st):
        self.R = R
        self.st = st
        self.F = st.facts
        self.S = R.E.S

    def ge(self, p):
        """'proven' | ('refuted', model) | 'unknown'"""
        F = self.F
        if F.entails(p):
            return 'proven'
        neg = F.norm(p.neg().addc(-1))
        if self.st.inex:
            return 'unknown'
        m = F.exact_model([neg])
        if m is None:
            return 'unknown'
        sv = self.R.E.st
        self.R.E.st = self.st
        try:
            return ('refuted', self.R.E.showmodel(m))
        finally:
            self.R.E.st = sv

    def eq(self, p):
        if self.F.norm(p) == ZERO:
            return 'proven'
        a = self.ge(p)
        if isinstance(a, tuple):
            return a
        b = self.ge(p.neg())
        if isinstance(b, tuple):
            return b
        return 'proven' if a == b == 'proven' else 'unknown'


def parse_term(x, terms):
    """term: int | name | name+name | name*name | name-name (left to right), parentheses allowed"""
    if isinstance(x, int):
        return Poly.const(x)
    if '(' in x:
        return parse_par(x, terms)
    for op in ('+', '-', '*'):
        if op in x[1:]:
            a, b = x.rsplit(op, 1)
            pa, pb = parse_term(a, terms), parse_term(b, terms)
            if pa is None or pb is None:
                return None
            return pa.add(pb) if op == '+' else pa.sub(pb) if op == '-' else pa.mul(pb)
    if x.lstrip('-').isdigit():
        return Poly.const(int(x))
    return terms.get(x)


TOK = re.compile(r"[()+*-]|[A-Za-z_][\w.'\[\]@]*|\d+")


def parse_par(x, terms):
    toks = TOK.findall(x)
    pos = [0]

    def atom():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            v = expr()
            pos[0] += 1
            return v
        if t.isdigit():
            return Poly.const(int(t))
        return terms.get(t)

    def term():
        v = atom()
        while pos[0] < len(toks) and toks[pos[0]] == '*':
            pos[0] += 1
            w = atom()
            v = None if v is None or w is None else v.mul(w)
        return v

    def expr():
        v = term()
        while pos[0] < len(toks) and toks[pos[0]] in '+-':
            o = toks[pos[0]]
            pos[0] += 1
            w = term()
            v = None if v is None or w is None else v.add(w) if o == '+' else v.sub(w)
        return v
    return expr()


def size_names(terms):
    return [n for n in terms if n.endswith(('.n', '.sz', '.len')) or re.search(r'\.d\d$', n)]


def candidates(pre, post_list):
    """candidate facts given entry terms and the exit terms common to all exits"""
    A, Bf = [], []
    shp = [n for n in pre if re.search(r'(\.n|\.sz|\.d\d)$', n)]
    ints = [n for n in pre if n not in shp and not n.endswith('.len') and not n.endswith('@')]
    lens = [n for n in pre if n.endswith('.len')]
    root = lambda n: n.split('.')[0].split('[')[0]
    for i, x in enumerate(shp):
        for y in shp[i + 1:]:
            A.append(('eq', x, y))
        A.append(('ge', x, 1))
        A.append(('ge', x, 2))
    for x in lens:
        A.append(('ge', x, 1))
    for n in ints:
        A.append(('ge', n, 0))
        A.append(('ge', n, 1))
        for x in shp + lens:
            A.append(('gt', x, n))
            A.append(('ge', x, n))
            A.append(('nn', n, x))      # n + x >= 0
            A.append(('eq', n, x))
    for i, n in enumerate(ints):
        for m in ints[i + 1:]:
            A.append(('ge', n, m))
            A.append(('ge', m, n))
    common = None
    for p in post_list:
        common = set(p) if common is None else common & set(p)
    common = sorted(common or [])
    sizes = shp + lens
    for x in common:
        if x.endswith('@'):
            for y in ints:
                Bf.append(('eq', x, y))
            Bf.append(('ge', x, 0))
            for y in sizes:
                Bf.append(('gt', y, x))
            continue
        for c in (0, 1, 2, 3):
            Bf.append(('eq', x, c))
        for y in sizes + ints:
            Bf.append(('eq', x, y))
        for y in sizes + ints:
            Bf.append(('eq', x, y + '+1'))
            Bf.append(('eq', x, y + '-1'))
        if len(sizes + ints) <= 8:
            for y in sizes + ints:
                for z in sizes + ints:
                    if y != z:
                        Bf.append(('eq', x, y + '-' + z))
                        Bf.append(('eq', x, y + '-' + z + '+1'))
        for i, y in enumerate(sizes + ints):
            for z in (sizes + ints)[i:]:
                if root(y) != root(z) or y != z:
                    if len(sizes + ints) <= 12:
                        Bf.append(('eq', x, y + '+' + z))
                        if y != z:
                            Bf.append(('eq', x, y + '*' + z))
        for y in common:
            if y != x and root(y.replace("'", '')) != root(x.replace("'", '')):
                Bf.append(('eq', x, y))
            elif y < x:
                Bf.append(('eq', x, y))
        Bf.append(('ge', x, 0))
        Bf.append(('ge', x, 1))
        for y in sizes + ints:
            Bf.append(('ge', y, x))
            Bf.append(('ge', x, y))
            Bf.append(('gt', y, x))
    return A, Bf


def fact_poly(fact, terms):
    """(kind, poly)"""
    k, x, y = fact
    a, b = parse_term(x, terms), parse_term(y, terms)
    if a is None or b is None:
        return None
    if k == 'eq':
        return ('eq', a.sub(b))
    if k == 'ge':
        return ('ge', a.sub(b))
    if k == 'gt':
        return ('ge', a.sub(b).addc(-1))
    if k == 'nn':
        return ('ge', a.add(b))
    if k == 'le2':
        return ('ge', b.sub(a))
    return None


def mine(f, R, budget=4000):
    """facts provable at every normal exit"""
    if R.err or not R.ret:
        return None
    pre, pvecs = pre_terms(f, R)
    if len(pre) > 24:
        pre = dict(list(pre.items())[:24])
    posts = [post_terms(f, R, s, v) for s, v in R.ret]
    A, Bf = candidates(pre, [p for p, _ in posts])
    res = {'A': [], 'B': [], 'inv': [], 'ninv': [], 'acc': False}
    evs = [Ev(R, s) for s, _ in R.ret]

    def prov(fact):
        for e, (pt, _) in zip(evs, posts):
            tm = dict(pre)
            tm.update(pt)
            fp = fact_poly(fact, tm)
            if fp is None:
                return False
            k, p = fp
            if k == 'eq':
                if e.F.norm(p) != ZERO and not (e.F.entails(p) and e.F.entails(p.neg())):
                    return False
            elif not e.F.entails(p):
                return False
        return True
    st0 = Ev(R, R.st0)

    def trivial(fact):
        fp = fact_poly(fact, pre)
        if fp is None:
            return False
        k, p = fp
        return st0.F.entails(p) and (k != 'eq' or st0.F.entails(p.neg()))
    n = 0
    for fact in A:
        n += 1
        if n > budget:
            break
        if prov(fact) and not trivial(fact):
            res['A'].append(fact)
    # drop facts implied by the others
    res['A'] = reduce_facts(R, R.st0, pre, res['A'])
    n = 0
    got = []
    for fact in Bf:
        n += 1
        if n > budget:
            break
        if prov(fact):
            got.append(fact)
    # B facts: remove the ones that follow from A + other B facts
    res['B'] = reduce_post(R, pre, posts, evs, res['A'], got)
    names = set()
    for i, (_, pv) in enumerate(posts):
        names = set(pv) if i == 0 else names & set(pv)
    for nme in sorted(names):
        sts = []
        for e, (_, pv) in zip(evs, posts):
            p, q = pv[nme]
            sts.append(e.eq(p.sub(q)))
        if all(x == 'proven' for x in sts):
            res['inv'].append(nme)
        else:
            res['ninv'].append((nme, [x for x in sts if x != 'proven'][0]))
    # acceptance
    res['nexit'] = len(R.E.exits)
    acc = True
    for st, site in R.E.exits:
        if not exit_infeasible(st, pre, res['A']):
            acc = False
            break
    res['acc'] = acc
    return res


def exit_infeasible(st, pre, A):
    F = st.facts.clone()
    try:
        for fact in A:
            fp = fact_poly(fact, pre)
            if fp is None:
                continue
            if fp[0] == 'eq':
                F.add_eq(fp[1])
            else:
                F.add_ge(fp[1])
        return F.entails(Poly.const(-1))
    except Infeasible:
        return True


def _implied(R, st, terms, facts, fact):
    F = st.facts.clone()
    try:
        for o in facts:
            fp = fact_poly(o, terms)
            if fp is None:
                continue
            if fp[0] == 'eq':
                F.add_eq(fp[1])
            else:
                F.add_ge(fp[1])
        k, p = fact_poly(fact, terms)
        return F.entails(p) and (k != 'eq' or F.entails(p.neg()))
    except Infeasible:
        return True


def reduce_facts(R, st, terms, facts):
    keep = list(facts)
    for fact in sorted(facts, key=lambda x: (x[0] == 'eq', x[0] == 'gt')):
        rest = [o for o in keep if o is not fact]
        if _implied(R, st, terms, rest, fact):
            keep = rest
    return keep


def reduce_post(R, pre, posts, evs, A, got):
    """keep a small generating set: post terms as fresh symbols, drop implied facts"""
    st = R.st0.clone()
    terms = dict(pre)
    for pt, _ in posts[:1]:
        for n in pt:
            if n not in terms:
                terms[n] = R.E.S_fresh_free(n, n.endswith(('.n', '.sz', '.len')) or bool(re.search(r'\.d\d$', n)))
    keep = list(got)
    comp = lambda x: isinstance(x, str) and ('+' in x or '*' in x or '-' in x)
    for fact in sorted(got, key=lambda x: (0 if comp(x[1]) or comp(x[2]) else 1, {'ge': 0, 'gt': 1, 'eq': 2}[x[0]])):
        rest = [o for o in keep if o is not fact]
        if _implied(R, st, terms, list(A) + rest, fact):
            keep = rest
    return keep


def check(f, R, c):
    """evaluate the frozen contract c on an analysis result: list of (status, kind, text, model)"""
    out = []
    pre, _ = pre_terms(f, R)
    posts = [post_terms(f, R, s, v) for s, v in R.ret]
    evs = [Ev(R, s) for s, _ in R.ret]
    if R.err:
        return [('undecided', 'all', R.err, None)]
    if not R.ret:
        if c.get('A') is not None and R.thr == 0 and not R.E.exits:
            return [('undecided', 'all', 'no exit reached', None)]
        return [('refuted', 'returns', 'no input is accepted any more: every path ends in an error exit', '')]
    for grp in ('A', 'B'):
        for fact in c.get(grp, []):
            fact = tuple(fact)
            stt = 'proven'
            mod = None
            for e, (pt, _) in zip(evs, posts):
                tm = dict(pre)
                tm.update(pt)
                fp = fact_poly(fact, tm)
                if fp is None:
                    stt = 'unknown'
                    continue
                r = e.eq(fp[1]) if fp[0] == 'eq' else e.ge(fp[1])
                if isinstance(r, tuple):
                    stt, mod = 'refuted', r[1]
                    break
                if r == 'unknown':
                    stt = 'unknown'
            out.append((stt, 'rejects' if grp == 'A' else 'result', show(fact), mod))
    for nme in c.get('inv', []):
        stt, mod = 'proven', None
        for e, (_, pv) in zip(evs, posts):
            if nme not in pv:
                stt = 'unknown'
                continue
            p, q = pv[nme]
            r = e.eq(p.sub(q))
            if isinstance(r, tuple):
                stt, mod = 'refuted', r[1]
                break
            if r == 'unknown':
                stt = 'unknown'
        out.append((stt, 'inv', 'storage of %s holds exactly product-of-dimensions elements' % nme, mod))
    if c.get('acc'):
        stt, mod, txt = 'proven', None, 'inputs satisfying the requirements are accepted'
        A = [tuple(x) for x in c.get('A', [])]
        for st, site in R.E.exits:
            s2 = st.clone()
            try:
                for fact in A:
                    fp = fact_poly(fact, pre)
                    if fp is None:
                        continue
                    if fp[0] == 'eq':
                        s2.facts.add_eq(fp[1])
                    else:
                        s2.facts.add_ge(fp[1])
                if s2.facts.entails(Poly.const(-1)):
                    continue
            except Infeasible:
                continue
            e = Ev(R, s2)
            if s2.inex or not exact_state(R, s2):
                stt = 'unknown'
                continue
            m = model_all(R, s2)
            if m is None:
                stt = 'unknown'
            else:
                stt, mod = 'refuted', m
                txt = 'an input satisfying the requirements is rejected at %s' % (site,)
                break
        out.append((stt, 'accepts', txt, mod))
    return out


def assume(st, facts, terms):
    """state with the facts added, None if infeasible, False if not expressible"""
    s2 = st.clone()
    try:
        for fact in facts:
            fp = fact_poly(fact, terms)
            if fp is None:
                return False
            if fp[0] == 'eq':
                s2.facts.add_eq(fp[1])
            else:
                s2.facts.add_ge(fp[1])
        if s2.facts.entails(Poly.const(-1)):
            return None
    except Infeasible:
        return None
    return s2


def check_scen(f, R, scens):
    """guarded requirements (vx/scen.py): list of (status, kind, text, model)"""
    out = []
    if R.err:
        return out
    pre, _ = pre_terms(f, R)
    posts = [post_terms(f, R, s, v) for s, v in R.ret]
    for name, prem, facts, accept in scens:
        # is the premise expressible at all?
        s0 = assume(R.st0, prem, pre)
        if s0 is None or s0 is False:
            out.append(('unknown', 'result', '%s (premise not expressible)' % name, None))
            continue
        for fact in ([None] if facts is None else facts):
            stt, mod = 'proven', None
            for (s, _), (pt, _) in zip(R.ret, posts):
                tm = dict(pre)
                tm.update(pt)
                s2 = assume(s, prem, tm)
                if s2 is None:
                    continue
                if s2 is False:
                    stt = 'unknown'
                    continue
                e = Ev(R, s2)
                if fact is None:
                    if s2.inex or not exact_state(R, s2):
                        stt = 'unknown'
                        continue
                    m = model_all(R, s2)
                    if m is None:
                        stt = 'unknown'
                        continue
                    stt, mod = 'refuted', m
                    break
                fp = fact_poly(fact, tm)
                if fp is None:
                    stt = 'unknown'
                    continue
                r = e.eq(fp[1]) if fp[0] == 'eq' else e.ge(fp[1])
                if isinstance(r, tuple):
                    stt, mod = 'refuted', r[1]
                    break
                if r == 'unknown':
                    stt = 'unknown'
            if fact is None:
                out.append((stt, 'rejects', '%s is rejected' % name, mod))
            else:
                out.append((stt, 'result', '%s: %s' % (name, show(fact)), mod))
        if accept:
            stt, mod, txt = 'proven', None, '%s: accepted' % name
            for st, site in R.E.exits:
                s2 = assume(st, prem, pre)
                if s2 is None:
                    continue
                if s2 is False or s2.inex or not exact_state(R, s2):
                    stt = 'unknown'
                    continue
                m = model_all(R, s2)
                if m is None:
                    stt = 'unknown'
                else:
                    stt, mod = 'refuted', m
                    txt = '%s: rejected at %s' % (name, site)
                    break
            out.append((stt, 'accepts', txt, mod))
    return out


def exact_state(R, s):
    S = R.E.S
    for p in s.facts.ge:
        for x in p.syms():
            if x in S.t and not S.t[x].exact:
                return False
    return True


def model_all(R, s):
    """model of the whole state"""
    F = s.facts
    ges = list(F.ge)
    if not ges and not F.disj:
        return '(any input)'
    m = F.exact_model(ges)
    if m is None:
        return None
    sv = R.E.st
    R.E.st = s
    try:
        return R.E.showmodel(m)
    finally:
        R.E.st = sv


def show(fact):
    k, x, y = fact
    if k == 'nn':
        return '%s + %s >= 0' % (x, y)
    return '%s %s %s' % (x, {'eq': '==', 'ge': '>=', 'gt': '>'}[k], y)
