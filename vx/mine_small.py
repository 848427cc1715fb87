"""Offline: freeze the outcome tables of the small-size partitions into spec/small.json (see small.py).
usage: python3 -m vx.mine_small [group...]"""
import sys
import os
import re
import json
import time
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from checks import common, engine
from vx import groups, contract, small

_items = None
PUBLIC = re.compile(r'^(vif::vec<|vif::matrix::(mat|wrapper|const_wrapper)<)')


def public(sg, m):
    """without the facts about private state"""
    def ok(n):
        root, _, rest = n.partition('.')
        if rest and re.search(r'_(\.|$)', rest):
            return False
        if root in ('this', "this'") and (not PUBLIC.match(sg) or 'safe_proxy' in sg):
            return False
        return rest.split('.')[0] not in ('policy', 'last_tick', 'max_length', 'i')

    def one(r):
        r = dict(r)
        for x in ('k', 'm'):
            if x in r:
                r[x] = {n: c for n, c in r[x].items() if ok(n)}
        return r
    r = one(m)
    if 't' in m:
        r['t'] = [one(x) for x in m['t']]
    return r


def work(i):
    P, f, g = _items[i]
    out, bad = {}, []
    spent = 0
    for l in small.parts(f):
        t = time.time()
        if spent > 12:
            break
        try:
            R = small.analyse(P, f, l, tmax=1.5)
            if R.err:
                spent += time.time() - t
                continue
            m = small.mine(f, R)
            for o in R.obls:
                ob = (o.kind, o.file, o.line, o.status, o.msg, o.model, o.path, o.n, o.fn)
                if o.status == 'refuted' and not engine.exempt(f, ob):
                    bad.append((l, o.kind, o.file, o.line, o.msg, o.model, o.path))
        except Exception as ex:
            bad.append((l, 'EXC', repr(ex)))
            continue
        d = time.time() - t
        spent += d
        if d < 1.2:
            m = public(contract.sig(f), m) if m else {}
            own = [x for x in small.check(f, R, m) if x[0] == 'refuted'] if m else None
            if own:
                bad.append((l, 'SELF', str(own)[:300]))
                continue
            out[l] = (round(d, 2), m)
    return i, out, bad, spent


def main():
    global _items
    Ps = common.programs()
    gs = sys.argv[1:]
    _items = [x for x in groups.roots(Ps) if x[2] and (not gs or x[2] in gs)]
    t0 = time.time()
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(work, range(len(_items)), chunksize=4)
    spec, bad, tm, clash = {}, [], {}, set()
    for i, out, b, sp in res:
        P, f, g = _items[i]
        sg = small.key(f)
        tm[g] = tm.get(g, 0) + sp
        for x in b:
            bad.append((sg,) + x)
        if sg in spec:
            # several instances of one signature (lambda arguments, translation units): only what they share
            old = spec[sg]['p']
            out = {l: x for l, x in out.items() if l in old and json.dumps(old[l]) == json.dumps(x[1])}
            spec.pop(sg)
            if not out:
                clash.add(sg)
        if out and sg not in clash:
            spec[sg] = {'g': g, 'p': {l: m for l, (d, m) in out.items()}, 'c': round(sum(d for d, _ in out.values()), 2)}
    json.dump(dict(spec=spec, bad=bad), open('/tmp/x/small.json', 'w'))
    dst = os.path.join(common.VERIF, 'spec', 'small.json')
    old = json.load(open(dst)) if gs and os.path.exists(dst) else {}
    old = {k: v for k, v in old.items() if v['g'] not in gs}
    old.update(spec)
    with open(dst, 'w') as o:
        o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(old[k], sort_keys=True)) for k in sorted(old)) + '\n}\n')
    print(len(_items), 'roots', len(spec), 'with tables', sum(len(s['p']) for s in spec.values()), 'partitions',
          sum('t' in m for s in spec.values() for m in s['p'].values()), 'complete', '%.0fs' % (time.time() - t0))
    print({g: round(t) for g, t in tm.items()}, 'kept', {g: round(sum(s['c'] for s in spec.values() if s['g'] == g)) for g in tm})
    print('size', os.path.getsize('/tmp/x/small.json') // 1000, 'kB', len(bad), 'bad')


if __name__ == '__main__':
    main()
