"""Offline: derive the contract table of the reference tree (spec/contracts.json). Not used by the checks."""
import sys
import json
import time
sys.path.insert(0, '/verif')
from vx import ir, run, groups, contract

TUS = ['d_core', 'd_util', 'd_math', 'd_io', 'd_astro', 'd_thread']


def post(P, f, R):
    return contract.mine(f, R)


def main(expdir, out, only=None, tmax=12.0):
    Ps = [ir.Program('%s/%s.jsonl' % (expdir, n), n) for n in TUS]
    items = groups.roots(Ps)
    if only:
        items = [x for x in items if x[2] in only]
    t = time.time()
    res = run.run(items, tmax=tmax, post=post)
    tab = {}
    info = {}
    for r in res:
        P, f, g = items[r[0]]
        info.setdefault(g, []).append((r[3], r[1]))
        if r[5] is None:
            continue
        m = r[5]
        m['g'] = g
        k = contract.sig(f)
        if k in tab:
            o = tab[k]
            if o['A'] != m['A']:
                o['acc'] = m['acc'] = False
            for x in ('A', 'B', 'inv'):
                o[x] = [y for y in o[x] if y in m[x]]
            o['acc'] = o['acc'] and m['acc']
        else:
            tab[k] = m
    json.dump(tab, open(out, 'w'), indent=0, sort_keys=True)
    for g, v in sorted(info.items()):
        print(g, len(v), 'cpu %.0f' % sum(x[0] for x in v), 'undecided', sum(1 for x in v if x[1]))
    print('total %.0f s' % (time.time() - t), len(tab))
    json.dump([(contract.sig(items[r[0]][1]), items[r[0]][2], r[1], r[3], r[4]) for r in res], open(out + '.full', 'w'))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], sys.argv[3].split(',') if len(sys.argv) > 3 else None, float(sys.argv[4]) if len(sys.argv) > 4 else 12.0)
