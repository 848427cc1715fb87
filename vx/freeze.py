"""Offline: turn the mined table into spec/contracts.json (drops facts about private state)."""
import sys
import re
import json
src = json.load(open(sys.argv[1]))
PUBLIC = re.compile(r'^(vif::vec<|vif::matrix::(mat|wrapper|const_wrapper)<)')


def ok(k, fact):
    for t in fact[1:]:
        if not isinstance(t, str):
            continue
        for n in re.findall(r"[A-Za-z_][\w.'\[\]@]*", t):
            root, _, rest = n.partition('.')
            if rest and re.search(r'_(\.|$)', rest):
                return False
            if root in ('this', "this'") and not PUBLIC.match(k):
                return False
            if root in ('this', "this'") and 'safe_proxy' in k:
                return False
            if rest.split('.')[0] in ('policy', 'last_tick', 'max_length', 'i'):
                return False
    return True


out = {}
drop = 0
for k, v in src.items():
    e = {'g': v['g'], 'inv': v['inv'], 'acc': bool(v['acc'])}
    for x in 'AB':
        e[x] = [f for f in v[x] if ok(k, f)]
        drop += len(v[x]) - len(e[x])
    if len(e['A']) != len(v['A']):
        e['acc'] = False        # acceptance was established under the dropped facts
    e['inv'] = [n for n in v['inv'] if ok(k, ('', n))]
    out[k] = e
with open('/verif/spec/contracts.json', 'w') as f:
    f.write('{\n')
    f.write(',\n'.join('%s: %s' % (json.dumps(k), json.dumps(out[k], sort_keys=True)) for k in sorted(out)))
    f.write('\n}\n')
print(len(out), 'dropped', drop)
