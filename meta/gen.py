"""Offline: writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, st, over, q, why, files, mech, tech=None, note='', level='other', na=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append(dict(property=id, quick_cmd='python3 check.py %s --tier quick' % id, thorough_cmd='python3 check.py %s --tier thorough' % id,
                       evidence_file='evidence/%s.json' % id, technique=tech, level=level, level_note=note))


CH = []
AI = 'abstract interpretation (relational numeric domain, Fourier-Motzkin) of every instantiated public entry point; memory-access obligations and shape contracts'
AIN = ('Sound-by-construction refutations: a violation is printed only with an exact counterexample state; obligations the domain cannot decide are '
       'counted as unknown in the evidence, not as held. Trusts clang, the exporter, the library models and the drivers choice of instantiations.')
exec(open(os.path.join(V, 'meta', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash tool/build.sh', checks=CH, not_applicable=NA,
                   notes='No hooks: /repo only carries fix: commits. Levels: "other" = static analysis, see DESIGN.md.'), f, indent=1)
print(len(P), 'properties', len(CH), 'claimed', len(NA), 'n/a')
