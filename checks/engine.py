"""Properties decided by the abstract interpreter (vx/): contracts + memory-access obligations per component."""
import os
import re
import json
import time
from .common import VERIF, programs, Finding, CheckError
from vx import run, groups, contract, scen, small

# Caller contracts of the library: obligations that the documented interface leaves to the caller.
#  - "safe" accesses are the documented unchecked interface;
#  - front()/back() require a non-empty vector, iterator policies a valid offset (as in the standard library);
#  - integer division by values supplied by the user is the user's (as for the built-in operators);
#  - mult_ids() takes an index valid for the dimensions (hence no zero dimension).


def exempt(f, ob):
    kind, file, line, status, msg, model, path, n, ofn = ob
    s = f.sn
    last = s.rsplit('::', 1)[-1]
    if '::safe_proxy' in s and kind in ('vector index', 'iterator arithmetic'):
        return True
    if last in ('front', 'back') and kind == 'vector front/back':
        return True
    if last == 'begin' and kind == 'iterator arithmetic':
        return True
    # the end of a strided range is only compared, never dereferenced
    if kind == 'iterator arithmetic' and 'raw_strided_iterator_policy::' in str(ofn):
        return True
    # name lists come from a macro and are never blank; substr() rejects by exception otherwise
    if 'pop_macroed_name' in str(ofn) and kind == 'substr position':
        return True
    if kind == 'division by zero' and (last in ('mult_ids',) or last.startswith('operator')):
        return True
    for name, k in EXTRA:
        if s == name and kind == k:
            return True
    return False


EXTRA = [
    # the filter interpolation helper documents that its range lies within the SED
    ('vif::astro::sed2flux_interpolate', 'vector index'),
]


def load_spec(gs):
    tab = json.load(open(os.path.join(VERIF, 'spec', 'contracts.json')))
    return {k: v for k, v in tab.items() if v['g'] in gs}


def _post(P, f, R):
    c = _spec.get(contract.sig(f))
    out = []
    if c is not None:
        out += contract.check(f, R, c)
    sc = list(scen.scen(f))
    if sc:
        out += contract.check_scen(f, R, sc)
    sm, obs, npart = [], [], 0
    sp = _small.get(small.key(f))
    if sp:
        t0 = time.time()
        for l in sorted(sp['p']):
            if time.time() - t0 > _cap * 4:
                sm.append((l, 'undecided', '', '', None))
                continue
            try:
                S = small.analyse(P, f, l, tmax=_cap)
                if S.err:
                    sm.append((l, 'undecided', '', '', None))
                    continue
                npart += 1
                for o in S.obls:
                    obs.append((l, (o.kind, o.file, o.line, o.status, o.msg, o.model, o.path, o.n, o.fn)))
                if sp['p'][l]:
                    sm += [(l,) + tuple(x) for x in small.check(f, S, sp['p'][l])]
            except RecursionError:
                sm.append((l, 'undecided', '', '', None))
    return (c is not None, out, sm, obs, npart)


_spec = None
_small = {}
_cap = 3.0


def load_small(gs):
    tab = json.load(open(os.path.join(VERIF, 'spec', 'small.json')))
    return {k: v for k, v in tab.items() if v['g'] in gs}


def check(gs, tier, tmax, select=None):
    """returns (findings, coverage)"""
    global _spec, _small, _cap
    _spec = load_spec(gs)
    _small = load_small(gs)
    _cap = 3.0 if tier == 'quick' else 20.0
    Ps = programs()
    items = [x for x in groups.roots(Ps) if x[2] in gs and (select is None or select(x[1]))]
    if not items:
        raise CheckError('no entry point left to analyse for components %s' % (gs,))
    res = run.run(items, budget=60000 if tier == 'quick' else 240000, tmax=tmax, post=_post)
    fs = {}
    cov = {'entry_points': len(items), 'undecided_entry_points': 0, 'functions_inlined': set(), 'obligations': 0, 'discharged': 0,
           'memory_obligations': {'proven': 0, 'unknown': 0, 'refuted_exempt': 0},
           'contract_obligations': {'proven': 0, 'unknown': 0}, 'contracts_evaluated': 0,
           'small_partitions': 0, 'small_partitions_undecided': 0, 'small_outcomes': {'proven': 0, 'unknown': 0},
           'small_memory_obligations': {'proven': 0, 'unknown': 0, 'refuted_exempt': 0}}
    und = []
    matched = set()
    samples = []
    for r in res:
        P, f, g = items[r[0]]
        sg = contract.sig(f)
        if r[1]:
            cov['undecided_entry_points'] += 1
            und.append('%s: %s' % (sg[:140], r[1][:60]))
        cov['functions_inlined'].update(r[6])
        for ob in r[4]:
            cov['obligations'] += 1
            if ob[3] == 'refuted':
                if exempt(f, ob):
                    cov['memory_obligations']['refuted_exempt'] += 1
                    continue
                key = '%s/%s/%s' % (f.sn, ob[8] if isinstance(ob[8], str) else '?', ob[0])
                fs.setdefault(key, Finding(key, '%s: %s when %s (entered through %s)' % (ob[0], ob[4], ob[5] or 'always', sg),
                                           '%s:%s via %s' % (ob[1].replace('/repo/', ''), ob[2], ob[6])))
            else:
                cov['memory_obligations'][ob[3]] += 1
                if ob[3] == 'proven':
                    cov['discharged'] += 1
        if r[5]:
            if r[5][0]:
                matched.add(sg)
                cov['contracts_evaluated'] += 1
            for st, k, text, model in r[5][1]:
                if st == 'undecided':
                    continue
                cov['obligations'] += 1
                if st == 'proven':
                    cov['discharged'] += 1
                if st == 'refuted':
                    key = '%s/%s/%s' % (sg, k, text.split(' at ')[0])
                    what = {'rejects': 'returns normally although the requirement "%s" does not hold' % text,
                            'result': 'result does not satisfy "%s"' % text, 'inv': text + ' is violated',
                            'accepts': text, 'returns': text}[k]
                    fs.setdefault(key, Finding(key, '%s: %s (for example %s)' % (sg, what, model or 'any input'),
                                               '%s:%s' % (f.file.replace('/repo/', ''), f.l)))
                else:
                    cov['contract_obligations'][st] += 1
                if len(samples) < 6 and st == 'proven' and k in ('rejects', 'result') and len(r[5][1]) > 2:
                    samples.append('%s: %s' % (sg, text))
            cov['small_partitions'] += r[5][4]
            for l, ob in r[5][3]:
                cov['obligations'] += 1
                if ob[3] == 'refuted':
                    if exempt(f, ob):
                        cov['small_memory_obligations']['refuted_exempt'] += 1
                        continue
                    key = '%s/%s/%s' % (f.sn, ob[8] if isinstance(ob[8], str) else '?', ob[0])
                    fs.setdefault(key, Finding(key, '%s: %s when %s (entered through %s, partition %s)' % (
                        ob[0], ob[4], ob[5] or 'always', sg, small.describe(l)), '%s:%s via %s' % (ob[1].replace('/repo/', ''), ob[2], ob[6])))
                else:
                    cov['small_memory_obligations'][ob[3]] += 1
                    cov['discharged'] += ob[3] == 'proven'
            for l, st, k, text, model in r[5][2]:
                if st == 'undecided':
                    cov['small_partitions_undecided'] += 1
                    continue
                cov['obligations'] += 1
                if st == 'refuted':
                    key = '%s/%s/%s' % (sg, k, text.split(' at ')[0][:80])
                    fs.setdefault(key, Finding(key, '%s, for %s: %s (for example %s)' % (sg, small.describe(l), text, model or 'any value'),
                                               '%s:%s' % (f.file.replace('/repo/', ''), f.l)))
                else:
                    cov['small_outcomes'][st] += 1
                    cov['discharged'] += st == 'proven'
    if len(matched) * 2 < len(_spec):
        raise CheckError('only %d of %d specified functions were found in the current tree' % (len(matched), len(_spec)))
    cov['checker_cmd'] = 'python3 check.py <ID>'
    cov['trusted_base'] = 'exporter tool/vifx.cpp, abstract interpreter vx/, library models vx/summ.py, clang front end'
    cov['functions_inlined'] = len(cov['functions_inlined'])
    cov['contracts_specified'] = len(_spec)
    cov['undecided_sample'] = und[:12]
    cov['samples'] = samples
    cov['explanation'] = ('%d of %d obligations of %d entry points proven for all inputs; the others are undecided by the abstract domain '
                          '(no claim) or belong to the caller by contract' % (cov['discharged'], cov['obligations'], len(items)))
    cov['rule'] = ('abstract interpretation of every public entry point of the component with arbitrary arguments; '
                   'an obligation is reported only when refuted by an exact counterexample of the abstract state')
    return list(fs.values()), cov
