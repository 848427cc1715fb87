"""Property -> analysis."""
from . import engine, use, witness, fitsstatus, resources, threads

TRUST = ['clang 18 front end (AST of the instantiations in drivers/)', 'in-house exporter tool/vifx.cpp and abstract interpreter vx/',
         'hand-written models of the standard library in vx/summ.py', 'no integer overflow of sizes (sizes below 2^40)']

ENGINE = {
    'P01': (['access'], 4.0),
    'P02': (['lifecycle'], 4.0),
    'P03': (['elementwise'], 4.0),
    'P04': (['arrays'], 4.0),
    'P05': (['reduce'], 4.0),
    'P06': (['numeric'], 6.0),
    'P07': (['linalg'], 3.0),
    'P08': (['strings', 'system'], 6.0),
    'P09': (['astro'], 2.5),
    'P10': (['io'], 1.0),
}

LINT = {
    'P11': use.law_check(['u_alias']),
    'P12': use.law_check(['u_core']),
    'P13': use.law_check(['u_elem']),
    'P14': use.law_check(['u_array']),
    'P15': use.law_check(['u_reduce']),
    'P16': use.law_check(['u_interp']),
    'P17': use.law_check(['u_matrix', 'u_chol']),
    'P18': use.law_check(['u_image']),
    'P19': fitsstatus.check,
    'P20': witness.check,
    'P21': use.both(threads.check, use.law_check(['u_thread'])),
    'P22': use.law_check(['u_string']),
    'P23': use.law_check(['u_fit']),
    'P24': use.law_check(['u_astro']),
    'P25': use.law_check(['u_segment']),
    'P26': use.law_check(['u_path']),
    'P27': resources.check,
    'P28': use.law_check(['u_hull']),
}


def run(pid, tier):
    if pid in ENGINE:
        gs, tmax = ENGINE[pid]
        fs, cov = engine.check(gs, tier, tmax if tier == 'quick' else tmax * 5)
        return fs, cov, 'other', TRUST
    if pid in LINT:
        fs, cov, tb = LINT[pid](tier)
        return fs, cov, 'other', tb
    raise SystemExit('unknown property ' + pid)
