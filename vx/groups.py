"""Partition of the entry points of the library into components (one per engine-decided property)."""
from . import run

EXCL_FILES = ('core/print.hpp', 'core/error.hpp')
ACCESS = ('operator[]', 'operator()', 'to_idx', 'front', 'back', 'begin', 'end', 'stride', 'raw_stride', 'pitch', 'at')
VIEWLIKE = ('operator=', 'view_same', 'concretise')


def group(f):
    """component name of an entry point, or None"""
    fl = f.file.split('/include/vif/', 1)
    if len(fl) < 2:
        return None
    fl = fl[1]
    if fl in EXCL_FILES:
        return None
    n = f.sn.rsplit('::', 1)[-1]
    if fl == 'core/vec.hpp':
        if '::comparator_base' in f.sn:
            return None
        if n in ACCESS or '::safe_proxy' in f.sn:
            return 'access'
        if n.startswith('operator') and n != 'operator=':
            return 'elementwise'
        return 'lifecycle'
    if fl in ('core/range.hpp', 'core/bits/access.hpp', 'core/bits/iterator.hpp', 'core/iterator_base.hpp'):
        return 'access'
    if fl.startswith('core/bits/initializer_list'):
        return 'lifecycle'
    if fl.startswith('core/') or fl in ('math/base.hpp', 'math/complex.hpp'):
        return 'elementwise'
    if fl.startswith('utility/bits/generic'):
        return 'arrays'
    if fl.startswith('utility/bits/string'):
        return 'strings'
    if fl.startswith('utility/bits/thread'):
        return 'threads'
    if fl.startswith('utility/'):
        return 'system'
    if fl.startswith('math/'):
        if fl in ('math/reduce.hpp', 'math/histogram.hpp', 'math/random.hpp'):
            return 'reduce'
        if fl in ('math/interpolate.hpp', 'math/transform.hpp', 'math/fourier.hpp', 'math/convex_hull.hpp'):
            return 'numeric'
        return 'linalg'
    if fl.startswith('astro/'):
        return 'astro'
    if fl.startswith('io/'):
        return 'io'
    return None


def roots(programs):
    """[(Program, Fun, group)] deduplicated over the translation units (a function whose type
    depends on a lambda of a driver is local to its translation unit)"""
    seen = set()
    out = []
    for P in programs:
        for f in P.funs.values():
            if not run.is_root(P, f):
                continue
            g = group(f)
            if g is None:
                continue
            key = f.u if '(lambda at ' not in f.fn and not any('(lambda at ' in P.T[p['t']] for p in f.d['p']) else (P.name, f.u)
            if key in seen:
                continue
            seen.add(key)
            out.append((P, f, g))
    return out
