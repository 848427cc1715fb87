"""Parallel analysis of entry points."""
import time
import multiprocessing as mp
from . import roots

_items = None
_cfg = None


def is_root(P, f, root='/repo/'):
    d = f.d
    if d.get('body') is None or not f.file.startswith(root) or d.get('dflt'):
        return False
    if d.get('ck') == 'dtor' or d.get('acc') in ('private', 'protected'):
        return False
    n = f.sn
    if '::impl::' in n or '(anonymous' in n or '(lambda' in n or 'reflex::' in n or n.startswith('vif::reflex'):
        return False
    if not n.startswith('vif::'):
        return False
    if n.endswith('_') or n.endswith('_impl'):      # project convention: internal helper
        return False
    return True


def _work(i):
    P, f = _items[i][0], _items[i][1]
    t = time.time()
    try:
        R = roots.analyse(P, f, budget=_cfg['budget'], tmax=_cfg['tmax'])
        post = _cfg['post'](P, f, R) if _cfg.get('post') else None
        return (i, R.err, R.steps, time.time() - t,
                [(o.kind, o.file, o.line, o.status, o.msg, o.model, o.path, o.n, o.fn) for o in R.obls],
                post, sorted(R.E.inl), len(R.ret), R.thr)
    except Exception as ex:  # engine limitation: the entry point is not decided
        import traceback
        return (i, 'exc ' + repr(ex) + traceback.format_exc()[-600:], 0, time.time() - t, [], None, [], 0, 0)


def run(items, budget=60000, tmax=20.0, post=None, procs=8):
    """items: list of (Program, Fun, ...)"""
    global _items, _cfg
    _items = items
    _cfg = dict(budget=budget, tmax=tmax, post=post)
    with mp.get_context('fork').Pool(procs) as pool:
        return pool.map(_work, range(len(items)), chunksize=3)
