"""run independent analysis tasks on all cores (fork; the parsed program is shared, workers get task numbers)"""
import gc
import multiprocessing as mp
import os

_FN = None
_TASKS = None


def _call(i):
    return _FN(_TASKS[i])


def pmap(fn, tasks, nproc=None, chunk=1):
    global _FN, _TASKS
    tasks = list(tasks)
    nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(tasks)))
    if nproc <= 1 or os.environ.get('CTSA_SERIAL'):
        for t in tasks:
            yield fn(t)
        return
    _FN, _TASKS = fn, tasks
    gc.collect()
    gc.freeze()
    gc.set_threshold(500000, 50, 100)
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc) as pool:
        for r in pool.imap_unordered(_call, range(len(tasks)), chunk):
            yield r
