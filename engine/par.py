"""Parallel driver: runs analysis tasks over all cores (fork after loading)."""
import os, sys, time, multiprocessing as mp, traceback
_F = None
def _call(i):
    f, tasks = _F
    t = time.time()
    try: r = f(tasks[i])
    except Exception as e:
        r = ('crash', ''.join(traceback.format_exc().splitlines(True)[-6:]))
    return i, r, time.time() - t
def run(f, tasks, jobs=None, limit=None):
    """(task, result, seconds) in task order; tasks not finished within limit seconds give ('late',)"""
    global _F
    _F = (f, tasks)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
    sys.setrecursionlimit(20000)
    if jobs == 1 or len(tasks) <= 1:
        return [(tasks[i],) + _call(i)[1:] for i in range(len(tasks))]
    res = {}
    end = time.time() + limit if limit else None
    p = mp.get_context('fork').Pool(min(jobs, len(tasks)))
    try:
        it = p.imap_unordered(_call, range(len(tasks)), chunksize=1)
        while len(res) < len(tasks):
            try: i, r, dt = it.next(timeout=max(0.1, end - time.time()) if end else None)
            except mp.TimeoutError: break
            except StopIteration: break
            res[i] = (tasks[i], r, dt)
    finally:
        p.terminate(); p.join()
    return [res.get(i, (tasks[i], ('late',), limit)) for i in range(len(tasks))]
