"""Deterministic stand-ins for the thread/process pools of concurrent.futures.

Imported by a check module before any spins code.  The order in which the
tasks of a pool run, and whether a submitted task runs at once or only when a
result is needed, is a choice of the current harness (symbolic when the
harness is symbolic), so every schedule of atomic tasks is covered.
"""
import concurrent.futures as cf
import itertools


class _State:
    h = None
    n = 0
    max_perm = 3


def start(h, policy=False):
    """Schedules are chosen by harness h from now on.

    policy: choose one rule (forward, backward, rotated) for all blocks
    instead of every permutation of every block."""
    _State.h = h
    _State.policy = policy
    _State.n = 0


def stop():
    _State.h = None


def _order(n):
    h = _State.h
    if h is None or n < 2:
        return list(range(n))
    _State.n += 0 if _State.policy else 1
    if n > _State.max_perm or _State.policy:
        perms = [list(range(n)), list(range(n))[::-1],
                 list(range(1, n)) + [0]]
    else:
        perms = [list(p) for p in itertools.permutations(range(n))]
    return h.choice("schedule%d" % _State.n, perms)


class Task(cf.Future):

    def __init__(self, pool, fn, args, kwargs):
        super().__init__()
        self._job = (fn, args, kwargs)
        self._pool_ = pool

    def run_now(self):
        if self.done():
            return
        fn, a, k = self._job
        try:
            r = fn(*a, **k)
        except Exception as e:
            self.set_exception(e)
        else:
            self.set_result(r)

    def result(self, timeout=None):
        self._pool_.flush()
        return super().result(0)

    def exception(self, timeout=None):
        self._pool_.flush()
        return super().exception(0)


class Pool:

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.pending = []

    def flush(self):
        todo, self.pending = self.pending, []
        for i in _order(len(todo)):
            todo[i].run_now()

    def submit(self, fn, *args, **kwargs):
        t = Task(self, fn, args, kwargs)
        self.pending.append(t)
        return t

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        ts = [self.submit(fn, *a) for a in zip(*iterables)]

        def results():
            for t in ts:
                yield t.result()

        return results()

    def shutdown(self, wait=True, **k):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        if isinstance(f, Task):
            f._pool_.flush()
    return iter([fs[i] for i in _order(len(fs))])


def _wait(fs, timeout=None, return_when=None):
    fs = list(fs)
    for f in fs:
        if isinstance(f, Task):
            f._pool_.flush()
    return cf._base.DoneAndNotDoneFutures(set(fs), set())


cf.ThreadPoolExecutor = Pool
cf.ProcessPoolExecutor = Pool
cf.as_completed = _as_completed
cf.wait = _wait
