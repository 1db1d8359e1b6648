"""multiprocessing.Pool without processes: spins creates a pool of solvers
when its simulation modules are imported.  Imported before any spins code."""
import multiprocessing


class InlinePool:

    def __init__(self, *a, **k):
        pass

    def apply(self, fn, args=(), kwds=None):
        return fn(*args, **(kwds or {}))

    def terminate(self):
        pass

    close = join = terminate


multiprocessing.Pool = InlinePool
