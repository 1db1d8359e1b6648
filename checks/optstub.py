"""Stand-in for scipy.optimize.minimize, switched on by a harness.

Imported by a check module before any spins code; when no stub is set the
real function runs."""
import scipy.optimize

_real = scipy.optimize.minimize
STUB = [None]


def _minimize(*a, **k):
    return (STUB[0] or _real)(*a, **k)


scipy.optimize.minimize = _minimize


class stub:

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        STUB[0] = self.fn

    def __exit__(self, *a):
        STUB[0] = None
