"""symx: symbolic execution of the real spins-b Python sources over z3 terms."""
import sys as _sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)  # z3; appended, so numpy/scipy stay those of the venv
