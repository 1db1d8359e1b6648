#!/bin/bash
# nothing to build: the checks execute the sources in /repo; see that the
# interpreter, numpy/scipy and the z3 bindings are there
cd "$(dirname "$0")"
exec /opt/venv/bin/python -B -c "
import symx, numpy, scipy, z3
from symx import loader
print('ok', z3.get_version_string(), numpy.__version__)"
