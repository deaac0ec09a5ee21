#!/bin/bash
# Nothing to build: the checks import the code under test from /repo and use installed solvers. Verify they are there.
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import pysat, numpy, z3
print('pysat', pysat.__version__, 'z3', z3.get_version_string())
P
