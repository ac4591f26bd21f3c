#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--only CASE] [-v] | check.py --replay FILE
Re-executes itself under the repository's own interpreter (the numpy the code is written for), with z3 appended."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') or os.environ.get('OPENBLAS_NUM_THREADS') != '1':
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
import numpy  # noqa: E402  (the repository's numpy first)
sys.path.append(Z3)
import z3  # noqa: E402,F401
from symx import runner  # noqa: E402

if __name__ == '__main__':
    rc = runner.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
