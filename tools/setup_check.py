#!/usr/bin/env python3
"""setup: verifies that the interpreter, z3 and the package under test are importable"""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run(['/opt/venv/bin/python', '-c', "import sys; import numpy; sys.path.append('/opt/veriftools/pyvenv/lib/"
                    "python3.12/site-packages'); import z3; print(numpy.__version__, z3.get_version_string())"],
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
sys.exit(r.returncode)
