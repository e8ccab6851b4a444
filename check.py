#!/usr/bin/env python3
"""python check.py PROPERTY [--tier quick|thorough] | --replay FILE"""
import os
import sys

VENV = '/opt/venv/bin/python'
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get('SYMX_REEXEC'):
    os.environ['SYMX_REEXEC'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[k] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.run import main  # noqa: E402

if '--setup' in sys.argv:          # nothing to build: the encoding is made from /repo on every run
    sys.exit(0)

code = main()
sys.stdout.flush()
os._exit(code)
