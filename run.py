#!/opt/venv/bin/python
"""Entry point of every check: run.py C01 [--tier quick|thorough]; run.py --replay FILE."""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.optimize:
    # one hash seed for every run and replay (C12 varies it in processes of its own)
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.pop('PYTHONOPTIMIZE', None)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.runner import main  # noqa: E402

rc = main()
sys.stdout.flush()
os._exit(rc)
