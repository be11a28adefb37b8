#!/opt/venv/bin/python
"""python run.py <PROPERTY> [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]"""
import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib

prop = sys.argv.pop(1)
if prop == '--selftest':
    import z3
    from se.load import load
    q, r = load()
    print('z3', z3.get_version_string(), 'numpy', q.np.__name__, 'real package', r.Model.__module__)
    sys.exit(0)
m = importlib.import_module('checks.' + prop)
from se.runner import main

main(prop, m.H, stubs=getattr(m, 'STUBS', ()), assumptions=getattr(m, 'ASSUMPTIONS', ()),
     outside=getattr(m, 'OUTSIDE', ''))
