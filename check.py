#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--digests N]"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import engine  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    prop = importlib.import_module('dst.props.' + pid.lower())
    rc = 2
    try:
        rc = engine.main(prop, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
