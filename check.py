#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--n N] [--seed S]
check.py <property> --replay FILE
check.py --selftest

Exit 0: the property held on everything explored; 1: a VIOLATION line was
printed; 2: the check itself failed.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
FIXED = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONPYCACHEPREFIX': '/nonexistent/pycache',
    'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'),
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'HDF5_USE_FILE_LOCKING': 'FALSE',
    'DST_CHILD': '1',
}

if os.environ.get('DST_CHILD') != '1':
    env = dict(os.environ)
    env.update(FIXED)
    for k in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS', 'PYTHONSTARTUP'):
        env.pop(k, None)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, '-X', 'faulthandler', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)

from dst import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
