#!/opt/venv/bin/python
"""Entry point of every check:  run.py --property Cxx [--tier quick|thorough] [--harness NAME] [--replay FILE]"""
import os
import sys
os.environ.setdefault('PYTHONHASHSEED', '0')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PACAL_REPO', '/repo')
for k, v in (('MPLBACKEND', 'Agg'), ('OPENBLAS_NUM_THREADS', '1'), ('OMP_NUM_THREADS', '1')):
    os.environ[k] = v
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from engine import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:], HERE, REPO))
