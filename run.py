#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough]   |   run.py --replay <file>"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('LANG', 'C.UTF-8')
os.environ.setdefault('LC_ALL', 'C.UTF-8')
os.environ.setdefault('NUMEXPR_MAX_THREADS', '8')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get('SUNWHERE_REPO', '/repo'), 'src'))

if __name__ == '__main__':
    import warnings
    warnings.filterwarnings('ignore')
    from lib import mc
    rc = mc.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
