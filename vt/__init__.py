"""Solver-based checking of the real Dedalus code: shared machinery."""
import os, sys, warnings
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMEXPR_MAX_THREADS", "1")
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.isdir(_VT) and _VT not in sys.path:
    sys.path.append(_VT)      # appended: the project's own numpy/scipy win
REPO = os.environ.get('VERIF_REPO', '/repo')


def use(repo):
    global REPO
    if REPO in sys.path:
        sys.path.remove(REPO)
    REPO = repo
    sys.path.insert(0, repo)


use(REPO)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
warnings.filterwarnings('ignore')
