"""Entry point: python run.py C01 [--tier quick|thorough] [--only harness,...]"""
import sys, os, shutil
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
from vt import build
tmp = None
if 'VERIF_REPO' not in os.environ:
    os.environ['VERIF_REPO'], tmp = build.current_tree('/repo')
try:
    import vt
    vt.use(os.environ['VERIF_REPO'])
    from vt import report
    prop = sys.argv[1]
    code = report.main(prop, f"checks.{prop}", sys.argv[2:])
finally:
    if tmp:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(code)
