"""Development aid: run a check's harnesses and list every failing case, without replay."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vt
from vt import build
vt.use(os.environ.get("VERIF_REPO") or build.current_tree("/repo")[0])
from vt import report
import importlib
prop = sys.argv[1]
tier = 'thorough' if '-t' in sys.argv else 'quick'
only = sys.argv[sys.argv.index('--only')+1].split(',') if '--only' in sys.argv else None
mod = importlib.import_module('checks.'+prop)
names = [n for n, _ in mod.harnesses(tier) if not only or any(o in n for o in only)]
for r in report.run_harnesses('checks.'+prop, prop, names, tier):
    print('==', r['harness'], 'wall', round(r['wall_s'], 1), 'paths', r['stats'].get('paths'), 'asserts', r['stats'].get('asserts'), 'fails', len(r['failures']), 'errs', len(r['case_errors']))
    import re
    groups = {}
    for f in r['failures']:
        c = f['data'].get('case')
        info = (f['info'] or '').replace('\n', ' ')
        k = ('F', f['label'], re.sub(r'[0-9.e+-]+', '#', info)[-60:] if 'exception' in f['label'] else '')
        groups.setdefault(k, []).append((c, info))
    for c, e in r['case_errors']:
        groups.setdefault(('E', re.sub(r'[0-9]+', '#', e)[-80:], ''), []).append((c, e.replace('\n', ' ')))
    for k, v in groups.items():
        w = int(os.environ.get('W', '200'))
        print('  ', k[0], len(v), 'x', k[1][:100] if k[0] == 'F' else '', '| cases', [c for c, _ in v[:int(os.environ.get('K', '3'))]], '|', v[0][1][-w:])
    for i in r['inconclusive'][:3]: print('   I', i[:200])
    if r.get('error'): print('   ERR', r['error'][-1500:])
