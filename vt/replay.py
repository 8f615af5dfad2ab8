"""Re-run one recorded counterexample against the unpatched code: python -m vt.replay FILE."""
import sys, json, importlib, os


def run(path):
    import vt
    from vt.report import Ctx
    d = json.load(open(path))
    mod = importlib.import_module(d['module'])
    if hasattr(mod, 'replay'):
        out = mod.replay(d['harness'], d['model'], d['data'], d['label'])
        if out is not NotImplemented:
            if out:
                what, key = out if isinstance(out, tuple) else (out, None)
                print("REPRODUCED " + json.dumps(dict(what=str(what)[:1500], key=key)))
            else:
                print("NOT-REPRODUCED")
            return
    fn = dict(mod.harnesses(d.get('tier', 'quick')))[d['harness']]
    ctx = Ctx(d['property'], d['harness'], d.get('tier', 'quick'))
    ctx.target = (d['data'].get('case'), d['model'])
    ctx.replayed = []
    try:
        fn(ctx)
    except Exception as exc:
        import traceback
        ctx.replayed.append((None, f"exception {type(exc).__name__}: {exc} :: {traceback.format_exc(limit=-3)[-600:]}", None))
    if ctx.replayed:
        known = set(d.get('known', ()))
        fresh = [r for r in ctx.replayed if r[2] not in known or r[2] is None]
        case, what, key = (fresh or ctx.replayed)[0]
        print("REPRODUCED " + json.dumps(dict(what=f"[{case}] {what}"[:1500], key=key,
                                              keys=sorted({k for _, _, k in ctx.replayed if k}))))
    else:
        print("NOT-REPRODUCED")


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    run(sys.argv[1])
