"""drive.py OUT FAMILY SEED JSON: run one family of scenarios against the real code, logging to OUT."""
import json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    out, fam, seed, kw = sys.argv[1], sys.argv[2], int(sys.argv[3]), json.loads(sys.argv[4])
    import flo
    log = flo.Log(out)
    try:
        import importlib
        mod, fn = fam.split(".")
        getattr(importlib.import_module(mod), fn)(log, seed, **kw)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001 - the public interface did something no scenario expects
        log(op="crash", what="unexpected-exception", detail=traceback.format_exc()[-3000:])
    return 0


sys.exit(main())
