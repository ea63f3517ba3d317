"""check.py <property id>: decide one property of bartpy (see DESIGN.md)."""
import atexit
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import env  # noqa: E402  (sets up paths before bartpy is imported)

SUITES = {
    "C01": ["tree"], "C02": ["tree"], "C03": ["propose"], "C04": ["tree"], "C05": ["tree", "gibbs"], "C06": ["gibbs"], "C07": ["mh"],
    "C08": ["draws", "gibbs"], "C09": ["chain"], "C10": ["chain"],
    "C11": ["est"], "C12": ["est"],
    "C13": ["run"], "C14": ["features"], "C15": ["ext"], "C16": ["init"],
    "C17": ["total"], "C18": ["buffer"], "C20": ["importance"], "C19": ["diag"], "C21": ["seed"], "C22": ["compose"],
    "C23": ["custom"],
}


def main():
    cid = sys.argv[1]
    atexit.register(shutil.rmtree, env.SCRATCH, True)
    from vlib.ctx import Ctx
    ctx = Ctx(cid, env.TIER, env.SEED)
    try:
        try:
            env.assert_origin()
            mods = [importlib.import_module("suites." + s) for s in SUITES[cid]]
        except RuntimeError:
            raise
        except Exception as e:      # the package does not import: nothing it promises holds
            traceback.print_exc()
            ctx.fail("ANY.import", repr(e), {"suites": SUITES[cid]})
            return ctx.finish()
        for m in mods:
            m.run(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
