"""run.py <property>: decide one property.  Exit 0 held, 1 violated, 2 machinery error."""
import importlib
import logging
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from registry import CHECKS

    mod, fn, level = CHECKS[prop]
    ctx = vlib.Ctx(prop, tier, seed, level)
    try:
        getattr(importlib.import_module(mod), fn)(ctx)
        return ctx.finish()
    except vlib.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("MACHINERY ERROR")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
