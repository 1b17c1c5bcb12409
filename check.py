#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + pid)
    cls = [c for c in vars(mod).values() if isinstance(c, type) and getattr(c, "id", None) == pid][0]
    sys.exit(cls().main())


try:
    main()
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    sys.exit(2)
