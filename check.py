#!/usr/bin/env python3-vt
"""check.py <property id>... | all | list"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(here, "checks")) if f[0] == "C" and f.endswith(".py"))
    args = sys.argv[1:]
    if args == ["list"]:
        print("\n".join(ids))
        return 0
    rc = 0
    for pid in ids if args == ["all"] else args:
        mod = importlib.import_module(pid)
        import core
        c = core.Check(pid, mod.TITLE)
        mod.run(c)
        rc = max(rc, c.finish())
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
