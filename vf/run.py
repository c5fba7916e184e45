"""python3 -m vf.run Cnn: the check of one property."""
import importlib, os, sys, traceback


def main():
    pid = sys.argv[1]
    from . import base
    mod = importlib.import_module("vf.checks." + pid.lower())
    rep = base.Report(pid, mod.LEVEL)
    try:
        mod.run(rep)
    except base.CheckError as e:
        if not rep.violations:
            print("CHECK ERROR: %s" % e)
            sys.exit(2)
        print("(stopped early: %s)" % str(e)[:300])
    except Exception:
        if not rep.violations:
            traceback.print_exc()
            sys.exit(2)
        traceback.print_exc()
    sys.exit(rep.finish())


if __name__ == "__main__":
    main()
