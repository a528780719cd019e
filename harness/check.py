"""Check one property:  python3 harness/check.py C01"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core, importlib


def main():
    prop = sys.argv[1]
    run = core.Run(prop)
    import plans
    try:
        getattr(plans, prop)(run)
        rc = run.finish()
    except Exception:
        traceback.print_exc()
        print('ERROR: the check of %s did not reach a verdict' % prop)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
