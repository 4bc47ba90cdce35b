import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    try:
        rc = mod.run()
    except Exception:
        traceback.print_exc()
        print(f"{pid}: the check could not be completed")
        return 2
    return rc

sys.exit(main())
