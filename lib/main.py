"""Dispatch: python lib/main.py <property-id> [--replay FILE]"""
import faulthandler, importlib, os, sys, traceback
if os.environ.get("VERIF_CRASH_LOG"):
    _crash = open(os.environ["VERIF_CRASH_LOG"], "w")
    faulthandler.enable(_crash)
HOME = os.environ["VERIF_HOME"]
sys.path.insert(0, os.path.join(HOME, "harness"))
sys.path.insert(0, os.path.join(HOME, "lib"))
import build
root = build.prepare()
sys.path.insert(0, root)
os.environ["VERIF_PYGSTI_ROOT"] = root
os.environ["PYTHONPATH"] = root
import vf

pid = sys.argv[1]
chk = vf.Check(pid)
try:
    mod = importlib.import_module(pid.lower())
    mod.main(chk)
except vf.MachineryError:
    traceback.print_exc()
    sys.exit(2)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    inside = [f for f in tb if f.filename.startswith(os.path.join(root, "pygsti") + os.sep)]
    traceback.print_exc()
    if inside and not isinstance(e, (MemoryError, KeyboardInterrupt)):
        # the code under test failed on an input the specification accepts
        chk.violation("unexpected exception from the code under test: %s: %s" % (type(e).__name__, e),
                      dict(traceback=traceback.format_exc()))
    else:
        sys.exit(2)
sys.exit(chk.finish())
