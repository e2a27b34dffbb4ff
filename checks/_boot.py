"""Import path set-up; any uncaught error is reported as inconclusive (exit 2), never as a violation."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))


def _hook(tp, val, tb):
    traceback.print_exception(tp, val, tb)
    print("error: inconclusive, the check could not run")
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(2)


sys.excepthook = _hook
import vmon  # noqa: E402
vmon.setup_import()
