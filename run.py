#!/usr/bin/env python3
"""run.py <property id> [--quick|--thorough] [--replay FILE] [-n CASES] [-v]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VT) and not os.environ.get("VERIF_IN_VT") and \
        os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.environ["VERIF_IN_VT"] = "1"
    os.execv(VT, [VT] + sys.argv)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import pbt  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    try:
        mod = importlib.import_module(sys.argv[1].lower())
        rc = pbt.main(mod.PROP, sys.argv[2:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
