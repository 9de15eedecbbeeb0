#!/usr/bin/env python3
"""checks/run.py <property id>: runs the check of one property (VERIF_SEED, VERIF_TIER from the environment)."""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VT and os.path.exists(VT) and not os.environ.get("GV_REEXEC"):
    os.environ["GV_REEXEC"] = "1"
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
if "--thorough" in sys.argv: os.environ["VERIF_TIER"] = "thorough"
pid = sys.argv[1]
try:
    sys.exit(importlib.import_module("p_" + pid.lower()).main())
except SystemExit: raise
except BaseException:
    traceback.print_exc()
    print("%s: the check itself failed" % pid)
    sys.exit(2)
