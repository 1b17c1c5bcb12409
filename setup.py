"""Builds every instrumented library, application and driver once (offline)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
try:
    _, w = core.build(["vh_all", "ca.x", "stes.x", "dsf2.x","pf.x","dsf.x","wind.x","dsim.x"])
except core.HarnessError as e:
    sys.exit("setup: %s" % e)
print("built in %.0f s" % w)
