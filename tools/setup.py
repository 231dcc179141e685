"""Build the framework from the committed files."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import run
from plan import PLAN
run.fresh_target()
for c in sorted({p.crate for p in PLAN.values() if p.crate}):
    r = run.sh(["cargo", "build", "--offline", "--bins"], cwd="%s/harness/%s" % (V, c), timeout=1500)
    print(c, r.returncode, r.stderr[-500:])
    # a tree that does not build is reported by the checks themselves
os.makedirs(V + "/evidence", exist_ok=True)
