#!/usr/bin/env python3
"""determinism.py [IDs...]: one seed is one execution.

Runs the first runs of each check under 1 and 8 workers, twice each, and with
other values of the environment a run might leak in from (PYTHONHASHSEED of the
driver, the directory it starts in), and compares the digests the driver prints
(a digest over every switch, fault and operation boundary of every run)."""
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = os.environ.get("N", "48")
ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 16)]
bad = 0
for p in ids:
    seen = {}
    for label, env, cwd in (("8 workers", {}, HERE), ("1 worker", {"FINSIM_WORKERS": "1"}, HERE),
                            ("3 workers, hash seed 77", {"FINSIM_WORKERS": "3", "PYTHONHASHSEED": "77"}, tempfile.gettempdir()),
                            ("again", {"PYTHONHASHSEED": "5"}, "/")):
        out = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p, "quick", N], cwd=cwd,
                             env=dict(os.environ, **env), capture_output=True, text=True).stdout
        m = re.search(r"digest ([0-9a-f]+)", out)
        seen[label] = m.group(1) if m else "none: " + out[-200:]
    ok = len(set(seen.values())) == 1
    bad += not ok
    print(p, "same" if ok else seen, flush=True)
sys.exit(1 if bad else 0)
