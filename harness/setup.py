#!/usr/bin/env python3
"""Prepares the framework: builds the driver and parses the specifications."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fv, subprocess
print(fv.build())
bad = 0
for m in sorted(glob.glob(fv.SPEC + "/*.tla")):
    r = subprocess.run(["java", "-cp", fv.TLAJAR + ":" + fv.COMMJAR, "tla2sany.SANY", m], capture_output=True, text=True,
                       cwd=fv.SPEC)
    if r.returncode or "Fatal" in r.stdout or "*** Errors" in r.stdout:
        print(r.stdout[-2000:])
        bad = 1
sys.exit(bad)
