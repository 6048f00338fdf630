#!/usr/bin/env python3
"""Every planted mistake of the design models must be rejected by TLC."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import designs
w = tempfile.mkdtemp()
try:
    r = designs.selftest(w, sys.argv[1:])
finally:
    shutil.rmtree(w)
for m, b, how in r:
    print("%-14s %-16s %s" % (m, b, how or "NOT REJECTED"))
sys.exit(any(h is None for _, _, h in r))
