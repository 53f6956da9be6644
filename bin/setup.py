#!/usr/bin/env python3
"""setup_cmd: check the tools, build the library and every registered driver (fills build/)."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, checks
for t in ("java", "ninja", "g++"):
    if not shutil.which(t): print("missing tool " + t); sys.exit(1)
vbuild.build(sorted({d for c in checks.CHECKS.values() for d in c["drivers"] if not c.get("wip")}))
print("setup done")
