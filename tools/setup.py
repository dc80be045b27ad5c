#!/usr/bin/env python3
"""Checks that what the checks need is there, and that the specification parses."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
for tool in ("java", "clang"):
    if not shutil.which(tool):
        sys.exit("no " + tool)
p = subprocess.run(["java", "-cp", runner.JAR, "tla2sany.SANY", "CyamlTrace.tla"], cwd=runner.SPEC, capture_output=True, text=True)
if p.returncode or "*** Errors" in p.stdout:
    sys.exit(p.stdout[-3000:])
print("ready")
