#!/usr/bin/env python3
"""Checks that the tools are there and every specification parses."""
import glob, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
subprocess.run([check.GO, "version"], check=True)
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(H, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", check.CP, "tla2sany.SANY"] + mods, cwd=os.path.join(H, "spec"), capture_output=True, text=True)
if r.returncode:
    print(r.stdout[-3000:], r.stderr[-1000:])
    sys.exit(1)
print("%d specification modules parse" % len(mods))
