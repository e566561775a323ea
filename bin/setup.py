#!/usr/bin/env python3
"""Checks that the driver and the program build and that the specifications
parse; every check builds what it needs again."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv
ctx = kv.Ctx("setup", "quick", 1)
try:
    ctx.driver()
    ctx.program()
    mods = sorted(glob.glob(os.path.join(ctx.spec, "*.tla")))
    r = subprocess.run(["tla-sany", *map(os.path.basename, mods)], cwd=ctx.spec, capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout:
        print(r.stdout[-3000:])
        sys.exit(1)
    print("driver, program and %d specification modules are in order" % len(mods))
finally:
    ctx.close()
