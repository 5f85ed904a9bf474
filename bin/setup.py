#!/usr/bin/env python3
"""Builds every driver once from /repo's tree, so that the build cache is warm and
problems of the toolchain show up early."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
c = vf.Ctx("setup", "quick", 1)
for what in ["vlib"] + [d for d in ("vtran",) if os.path.exists(vf.HARNESS + "/cmd/%s/main.go" % d)] + ["node"]:
    c.build(what)
    print("built", what)
rc, out = c.tlc("MCHoles", "MCHoles.cfg", workers=2)
print("TLC", "ok" if rc == 0 else out[-2000:])
sys.exit(0 if rc == 0 else 1)
