#!/usr/bin/env python3
"""Checks that the tools are there and builds one monitor, so that a broken sandbox shows early."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import gen
for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["gcc", "--version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
run = vlib.Run("setup", "quick", 1)
exe, kept, dropped = vlib.build_with_zoo(run, "c01", gen.shapes("core", 1, 0))
vlib.monitor(run, exe, 1)
assert run.evals > 0 and not run.viols, run.viols
print("setup: the harness builds and runs (%d cases)" % run.evals)
