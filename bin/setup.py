#!/usr/bin/env python3
"""Checks that the tools are there and builds once, so that the checks start warm where they can."""
import os, shutil, subprocess, sys

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "bin")
missing = [tool for tool in ("cargo", "cargo-kani", "verus") if not shutil.which(tool)]
if missing:
    print("missing tools: %s" % missing)
    sys.exit(1)
import check

os.makedirs(check.BUILD, exist_ok=True)
check.select_contracts(os.listdir("contracts"))
runner, err = check.build_runner()
if runner is None:
    print(err[-3000:])
    sys.exit(1)
print("ready")
