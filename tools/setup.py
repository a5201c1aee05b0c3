#!/usr/bin/env python3
"""setup_cmd: compiles every check and the crawler once (warms the build cache)."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run
from checks import CHECKS
done = set()
for i, ck in CHECKS.items():
    key = (ck["pkg"], ck["race"], ck["shim"], ck["crawler"])
    if key in done:
        continue
    done.add(key)
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        run.build(i, ck, d, run.goenv())
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("built", len(done), "binaries")
