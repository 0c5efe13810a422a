#!/usr/bin/env python3
"""setup_cmd: fill the build cache and make sure every harness compiles."""
import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bins
work = tempfile.mkdtemp(prefix="zvsetup")
rc = 0
try:
    for pid in [None, "C22", "C26", "C33"]:
        r, exe = bins.build_for(pid, work)
        if r.returncode:
            print(r.stdout)
            rc = 1
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
