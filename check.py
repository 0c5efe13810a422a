#!/usr/bin/env python3
"""Run one check:  check.py ID quick|thorough     (re-run a counterexample: check.py replay FILE)

Builds the harness that holds the check from /repo's working tree in a scratch
directory, runs it and removes the scratch directory again.
"""
import json, os, shutil, signal, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build

# which harness binary decides which property (default: seq)
import bins

def main():
    if sys.argv[1] == "replay":
        f = os.path.abspath(sys.argv[2])
        pid = json.load(open(f))["property"]
        args = ["replay", f]
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        args = ["check", pid, tier]
    work = tempfile.mkdtemp(prefix="zvcheck")
    try:
        r, exe = bins.build_for(pid, work)
        if r.returncode != 0:
            print(r.stdout)
            print("the harness does not build against this tree")
            return 2
        e = build.env()
        e["ZV_VERIF"] = build.VERIF
        e["ZV_WORK"] = work
        e["TMPDIR"] = work
        return subprocess.run([exe] + args, cwd=work, env=e).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
