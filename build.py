#!/usr/bin/env python3
"""Build one harness binary against /repo's working tree.

usage: build.py NAME OUT [--race] [--overlay-extra FILE]

The harness sources under /verif/harness are laid over the repository as
packages below internal/zverif with go's -overlay option, so they may import
internal packages while /repo itself is not touched.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZV_REPO", "/repo")

def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=mod", GOSUMDB="off")
    return e

def overlay():
    rep = {}
    root = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, "internal/zverif", os.path.relpath(p, root))] = p
    return rep

def modfile(work):
    mod = os.path.join(work, "zv.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "zv.sum"))
    return mod

def build(pkg, out, work, extra=None, flags=()):
    """Build package path pkg (relative to the module root) to out."""
    rep = overlay()
    rep.update(extra or {})
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    mod = modfile(work)
    cmd = ["go", "build", "-overlay", ov, "-modfile", mod, "-o", out, *flags, "./" + pkg]
    return subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

if __name__ == "__main__":
    work = tempfile.mkdtemp(prefix="zvb")
    try:
        r = build(sys.argv[1], os.path.abspath(sys.argv[2]), work)
        sys.stdout.write(r.stdout)
        sys.exit(r.returncode)
    finally:
        shutil.rmtree(work, ignore_errors=True)
