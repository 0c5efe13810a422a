"""Which harness binary decides which property, and how it is built."""
import json, os, subprocess
import build

# property -> harness package (below internal/zverif)
PKG = {"C20": "conc", "C21": "conc", "C22": "conc",
       "C29": "edge", "C30": "edge", "C31": "edge", "C32": "edge", "C33": "edge", "C35": "edge", "C38": "edge", "C39": "edge",
       "C19": "store", "C23": "store", "C24": "store", "C26": "store", "C28": "store", "C37": "store"}

ZSYNC = "github.com/netauth/netauth/internal/zverif/zsync"
# The module that evaluates group expressions has a lock of its own.
FILTER = "github.com/the-maldridge/bsfilter"
MOD = "github.com/netauth/netauth/"

def instrumented(work):
    """Rewritten copies of the tree's packages, for the scheduler."""
    out = os.path.join(work, "instr")
    os.makedirs(out)
    tool = os.path.join(work, "instr-tool")
    e = build.env()
    e["GOFLAGS"] = ""
    r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(build.VERIF, "tools/instr"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return r, None
    mod = build.modfile(work)
    lst = os.path.join(work, "list.json")
    with open(lst, "w") as f:
        r = subprocess.run(["go", "list", "-modfile", mod, "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,ImportMap",
                            "./internal/rpc2", "./internal/tree/...", "./internal/mresolver", "./internal/db", "./internal/token", "./internal/crypto", "./internal/startup"],
                           cwd=build.REPO, env=build.env(), stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        r.stdout = r.stderr
        return r, None
    pk = subprocess.run(["go", "list", "-modfile", mod, "./internal/rpc2", "./internal/tree/...", "./internal/mresolver", "./internal/db", "./internal/token", "./internal/crypto", "./internal/startup"],
                        cwd=build.REPO, env=build.env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
    pk = [p for p in pk if "interface_test" not in p]
    r = subprocess.run([tool, "-out", out, "-zsync", ZSYNC, "-list", lst, "-movefrom", FILTER, "-moveto", MOD + "internal/zverif/zfilter", "-movedir", os.path.join(build.REPO, "internal/zverif/zfilter"), FILTER] + pk, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        r.stdout = r.stderr
        return r, None
    return r, json.loads(r.stdout)

def build_for(pid, work):
    pkg = PKG.get(pid, "seq")
    exe = os.path.join(work, "zv-" + pkg)
    if pkg == "conc":
        r, extra = instrumented(work)
        if r.returncode:
            return r, exe
        r = build.build("internal/zverif/conc", exe, work, extra=extra)
        if r.returncode == 0 and pid in (None, "C22"):
            r = build.build("internal/zverif/conc", exe + "-race", work, extra=extra, flags=("-race",))
            os.environ["ZV_RACE_BIN"] = exe + "-race"
        return r, exe
    if pkg == "store" and pid in (None, "C26"):
        tool = os.path.join(work, "nsutil")
        r = build.build("cmd/nsutil", tool, work)
        if r.returncode:
            return r, exe
        os.environ["ZV_NSUTIL"] = tool
    if pkg == "edge" and pid in (None, "C32", "C33", "C38"):
        for var, what in [("ZV_TESTPLUGIN", "internal/zverif/testplugin"), ("ZV_FAIL2LOCK", "plugins/tree/fail2lock")]:
            tool = os.path.join(work, os.path.basename(what))
            r = build.build(what, tool, work)
            if r.returncode:
                return r, exe
            os.environ[var] = tool
        if pid in (None, "C33"):
            # The plugin itself with a main loop that calls it.
            extra = {os.path.join(build.REPO, "pkg/plugin/tree/main.go"): os.path.join(build.VERIF, "harness/racemain/main.go.txt")}
            r = build.build("plugins/tree/fail2lock", os.environ["ZV_FAIL2LOCK"] + "-race", work, extra=extra, flags=("-race",))
            if r.returncode:
                return r, exe
    if pkg == "edge" and pid in (None, "C31"):
        os.environ["ZV_CACHERACE"] = os.path.join(work, "cacherace")
        r = build.build("internal/zverif/cacherace", os.environ["ZV_CACHERACE"], work, flags=("-race",))
        if r.returncode:
            return r, exe
    if pkg == "edge" and pid in (None, "C38", "C39"):
        for var, what in [("ZV_NETAUTH", "cmd/netauth"), ("ZV_NETAUTHD", "cmd/netauthd")]:
            tool = os.path.join(work, os.path.basename(what))
            r = build.build(what, tool, work)
            if r.returncode:
                return r, exe
            os.environ[var] = tool
    return build.build("internal/zverif/" + pkg, exe, work), exe
