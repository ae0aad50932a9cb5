"""Builds the simulator binary from /repo's working tree (see DESIGN.md)."""
import fcntl, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
MOD = "github.com/gostdlib/concurrency"
REL = "pipelines/stagedpipe/internal/verifsim"
GOROOTS = ["/opt/veriftools/go1.23.12"]


class BuildError(Exception):
    pass


def goroot():
    for g in GOROOTS:
        if os.path.exists(os.path.join(g, "bin", "go")):
            return g
    raise BuildError("the Go 1.23.12 toolchain this runtime overlay is made for is missing")


def goenv():
    e = dict(os.environ)
    g = goroot()
    for k in list(e):
        if k.startswith("GO") and k not in ("GOMODCACHE",):
            del e[k]
    e.update(HOME=e.get("HOME") or "/root", PATH=g + "/bin:/usr/local/bin:/usr/bin:/bin", GOROOT=g, GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=readonly", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.path.join(BUILD, "gocache"), CGO_ENABLED="1", GOAMD64="v1")
    return e


def build(mode):
    """mode: mem (scheduling points at every memory access) or race."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ov = os.path.join(BUILD, "ov_" + mode)
    r = subprocess.run([sys.executable, os.path.join(HERE, "rt", "patch.py"), goroot(), ov, mode], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("runtime overlay: " + r.stderr + r.stdout)
    rep = json.load(open(os.path.join(ov, "overlay.json")))["Replace"]
    hd = os.path.join(HERE, "harness")
    for root, _, files in os.walk(hd):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                rep[os.path.join(REPO, REL, os.path.relpath(p, hd))] = p
    ovf = os.path.join(ov, "full.json")
    json.dump({"Replace": rep}, open(ovf, "w"), indent=1)
    out = os.path.join(BUILD, "verifsim_" + mode)
    cmd = ["go", "build", "-buildvcs=false", "-overlay", ovf, "-o", out]
    if mode == "mem":
        cmd += ["-gcflags=%s/...=-race" % MOD, "-gcflags=github.com/johnsiilver/...=-race",
                "-gcflags=%s/%s/kit=" % (MOD, REL)]
    else:
        cmd += ["-race"]
    cmd += ["./" + REL]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("build (%s) failed:\n%s%s" % (mode, r.stdout, r.stderr))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out, time.time() - t0


if __name__ == "__main__":
    for m in sys.argv[1:] or ["mem"]:
        print(build(m))
