#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in bugs*.py and confirms each in a scratch copy of /repo.
usage: gen.py [id ...]   (not used by any check)"""
import json, os, shutil, subprocess, sys, glob
V = "/verif"
HERE = os.path.dirname(os.path.abspath(__file__))
BUGS = {}


def bug(bid, prop, edits, test, needs, breaks, pkg=".", race=False, sh=None):
    BUGS[bid] = dict(prop=prop, edits=edits, test=test, needs=needs, breaks=breaks, pkg=pkg, race=race, sh=sh)


for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
    exec(open(f).read())
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="0", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
HELP = open(os.path.join(HERE, "helper.go.txt")).read()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo_sh(b):
    race = "CGO_ENABLED=1" if b["race"] else "CGO_ENABLED=0"
    flag = "-race" if b["race"] else ""
    return f'''#!/bin/bash
# exits 0 when the behaviour is as it should be, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off {race}
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
pkg="{b['pkg']}"
root=$(pwd -P)
dir=$(cd "$pkg" && pwd -P)
printf '{{"Replace": {{"%s": "%s"}}}}' "$dir/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
cd "$root" && timeout 250 go test {flag} -overlay "$tmp/overlay.json" -count=1 -timeout 240s -run '^TestZZDemo$' "$pkg"
'''


def make(bid):
    b = BUGS[bid]
    w = "/tmp/seedw"
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", w], "/")
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    r = sh("gofmt -l . ; go build ./...", w)
    if r.returncode:
        return "build: " + r.stdout[-800:]
    diff = sh(["git", "diff"], w).stdout
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh(b))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    t = b["test"]
    if "package " not in t.split("\n")[0]:
        t = HELP + t
    open(os.path.join(d, "demo_test.go.txt"), "w").write(t)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # confirm
    r = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-1500:]
    r = sh(["bash", os.path.join(d, "demo.sh")], w)
    if r.returncode == 0:
        return "demo passes with the change"
    out = r.stdout
    if "build failed" in out or "setup failed" in out:
        return "demo does not build: " + out[-1500:]
    # the tests, in the copy moved to /repo's place via an overlay of the changed files
    ov = {"Replace": {os.path.join("/repo", f): os.path.join(w, f) for f, _, _ in b["edits"]}}
    json.dump(ov, open("/tmp/seed-ov.json", "w"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh("git -C /repo apply %s/patch.diff" % d, "/")
    try:
        r = sh("bash /verif/tools/stable.sh", "/")
    finally:
        sh("git -C /repo checkout -- .", "/")
    if r.returncode:
        return "tests: " + r.stdout[-500:]
    return None


ids = sys.argv[1:] or [i for i in BUGS if not os.path.exists(os.path.join(V, "seeded", i, "ok"))]
for i in ids:
    e = make(i)
    print(i, BUGS[i]["prop"], e or "ok", flush=True)
    if e:
        shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
shutil.rmtree("/tmp/seedw", ignore_errors=True)
