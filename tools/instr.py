"""Builds the worker from instrumented copies of the sources: a scheduling point
before every statement and between the evaluation and the store of assignments."""
import glob, json, os, re, subprocess, sys


def targets(repo):
    """package database as a whole, elsewhere the files that use concurrency"""
    out = []
    for d in ["", "internal", "internal/configer", "internal/reporter", "pkg/database", "pkg/lockfile", "pkg/semantic", "pkg/models"]:
        for f in sorted(glob.glob(os.path.join(repo, d, "*.go"))):
            if f.endswith("_test.go"):
                continue
            s = open(f).read()
            if d == "pkg/database" or re.search(r"\bgo func|\berrgroup\b|\bsync\.|^\s*go \w", s, re.M):
                out.append(f)
    return out


def build_sched(scratch, out, build, goenv, VERIF, REPO):
    tool = os.path.join(scratch, "instr")
    p = subprocess.run(["go", "build", "-o", tool, os.path.join(VERIF, "tools", "instr", "main.go")], cwd=scratch, env=goenv({"GO111MODULE": "off"}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout)
        sys.exit(2)
    log = ""
    for flags in ([], ["-nomid"], None):
        extra = {}
        ok = True
        if flags is not None:
            d = os.path.join(scratch, "instr-src")
            os.makedirs(d, exist_ok=True)
            for i, f in enumerate(targets(REPO)):
                dst = os.path.join(d, "%03d.go" % i)
                p = subprocess.run([tool, *flags, f, dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    ok = False
                    log += p.stdout
                    break
                extra[f] = dst
        if not ok:
            continue
        rc, l = build(scratch, out, extra)
        if rc == 0:
            mode = {0: "every statement", 1: "every statement"}.get(0) if flags is not None else "none"
            note = "scheduling points: %s of %d files%s" % (mode, len(extra), "" if flags == [] else " (no split assignments)")
            return out, {"notes": [note], "env": {"VERIF_SCHED": "none" if flags is None else "stmt"}}
        log += l
    sys.stderr.write(log[-4000:])
    print("BUILD FAILED")
    sys.exit(2)


def build_maps(scratch, out, build, goenv, VERIF, REPO):
    """the worker from copies of the sources in which the order of every map iteration is chosen"""
    tool = os.path.join(scratch, "instrmaps")
    p = subprocess.run(["go", "build", "-o", tool, os.path.join(VERIF, "tools", "instrmaps", "main.go")], cwd=scratch, env=goenv({"GO111MODULE": "off"}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout)
        sys.exit(2)
    lst = os.path.join(scratch, "golist.json")
    with open(lst, "w") as f:
        p = subprocess.run(["go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", "./..."], cwd=REPO, env=goenv(), stdout=f, stderr=subprocess.PIPE, text=True)
    log = p.stderr
    if p.returncode == 0:
        d = os.path.join(scratch, "maps-src")
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([tool, lst, "github.com/g-rath/osv-detector", d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        log += p.stderr
        if p.returncode == 0:
            r = json.loads(p.stdout)
            rc, l = build(scratch, out, r["overlay"])
            log += l
            if rc == 0:
                return out, {"notes": ["map iterations controlled: %d in %d files" % (r["sites"] / 2, len(r["overlay"]))], "env": {"VERIF_MAPS": "controlled"}}
    rc, l = build(scratch, out)
    if rc:
        sys.stderr.write(log[-3000:] + l[-3000:])
        print("BUILD FAILED")
        sys.exit(2)
    return out, {"notes": ["map iterations not controlled (every input is run repeatedly instead): " + log[-500:]], "env": {"VERIF_MAPS": "none"}}
