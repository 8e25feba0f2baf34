#!/usr/bin/env python3
"""mut.py tests IN.jsonl OUT.jsonl          keep the mutants that build and pass the stable tests
   mut.py checks IN.jsonl OUT.jsonl        run the checks that cover the file of each mutant, record who catches it
Each mutant lives in a private mount namespace with its own /repo and /verif. Not used by any check."""
import json, os, subprocess, sys, threading, queue, shutil, re
W = "/tmp/mw"
MAP = [
 (r"pkg/lockfile/parse-(yarn|npm|pnpm|bun)", ["C11", "C18", "C23"]),
 (r"pkg/lockfile/parse-(poetry|pdm|uv|pylock|pipenv)", ["C12", "C18", "C23"]),
 (r"pkg/lockfile/parse-requirements", ["C13", "C18", "C23"]),
 (r"pkg/lockfile/parse-(maven|gradle)", ["C14", "C18", "C23"]),
 (r"pkg/lockfile/parse-go", ["C15", "C18", "C23"]),
 (r"pkg/lockfile/parse-(cargo|composer|gemfile|mix|nuget|pubspec|renv)", ["C16", "C18", "C23"]),
 (r"pkg/lockfile/csv", ["C17", "C18", "C23"]),
 (r"pkg/lockfile/", ["C19", "C22", "C20", "C23", "C05"]),
 (r"pkg/database/(osv|mem-check|vulnerabilities)", ["C01", "C02", "C03", "C24", "C10"]),
 (r"pkg/database/api", ["C07", "C06", "C05"]),
 (r"pkg/database/zip", ["C08", "C09", "C10", "C28"]),
 (r"pkg/database/dir", ["C10", "C27", "C05"]),
 (r"pkg/database/", ["C10", "C08", "C05", "C20", "C03"]),
 (r"internal/configer", ["C21", "C27", "C20", "C05", "C04", "C22"]),
 (r"internal/reporter", ["C22", "C05", "C04", "C23"]),
 (r"main.go", ["C05", "C20", "C22", "C21", "C19", "C27", "C04", "C26", "C25", "C03", "C23"]),
]


def checks_for(f):
    for r, c in MAP:
        if re.search(r, f):
            return c
    return ["C11"]


def ns(k, cmd, timeout):
    script = "mount --bind %s/%d/repo /repo && mount --bind %s/cache /root/.cache/go-build && mount --bind %s/%d/verif /verif && mount --bind %s/%d/tmp /tmp && %s" % (W, k, W, W, k, W, k, cmd)
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def apply(k, m):
    p = "%s/%d/repo/%s" % (W, k, m["file"])
    s = open(W + "/pristine/" + m["file"], "rb").read()
    open(p, "wb").write(s[:m["Off"]] + m["New"].encode() + s[m["End"]:])


def restore(k, m):
    shutil.copy(W + "/pristine/" + m["file"], "%s/%d/repo/%s" % (W, k, m["file"]))


def main():
    mode, inp, outp = sys.argv[1:4]
    nw = int(sys.argv[4]) if len(sys.argv) > 4 else (8 if mode == "tests" else 3)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            m = json.loads(l)
            done.add((m["file"], m["Off"], m["End"], m["New"]))
    muts = [json.loads(l) for l in open(inp)]
    muts = [m for m in muts if (m["file"], m["Off"], m["End"], m["New"]) not in done]
    if mode == "checks":
        muts = [m for m in muts if m.get("tests", "pass") == "pass"]
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/cache"):
        subprocess.run(["cp", "-a", "/root/.cache/go-build", W + "/cache"])
    q = queue.Queue()
    for m in muts:
        q.put(m)
    lock = threading.Lock()
    out = open(outp, "a")

    def work(k):
        d = "%s/%d" % (W, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/tmp")
        subprocess.run(["cp", "-a", W + "/pristine", d + "/repo"])
        subprocess.run(["cp", "-a", "/verif", d + "/verif"])
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(k, m)
            try:
                if mode == "tests":
                    rc, o = ns(k, "cd /repo && PATH=/opt/veriftools/go1.24.13/bin:$PATH GOFLAGS=-mod=readonly go build ./... ", 120)
                    if rc:
                        m["tests"] = "build"
                    else:
                        rc, o = ns(k, "bash /verif/tools/stable.sh", 60)
                        m["tests"] = "pass" if rc == 0 else "fail"
                else:
                    m["caught"] = ""
                    m["ran"] = []
                    for c in (os.environ.get("CHECKS") or " ".join(checks_for(m["file"])[:int(os.environ.get("MUT_MAX", "99"))])).split():
                        rc, o = ns(k, "VERIF_FIRST=1 VERIF_BUDGET_S=%s VERIF_TIER=quick /verif/bin/check %s quick" % (os.environ.get("MUT_BUDGET", "25"), c), 900)
                        m["ran"].append("%s=%d" % (c, rc))
                        if rc == 1 and "VIOLATION property=" + c in o:
                            m["caught"] = c
                            break
                        if rc not in (0, 1):
                            m.setdefault("odd", []).append(o[-300:])
            finally:
                restore(k, m)
            with lock:
                out.write(json.dumps(m) + "\n")
                out.flush()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
