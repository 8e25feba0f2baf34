#!/usr/bin/env python3
"""Driver: builds the verification worker from /repo's current tree, shards the
exploration over processes, confirms violations by replay, writes evidence."""
import resource, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.24.13"
META = json.load(open(os.path.join(VERIF, "tools", "meta.json")))


def goenv(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VERIF_", "OSV_", "HTTP_", "HTTPS_", "http_", "https_"))}
    e.update(HOME="/root", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="0",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", NO_COLOR="1", LC_ALL="C", GOEXPERIMENT="synctest")
    e.update(extra or {})
    return e


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (1 << 29):
                return tempfile.mkdtemp(prefix="verif.", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="verif.")


def overlay_map(extra=None):
    rep = {}
    zz = os.path.join(VERIF, "harness", "zz")
    for f in sorted(os.listdir(zz)):
        if f.endswith(".go"):
            rep[os.path.join(REPO, "internal", "zzverif", f)] = os.path.join(zz, f)
    rep[os.path.join(REPO, "internal", "zzsched", "sched.go")] = os.path.join(VERIF, "harness", "sched", "sched.go")
    rep[os.path.join(REPO, "zz_verif_hook.go")] = os.path.join(VERIF, "harness", "hook", "zz_verif_hook.go")
    rep.update(extra or {})
    return rep


def build(scratch, out, extra_overlay=None, env=None, flags=()):
    ov = os.path.join(scratch, os.path.basename(out) + ".overlay.json")
    json.dump({"Replace": overlay_map(extra_overlay)}, open(ov, "w"))
    p = subprocess.run(["go", "build", "-overlay", ov, "-o", out, *flags, "."], cwd=REPO, env=goenv(env),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_worker(scratch, kind):
    """kind: plain | sched (instrumented sources + synctest) | race"""
    out = os.path.join(scratch, "worker-" + kind)
    if kind == "plain":
        rc, log = build(scratch, out)
        if rc:
            sys.stderr.write(log)
            print("BUILD FAILED")
            sys.exit(2)
        return out, {}
    if kind == "race":
        rc, log = build(scratch, out, env={"CGO_ENABLED": "1"}, flags=("-race",))
        if rc:
            # no race detector here: this part is skipped, and says so
            return None, {"notes": ["race detector build not available: " + log[-300:]]}
        return out, {"env": {"GORACE": "halt_on_error=1 exitcode=66"}}
    if kind == "maps":
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import instr
        return instr.build_maps(scratch, out, build, goenv, VERIF, REPO)
    if kind == "sched":
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import instr
        return instr.build_sched(scratch, out, build, goenv, VERIF, REPO)
    raise SystemExit("kind?")


def launch(binary, prop, scratch, i, n, tier, deadline, extra=None, replay=None, hang=None, tag=""):
    outf = os.path.join(scratch, "out%s.%d.json" % (tag, i))
    for s in ("", ".cur", ".hang"):
        if os.path.exists(outf + s):
            os.unlink(outf + s)
    sc = os.path.join(scratch, "s%s%d" % (tag, i))
    os.makedirs(sc, exist_ok=True)
    env = goenv({"VERIF_WORKER": prop, "VERIF_SHARD": "%d/%d" % (i, n), "VERIF_OUT": outf, "VERIF_TIER": tier,
                 "VERIF_DEADLINE_S": str(deadline), "VERIF_SCRATCH": sc, "GOMAXPROCS": "2",
                 "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_SELF": binary})
    if os.environ.get("VERIF_FAMILY"):
        env["VERIF_FAMILY"] = os.environ["VERIF_FAMILY"]
    env.update(extra or {})
    if replay:
        env["VERIF_REPLAY"] = replay
    if hang:
        env["VERIF_HANG_S"] = str(hang)
    err = open(outf + ".err", "w")
    p = subprocess.Popen([binary], env=env, cwd=sc, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True,
                         preexec_fn=None if tag == "race" else limit_memory)
    p.outf, p.sc = outf, sc
    return p


def limit_memory():
    # runaway allocation ends the worker instead of the machine
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def current_case(outf):
    try:
        b = open(outf + ".cur", "rb").read()
        n, k = struct.unpack_from("<II", b, 0)
        ch = list(struct.unpack_from("<%di" % n, b, 8))
        key = b[8 + 16000:8 + 16000 + k].decode("utf8", "replace")
        fam, _, key = key.partition(": ")
        return {"choices": ch, "family": fam, "input": key}
    except Exception:
        return None


def wait(p, limit):
    try:
        p.wait(limit)
        return p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None


def result_of(p, prop, rc):
    """returns (stats or None, violation or None, error or None)"""
    tail = open(p.outf + ".err", errors="replace").read()
    if rc == 0 and os.path.exists(p.outf):
        return json.load(open(p.outf)), None, None
    if rc is None:
        return None, None, "worker exceeded its time limit"
    if rc == 4:
        return None, None, "harness error: " + tail[-2000:]
    cur = current_case(p.outf)
    if cur is None or not cur["family"]:
        return None, None, "worker died with %s: %s" % (rc, tail[-2000:])
    kind = "hang" if os.path.exists(p.outf + ".hang") else "crash"
    msg = "the code did not finish within the hang limit" if kind == "hang" else "the process died (%s): %s" % (rc, tail[-3000:])
    v = {"property": prop, "kind": kind, "message": msg, **cur}
    return None, v, None


def first_only(ps, wid, until):
    """for mutation testing: stops everything once one worker has found something"""
    while time.time() < until:
        done = [p for p in ps if p.poll() is not None]
        for p in done:
            st, v, _ = result_of(p, wid, p.returncode)
            if v or st and st.get("violations"):
                for o in ps:
                    if o is not p and o.poll() is None:
                        os.killpg(o.pid, signal.SIGKILL)
                        o.wait()
                return [p]
        if len(done) == len(ps):
            break
        time.sleep(0.1)
    return ps


def replay_file(binary, prop, scratch, path, tier, extra, times):
    """re-executes a recorded case; up to so many times; returns whether it failed again and the message"""
    bad, msg = 0, ""
    for k in range(times):
        p = launch(binary, prop, scratch, 0, 1, tier, 600, extra, replay=path, hang=120, tag="r")
        rc = wait(p, 300)
        st, v, err = result_of(p, prop, rc)
        if st and st.get("violations"):
            bad += 1
            msg = st["violations"][0]["message"]
        elif v:
            bad += 1
            msg = v["message"]
        shutil.rmtree(p.sc, ignore_errors=True)
        if bad:
            break
    return bad, msg


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(v, known):
    for k in known:
        if k["family"] == v["family"] and re.search(k["input_re"], v["input"], re.S) and re.search(k["message_re"], v["message"], re.S):
            return k
    return None


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--build":
        scratch = scratch_base()
        try:
            for kind in sorted({p["kind"] for m in META.values() for p in (m.get("parts") or [{"kind": "plain"}])}):
                build_worker(scratch, kind)
                print("built", kind)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(0)
    if a[0] == "--replay":
        rp = json.load(open(a[1]))
        prop, tier = rp["property"], rp.get("tier", "quick")
    else:
        rp = None
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    meta = META[prop]
    t0 = time.time()
    scratch = scratch_base()

    def bye(*_):
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        rc = run(prop, tier, meta, scratch, t0, rp, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, meta, scratch, t0, rp, a):
    parts = meta.get("parts") or [{"kind": "plain"}]
    tot = {"states": 0, "extra_states": 0, "extra_transitions": 0, "extra_traces": 0, "dups": 0, "executions": 0,
           "choice_nodes": 0, "nontrivial": 0}
    classes, families, samples, viols, errors, notes = {}, {}, [], [], [], []
    complete = True
    budget = float(os.environ.get("VERIF_BUDGET_S") or (meta.get("budget", 420) if tier == "quick" else meta.get("budget_thorough", 7200)))
    bins = {}
    for part in parts:
        if part.get("tier") == "thorough" and tier != "thorough":
            continue
        kind = part["kind"]
        if kind not in bins:
            bins[kind] = build_worker(scratch, kind)
        binary, info = bins[kind]
        extra = dict(part.get("env") or {})
        extra.update(info.get("env", {}))
        for nn in info.get("notes", []):
            if nn not in notes:
                notes.append(nn)
        if binary is None:
            continue
        wid = part.get("worker", prop)
        if rp is not None:
            if rp.get("part", parts[0]["kind"]) != kind or rp.get("worker", prop) != wid:
                continue
            bad, msg = replay_file(binary, wid, scratch, a[1], tier, extra, 1)
            print("replay: %s" % ("VIOLATION " + msg if bad else "no violation"))
            return 1 if bad else 0
        n = part.get("shards") or max(1, min(16, (os.cpu_count() or 4)))
        left = max(20.0, budget - (time.time() - t0))
        ps = [launch(binary, wid, scratch, i, n, tier, left, extra, tag=kind) for i in range(n)]
        if os.environ.get("VERIF_FIRST"):
            ps = first_only(ps, wid, t0 + budget)
        for p in ps:
            rc = wait(p, max(5.0, t0 + budget - time.time()) + 90)
            st, v, err = result_of(p, wid, rc)
            if st:
                for k in tot:
                    tot[k] += st[k]
                for k, x in (st["classes"] or {}).items():
                    classes[k] = classes.get(k, 0) + x
                for k, x in (st["families"] or {}).items():
                    families[k] = families.get(k, 0) + x
                samples += (st["samples"] or [])[:3]
                complete &= st["complete"]
                for x in st["violations"] or []:
                    x["part"], x["worker"] = kind, wid
                    viols.append((x, binary, extra))
            if v:
                v["part"], v["worker"] = kind, wid
                viols.append((v, binary, extra))
                complete = False
            if err:
                errors.append(err)
                complete = False
            if not st:
                shutil.rmtree(p.sc, ignore_errors=True)
    # judge
    known = known_findings(prop)
    seen_known, confirmed, unconfirmed = {}, [], []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for k, (v, binary, extra) in enumerate(viols[:12]):
        v["property"] = prop
        v["tier"] = tier
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, k))
        json.dump(v, open(path, "w"), indent=1, ensure_ascii=False)
        if len(confirmed) >= 3 or confirmed and time.time() - t0 > 300:
            continue
        m = match_known(v, known)
        if m:
            seen_known[m["what"]] = m
            continue
        bad, msg = replay_file(binary, v["worker"], scratch, path, tier, extra, 3)
        if not bad:
            bad, msg = replay_file(binary, v["worker"], scratch, path, tier, extra, 12)
        if bad:
            confirmed.append((path, v))
        else:
            unconfirmed.append((path, v))
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for path, v in confirmed[:2 if not os.environ.get('VERIF_VERBOSE') else 9]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  family: %s\n  input: %s\n  %s" % (v["family"], v["input"][:700].replace("\n", "\n    "), v["message"][:1200].replace("\n", "\n    ")))
    for path, v in unconfirmed:
        sys.stderr.write("unconfirmed (did not fail again in 15 replays): %s %s\n" % (path, v["message"][:800]))
    for e in errors:
        sys.stderr.write("error: %s\n" % e)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": {
              "states": tot["states"] + tot["extra_states"],
              "transitions": tot["choice_nodes"] + tot["extra_transitions"],
              "traces_validated_against_impl": tot["executions"] + tot["extra_traces"],
              "distinct_nontrivial": tot["nontrivial"],
              "rule": meta["rule"],
              "outcome_classes": classes, "executions_per_family": families,
              "samples": samples[:8] or ["(none)"], "exhaustive": bool(complete and not confirmed),
              "notes": notes,
          },
          "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if meta["level"] == "fault_enumeration":
        ev["coverage"]["evaluations"] = ev["coverage"].pop("traces_validated_against_impl")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s %s: %d states, %d transitions, %d executions, nontrivial %d, complete=%s, violations=%d, %.1fs" % (
        prop, tier, ev["coverage"]["states"], ev["coverage"]["transitions"], tot["executions"],
        tot["nontrivial"], complete, len(confirmed), time.time() - t0))
    if confirmed:
        return 1
    if errors:
        return 2
    if tot["executions"] == 0 or tot["nontrivial"] == 0:
        print("vacuous run")
        return 2
    return 0


main()
