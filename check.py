#!/usr/bin/env python3
"""Driver of the model checks.

    check.py C03 quick|thorough     explore property C03 on the code in /repo
    check.py --replay FILE          re-execute one recorded violation

Builds the explorer of the property against /repo's working tree (checked and unchecked build), runs
it in parallel worker processes, confirms what they report, writes evidence/<id>.json and exits with
0 (held), 1 (VIOLATION line printed) or 2 (no verdict).
"""
import concurrent.futures as cf
import hashlib, json, mmap, os, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(VERIF, "mc")
TARGET = os.path.join(MC, "target")
PROFILES = [("checked", "debug", []), ("unchecked", "release", ["--release"])]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
MEM = 3 << 30
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402
import c21  # noqa: E402


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(prop, profiles):
    def one(p):
        cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(MC, "Cargo.toml"),
               "--bin", prop.lower()] + p[2]
        return p, subprocess.run(cmd, env=ENV, cwd=MC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with cf.ThreadPoolExecutor(4) as ex:
        for p, r in ex.map(one, profiles):
            if r.returncode != 0:
                print(r.stdout[-4000:])
                die("the %s build of the explorer failed" % p[0])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def read_prog(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16)
        return struct.unpack("<QQ", b) if len(b) == 16 else (0, 0)
    except OSError:
        return (0, 0)


def run_worker(exe, args, tmp, name, deadline, stall, stop=None):
    """-> dict(kind=ok|crash|hang|timeout|stopped, out, ord, err)"""
    if stop is not None and stop.is_set():
        return {"kind": "stopped"}
    out, prog, err = (os.path.join(tmp, name + e) for e in (".out", ".prog", ".err"))
    with open(err, "wb") as ef:
        p = subprocess.Popen([exe] + args + ["--out", out, "--prog", prog], stdout=subprocess.DEVNULL, stderr=ef,
                             preexec_fn=limits, env=ENV, cwd=tmp)
    last, since = None, time.time()
    kind = None
    while True:
        try:
            p.wait(timeout=0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        cur = read_prog(prog)
        if cur != last:
            last, since = cur, now
        if now - since > stall:
            kind = "hang"
        elif now > deadline:
            kind = "timeout"
        elif stop is not None and stop.is_set():
            kind = "stopped"
        if kind:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    with open(err, "rb") as ef:
        ef.seek(0, 2)
        ef.seek(max(0, ef.tell() - 20000))
        etext = ef.read().decode("utf8", "replace")
    res = {"kind": kind or "ok", "ord": read_prog(prog)[0] - 1, "err": etext, "rc": p.returncode, "out": None}
    if kind is None:
        if p.returncode == 0 and os.path.exists(out):
            with open(out) as f:
                res["out"] = json.load(f)
        else:
            res["kind"] = "crash"
    return res


def exe_of(prop, profile):
    return os.path.join(TARGET, profile[1], prop.lower())


def rerun(prop, profile, tier, ord_, tmp, stall):
    args = ["--tier", tier, "--only", str(ord_), "--trace"]
    return run_worker(exe_of(prop, profile), args, tmp, "re-%s-%d" % (profile[0], ord_), time.time() + 200, stall)


def steps_of(err, n=40):
    return [l for l in err.splitlines() if l.startswith(("CASE ", "STEP "))][-n:]


def signame(rc):
    if rc is None or rc >= 0:
        return "exit status %s" % rc
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return "signal %d" % -rc


def violation(prop, tier, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    v = dict(property=prop, tier=tier, **v)
    h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    v["replay_with"] = "python3 check.py --replay %s" % os.path.relpath(path, VERIF)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    print("  [%s build] %s" % (v["build"], v["case"]))
    print("  %s" % v["message"])
    for s in v.get("steps", [])[-6:]:
        print("    " + s[:300])
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except OSError:
        return {}
    return {e["key"]: e for e in k["findings"] if e["property"] == prop}


def check(prop, tier):
    t0 = time.time()
    spec = specs.SPECS[prop]
    if prop == "C21":
        return c21.check(tier, spec)
    build(prop, PROFILES)
    built = time.time() - t0
    stall = 60 if tier == "quick" else 300
    deadline = t0 + (820 if tier == "quick" else 6 * 3600)
    n = spec.get("shards", 16)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    results, viols, findings = {p[0]: [] for p in PROFILES}, [], {}
    trouble = []
    stop = threading.Event()
    try:
        jobs = [(p, s) for p in PROFILES for s in range(n)]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            fut = {ex.submit(run_worker, exe_of(prop, p), ["--tier", tier, "--shard", "%d/%d" % (s, n)], tmp,
                             "w-%s-%d" % (p[0], s), deadline, stall, stop): (p, s) for p, s in jobs}
            for f in cf.as_completed(fut):
                p, s = fut[f]
                r = f.result()
                if r["kind"] == "ok":
                    results[p[0]].append(r["out"])
                    for v in r["out"]["violations"]:
                        viols.append((p, v))
                    for k in r["out"]["findings"]:
                        findings.setdefault(k["key"], (p, k))
                elif r["kind"] != "stopped":
                    if r["kind"] == "hang" and not any(t[2]["kind"] == "hang" for t in trouble):
                        # once confirmed there is a verdict: the others need not run into it as well
                        r["again"] = rerun(prop, p, tier, r["ord"], tmp, stall)
                        if r["again"]["kind"] in ("crash", "hang"):
                            stop.set()
                    trouble.append((p, s, r))
        # Crashes and hangs: confirmed on the single case, else on the whole shard.
        undecided = []
        if stop.is_set():
            trouble = [t for t in trouble if t[2].get("again", {}).get("kind") in ("crash", "hang")]
        for p, s, r in trouble[:4]:
            what = "the process was killed (%s)" % signame(r["rc"]) if r["kind"] == "crash" else "no progress for %d s" % stall
            if r["kind"] == "timeout":
                undecided.append("time limit reached in case %d" % r["ord"])
                continue
            if r["kind"] == "crash" and r["rc"] is not None and r["rc"] >= 0 and r["rc"] != 101:
                undecided.append("worker failed: rc=%s %s" % (r["rc"], r["err"][-500:]))
                continue
            again = r.get("again") or rerun(prop, p, tier, r["ord"], tmp, stall)
            if again["kind"] in ("crash", "hang"):
                st = steps_of(again["err"])
                viols.append((p, {"ord": r["ord"], "space": "", "case": st[0] if st else "case %d" % r["ord"],
                                  "message": "executing this case %s" % ("crashes: " + signame(again["rc"]) if again["kind"] == "crash" else "does not terminate"),
                                  "steps": st}))
                continue
            again = run_worker(exe_of(prop, p), ["--tier", tier, "--shard", "%d/%d" % (s, n)], tmp,
                               "s-%s-%d" % (p[0], s), min(deadline, time.time() + 300), stall)
            if again["kind"] == r["kind"] and again["ord"] == r["ord"]:
                viols.append((p, {"ord": r["ord"], "space": "", "case": "shard %d/%d up to case %d" % (s, n, r["ord"]),
                                  "message": "repeatedly: " + what, "shard": "%d/%d" % (s, n)}))
            else:
                undecided.append("%s once in case %d, not reproduced" % (what, r["ord"]))
        if len(trouble) > 4 and not viols:
            undecided.append("%d workers failed" % len(trouble))
        listed = known(prop)
        for key, (p, k) in sorted(findings.items()):
            if key in listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[key]["what"]))
            else:
                viols.append((p, k))
        for key in listed:
            if key not in findings and not undecided and not viols:
                print("note: known finding %s did not show" % key)
        viols.sort(key=lambda x: (x[1]["ord"], x[0][0]))
        seen, shown = set(), 0
        for p, v in viols:
            if (v["ord"]) in seen or shown >= 3:
                continue
            seen.add(v["ord"])
            shown += 1
            if "steps" not in v and "shard" not in v:
                again = rerun(prop, p, tier, v["ord"], tmp, stall)
                v = dict(v, steps=steps_of(again["err"]))
            violation(prop, tier, dict(v, build=p[0]))
        evidence(prop, tier, spec, results, len(viols), findings, undecided, built, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if viols:
        print("%s: %d violating cases (%.0f s)" % (prop, len(viols), time.time() - t0))
        return 1
    if undecided:
        die("%s: no verdict: %s" % (prop, "; ".join(undecided)))
    print("%s %s: held on everything explored (%.0f s)" % (prop, tier, time.time() - t0))
    return 0


def evidence(prop, tier, spec, results, nviol, findings, undecided, built, wall):
    keys = ["cases", "evaluations", "states", "transitions", "traces", "outcomes"]
    per = {}
    tot = {}
    for prof, rs in results.items():
        t = dict.fromkeys(keys, 0)
        for r in rs:
            for s, c in r["spaces"].items():
                d = per.setdefault(s, {}).setdefault(prof, dict.fromkeys(keys, 0))
                for k in keys:
                    d[k] += c[k]
                    t[k] += c[k]
        tot[prof] = t
    samples = []
    for r in results["checked"]:
        for s, l in r["samples"].items():
            for x in l[-2:]:
                if sum(1 for y in samples if y["space"] == s) < 4:
                    samples.append({"space": s, "case": x})
    c, u = tot["checked"], tot["unchecked"]
    complete = not undecided and not nviol
    cov = {
        "spaces": per,
        "samples": samples,
        "exhaustive": complete,
        "bounds": spec["bounds"][0] if tier == "quick" else spec["bounds"][1],
        "builds": {"checked": "overflow checks and debug assertions on", "unchecked": "optimised, both off"},
        "cases_per_build": c["cases"],
        "build_s": round(built, 1),
    }
    if spec["level"] == "model_checking":
        cov.update(states=c["states"], transitions=c["transitions"] + u["transitions"],
                   traces_validated_against_impl=c["traces"] + u["traces"],
                   oracle_comparisons=c["evaluations"] + u["evaluations"],
                   binding="every transition of the model is executed on the real object and the complete observable state compared")
    else:
        cov.update(evaluations=c["evaluations"] + u["evaluations"], distinct_nontrivial=c["states"], rule=spec["rule"])
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(wall, 1), "violations": nviol}
    if findings:
        cov["findings"] = {k: v[1]["message"] for k, v in findings.items()}
    if undecided:
        cov["undecided"] = undecided
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop, tier = v["property"], v["tier"]
    if prop == "C21":
        rc = c21.replay(v)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return rc
    prof = [p for p in PROFILES if p[0] == v["build"]]
    build(prop, prof)
    tmp = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        if "shard" in v:
            r = run_worker(exe_of(prop, prof[0]), ["--tier", tier, "--shard", v["shard"]], tmp, "r", time.time() + 800, 60)
        else:
            r = rerun(prop, prof[0], tier, v["ord"], tmp, 60)
        print(r["err"][-6000:])
        bad = r["kind"] != "ok" or r["out"]["violations"] or any(k["key"] not in known(prop) for k in r["out"]["findings"])
        if r["out"]:
            for x in r["out"]["violations"] + r["out"]["findings"]:
                print(x["message"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("the recorded case holds on this tree")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough") or sys.argv[1] not in specs.SPECS:
        die("usage: check.py ID quick|thorough")
    sys.exit(check(sys.argv[1], sys.argv[2]))
