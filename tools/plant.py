#!/usr/bin/env python3
"""Turn bug descriptions into seeded/<id>/ after confirming them in scratch copies.

    plant.py BUGS.py [id ...]     BUGS.py defines B: list of dicts
        id, property, edits=[(file, old, new[, occurrence])], demo (main.rs body), needs, breaks, release(bool)

Kept when: it builds, all stable tests pass, the demo passes without and fails with the change.
"""
import json, os, re, runpy, shutil, subprocess, sys
W = "/tmp/plant-w"
OUT = "/verif/seeded"
SH = r'''#!/bin/bash
# run with cwd = the householder repository: exit 0 if the property holds, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
householder = { path = "$PWD" }
rand = "0.8"
rand_distr = "0.4"
[profile.release]
overflow-checks = false
[workspace]
T
cp "$d/demo.rs" "$t/src/main.rs"
cd "$t" || exit 3
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo build -q --offline%s || exit 3
timeout 200 "$t/target/%s/demo"
'''
SHC = r'''#!/bin/bash
# run with cwd = the householder repository: exit 0 if the conflicting programs are rejected, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
householder = { path = "$PWD" }
[workspace]
T
cd "$t" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
for f in "$d"/accept*.rs; do
    cp "$f" src/lib.rs
    cargo check -q --offline || { echo "a correct program does not compile: $f"; exit 3; }
done
for f in "$d"/reject*.rs; do
    cp "$f" src/lib.rs
    if cargo check -q --offline 2> /dev/null; then
        echo "a conflicting program compiles: $f"
        exit 1
    fi
done
'''
PRE = "#![allow(unused_imports, unused_mut, dead_code)]\nuse householder::*;\nuse std::panic::{catch_unwind, AssertUnwindSafe};\n\nfn main() {\n"


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["B"]
    only = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not only and os.path.exists(os.path.join(OUT, b["id"], "meta.json")):
            continue
        if os.path.exists(W):
            shutil.rmtree(W)
        subprocess.run(["cp", "-a", "/repo", W], check=True)
        run(["git", "checkout", "-q", "--", "."], W)
        ok = True
        for e in b["edits"]:
            p = os.path.join(W, e[0])
            s = open(p).read()
            n = s.count(e[1])
            if n == 0 or (n > 1 and len(e) < 4):
                print(b["id"], "EDIT matches", n, "times in", e[0]); ok = False; break
            k = e[3] if len(e) > 3 else 0
            if k == "all":
                s = s.replace(e[1], e[2])
            else:
                i = -1
                for _ in range(k + 1):
                    i = s.index(e[1], i + 1)
                s = s[:i] + e[2] + s[i + len(e[1]):]
            open(p, "w").write(s)
        if not ok:
            continue
        diff = run(["git", "diff"], W).stdout
        r = run(["bash", "-c", "cargo test --workspace --no-fail-fast --offline -- --test-threads 8"], W,
                env=dict(os.environ, CARGO_NET_OFFLINE="true"))
        passed = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
        failed = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
        if passed < 37 or failed:
            print(b["id"], "TESTS passed", passed, "failed", failed)
            if passed == 0:
                print("\n".join(l for l in r.stdout.splitlines() if "error" in l)[:1500])
                i = r.stdout.find("error"); print(r.stdout[i:i + 1500])
            continue
        d = "/tmp/plant-d"
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        rel = b.get("release", False)
        if "reject" in b:
            open(d + "/demo.sh", "w").write(SHC)
            for k in ("accept", "reject"):
                for n, t in enumerate(b[k]):
                    open(d + "/%s%d.rs" % (k, n), "w").write("#![allow(warnings)]\nuse householder::*;\n\n" + t.strip("\n") + "\n")
        else:
            sh = SH % (" --release" if rel else "", "release" if rel else "debug")
            if b.get("mustbuild"):  # the demonstration is that the program no longer compiles
                sh = sh.replace(" || exit 3\ntimeout", " || exit 1\ntimeout")
            open(d + "/demo.sh", "w").write(sh)
            open(d + "/demo.rs", "w").write(b.get("pre", PRE) + b["demo"].strip("\n") + "\n}\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r1 = run(["bash", d + "/demo.sh"], "/repo")
        r2 = run(["bash", d + "/demo.sh"], W)
        if r1.returncode != 0 or r2.returncode in (0, 3):
            print(b["id"], "DEMO clean", r1.returncode, "bug", r2.returncode)
            print(r1.stdout[-1500:] if r1.returncode else r2.stdout[-1500:])
            continue
        dst = os.path.join(OUT, b["id"])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print(b["id"], "kept; demo rc", r2.returncode)
    for x in (W, "/tmp/plant-d"):
        if os.path.exists(x):
            shutil.rmtree(x)


main()
