#!/usr/bin/env python3
"""Plants bugs: turns a definition (a replacement in /repo's sources plus a demonstration) into
seeded/<id>/ after confirming, in a scratch copy, that it builds, that the stable tests pass and
that the demonstration tells the two trees apart.  Usage: plant.py defs.py [id ...]

defs.py: BUGS = [dict(id=, property=, edits=[(file, old, new)], needs=, breaks=, demo=, features=)]
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "crates/minikalman/src/"
W = os.environ.get("PLANT_DIR", "/tmp/plant")
REPO = os.environ.get("PLANT_REPO", "/repo")  # a clean tree at /repo's HEAD

DEMO = r'''#!/bin/sh
# Exit 0 when the behaviour is right. Run with the repository as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
minikalman = { path = "$repo/crates/minikalman", default-features = false, features = [%s] }
%s
[profile.dev]
debug = 0
%s
EOF
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 60 "$t/target/debug/demo"
'''
TWICE = DEMO.replace('timeout 60 "$t/target/debug/demo"\n', '''CARGO_TARGET_DIR="$t/target" cargo build -q --release --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
a=$(timeout 60 "$t/target/debug/demo") || exit 1
b=$(timeout 60 "$t/target/release/demo") || exit 1
[ "$a" = "$b" ] || { echo "$a in a debug build, $b in an optimised one"; exit 1; }
''')

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    if not os.path.isdir(W):
        os.makedirs(W)
        sh(["cp", "-a", REPO, W + "/repo"], "/")
    r = W + "/repo"
    head = sh("git rev-parse HEAD", REPO).stdout.strip()
    if sh("git rev-parse HEAD", r).stdout.strip() != head:
        sh(f"git fetch -q /repo && git checkout -q -f {head}", r)
    sh("git checkout -q -- . ", r)
    for s in ("build.sh", "test.sh", "results.py", "env.sh", "BASELINE.json"):
        t = open("/opt/vp/" + s).read()
        t = t.replace("cd /repo", f"cd {r}").replace("--target-dir /repo/target", f"--target-dir {r}/target")
        open(W + "/" + s, "w").write(t)
    # keep build products of the scratch copy in the scratch copy
    return r

def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = W + "/target"
    return e

def tests(r):
    b = sh(f"bash {W}/build.sh", r, env=env())
    if b.returncode:
        return "build failed:\n" + b.stdout[-3000:]
    out = W + "/out.json"
    t = sh(f"bash {W}/test.sh {out}", r, env=env())
    try:
        res = json.load(open(out))
    except Exception as e:
        return f"no results: {e}\n{t.stdout[-2000:]}"
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    names = set(stable if isinstance(stable, list) else stable.keys())
    passed = set(res["passed"]) if "passed" in res else {k for k, v in res.get("tests", res).items() if v in ("passed", "ok", True)}
    missing = names - passed
    return f"{len(missing)} stable tests fail: {sorted(missing)[:8]}" if missing else None

def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        r = scratch()
        d = os.path.join(HERE, "seeded", b["id"])
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(r, SRC, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                bad = f"{f}: {n} matches of {old!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "SKIPPED", bad); continue
        tmp = W + "/demo." + b["id"]
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        feats = ", ".join('"%s"' % f for f in b.get("features", ["std", "alloc"]))
        open(tmp + "/demo.sh", "w").write((TWICE if b.get("two_profiles") else DEMO) % (feats, b.get("deps", ""), b.get("profile", "")))
        open(tmp + "/demo.rs", "w").write(b["demo"])
        good = sh(f"sh {tmp}/demo.sh", REPO)
        if good.returncode:
            print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE", good.returncode, good.stdout[-1500:]); continue
        broken = sh(f"sh {tmp}/demo.sh", r)
        if broken.returncode in (0, 3):
            print(b["id"], "DEMO DOES NOT NOTICE", broken.returncode, broken.stdout[-1500:]); continue
        t = tests(r)
        if t:
            print(b["id"], "TESTS NOTICE", t); continue
        diff = sh("git diff", r).stdout
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(tmp + "/demo.sh", d); shutil.copy(tmp + "/demo.rs", d)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "PLANTED; demo says:", broken.stdout.strip().splitlines()[-1:] )
        sys.stdout.flush()
    sh("git checkout -q -- .", W + "/repo")

main()
