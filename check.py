#!/usr/bin/env python3
"""Runs one check:  python3 check.py C01 [--tier quick|thorough]

Builds the monitors of one property against /repo's current working tree, in every build
configuration the property needs, runs them, and turns what they observed into a verdict:
  exit 0  the property held on everything observed (evidence/<id>.json rewritten)
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  inconclusive: the check could not be built, did not finish, or observed too little
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
REPO = os.environ.get("KF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402

STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


def tree_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, "crates/minikalman")
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(base, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(base, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def env_for(cfg):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN=cfg.get("toolchain", STABLE))
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(cfg.get("env", {}))
    return e


def target_dir(cname):
    return os.path.join(HARNESS, "target", cname)


def cargo_args(cfg, cname):
    a = ["--offline", "--no-default-features", "--features", ",".join(cfg["features"]),
         "--target-dir", target_dir(cname)]
    if cfg.get("release"):
        a.append("--release")
    if cfg.get("profile"):
        a += ["--profile", cfg["profile"]]
    return a + cfg.get("cargo", [])


def build(cname, bins, log):
    """Builds `bins` in one configuration; returns (ok, path prefix of the binaries)."""
    cfg = CONFIGS[cname]
    env = env_for(cfg)
    td = target_dir(cname)
    os.makedirs(td, exist_ok=True)
    tag = os.path.join(td, "CACHEDIR.TAG")
    if not os.path.exists(tag):  # without it `cargo clean` refuses to work on a directory
        with open(tag, "w") as f:
            f.write("Signature: 8a477f597d28d172789f06886806bc55\n")
    stamp = os.path.join(td, "tree.sha256")
    now = tree_hash()
    old = open(stamp).read().strip() if os.path.exists(stamp) else ""
    with open(log, "wb") as lf:
        if old != now and os.path.exists(stamp):
            os.remove(stamp)  # whatever lies there from now on belongs to no known tree
        if old != now:
            # cargo judges by time stamps; the content is what counts here
            base = ["cargo", "clean", "--offline", "-p", "minikalman", "--target-dir",
                    os.path.join(td, "miri") if cfg.get("interp") else td]
            base += ["--release"] if cfg.get("release") else []
            base += ["--profile", cfg["profile"]] if cfg.get("profile") else []
            base += ["--target", cfg["triple"]] if cfg.get("triple") else []
            if subprocess.run(base, cwd=HARNESS, env=env, stdout=lf, stderr=lf).returncode != 0:
                for sub in os.listdir(td):  # nothing stale may survive
                    if sub != "CACHEDIR.TAG":
                        shutil.rmtree(os.path.join(td, sub)) if os.path.isdir(os.path.join(td, sub)) else os.remove(os.path.join(td, sub))
        if cfg.get("interp"):
            # one run that executes no case builds everything the interpreter needs
            e2 = dict(env, KF_WARMUP="1")
            for b in bins:
                r = subprocess.run(cfg["interp"] + cargo_args(cfg, cname) + ["--bin", b], cwd=HARNESS, env=e2,
                                   stdout=lf, stderr=lf)
                if r.returncode != 0:
                    return False, None
            with open(stamp, "w") as f:
                f.write(now + "\n")
            return True, None
        cmd = ["cargo", "build"] + cargo_args(cfg, cname)
        for b in bins:
            cmd += ["--bin", b]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=lf, stderr=lf)
    if r.returncode != 0:
        return False, None
    with open(stamp, "w") as f:
        f.write(now + "\n")
    sub = cfg.get("profile") or ("release" if cfg.get("release") else "debug")
    trip = cfg.get("triple")
    return True, os.path.join(td, trip, sub) if trip else os.path.join(td, sub)


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def run_bin(pid, run, prefix, tier, seed, work, only=None, trace=None):
    """Returns (kind, data): kind is ok | crash | timeout | error."""
    cname, binname = run["config"], run["bin"]
    cfg = CONFIGS[cname]
    tag = ".".join([cname, binname] + ([run["tag"]] if run.get("tag") else []))
    out = os.path.join(work, f"{tag}.json")
    log = os.path.join(work, f"{tag}.log")
    if os.path.exists(out):
        os.remove(out)
    env = env_for(cfg)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, KF_OUT=out, KF_CONFIG=cname, RUST_BACKTRACE="0")
    if run.get("boost") and tier == "quick":
        env["KF_BOOST"] = str(run["boost"])
    env["KF_BUDGET_S"] = str(run.get("budget", {}).get(tier, 1e9))
    env.update(run.get("env", {}))
    env.update(run.get("env_" + tier, {}))
    if only:
        env["KF_REPLAY"] = only
    if trace:
        env["KF_TRACE"] = trace
    if cfg.get("interp"):
        cmd = cfg["interp"] + cargo_args(cfg, cname) + ["--bin", binname]
    else:
        cmd = [os.path.join(prefix, binname)]
    cmd += run.get("args", [])
    limit = run.get("timeout", {}).get(tier, 600 if tier == "quick" else 14000)
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=lf, stderr=lf, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout", {"log": log, "why": f"no answer within {limit} s"}
    text = tail(log, 200000)
    report = None
    for marker in cfg.get("report_markers", []):
        if marker in text:
            report = marker
    if report:
        return "report", {"log": log, "marker": report, "rc": rc}
    if rc == 0 and os.path.exists(out):
        try:
            return "ok", json.load(open(out))
        except ValueError as e:
            return "error", {"log": log, "why": f"unreadable result: {e}"}
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        return "crash", {"log": log, "why": f"killed by {signal.Signals(-rc).name}"}
    return "error", {"log": log, "why": f"exit status {rc}", "rc": rc}


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay", help="replay file of an earlier violation: runs only that case")
    ap.add_argument("--only-config")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        only, seed, a.only_config, tier = rp["label"], rp["seed"], rp["config"], rp["tier"]
        spec = dict(spec, runs=[r for r in spec["runs"] if r["bin"] == rp["bin"] and r.get("tag") == rp.get("tag")])
        if only.startswith("("):
            only = None
        if rp["label"].startswith(("(compare", "(build")):
            a.only_config = None
    t0 = time.time()
    work = os.path.join(EVID, "work", pid)
    os.makedirs(work, exist_ok=True)
    replay_dir = os.path.join(EVID, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ["quick", "thorough"])]
    if a.only_config:
        runs = [r for r in runs if r["config"] == a.only_config]

    # Build every configuration (cargo parallelises inside; a few at a time).
    need = {}
    for r in runs:
        need.setdefault(r["config"], [])
        if r["bin"] not in need[r["config"]]:
            need[r["config"]].append(r["bin"])
    inconclusive, prefixes, failed = [], {}, {}
    with ThreadPoolExecutor(max_workers=4) as ex:
        futs = {c: ex.submit(build, c, bs, os.path.join(work, f"build.{c}.log")) for c, bs in need.items()}
        for c, f in futs.items():
            ok, pre = f.result()
            if not ok:
                failed[c] = tail(os.path.join(work, f"build.{c}.log"))
            prefixes[c] = pre
    t_build = time.time() - t0
    unbuilt = [r for r in runs if r["config"] in failed]
    runs = [r for r in runs if r["config"] not in failed]

    def one(r):
        return r, run_bin(pid, r, prefixes[r["config"]], tier, seed, work, only)

    with ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(one, runs))

    violations, known_seen, parts = [], {}, []

    def add(run, label, what, extra=None):
        violations.append((run, label, what, extra))

    for c, log in failed.items():
        # That the library itself does not build with some features although it does with others
        # is what C26 excludes. Anything else that does not build leaves the question open.
        if spec.get("must_build") and len(failed) < len(need) and "could not compile `minikalman`" in log and "error[E" in log:
            add([r for r in unbuilt if r["config"] == c][0], "(build)", f"the library does not build: {CONFIGS[c]['what']}\n{log}")
        else:
            inconclusive.append(f"build of configuration {c} failed:\n{log}")

    for r, (kind, data) in results:
        if kind == "ok":
            parts.append((r, data))
            if data["harness_errors"]:
                inconclusive.append(f"{r['config']}/{r['bin']}: monitor error: {data['harness_errors'][0]}")
            if r.get("only_reports"):
                # Somebody else's monitor serves as the workload here; its verdict is not asked for.
                data["violations"] = []
            for v in data["violations"]:
                add(r, v["label"], v["what"])
            for k, n in data.get("known", {}).items():
                if not r.get("only_reports"):
                    known_seen[k] = known_seen.get(k, 0) + n
            if not only:
                for k, least in r.get("need", {}).items():
                    got = data["distinct_nontrivial"] if k == "distinct" else data["counters"].get(k, 0)
                    if got < least and not data["violations"]:
                        inconclusive.append(f"{r['config']}/{r['bin']}: observed only {got} of {k} (needs {least})")
        elif kind == "report":
            text = tail(data["log"], 400000)
            add(r, f"({data['marker']})", text[text.index(data["marker"]):][:2500])
        elif kind == "crash":
            # A crash counts only when it repeats; the trace names the case it happened in.
            tr = os.path.join(work, "trace.txt")
            k2, d2 = run_bin(pid, r, prefixes[r["config"]], tier, seed, work, only, trace=tr)
            if k2 == "crash":
                label = tail(tr, 4000).strip().splitlines()[-1:] or ["(start)"]
                add(r, label[0], f"the process was {d2['why']} while running the library in this case")
            else:
                inconclusive.append(f"{r['config']}/{r['bin']}: {data['why']} once, then {k2}")
        elif kind == "error" and data.get("rc") == 77:
            inconclusive.append(f"{r['config']}/{r['bin']}: {tail(data['log'], 800)}")
        else:
            inconclusive.append(f"{r['config']}/{r['bin']}: {kind}: {data['why']}\n{tail(data['log'], 1500)}")

    # Cross-run comparisons (e.g. the same mission in several builds).
    compare = spec.get("compare")
    extra_cov = {}
    if compare and not only:
        vs, inc, extra_cov = compare(parts, work)
        for label, what in vs:
            add(parts[0][0] if parts else runs[0], label, what)
        inconclusive += inc

    listed = {f["id"]: f for f in load_known() if f["property"] == pid and f["status"] == "known"}
    for k, n in sorted(known_seen.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']} (seen {n} times)")
        else:
            add(runs[0], f"(known:{k})", f"finding {k} is not listed in known_findings.json")

    samples = [s for _, d in parts for s in d["samples"]][:40]
    cov = {
        "evaluations": sum(d["evaluations"] for _, d in parts),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for _, d in parts),
        "rule": (parts[0][1]["rule"] if parts else spec["technique"]) + " Counted separately per build configuration.",
        "samples": samples,
        "cases": sum(d["cases"] for _, d in parts),
        "observed": {"/".join([r["config"], r["bin"]] + ([r["tag"]] if r.get("tag") else [])): dict(d["counters"], cases=d["cases"], evaluations=d["evaluations"],
                                                       distinct=d["distinct_nontrivial"], wall_s=d["wall_s"],
                                                       max_error_over_tolerance=d["max_error_over_tolerance"])
                     for r, d in parts},
        "build_configurations": {c: CONFIGS[c]["what"] for c in need},
        "inconclusive": inconclusive,
        "known_findings_seen": known_seen,
        "build_s": round(t_build, 1),
    }
    cov.update(extra_cov)
    lines, replays = [], []
    for i, (r, label, what, _) in enumerate(violations[:10]):
        path = os.path.join(replay_dir, f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "config": r["config"], "bin": r["bin"], "tag": r.get("tag"), "seed": seed, "tier": tier,
                       "label": label, "what": what,
                       "how": f"cd {HERE} && python3 check.py {pid} --replay {os.path.relpath(path, HERE)}"}, f, indent=1)
        replays.append(path)
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "violations": [{"label": l, "what": w, "config": r["config"]} for r, l, w, _ in violations[:20]],
        "assumptions": spec.get("assumptions", []),
    }
    if not only:
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {cov['cases']} cases, {cov['evaluations']} evaluations, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {len(violations)} violations, "
          f"build {t_build:.1f} s, total {time.time() - t0:.1f} s")
    for (r, label, what, _), l in zip(violations[:10], lines):
        print(f"  [{r['config']}] {label}: {what[:600]}")
        print(l)
    for i in inconclusive:
        print("INCONCLUSIVE:", i)
    if violations:
        sys.exit(1)
    sys.exit(2 if inconclusive else 0)


if __name__ == "__main__":
    main()
