"""Which monitors decide which property, in which build configurations."""

FULL = ["std", "fixed", "alloc", "unsafe", "nalgebra"]
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"

CONFIGS = {
    "main": {"features": FULL, "what": "std, fixed, alloc, unsafe, nalgebra; debug assertions and overflow checks on"},
    "release": {"features": FULL + ["no_assert", "lite"], "release": True,
                "what": "optimised, assertions off, no_assert; reduced shapes"},
    "libm": {"features": ["libm", "alloc", "lite"], "what": "no_std with libm and alloc; reduced shapes"},
    "bare": {"features": ["libm", "lite"], "what": "no_std with libm and nothing else (no allocation); reduced shapes"},
    "plain": {"features": ["std", "lite"], "what": "std and nothing else; debug assertions on; reduced shapes"},
    "all": {"features": FULL + ["libm", "micromath", "no_assert", "lite"],
            "what": "every feature at once (std wins), assertions off; reduced shapes"},
    "checked": {"features": FULL + ["lite"], "profile": "checked",
                "what": "as main but fully optimised, debug assertions and overflow checks on; reduced shapes"},
    "libm-rel": {"features": ["libm", "alloc", "fixed", "unsafe", "no_assert", "lite"], "release": True,
                 "what": "no_std with libm, optimised, assertions off; reduced shapes"},
    "mm-rel": {"features": ["micromath", "no_assert", "lite"], "release": True,
               "what": "no_std with micromath and no allocation, optimised, assertions off; reduced shapes"},
    "odd": {"features": ["libm", "unsafe", "nalgebra", "lite"], "profile": "checked",
            "what": "no_std with libm, unsafe and nalgebra but no allocation, optimised, assertions on; reduced shapes"},
    "odd2": {"features": ["libm", "fixed", "no_assert", "lite"],
             "what": "no_std with libm and fixed but no allocation, not optimised, assertions off; reduced shapes"},
    "both": {"features": ["libm", "micromath", "alloc", "unsafe", "nalgebra", "fixed", "lite"],
             "what": "no_std with libm and micromath (libm wins), alloc, unsafe, nalgebra, fixed; reduced shapes"},
    "odd3": {"features": ["std", "nalgebra", "no_assert", "lite"], "release": True,
             "what": "std and nalgebra without unsafe, optimised, assertions off; reduced shapes"},
    "mm": {"features": ["micromath", "alloc", "lite"], "what": "no_std with micromath and alloc; reduced shapes"},
    "miri": {"features": FULL + ["lite"], "toolchain": NIGHTLY, "interp": ["cargo", "miri", "run"],
             "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=1", "KF_TINY": "1"},
             "report_markers": ["Undefined Behavior"],
             "what": "interpreted by Miri (stacked borrows, data races, uninitialised memory); reduced shapes"},
    "miri-na": {"features": FULL + ["no_assert", "lite"], "toolchain": NIGHTLY, "interp": ["cargo", "miri", "run"],
                "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=2 -Zmiri-tree-borrows "
                                     "-Zmiri-symbolic-alignment-check", "KF_TINY": "1"},
                "report_markers": ["Undefined Behavior"],
                "what": "interpreted by Miri (tree borrows, symbolic alignment), assertions off; reduced shapes"},
    "asan": {"features": FULL + ["lite"], "toolchain": NIGHTLY, "triple": "x86_64-unknown-linux-gnu",
             "cargo": ["--target", "x86_64-unknown-linux-gnu"],
             "env": {"RUSTFLAGS": "-Zsanitizer=address",
                     "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:allow_user_segv_handler=1"},
             "report_markers": ["AddressSanitizer"],
             "what": "native with the address sanitizer; reduced shapes"},
}


# Monitors whose full workload takes long are run in parts, side by side.
SPLIT = {"c01": 4, "c02": 4, "c03": 4, "c04": 4, "c05": 4, "c06": 4, "c07": 4, "c10": 4, "c11": 6, "c25": 4}


def std_runs(b, need=None, lite_need=None, configs=("main", "release", "libm", "mm")):
    out = []
    for c in configs:
        k = SPLIT.get(b, 1) if c == "main" else 1
        for i in range(k):
            r = {"config": c, "bin": b, "need": (need if c == "main" else lite_need) or {}}
            if k > 1:
                # the parts are not exactly equal
                r.update(tag=f"part{i}of{k}", env={"KF_PART": f"{i}/{k}"}, need={q: v // (2 * k) for q, v in r["need"].items()})
            out.append(r)
    return out


ALL4 = ("main", "release", "libm", "mm")

CHECKS = {
    "C01": {
        "technique": "runtime monitoring: every observed prediction is judged against a reference model with error bounds",
        "runs": std_runs("c01", {"distinct": 5000, "predict steps judged": 15000}, {"distinct": 200}),
    },
    "C02": {
        "technique": "runtime monitoring: every observed tuned prediction is judged against a reference model, and against its plain twin",
        "runs": std_runs("c02", {"distinct": 2000}, {"distinct": 200}),
    },
    "C03": {
        "technique": "runtime monitoring: every observed control step is judged against a reference model",
        "runs": std_runs("c03", {"distinct": 2000}, {"distinct": 200}),
    },
    "C04": {
        "technique": "runtime monitoring: every observed linear update is judged against an independent solver with error bounds",
        "runs": std_runs("c04", {"distinct": 2000}, {"distinct": 100}, ("main", "release", "libm")),
    },
    "C05": {
        "technique": "runtime monitoring: spying model functions and a reference model judge every extended prediction",
        "runs": std_runs("c05", {"distinct": 2000}, {"distinct": 200}),
    },
    "C06": {
        "technique": "runtime monitoring: spying model functions and an independent solver judge every extended update",
        "runs": std_runs("c06", {"distinct": 2000}, {"distinct": 100}, ("main", "release", "libm")),
    },
    "C07": {
        "technique": "runtime monitoring: lockstep differential execution of both filter kinds",
        "runs": std_runs("c07", {"distinct": 100}, {"distinct": 10}),
    },
    "C08": {
        "technique": "runtime monitoring: invariant monitor (symmetry, spectrum, monotone uncertainty) over missions",
        "runs": std_runs("c08", {"distinct": 100}, {"distinct": 10}),
    },
    "C09": {
        "technique": "runtime monitoring: offline checker of whole missions against the batch least-squares solution",
        "runs": std_runs("c09", {"distinct": 100}, {"distinct": 10}, ("main", "release", "libm")),
    },
    "C10": {
        "technique": "runtime monitoring: bitwise snapshots of every parameter around every step",
        "runs": std_runs("c10", {"distinct": 1000}, {"distinct": 100}),
    },
    "C11": {
        "technique": "runtime monitoring: differential execution with poisoned working memory",
        "runs": std_runs("c11", {"distinct": 1000, "steps abandoned by a panicking model function": 1000}, {"distinct": 100}),
    },
    "C12": {
        "technique": "runtime monitoring: recorded missions repeated, interleaved, threaded and shared, compared bit for bit",
        "runs": std_runs("c12", {"distinct": 300, "switches between filters": 2000, "steps in parallel": 5000, "steps inside model functions": 2000}, {"distinct": 50}),
    },
    "C13": {
        "technique": "runtime monitoring: every observed product is judged against exact or error-bounded arithmetic",
        "runs": std_runs("c13", {"distinct": 2000}, {"distinct": 200}),
    },
    "C14": {
        "technique": "runtime monitoring: every observed element-wise operation and copy is judged bit by bit",
        "runs": std_runs("c14", {"distinct": 1000}, {"distinct": 100}),
    },
    "C15": {
        "technique": "runtime monitoring: every observed factorisation is judged by its residual and by what it promises on failure",
        "runs": std_runs("c15", {"distinct": 500}, {"distinct": 50}, ("main", "release", "libm")),
    },
    "C16": {
        "technique": "runtime monitoring: every observed inverse is judged by its residual against its factor",
        "runs": std_runs("c16", {"distinct": 300}, {"distinct": 30}, ("main", "release", "libm")),
    },
    "C17": {
        "technique": "runtime monitoring: reads and writes by every route are checked against a shadow matrix",
        "runs": std_runs("c17", {"distinct": 300}, {"distinct": 50}),
    },
    "C18": {
        "technique": "runtime monitoring: differential execution across storage kinds, with poisoned guard elements around every buffer",
        "runs": std_runs("c18", {"distinct": 2000, "steps on other storages": 2000, "operations with surplus memory": 5000},
                         {"distinct": 200}),
    },
}
CHECKS["C19"] = {
    "technique": "runtime monitoring: every buffer role offered every length, steps and operations on cut buffers with guarded memory",
    "runs": std_runs("c19", {"distinct": 3000, "undersized buffers refused": 1000, "operations with a short operand": 5000},
                     {"distinct": 500, "operations with a short operand": 2000}),
}
CHECKS["C20"] = {
    "technique": "runtime monitoring: every builder and macro product is inspected, what they build runs in lockstep with a hand-wired filter",
    "runs": std_runs("c20", {"distinct": 400, "buffers made": 20000, "steps of built filters": 3000, "steps of macro-made filters": 200},
                     {"distinct": 150, "buffers made": 5000}),
}
CHECKS["C21"] = {
    "technique": "runtime monitoring: twin filters, one driven by code that knows only the traits, one by its own methods, compared after every step",
    "runs": std_runs("c21", {"distinct": 500, "steps performed both ways": 8000}, {"distinct": 150, "steps performed both ways": 2000}),
}
CHECKS["C22"] = {
    "technique": "runtime monitoring: every observed function value is judged against exact arithmetic; filters over user-supplied number types (one of them exact) against a reference",
    "runs": std_runs("c22", {"distinct": 4000, "f32 recip values judged": 10**8, "steps judged in exact arithmetic": 400},
                     {"distinct": 3000, "f32 recip values judged": 10**8, "steps judged in exact arithmetic": 400}),
}
CHECKS["C23"] = {
    "technique": "runtime monitoring: every element and computation observed through nalgebra is compared with the library's own view",
    "runs": std_runs("c23", {"distinct": 1000, "elements read by place": 20000}, {"distinct": 200}, ("main", "release")),
}


def under(config, b, sample, thorough, part=None, need=None, only=True):
    """A monitor as workload for the interpreter or a sanitizer: one case in `sample`."""
    r = {"config": config, "bin": b, "env_quick": {"KF_SAMPLE": str(sample)},
         "env_thorough": {"KF_SAMPLE": str(thorough)},
         "need": need or {}, "timeout": {"quick": 780, "thorough": 7200}}
    if only:
        r["only_reports"] = True
    if part:
        r["tag"] = "part" + part.replace("/", "of")
        r["env"] = {"KF_PART": part}
    return r


CHECKS["C24"] = {
    "technique": "undefined-behaviour interpreter (Miri, stacked and tree borrows, data races) and address sanitizer over "
                 "step, access, storage, misuse, thread and interoperability workloads",
    "runs":
        [under("miri", "c24", 1, 1, f"{k}/6", {"distinct": 80}, only=False) for k in range(6)]
        + [under("miri", "c17", 4, 1, need={"distinct": 20}), under("miri", "c20", 4, 1, need={"distinct": 15}),
           under("miri", "c14", 8, 1, need={"distinct": 40}), under("miri", "c12", 4, 1, need={"distinct": 5}),
           under("miri", "c18", 12, 1, need={"distinct": 20}), under("miri", "c21", 3, 1, need={"distinct": 3}),
           under("miri", "c19", 40, 2, need={"distinct": 5}), under("miri", "c13", 60, 4, need={"distinct": 5}),
           under("miri", "c15", 50, 4, need={"distinct": 5}), under("miri", "c16", 8, 1, need={"distinct": 5})]
        + [under("miri-na", "c24", 3, 1, f"{k}/2", {"distinct": 50}, only=False) for k in range(2)]
        + [under("miri-na", "c19", 60, 2, need={"distinct": 3})]
        + [under("asan", b, s, 1, need=n, only=b != "c24") for b, s, n in (
            ("c24", 1, {"distinct": 700}), ("c12", 1, {"distinct": 30}), ("c13", 1, {"distinct": 100}),
            ("c14", 1, {"distinct": 50}), ("c15", 1, {"distinct": 50}), ("c16", 1, {"distinct": 30}),
            ("c17", 1, {"distinct": 30}), ("c18", 1, {"distinct": 100}), ("c19", 1, {"distinct": 100}),
            ("c20", 1, {"distinct": 100}), ("c21", 1, {"distinct": 100}), ("c23", 1, {"distinct": 100}))]
        + [{"config": "main", "bin": "c24", "need": {"distinct": 700}},
           {"config": "release", "bin": "c24", "need": {"distinct": 700}},
           {"config": "libm", "bin": "c24", "need": {"distinct": 200}}],
}

CHECKS["C27"] = {
    "technique": "runtime monitoring: twin filters, one with separate and one with shared working memory, compared bit for bit after every step; "
                 "Miri watches the shared memory",
    "runs": std_runs("c27", {"distinct": 20000, "steps with shared memory": 15000, "mission steps with shared memory": 300000},
                     {"distinct": 2000, "steps with shared memory": 1500})
        + [under("miri", "c27", 40, 4, need={"distinct": 5}, only=False)],
}

CHECKS["C25"] = {
    "technique": "runtime monitoring: counting global allocator, panic monitor and watchdog around every step, on ordinary and on hostile values",
    "runs": std_runs("c25", {"distinct": 4000, "steps counted by the allocator": 60000, "steps survived on hostile values": 200000},
                     {"distinct": 400, "steps counted by the allocator": 4000, "steps survived on hostile values": 20000},
                     ("main", "release", "libm", "mm", "bare")),
}


GROUPS = {"std": ["main", "release", "plain", "all", "checked", "odd3"], "libm": ["libm", "libm-rel", "bare", "odd", "odd2", "both"], "mm": ["mm", "mm-rel"]}


def records(path):
    out = {}
    with open(path) as f:
        for line in f:
            key, cls, vals, tol = line.rstrip("\n").split("\t")
            out[key] = (cls, vals, tol)
    return out


def within(a, b, tol):
    """Compares the decimal parts of two R or V records."""
    try:
        x = [float(v) for v in a.split(";")[1].split(",")]
        y = [float(v) for v in b.split(";")[1].split(",")]
    except (IndexError, ValueError):
        return False
    t = [float(v) for v in tol.split(",")]
    if len(x) != len(y):
        return False
    for p, q, d in zip(x, y, t):
        if p == q or (p != p and q != q) or abs(p - q) <= d:
            continue
        return False
    # the first part of the outcome of a factorisation is a word
    wa, wb = a.split(";")[0], b.split(";")[0]
    return wa == wb if wa in ("true", "false", "panic") or wb in ("true", "false", "panic") else True


def same_everywhere(parts, work):
    """C26: the records of all builds, compared with one another."""
    import os
    recs, paths = {}, []
    for r, _ in parts:
        p = os.path.join(work, f"{r['config']}.{r['bin']}.json.rec")
        paths.append(p)
        try:
            recs[r["config"]] = records(p)
        except (OSError, ValueError) as e:
            return [], [f"no usable record of configuration {r['config']}: {e}"], {}
    viol, counts = [], {}
    if len(recs) < 2:
        return [], ["fewer than two builds to compare"], {}
    group = {c: g for g, cs in GROUPS.items() for c in cs}

    def there(config, key):
        fs = CONFIGS[config]["features"]
        if key.startswith("I") and "fixed" not in fs:
            return False
        if "/owned" in key and not ({"alloc"} & set(fs)):
            return False
        return True

    def compare(a, b):
        n = {"equal bits": 0, "within the rounding of square root and reciprocal": 0, "not comparable": 0}
        bad = set()
        same = group[a] == group[b]
        for key in sorted(set(recs[a]) | set(recs[b])):
            if not (there(a, key) and there(b, key)):
                continue
            mission = key.rsplit("#", 1)[0] + "#" + key.rsplit("#", 1)[1].split("/")[0]
            if mission in bad:
                continue
            x, y = recs[a].get(key), recs[b].get(key)
            if x is None or y is None:
                what = f"{key}: recorded only with {b if x is None else a}"
            elif x[1] == y[1]:
                n["equal bits"] += 1
                continue
            elif same or x[0] != y[0] or x[0] == "E":
                what = f"{key}: {x[1][:200]} with {a}, {y[1][:200]} with {b}"
            elif "mm" in (group[a], group[b]) and x[0] == "R":
                n["not comparable"] += 1
                continue
            elif within(x[1], y[1], x[2]):
                n["within the rounding of square root and reciprocal"] += 1
                continue
            else:
                what = f"{key}: {x[1][:200]} with {a}, {y[1][:200]} with {b}, tolerance {x[2][:80]}"
            bad.add(mission)
            viol.append((f"(compare {a} with {b}) {mission}", what))
        counts[f"{a} with {b}"] = dict(n, missions_differing=len(bad))

    for g, cs in GROUPS.items():
        for c in cs[1:]:
            if c in recs and cs[0] in recs:
                compare(cs[0], c)
    for g in ("libm", "mm"):
        if GROUPS[g][0] in recs and "main" in recs:
            compare("main", GROUPS[g][0])
    if "libm-rel" in recs and "main" in recs:
        compare("main", "libm-rel")
    for p in paths:
        os.remove(p)
    inc = [f"nothing compared between {k}" for k, v in counts.items() if v["equal bits"] < 1000]
    return viol, inc, {"builds_compared": counts}


CHECKS["C26"] = {
    "technique": "runtime monitoring: one set of missions recorded in fourteen builds, offline checker compares the records",
    "runs": std_runs("c26", {"distinct": 3000}, {"distinct": 1500},
                     ("main", "release", "plain", "all", "checked", "libm", "libm-rel", "bare", "mm", "mm-rel", "odd", "odd2", "odd3", "both")),
    "must_build": True,
    "compare": same_everywhere,
}


# How many more rounds than the default the quick tier of a check can afford.
BOOST = {"C01": 4, "C02": 4, "C03": 6, "C04": 5, "C05": 5, "C06": 5, "C07": 8, "C08": 3, "C09": 4, "C10": 10, "C11": 10,
         "C12": 6, "C13": 8, "C14": 10, "C15": 4, "C16": 8, "C17": 8, "C18": 4, "C20": 10, "C21": 30, "C23": 20,
         "C26": 3}
for _p, _b in BOOST.items():
    for _r in CHECKS[_p]["runs"]:
        _r["boost"] = _b
