#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--secs S]

Builds the simulator from /repo's current tree in both feature sets, runs the property's seeded search in
each, writes evidence/PROPERTY.json. Exit 0: held on everything explored; 1: a VIOLATION line was printed;
2: no answer (build or harness error).
`check.py setup` only builds.
"""
import argparse, fcntl, hashlib, json, os, pathlib, shutil, subprocess, sys, time

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
TARGET = HERE / "target"
BUILDS = {"default": [], "full": ["--features", "full"]}
FEATURES = {
    "default": "tmf's default features",
    "full": "tmf with triangulation, fast_trig, byte_rw, tokio_runtime; tokio is the simulated one",
}
FAULTS = [
    "read_interrupted", "read_short", "read_error", "read_eof", "read_panic", "write_interrupted", "write_short",
    "write_error", "write_zero", "write_panic", "flush_error", "crash", "lost_tail", "torn_middle", "cuts",
    "enumerated_cuts", "damage_bitflip", "damage_overwrite", "damage_drop", "damage_dup", "damage_move",
    "damage_truncate", "damage_field", "damage_insert", "header_damage", "text_damage", "future_dropped",
    "load_abandoned", "preemptions", "reseeded", "stream_panic_neighbour", "neighbour_failures",
]
THOROUGH_SECS = 330


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    sh = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e)
    if sh.returncode == 0:
        for kv in sh.stdout.split(b"\0"):
            k, _, v = kv.partition(b"=")
            if k.decode() in ("PATH", "CARGO_HOME", "RUSTUP_HOME", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_NET_OFFLINE"):
                e[k.decode()] = v.decode()
    e.pop("CARGO_TARGET_DIR", None)
    e["RUSTC_WRAPPER"] = str(HERE / "tools" / "rustc.sh")
    return e


def tree_hash():
    h = hashlib.sha256()
    h.update((HERE / "tools" / "rustc.sh").read_bytes())
    for f in sorted([REPO / "Cargo.toml", *REPO.glob("src/**/*"), *REPO.glob("build.rs")]):
        if f.is_file():
            h.update(str(f).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


def build(log):
    """Returns an error text or None."""
    e = env()
    TARGET.mkdir(exist_ok=True)
    with open(TARGET / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        for name, feats in BUILDS.items():
            t = TARGET / name
            t.mkdir(exist_ok=True)
            stamp = t / "repo.sha256"
            be = dict(e, CARGO_TARGET_DIR=str(t))
            if not stamp.exists() or stamp.read_text() != want:
                # Cargo goes by modification times; we go by contents.
                subprocess.run(["cargo", "clean", "--offline", "-p", "tmf", "-p", "sim"], cwd=HERE / "sim", env=be, capture_output=True)
                stamp.unlink(missing_ok=True)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", *feats], cwd=HERE / "sim", env=be, capture_output=True, text=True)
            log.append(r.stderr[-4000:])
            if r.returncode != 0:
                return f"the {name} build failed:\n{r.stderr[-3000:]}"
            stamp.write_text(want)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    t0 = time.time()
    log = []
    err = build(log)
    if err:
        print(err)
        return 2
    if a.property == "setup":
        print("built")
        return 0
    prop = a.property
    out = HERE / "out"
    replays = out / "replays"
    replays.mkdir(parents=True, exist_ok=True)
    built = time.time() - t0
    results = {}
    for name in BUILDS:
        res = out / f"{prop}-{name}.json"
        res.unlink(missing_ok=True)
        cmd = [str(TARGET / name / "debug" / "sim"), "check", "--prop", prop, "--seed", str(a.seed), "--out", str(res), "--replays", str(replays), "--jobs", str(os.cpu_count() or 4)]
        if a.runs:
            cmd += ["--runs", str(a.runs)]
        elif a.tier == "thorough":
            cmd += ["--runs", "60000000"]
        cmd += ["--secs", str(a.secs or (THOROUGH_SECS if a.tier == "thorough" else 150))]
        if a.tier == "thorough":
            cmd += ["--recheck", "400", "--minimise", "60"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not res.exists():
            print(f"the {name} simulator ended with {r.returncode} and no result:\n{r.stdout[-1500:]}{r.stderr[-1500:]}")
            return 2
        results[name] = json.loads(res.read_text())
    wall = time.time() - t0
    total = lambda k: sum(r[k] for r in results.values())
    counts = {}
    for r in results.values():
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    sim_s = sum(r["steps"] for r in results.values()) * 1e-6
    search = max(sum(r["wall"] for r in results.values()), 1e-9)
    violations = [(n, r["violation"]) for n, r in results.items() if "violation" in r]
    ev = {
        "property": prop,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": "exploration",
        "wall_s": round(wall, 3),
        "violations": sum(v["count"] for _, v in violations),
        "coverage": {
            "evaluations": total("runs"),
            "distinct_nontrivial": total("distinct_nontrivial"),
            "rule": results["default"]["rule"] + "; every case is one simulated run from one seed; distinct cases differ in plan or in trace (hash of every scheduling decision, stream call, fault and result)",
            "samples": [s for r in results.values() for s in r["samples"]][:6],
            "simulated_runs_per_hour": round(total("runs") / search * 3600),
            "seeds_per_hour": round(total("runs") / search * 3600),
            "simulated_time_s": round(sim_s, 6),
            "simulated_time_note": "one scheduling step is one simulated microsecond; clock_reads counts the clock readings of the code under test, which the simulated clocks answer with jumps",
            "scheduling_steps": total("steps"),
            "distinct_interleavings_or_traces": total("distinct_traces"),
            "distinct_plans": total("distinct_plans"),
            "distinctness_measure": "64-bit hash over the sequence of scheduling decisions, stream calls with their sizes, faults and results of a run",
            "faults_injected": {k: counts[k] for k in FAULTS if k in counts},
            "other_counts": {k: v for k, v in counts.items() if k not in FAULTS},
            "builds": {n: {"features": FEATURES[n], "runs": r["runs"], "wall_s": r["wall"], "steps": r["steps"], "fingerprint": r["fingerprint"]} for n, r in results.items()},
            "determinism": {n: {"runs_executed_three_times_on_1_3_and_8_way_splits": r["rechecked"], "identical": r["deterministic"]} for n, r in results.items()},
            "unreproduced_failures": total("unreproduced"),
            "components_real": ["all of tmf (compiled from /repo's working tree, unmodified)", "Rust std: BufReader/BufWriter, HashMap, threads' stacks, thread-locals and unwinding"],
            "components_stub": ["readers and writers handed to tmf (simulated streams)", "thread scheduling (token-passing scheduler)", "tokio in the full build (simtokio: runtime, spawn, join handles, poll order)", "OS randomness (getrandom, hash seeds)", "disk (crash-consistent buffer) where files are kept", "clocks (scheduling steps, with jumps)", "pthread_create of library code (simulated threads)"],
            "build_s": round(built, 2),
        },
        "assumptions": ["the simulated tokio offers the behaviour of the parts of tokio tmf uses", "preemption happens at stream calls, allocations, lock and task operations and, where the policy has code points, at control-flow edges of library code, not between the instructions of one basic block; memory is sequentially consistent, as only one thread runs at a time"],
    }
    bad = [f"{n}: {r['harness_error']}" for n, r in results.items() if "harness_error" in r]
    bad += [f"{n}: the same seeds did not do the same twice" for n, r in results.items() if not r["deterministic"]]
    bad += [f"{n}: only {r['runs']} runs" for n, r in results.items() if r["runs"] == 0]
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for n, v in violations:
        path = v["replay"] if v["reproduced"] else str(out / f"{prop}-{n}.json")
        print(f"{n} build, class {v['class']}: {v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    for n, r in results.items():
        print(f"{prop} {n}: {r['runs']} runs in {r['wall']:.1f} s, {r['distinct_nontrivial']} distinct and non-trivial, {r['steps']} steps")
    if violations:
        return 1
    if bad:
        print("no answer: " + "; ".join(bad))
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception as e:  # an error of this script is no answer, not a violation
        print(f"no answer: {e!r}")
        code = 2
    sys.exit(code)
