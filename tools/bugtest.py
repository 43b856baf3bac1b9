#!/usr/bin/env python3
"""Development tool: tries planted changes in a private user+mount namespace.

bugtest.py [--slot N] [--no-tests] [--props C01,C02 | --own | --all | --none] ID_OR_PATCH...

In a copy of /repo bind-mounted over /repo (and copies of /verif and /opt/vp over theirs): the demo on the
unchanged tree, then the patch, build, stable tests, the demo again, and the checks. Nothing outside the
slot's folder under /tmp/bugslots is changed.
"""
import argparse, json, os, pathlib, shutil, subprocess, sys, time

HERE = pathlib.Path(__file__).resolve().parent.parent
SLOTS = pathlib.Path("/tmp/bugslots")
ALL = [f"C{k:02}" for k in range(1, 18)]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(a):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base["tests"])
    seeded = pathlib.Path(a.seeded)
    for b in a.bugs:
        p = pathlib.Path(b)
        folder = seeded / b if not p.is_file() else None
        patch = folder / "patch.diff" if folder else p
        name = p.name[:3] if not folder else ""
        meta = json.load(open(folder / "meta.json")) if folder and (folder / "meta.json").exists() else {}
        out = [b]
        sh("git -C /repo checkout -q -- . ; git -C /repo clean -fdq")
        demo = None
        if folder and (folder / "demo.sh").exists():
            demo = pathlib.Path(f"/tmp/bugdemo{a.slot}")
            shutil.rmtree(demo, ignore_errors=True)
            shutil.copytree(folder, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if demo and not a.no_tests:
            sh("bash /opt/vp/build.sh")
            r = sh(f"bash {demo}/demo.sh", cwd="/repo", timeout=400)
            out.append("demo-clean:" + ("ok" if r.returncode == 0 else f"FAILS({r.returncode}) {r.stdout[-600:]} {r.stderr[-600:]}"))
            sh("git -C /repo checkout -q -- . ; git -C /repo clean -fdq")
        r = sh(f"git -C /repo apply {patch}")
        if r.returncode:
            print(" ".join(out), "DOES NOT APPLY", r.stderr, flush=True)
            continue
        if not a.no_tests:
            r = sh("bash /opt/vp/build.sh")
            out.append("build:" + ("ok" if r.returncode == 0 else "FAILS " + r.stderr[-1500:]))
            sh(f"bash /opt/vp/test.sh /tmp/bugtests{a.slot}.json")
            t = json.load(open(f"/tmp/bugtests{a.slot}.json"))
            lost = sorted(stable - set(t["passed"]))
            out.append("tests:" + ("ok" if not lost else f"LOST {lost[:5]}"))
            if demo:
                r = sh(f"bash {demo}/demo.sh", cwd="/repo", timeout=400)
                out.append("demo-bug:" + ("PASSES" if r.returncode == 0 else f"fails({r.returncode})"))
        props = ALL if a.all else [] if a.none else a.props.split(",") if a.props else [meta["property"]] if "property" in meta else [name] if name in ALL else ALL
        for q in props:
            t0 = time.time()
            r = sh(f"python3 check.py {q} --tier quick", cwd="/verif", env=dict(os.environ, VERIF_SEED=str(a.seed), VERIF_TIER="quick"))
            cls = [l for l in r.stdout.splitlines() if "class" in l]
            if r.returncode == 1:
                out.append(f"{q}:CAUGHT[{(cls or ['?'])[0][:110]}]")
            elif r.returncode:
                out.append(f"{q}:exit{r.returncode} {r.stdout[-700:]}")
            else:
                out.append(f"{q}:quiet")
            out.append(f"({time.time()-t0:.0f}s)") if len(props) < 4 else None
        print(" ".join(out), flush=True)
        sh("git -C /repo checkout -q -- . ; git -C /repo clean -fdq")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("bugs", nargs="+")
    ap.add_argument("--slot", default="0")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--props")
    ap.add_argument("--own", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--none", action="store_true")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--seeded", default=str(HERE / "seeded"))
    ap.add_argument("--inside", action="store_true")
    a = ap.parse_args()
    if a.inside:
        return inside(a)
    s = SLOTS / a.slot
    s.mkdir(parents=True, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp")):
        sh(f"rsync -a --delete {src}/ {s}/{name}/ || (rm -rf {s}/{name}; cp -a {src} {s}/{name})")
    if not (s / "verif").exists():
        sh(f"mkdir -p {s}/verif && cp -a /verif/target {s}/verif/")
    for f in ("check.py", "sim", "simcore", "simtokio", "tools"):
        sh(f"rm -rf {s}/verif/{f}; cp -a /verif/{f} {s}/verif/{f}")
    seeded = s / "seeded"
    shutil.rmtree(seeded, ignore_errors=True)
    shutil.copytree(a.seeded, seeded)
    tool = s / "bugtest.py"
    shutil.copy(__file__, tool)
    bugs = []
    for b in a.bugs:
        if pathlib.Path(b).is_file():
            d = s / "patches"
            d.mkdir(exist_ok=True)
            shutil.copy(b, d / pathlib.Path(b).name)
            b = str(d / pathlib.Path(b).name)
        bugs.append(b)
    flags = [x for x in sys.argv[1:] if x in ("--no-tests", "--all", "--none", "--own")]
    if a.props:
        flags += ["--props", a.props]
    cmd = f"mount --bind {s}/repo /repo && mount --bind {s}/verif /verif && mount --bind {s}/vp /opt/vp && exec python3 {tool} --inside --slot {a.slot} --seed {a.seed} --seeded {seeded} " + " ".join(flags + bugs)
    sys.exit(subprocess.run(["unshare", "-Urm", "bash", "-c", cmd]).returncode)


if __name__ == "__main__":
    main()
