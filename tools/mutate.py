#!/usr/bin/env python3
"""Development tool: mechanical mutants of /repo's source, and what the checks make of them.

mutate.py gen OUT.json                       lists mutants (small changes of operators, constants, statements)
mutate.py run OUT.json --slot N --of M       tries every M-th one, in copies bind-mounted over /repo and /verif

For each mutant: the checks with a part of their quick runs (default build, then full), until one reports a
violation; if none does, the stable tests. Appends to OUT.N.txt: number, file:line, verdict, change.
Mutants neither the tests nor the checks notice are either equivalent, or a gap to look at.
"""
import json, os, pathlib, random, re, shutil, subprocess, sys, time

HERE = pathlib.Path(__file__).resolve().parent.parent
DEAD = "analize"  # Only called by a test.
SKIP = {"lz77.rs", "material.rs", "verify.rs", "reorder_triangles.rs"}
# Writes to memory, which cannot fail.
TO_MEMORY = {"uv.rs", "normals.rs", "tangents.rs", "vertices.rs", "custom_data.rs"}
OPS = [
    (r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!-])>=(?!=)", ">"), (r" < ", " <= "), (r" > ", " >= "),
    (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r" % ", " / "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.floor\(\)", ".ceil()"), (r"\.ceil\(\)", ".floor()"),
    (r"\.round\(\)", ".floor()"), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
    (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", lambda m: str(int(m[0]) + 1)),
    (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", lambda m: str(int(m[0]) - 1)),
    (r"(?<![\w.])(\d+\.\d+)(?!\w)", lambda m: str(float(m[1]) * 2 + (0.5 if float(m[1]) == 0 else 0))),
    (r"\bif (?!let)(?=[^{]*\{)", "if !"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.abs\(\)", ""), (r"\.rev\(\)", ""),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\.unwrap_or\(([^()]*)\)", ".unwrap_or_default()"),
]
STMT = re.compile(r"^\s*(?!let |return|use |//|pub |fn |type |const |static |break|continue|#|\})[\w\*\(][^{}]*;\s*$")


def lines_of(f):
    """(number, text) of the lines outside tests, comments, attributes and features that do not build."""
    text = f.read_text().split("\n")
    skip, depth, pend = False, 0, False
    for n, l in enumerate(text):
        s = l.strip()
        if re.match(r"#\[(cfg\((test|feature = \"(double_precision|long_indices|short_indices|obj_import_)\"\))|test\])", s):
            pend = True
            continue
        if pend and not skip:
            if s.startswith("#"):
                continue
            skip, depth, opened = True, 0, False
        if skip:
            depth += l.count("{") - l.count("}")
            opened = opened or "{" in l
            if (opened and depth <= 0) or (not opened and s.endswith((";", ","))):
                skip = pend = False
            continue
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "println", "eprintln", "write!(f,")) or "with_capacity" in s:
            continue
        yield n, l


def gen(out):
    muts = []
    for f in sorted(pathlib.Path("/repo/src").glob("*.rs")):
        if f.name in SKIP:
            continue
        for n, l in lines_of(f):
            code = l.split("//")[0]
            seen = set()
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    if code[: m.start()].count('"') % 2:
                        continue
                    new = code[: m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + code[m.end():]
                    if new != code and new not in seen:
                        seen.add(new)
                        muts.append([f.name, n, l, new])
            if STMT.match(code):
                muts.append([f.name, n, l, re.sub(r"\S.*", "", code) + "// gone"])
            for m in re.finditer(r"\?(?=;)", code):
                if f.name in TO_MEMORY and "write" in code:
                    continue
                if not re.match(r"\s*let ", code):
                    muts.append([f.name, n, l, code[: m.start()] + ".ok()" + code[m.end():]])
    random.Random(1).shuffle(muts)
    json.dump(muts, open(out, "w"))
    print(len(muts))


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, start_new_session=True, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


FIELD = "C01 C16 C17 C08 C02"
FILE = "C01 C17 C07 C08 C04 C05 C06 C09 C03 C02 C16"
# The checks a file's code could matter to.
NEAR = {
    "obj.rs": "C13 C14", "model_importer.rs": "C13", "triangulation.rs": "C13", "unaligned_rw.rs": "C15 C01 C17 C08",
    "unify_data.rs": "C12", "reorder_triangles.rs": "C12", "utilis.rs": "C13 C12 C01 C16", "tmf_exporter.rs": "C01 C16 C17 C02 C03",
    "uv.rs": FIELD, "normals.rs": FIELD, "tangents.rs": FIELD, "vertices.rs": FIELD, "custom_data.rs": FIELD, "tmf.rs": FILE,
    "tmf_importer.rs": FILE, "read_extension.rs": FILE, "lib.rs": "C01 C12 C13 C14 C07 C17 C03 C06",
}


def inside(out, slot, of, start, stop):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base["tests"])
    muts = json.load(open(out))
    log = open(f"{out}.{slot}.txt", "a")
    sys.path.insert(0, "/verif")
    import check

    for k in range(start + int(slot), min(len(muts), stop), of):
        name, n, old, new = muts[k]
        f = pathlib.Path("/repo/src") / name
        orig = f.read_text()
        text = orig.split("\n")
        assert text[n] == old
        text[n] = new
        f.write_text("\n".join(text))
        try:
            verdict = one(check, name, stable, slot)
        except Exception as e:
            verdict = "ERROR " + repr(e)[:200]
        f.write_text(orig)
        print(k, f"{name}:{n+1}", verdict, "|", old.strip(), "=>", new.strip(), file=log, flush=True)


def one(check, name, stable, slot):
    e = dict(check.env())
    order = NEAR[name].split()

    def build(b):
        be = dict(e, CARGO_TARGET_DIR=f"/verif/target/{b}")
        sh("cargo clean --offline -p tmf -p sim", cwd="/verif/sim", env=be)
        return sh("cargo build --offline --locked " + " ".join(check.BUILDS[b]), cwd="/verif/sim", env=be, timeout=300).returncode == 0

    def search(b, scale):
        for p in order:
            r = sh(f"ulimit -v 16000000; /verif/target/{b}/debug/sim check --prop {p} --seed 1 --scale {scale} --secs 40 --jobs 3 --recheck 0 --out /tmp/mut/o{slot}.json --replays /tmp/mut/r{slot} --minimise 0", timeout=150)
            if r.returncode == 1:
                v = json.load(open(f"/tmp/mut/o{slot}.json")).get("violation", {})
                return f"caught {p} {b} {scale} {v.get('class')}"
            if r.returncode:
                return f"caught? {p} {b} exit {r.returncode} {(r.stdout + r.stderr)[-150:]!r}"

    if not build("default"):
        return "nobuild"
    v = search("default", 1)
    if v:
        return v
    sh("bash /opt/vp/build.sh", timeout=300)
    t = pathlib.Path(f"/tmp/mut/t{slot}.json")
    t.unlink(missing_ok=True)
    sh(f"bash /opt/vp/test.sh {t}", timeout=600)
    if not t.exists():
        return "tests-hang"
    lost = stable - set(json.load(open(t))["passed"])
    if lost:
        return f"tests({len(lost)})"
    if not build("full"):
        return "nobuild"
    return search("full", 1) or search("default", 8) or search("full", 8) or "SURVIVED"


def main():
    a = sys.argv[1:]
    if a[0] == "gen":
        return gen(a[1])
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    out, slot, of, start, stop = a[1], opt("--slot", "0"), int(opt("--of", "1")), int(opt("--start", "0")), int(opt("--stop", "1000000"))
    if a[0] == "inside":
        return inside(out, slot, of, start, stop)
    s = pathlib.Path(f"/tmp/mut/slot{slot}")
    s.mkdir(parents=True, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp")):
        sh(f"rm -rf {s}/{name}; cp -a {src} {s}/{name}")
    sh(f"mkdir -p {s}/verif; rm -rf {s}/verif/*; cp -a /verif/target /verif/check.py /verif/sim /verif/simcore /verif/simtokio /verif/tools {s}/verif/")
    shutil.copy(__file__, s / "mutate.py")
    cmd = f"mount --bind {s}/repo /repo && mount --bind {s}/verif /verif && mount --bind {s}/vp /opt/vp && exec nice python3 {s}/mutate.py inside {out} --slot {slot} --of {of} --start {start} --stop {stop}"
    sys.exit(subprocess.run(["unshare", "-Urm", "bash", "-c", cmd]).returncode)


if __name__ == "__main__":
    main()
