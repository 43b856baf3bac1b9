#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
props = {d["id"]: d for d in map(json.loads, (HERE / "properties.jsonl").read_text().splitlines())}
COMMON = ("Seeded search, not proof: no violation was found in the runs the evidence counts. tmf is the real code, in its "
          "default features and in all its working features; streams, disk, threads, tokio, randomness and the "
          "allocator are simulated. One seed is one execution; failures come with a minimised replay file. ")
NOTE = {
 "C01": "Oracle: comparison with the tolerances the settings promise (single-precision rounding added). Crashes happen after the durable point; custom integers of 32 bits, empty arrays and extreme extents are included.",
 "C02": "Oracle: byte equality with a save to a plain sink in a quiet process.",
 "C03": "Oracle: the sink's error kind, a prefix of the reference bytes, an identical retry. The message of the error is not compared.",
 "C04": "Every length for small files, structure-biased and random lengths for larger ones; oracle: end-of-data error. Lost sectors in the middle of the file belong to C08.",
 "C05": "Oracle: bit-identical meshes or an equal error, for whole, damaged, foreign and legacy files.",
 "C06": "Oracle: the injected error kind; the retry gives the reference result.",
 "C07": "Oracle: position of the stream and results of every file in it.",
 "C08": "Memory bound: 1 KiB per byte delivered plus 64 MiB (and 64 bytes per zero-width value): it catches unbounded allocation, not constant factors. Time bound: steps and processor time of a run.",
 "C09": "Oracle: the meshes the blocking in-order load gives. The simulated runtime schedules tasks in any order on one to four workers; real tokio is not run.",
 "C10": "Oracle: each operation's result alone in a quiet process. Preemption is at stream calls, allocations, locks, task operations and control-flow edges of the library's code; weak memory orderings are not modelled.",
 "C11": "Oracle: stream dropped, no task left, live memory not growing over rounds, neighbours' and later loads' results.",
 "C12": "Oracle: corner-by-corner equality and equality across hash seeds, threads and repetitions. Only meshes the library documents as optimisable.",
 "C13": "Oracle: an independent reader of the text; read failures surface with their kind. Faces must carry all three indices, as the importer demands; polygons only in the full build.",
 "C14": "Oracle: an independent OBJ reader, the sink's error kind, prefixes of the reference text.",
 "C15": "Oracle: the values written, an independent bit packer. Widths 0 to 63.",
 "C16": "Oracle: per-generation tolerances, fixpoint of everything but directions and vertices, rounding bounds for those. With fast_trig the azimuths may wander by its approximation.",
 "C17": "Oracle: an independent encoder/decoder of the container, written from the format's description in the code.",
}
NA = {
 "N01": "Pure function of one mesh: no concurrency, time, I/O or failure for a simulation to decide.",
 "N02": "Pure function of two arrays: nothing is scheduled, delivered, failed or retried.",
 "N03": "Geometry of a pure function; simulation reaches it only as one more test input. (That polygon import gives as many triangles as the text says is part of C13.)",
 "N04": "A numerical bound of a pure function; seeded runs would only sample inputs. The per-coordinate bounds that a save and a load must keep are part of C01.",
 "N05": "A size and speed claim measured on real machines and models; simulated time says nothing about it.",
 "N06": "Pure in-memory accessors: no concurrency, time, I/O or failure is involved.",
}
checks = []
for i, d in props.items():
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, stream behaviour, faults and inputs",
            "level": "exploration",
            "level_note": COMMON + NOTE[i],
        })
na = [{"property": i, "reason": NA[i]} for i in props if i not in NOTE]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam exists (generic streams, cargo's [patch] for tokio, symbol interposition for futex and getrandom, the global allocator). Replay: ./replay.sh FILE."}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
