"""evidence/<id>.json: what one run of a check actually covered."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FS_REAL = ["sqlvalidator (every module of /repo's working tree)", "argparse, tokenize, tempfile, os.walk, os.path, io.TextIOWrapper/BufferedReader/BufferedWriter, codecs (CPython's own)"]
FS_STUB = ["kernel: file system with durability model, permissions, processes, clock (dst/kernel.py)", "system-call seam under os, io and tempfile (dst/seam.py)"]
API_REAL = ["sqlvalidator API (parse, SQLQuery, format_sql) and the whole grammar package", "CPython threads, exceptions, recursion limit"]
API_STUB = ["thread scheduler (baton passed at sys.monitoring events)", "threading.Lock/RLock and time.sleep as seen by the package"]
RULE = {
    "fs": "A case is a seeded world (tree of Python files, links, decoys, permissions), command lines and a fault/schedule plan; it is non-trivial when a planned fault or switch fired or the run printed a report line. Distinct: different hash of event log, outputs, exit states and final trees.",
    "api": "A case is a set of query objects, calls per thread and a plan of switches/aborts at bytecode or line events; non-trivial when a switch or abort fired or the calls form a history. Distinct: different hash of schedule and results.",
    "hash": "A case is a batch of queries and command-line runs executed in separate interpreters under different hash seeds, heap layouts, pids, clocks and inode numbers; distinct: different hash of the result.",
}


def write(pid, tier, seed, planned, rs, wall, violations, level):
    fired = {}
    probes = {}
    for r in rs:
        for k, n in r["fired"].items():
            fired[k] = fired.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
    kind = "api" if pid in ("C11", "C12", "C13", "C22") else "hash" if pid == "C14" else "fs"
    done = sum(r["done"] for r in rs)
    digests = {d for r in rs for d in r["digests"]}
    runs = sum(r["runs"] for r in rs)
    real = API_REAL if kind == "api" else FS_REAL
    stub = API_STUB if kind == "api" else FS_STUB
    if pid == "C13":
        real, stub = API_REAL + FS_REAL, API_STUB + FS_STUB
    if kind == "hash":
        real = FS_REAL + ["separate CPython interpreters started with a chosen PYTHONHASHSEED"]
    cov = {
        "evaluations": sum(r["cases"] for r in rs),
        "distinct_nontrivial": len(digests),
        "rule": RULE[kind],
        "samples": [s for r in rs for s in r["samples"]][:3],
        "exhaustive": False,
        "sessions_planned": planned,
        "sessions_done": done,
        "simulated_runs": runs,
        "simulated_processes_or_threads": sum(r["procs"] for r in rs),
        "events": sum(r["events"] for r in rs),
        "seeds_per_hour": int(done / wall * 3600) if wall else 0,
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(sum(r["sim_ns"] for r in rs) / 1e9, 3),
        "faults_fired": dict(sorted(fired.items())),
        "context_switches": sum(r["switches"] for r in rs),
        "instants_checked_for_readers": sum(r["watch"] for r in rs),
        "probes": probes,
        "components_real": real,
        "components_stubbed": stub,
    }
    if not cov["samples"]:
        cov["samples"] = [{"note": "no case was generated"}]
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": ASSUME[kind], "wall_s": round(wall, 2), "violations": violations}, f, indent=1)


ASSUME = {
    "fs": ["the simulated kernel behaves like Linux for the calls the package issues (dst/selftest.py compares it with a real directory)",
           "rename is atomic; data reaches the disk only by fsync or later write-back; a directory entry may reach it in any prefix order",
           "what the library API answers for one query text is taken from the tree under test"],
    "api": ["the scheduler switches threads and raises aborts only at bytecode or line boundaries of the package (CPython with a GIL does the same)",
            "the true answer of a call is what a fresh copy of the package gives alone"],
    "hash": ["hash seeds and heap layouts are sampled"],
}
