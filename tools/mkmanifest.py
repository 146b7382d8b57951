#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d["title"]
T = {
 "C01": ("fault_enumeration", "deterministic simulation: crash/power-loss/errno/ENOSPC/short-write/SIGINT at every system call of format runs, reader invariant after every mutation"),
 "C02": ("exploration", "deterministic simulation with I/O fault injection, before/after tree comparison and report oracle"),
 "C03": ("exploration", "deterministic simulation of read-only runs under faults and interleavings; any mutating system call is a violation"),
 "C04": ("exploration", "deterministic simulation: failing inputs and injected errno/ENOMEM/abort lines, other files checked against reference model"),
 "C05": ("exploration", "deterministic simulation with I/O faults and a concurrently changing tree; silence oracle over output"),
 "C06": ("exploration", "deterministic simulation with I/O faults; reports, summary and exit status against reference model and final bytes"),
 "C07": ("exploration", "deterministic simulation of overlapping inputs under faults; at-most-once oracle over reports and replacements"),
 "C08": ("exploration", "deterministic simulation: paired runs under permuted listing and argument order"),
 "C09": ("exploration", "deterministic simulation: histories of crashed/failed runs, convergence against the undisturbed run"),
 "C10": ("exploration", "deterministic simulation: seeded interleavings of 2-4 real CLI processes at system-call granularity"),
 "C11": ("exploration", "deterministic simulation: seeded thread schedules at bytecode granularity on shared query objects"),
 "C12": ("exploration", "deterministic simulation: abort injection (MemoryError, KeyboardInterrupt, recursion limit) at bytecode granularity, later calls against fresh objects"),
 "C13": ("exploration", "deterministic simulation: call histories with aborts and thread interleavings against fresh package copies"),
 "C14": ("exploration", "deterministic simulation replayed under many hash seeds, heap layouts, pids, clocks, inode numbers"),
 "C15": ("exploration", "deterministic simulation over modes, owners, umasks, locales, line endings, links; byte-exact reference splice"),
 "C16": ("exploration", "deterministic simulation with decoy trees and fault points; set of touched paths against the selection model"),
 "C17": ("exploration", "deterministic simulation: paired runs under different I/O chunking, short transfers and stalls"),
 "C19": ("exploration", "deterministic simulation with faults on standard output (EPIPE, ENOSPC, EIO, EAGAIN, short; once or for good) at every write, alone and with file faults"),
 "C20": ("exploration", "deterministic simulation with errno/abort faults on trees of growing size; descriptor table of the simulated process watched at every call and at exit"),
 "C21": ("exploration", "deterministic simulation: kills, interrupts and failures after every report line; bytes of the file named by each line checked from the moment the line leaves the process"),
 "C23": ("exploration", "deterministic simulation with I/O faults, interrupts and concurrent runs; every modifying system call checked against what there is to reformat, inode and mtime compared"),
 "C24": ("exploration", "deterministic simulation: paired runs from other working directories, with other spellings, and split into one run per group of inputs, with failures tied to files"),
 "C22": ("exploration", "deterministic simulation: call histories with abort injection at bytecode granularity; audit events, streams and interpreter settings compared around every call"),
 "C18": ("exploration", "deterministic simulation: system-call and line budgets under persistent faults, link cycles, SIGINT at any point"),
}
NOTE = {
 "fs": "Seeded search, not exhaustive: samples worlds, faults and schedules; trusts the simulated kernel (cross-checked against a real directory by dst.selftest) and takes the library's answer for a single query text from the tree under test.",
 "api": "Seeded search over schedules and abort points at bytecode/line events of the package; the true answer is what a fresh copy of the package returns alone.",
 "hash": "Samples hash seeds and heap layouts; same inputs, separate interpreters.",
}
PURE = "pure function of its input text: no schedule, clock, fault or I/O can influence it, so simulation would be input generation under another name"
checks = []
for k, (lev, tech) in sorted(T.items()):
    kind = "api" if k in ("C11", "C12", "C13", "C22") else "hash" if k == "C14" else "fs"
    note = NOTE[kind]
    if lev == "fault_enumeration":
        note = "Every third session enumerates every system call of a small format run times every fault kind that applies (long series of the same call are thinned); the rest samples fault combinations. " + note
    checks.append({"property": k, "quick_cmd": "./check.sh " + k, "thorough_cmd": "./check.sh %s --tier thorough" % k,
                   "technique": tech, "level": lev, "level_note": note})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": PURE} for p in props if p not in T],
     "notes": "No hooks in /repo: the simulator uses the seams the code already has (os, io, tempfile, sys, threading)."}
m["setup_cmd"] = "sh ./setup.sh"
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
