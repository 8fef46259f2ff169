#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that the simulator implements."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "deterministic simulation: seeded histories of draws against provenance-marked entropy",
    "C02": "deterministic simulation with injected entropy failures: errors, short reads, end of file at seeded calls",
    "C03": "deterministic simulation: scripted and uniform entropy, exact inversion and chi-square over simulated draws",
    "C04": "deterministic simulation: seeded patterns with scripted entropy against a reference model, statistics over simulated runs",
    "C05": "deterministic simulation: whole runs and draw histories replayed against an independent reference derivation",
    "C06": "deterministic simulation: reported entropy against a reference model over seeded patterns, repeated and interleaved generations",
    "C07": "deterministic simulation with injected refusals at every position of the sink and guarded buffers",
    "C08": "deterministic simulation with injected read, open and write faults, exit status against a reference model of the tool",
    "C09": "deterministic simulation: standard output under split and short writes against a reference model, strict JSON parser",
    "C10": "deterministic simulation with injected read faults and splits at seeded offsets of wordlists",
    "C11": "deterministic simulation: Markov chains trained on seeded lists against exact counts, statistics over simulated runs",
    "C12": "deterministic simulation with faults of every kind under AddressSanitizer with seeded memory contents",
    "C13": "deterministic simulation with enumerated allocation failures",
    "C14": "deterministic simulation: order of effects of simulated runs, captured system call filter executed on hostile and needed calls",
    "C15": "deterministic simulation: differential runs with different secrets, contents of every released block compared and scanned",
    "C16": "deterministic simulation: seeded preemptive schedules of library threads at basic blocks against solo runs",
    "C17": "deterministic simulation: the same inputs under different worlds (memory contents, splits, time, identity) compared",
    "C18": "deterministic simulation: seeded histories of definitions against reference maps, configuration layers of whole runs",
    "C19": "deterministic simulation: bounded number of basic blocks under seeded inputs and faults",
    "C24": "deterministic simulation: model of locked memory at every simulated effect, differential runs with refused locking",
    "C25": "deterministic simulation with injected read splits and faults: reports of the auxiliary programs against a reference model",
    "C20": "deterministic simulation with faults: accounting of every block and stream over histories of library calls",
}
LEVEL = {"C02": "fault_enumeration", "C08": "fault_enumeration", "C10": "fault_enumeration", "C13": "fault_enumeration", "C20": "fault_enumeration"}
NA = {
    "C21": "conversion between byte strings and code points is a pure function of its argument: no scheduling, time, I/O, fault or crash can influence it, so simulation has nothing to decide (its effects on whole runs are covered by C04, C08 and C10)",
    "C22": "acceptance of a pattern is a pure function of the text: no nondeterminism, I/O or fault is involved, simulation would only be input fuzzing of a parser (memory safety and termination of parsing are in C12 and C19)",
    "C23": "the primitives are pure functions of their arguments; comparing them with the specifications for all inputs is not a question of schedules or faults (the derivations used by the tool are compared byte by byte in C05)",
}
src = "".join(open(os.path.join(HERE, "sim", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "sim"))) if f.startswith("props"))
have = set(re.findall(r"REGISTER\((C\d\d)\)", src))
checks = []
na = [{"property": p, "reason": r} for p, r in NA.items()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        continue
    if p not in have:
        na.append({"property": p, "reason": "check under construction"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": TECH[p],
        "level": LEVEL.get(p, "exploration"),
        "level_note": "seeded search over simulated runs of the real code (Debug and Release configuration); the bounds and the oracle are described in DESIGN.md, section %s" % p,
    })
m = {"version": 1, "setup_cmd": "python3 build.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: references of the unchanged objects to libc are redirected at link time (build.py)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
