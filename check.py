#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough     builds /repo, searches, writes evidence/PROPERTY.json
   check.py --replay FILE               replays a violation
Exit status: 0 held, 1 violation, anything else: no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

CONFIGS = ("debug", "release")
REPLAYS = os.path.join(HERE, "replays")
THOROUGH = float(os.environ.get("VERIF_THOROUGH_S", "330"))   # seconds per build type
FAULT_LEVEL = {"C02", "C08", "C10", "C13", "C20"}


def known_findings():
    """{property: {tag: description}}"""
    known = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) tag=(\S+) (.*)", line)
            if m:
                known.setdefault(m[1], {})[m[2]] = m[3].strip()
    return known


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        with tempfile.TemporaryDirectory(prefix="passgen-sim-") as tmp:
            exes = B.build(tmp)
            text = open(path).read()
            m = re.search(r"^# build: (\w+)", text, re.M)
            rc = 0
            for c in [m[1]] if m else CONFIGS:
                p = subprocess.run([exes[c][0], "replay", path])
                rc = max(rc, p.returncode)
            return rc
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    prop, tier = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="passgen-sim-")
    try:
        return check(prop, tier, seed, start, tmp)
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, start, tmp):
    exes = B.build(tmp)
    build_s = time.time() - start
    known = known_findings().get(prop, {})
    violations, problems, stats = [], [], {}
    kf = []
    for c in CONFIGS:
        exe, outside = exes[c]
        out = os.path.join(tmp, c + ".json")
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--tier", tier, "--jobs", "8", "--out", out, "--replay-dir", REPLAYS,
               "--time", "200" if tier == "quick" else str(THOROUGH)]
        env = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent", "LC_ALL": "C"}
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        if os.path.exists(out):
            stats[c] = json.load(open(out))
        if p.returncode == 1:
            m = re.search(r"^FOUND (\S+) (.*)$", p.stdout, re.M)
            if m:
                violations.append((c, m[1], m[2]))
            else:
                problems.append("%s: %s %s" % (c, p.stdout[-500:], p.stderr[-500:]))
        elif p.returncode != 0:
            problems.append("%s: exit %d: %s %s" % (c, p.returncode, p.stdout[-500:], p.stderr[-500:]))
        k = subprocess.run([exe, "known", "--prop", prop], stdout=subprocess.PIPE, text=True, env=env)
        for line in k.stdout.splitlines():
            tag, happens = line.split()
            if happens == "1" and tag not in [t for _, t in kf]:
                kf.append((c, tag))
                if tag not in known:
                    path = os.path.join(REPLAYS, "%s-%s.replay" % (prop, tag))
                    open(path, "w").write("# known finding %s of %s happens, but is not listed\nproperty %s\n" % (tag, prop, prop))
                    violations.append((c, path, "finding %s" % tag))
    for tag, desc in known.items():
        if tag in [t for _, t in kf]:
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    write_evidence(prop, tier, seed, start, build_s, stats, violations, exes, [t for _, t in kf])
    for c, path, msg in violations:
        print("%s build: %s" % (c, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for p in problems:
        print("PROBLEM", p)
    if violations:
        return 1
    if problems:
        return 4
    total = sum(s["evaluations"] for s in stats.values())
    print("OK property=%s cases=%d runs=%d in %.1f s (build %.1f s)" % (prop, total, sum(s["runs"] for s in stats.values()), time.time() - start, build_s))
    return 0


def write_evidence(prop, tier, seed, start, build_s, stats, violations, exes, kf):
    def tot(k):
        return sum(s.get(k, 0) for s in stats.values())

    def merge(k):
        r = {}
        for s in stats.values():
            for n, v in s.get(k, {}).items():
                r[n] = r.get(n, 0) + v
        return r
    sim_s = sum(s["wall"] for s in stats.values()) or 1e-9
    rule = next(iter(stats.values()))["rule"] if stats else ""
    outside = sorted({o for c in exes for o in exes[c][1] if not o.startswith(("__asan", "__sanitizer", "sim_"))})
    seams = sorted({o for c in exes for o in exes[c][1] if o.startswith("sim_")})
    cov = {
        "evaluations": tot("evaluations"),
        "distinct_nontrivial": tot("distinct_cases"),
        "rule": rule + " Distinct: the sequence of basic-block coverage signatures (64Ki edge table with bucketed hit counts, plus the way the run ended) of the runs of a case differs from that of every other non-trivial case in the same build type.",
        "samples": [x for s in stats.values() for x in s["samples"]][:4],
        "trivial_cases": tot("trivial"),
        "simulated_runs": tot("runs"),
        "runs_per_hour": int(tot("runs") / sim_s * 3600),
        "seeds_per_hour": int(tot("evaluations") / sim_s * 3600),
        "simulated_time_basic_blocks": tot("steps"),
        "simulated_time_note": "the code has no timers; time is the number of basic blocks executed under the scheduler",
        "entropy_bytes_delivered": tot("entropy_bytes"),
        "allocations": tot("allocations"),
        "preemptions": tot("preemptions"),
        "faults_injected": merge("faults"),
        "distinct_run_signatures": tot("distinct_signatures"),
        "edges_covered": {c: s["edges"] for c, s in stats.items()},
        "measurements": merge("stats"),
        "fixed_cases": tot("fixed_cases"),
        "stopped_by_time": {c: s["stopped_by_time"] for c, s in stats.items()},
        "builds": {c: {k: s[k] for k in ("evaluations", "runs", "wall")} for c, s in stats.items()},
        "real_components": "all C code of /repo (src/**, src/cli/**) in Debug and Release configuration under AddressSanitizer; libseccomp; C library functions: " + " ".join(outside),
        "simulated_components": "heap, files, devices, pipes, standard output and error, entropy, environment, sandbox loading, process exit, scheduling: " + " ".join(seams),
        "known_findings_seen": kf,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "fault_enumeration" if prop in FAULT_LEVEL else "exploration", "coverage": cov,
          "assumptions": ["the C library functions that are not simulated behave as documented", "a run is single-threaded except where the scheduler switches threads at basic blocks"],
          "wall_s": round(time.time() - start, 2), "violations": len(violations)}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
