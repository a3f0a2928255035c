#!/usr/bin/env python3
"""check.py <property> : build the simulator from /repo's working tree, search
seeded schedules, faults and workloads for a violation of one property, gate,
minimise and replay what is found, and write the evidence file.

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
check itself could not decide (never used for a verdict).
"""
import collections
import fcntl
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402
from props import PROPS  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines: KNOWN-FINDING: property=<id> class=<regex> detail=<regex> :: text"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) detail=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + "$"), re.compile(m.group(3)), m.group(4)))
    return out


def matches(kf, v):
    for i, (c, d, _) in enumerate(kf):
        if c.match(v["class"]) and d.search(v["detail"]):
            return i
    return None


def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout).stdout.decode("utf-8", "replace")


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t_start = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            exe = B.build()
        except SystemExit as e:
            die("build: %s" % e)
    t_build = time.time() - t_start
    nw = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))
    total = cfg["quick"] if tier == "quick" else cfg["thorough"]
    total = int(os.environ.get("VERIF_RUNS", total))
    cap = float(os.environ.get("VERIF_CAP", 150 if tier == "quick" else 2400))
    kf = known_findings(prop)
    kf_hits = collections.Counter()

    tmp = tempfile.mkdtemp(prefix="simchk")
    stats = dict(runs=0, nontrivial=0, steps=0, simtime=0.0, twice=0, nondet=0)
    faults, probes, scen, ranks = (collections.Counter() for _ in range(4))
    hashes, scheds = set(), set()
    samples, bad = [], []
    nondet_seeds = []
    rounds = 8 if tier == "quick" else 40
    done = 0
    t_run = time.time()
    for rd in range(rounds):
        n = total * (rd + 1) // rounds - done
        left = cap - (time.time() - t_run)
        if n <= 0:
            continue
        if left <= 0:
            break
        procs = []
        for w in range(nw):
            cnt = (n - w + nw - 1) // nw
            if cnt <= 0:
                continue
            out = os.path.join(tmp, "r%d_%d" % (rd, w))
            procs.append((out, subprocess.Popen(
                [exe, "run", "--prop", prop, "--seed", str(seed), "--first", str(done + w), "--stride", str(nw),
                 "--count", str(cnt), "--time", "%.1f" % left, "--out", out],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        done += n
        for out, p in procs:
            if p.wait() != 0:
                die("simrun failed with %s" % p.returncode)
            with open(out) as f:
                for line in f:
                    d = json.loads(line)
                    stats["runs"] += 1
                    stats["steps"] += d["steps"]
                    stats["simtime"] += d["simtime"]
                    stats["twice"] += d.get("twice", 0)
                    if d.get("nondeterministic"):
                        stats["nondet"] += 1
                        nondet_seeds.append(d["seed"])
                    if d["nontrivial"]:
                        stats["nontrivial"] += 1
                        hashes.add(d["hash"])
                    scheds.add(d["sched"])
                    faults.update(d["faults"])
                    probes.update(d["probes"])
                    scen[d["scenario"]] += 1
                    ranks[d["ranks"]] += 1
                    if d["violations"]:
                        i = matches(kf, d["violations"][0])
                        if i is not None:
                            kf_hits[i] += 1
                            # a known finding stops that run only; anything else it met still counts
                            rest = [v for v in d["violations"] if matches(kf, v) is None]
                            if rest:
                                d["violations"] = rest
                                bad.append(d)
                        else:
                            bad.append(d)
                    elif "sample" in d and len(samples) < 6 and d["nontrivial"]:
                        samples.append({"seed": d["seed"], "scenario": d["scenario"], "case": d["sample"]})
            os.unlink(out)
        if bad and len(bad) >= 1:
            break
    os.rmdir(tmp)
    t_run = time.time() - t_run

    # ---- known findings: each listed one is re-checked by its own history ---
    verdict = 0
    reported = []
    if bad:
        by = collections.OrderedDict()
        for d in sorted(bad, key=lambda d: len(d.get("W", [])) * 4 + len(d.get("S", []))):
            by.setdefault(d["violations"][0]["class"], []).append(d)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        errors = []
        for cls, ds in list(by.items())[:3]:
            okay = False
            for d in ds[:4]:
                a = sh([exe, "one", "--prop", prop, "--only", d["scenario"], "--seed", str(d["seed"])]) if False else \
                    sh([exe, "one", "--prop", prop, "--seed", str(d["seed"])])
                b = sh([exe, "one", "--prop", prop, "--seed", str(d["seed"])])
                ja, jb = json.loads(a), json.loads(b)
                if ja["hash"] != jb["hash"] or not ja["violations"] or ja["violations"] != jb["violations"] \
                        or ja["violations"][0]["class"] != d["violations"][0]["class"]:
                    errors.append("seed %d (%s) does not repeat" % (d["seed"], cls))
                    continue
                budget = "20" if tier == "quick" else "60"
                m = sh([exe, "min", "--prop", prop, "--only", "", "--seed", str(d["seed"]), "--class", cls, "--budget", budget])
                try:
                    jm = json.loads(m)
                except ValueError:
                    jm = {"error": "no output"}
                if "error" in jm:
                    errors.append("seed %d (%s): minimisation: %s" % (d["seed"], cls, jm["error"]))
                    jm = ja
                v = jm["violations"][0]
                if matches(kf, v) is not None:
                    # shrank into a known finding: report the original history instead
                    jm, v = ja, ja["violations"][0]
                name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%d" % (prop, cls, d["seed"]))
                path = os.path.join(VERIF, "replays", name + ".replay")
                with open(path, "w") as f:
                    f.write("property %s\nscenario *\nclass %s\nseed %d\nhash %s\n" % (prop, cls, d["seed"], jm["hash"]))
                    f.write("W %s\nS %s\n" % (" ".join(map(str, jm["W"])), " ".join(map(str, jm["S"]))))
                    f.write("# %s\n# case: %s\n# faults: %s\n# tries: %s\n" % (
                        v["detail"], jm.get("sample", ""), jm["faults"], jm.get("min_tries")))
                r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if r.returncode != 1:
                    errors.append("replay of %s does not reproduce" % path)
                    continue
                tr = sh([exe, "replay", path, "--verbose"])
                with open(path, "a") as f:
                    f.write("# trace of the minimised history:\n")
                    for line in tr.splitlines()[:400]:
                        if not line.startswith("{"):
                            f.write("# " + line + "\n")
                print("%s: %s" % (cls, v["detail"]))
                print("case: %s" % jm.get("sample", ""))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                reported.append(cls)
                verdict = 1
                okay = True
                break
            if not okay:
                print("not reportable: " + "; ".join(errors[-4:]))
        if not verdict:
            verdict = 2
    if verdict == 0 and stats["nondet"]:
        print("CHECK-ERROR: %d histories did not repeat exactly, e.g. seed %d" % (stats["nondet"], nondet_seeds[0]))
        verdict = 2
    for i, (c, d, text) in enumerate(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if verdict == 0 and stats["runs"] == 0:
        die("no run was made")

    wall = time.time() - t_start
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": stats["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"],
            "samples": samples or [{"note": "no sample"}],
            "simulated_runs": stats["runs"],
            "nontrivial_runs": stats["nontrivial"],
            "runs_per_hour": int(stats["runs"] / max(t_run, 1e-6) * 3600),
            "distinct_schedules": len(scheds),
            "schedule_measure": "hash of the sequence of scheduling decisions (which rank or background action moved at each step) of a run",
            "distinct_measure": "hash of the complete event log (operations, arguments, payloads, faults, in order) of a non-trivial run",
            "scheduling_steps": stats["steps"],
            "simulated_seconds": round(stats["simtime"], 6),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "scenarios": dict(scen),
            "ranks_histogram": {str(k): v for k, v in sorted(ranks.items())},
            "histories_run_twice_identical": stats["twice"],
            "histories_that_did_not_repeat": stats["nondet"],
            "known_findings_hit": {kf[i][2]: n for i, n in kf_hits.items()},
            "real_components": cfg["real"],
            "stub_components": "MPI (point-to-point, collectives, one-sided, MPI-IO) and its scheduler; the file system under MPI-IO; glob(), exit() and _Exit(); "
                               "FFTW planning forced to FFTW_ESTIMATE; transfer/memory limits reduced through the EXSEISDAT_SIMULATION hook",
            "build_seconds": round(t_build, 2),
        },
        "assumptions": [
            "The MPI library behaves as the MPI 3.1 standard says; where the standard leaves a choice (collectives synchronising, buffering of sends, "
            "completion order, visibility of one-sided operations, when independent writes reach the file) the scheduler takes it.",
            "Operating system memory allocation does not fail.",
        ],
        "wall_s": round(wall, 3),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d schedules, faults %s, %.0f s run, %.0f s build" % (
        prop, tier, seed, stats["runs"], len(hashes), len(scheds), dict(faults), t_run, t_build))
    sys.exit(verdict)


if __name__ == "__main__":
    main()
