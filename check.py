#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   builds the simulation of PROPERTY from /repo's
working tree, searches, writes evidence/PROPERTY.json; exit 0 / 1 (VIOLATION).
check.py --replay FILE                  replays a recorded violation."""
import json, os, re, subprocess, sys, time, fcntl, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import checks as C


def env():
    e = dict(os.environ)
    e.update(CC="gcc", CXX="g++", GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory",
             GIT_CONFIG_VALUE_0="*", LC_ALL="C")
    return e


def build(names, quiet=True):
    """Builds the binaries |names|; returns the seconds it took."""
    t0 = time.time()
    out = os.path.join(BUILD, "obj")
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    for d in ("tachyon", "third_party", "bazel", "vendors"):
        l = os.path.join(out, d)
        t = os.path.join(REPO, d)
        if os.path.islink(l) and os.readlink(l) != t:
            os.unlink(l)
        if os.path.exists(t) and not os.path.islink(l):
            os.symlink(t, l)
    hs = []
    for n in sorted(C.BINARIES):
        b = C.BINARIES[n]
        hs.append({"name": n, "srcs": [os.path.join(VERIF, "sim/harness", s) for s in b["srcs"]],
                   "deps": b["deps"], "copts": b.get("copts", [])})
    hj = os.path.join(BUILD, "harness.json")
    json.dump(hs, open(hj, "w"))
    e = env()
    log = open(os.path.join(BUILD, "build.log"), "w")
    for cmd in ([sys.executable, os.path.join(VERIF, "sim/gen.py"), REPO, out, hj],
                ["ninja", "-C", out, "-j", str(max(2, min(10, os.cpu_count() or 8)))] + ["sim/" + n for n in names]):
        r = subprocess.run(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, cwd=out)
        if r.returncode:
            log.close()
            sys.stderr.write(open(os.path.join(BUILD, "build.log")).read()[-4000:])
            sys.stderr.write("\nBUILD FAILED\n")
            sys.exit(3)
    log.close()
    lock.close()
    return time.time() - t0


def known(prop):
    ks = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop and k.get("status") == "known":
                    ks.append(k)
    return ks


def replay(path):
    prop = re.search(r"^property (\S+)", open(path).read(), re.M).group(1)
    b = C.PROPS[prop]["binary"]
    build([b])
    return subprocess.run([os.path.join(BUILD, "obj/sim", b), "--prop", prop, "--replay", path],
                          env=env()).returncode


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    if sys.argv[1] == "--build":
        print("%.1f s" % build(sys.argv[2:] or sorted(C.BINARIES)))
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = C.PROPS[prop]
    t0 = time.time()
    bs = build([p["binary"]])
    exe = os.path.join(BUILD, "obj/sim", p["binary"])
    rd = os.path.join(BUILD, "replays")
    os.makedirs(rd, exist_ok=True)
    out = os.path.join(BUILD, "%s.result.json" % prop)
    secs = p.get(tier, C.SECONDS[tier])
    if os.environ.get("VERIF_SECONDS"):
        secs = float(os.environ["VERIF_SECONDS"])
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--seconds", str(secs), "--jobs",
           str(min(8, os.cpu_count() or 8)), "--out", out, "--replay-dir", rd]
    if tier == "quick" and p.get("quick_inputs"):
        cmd += ["--inputs", str(p["quick_inputs"])]
    ks = known(prop)
    for k in ks:
        cmd += ["--known", k["scenario"] + "\t" + k["match"]]
    r = subprocess.run(cmd, env=env())
    if r.returncode not in (0, 1):
        sys.stderr.write("the simulation driver failed (%d)\n" % r.returncode)
        sys.exit(3)
    d = json.load(open(out))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    violations = []
    if d["violation"]:
        v = d["violation"]
        # confirm in a fresh process
        rr = subprocess.run([exe, "--prop", prop, "--replay", v["replay"]], env=env(), stdout=subprocess.PIPE, text=True)
        violations.append({"replay": v["replay"], "scenario": v["scenario"], "message": v["message"],
                           "fresh_process_replay": "reproduced" if rr.returncode == 1 else "exit %d" % rr.returncode,
                           "replay_exact": "exactly as recorded" in rr.stdout})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, fault sequences and inputs",
        "coverage": {
            "evaluations": d["runs"], "distinct_nontrivial": d["distinct_traces"],
            "rule": "one evaluation is one simulated run (one seed = one exactly repeatable execution of the real code on one generated input); "
                    "runs are counted distinct by the hash of (input, sequence of thread switches with the access count at which each happened, faults and their positions); "
                    "runs without any switch or fault add one trace per input",
            "samples": d["samples"][:10],
            "inputs": d["inputs"], "reference_runs": d["reference_runs"], "runs_with_switch_or_fault": d["nontrivial_runs"],
            "runs_per_hour": round(d["runs"] / max(d["wall_s"], 0.01) * 3600),
            "seeds_per_hour": round((d["runs"] - d["reference_runs"]) / max(d["wall_s"], 0.01) * 3600),
            "simulated_seconds": d["sim_seconds"], "memory_accesses_simulated": d["steps"], "thread_switches": d["switches"],
            "conflicting_accesses_seen": d["conflicting_accesses"], "file_system_calls_simulated": d["fs_ops"],
            "faults_injected": d["faults"], "simulated_threads_per_run": d["threads"], "counters": d["counters"],
            "scenarios": d["scenarios"],
            "determinism_gate": {"reruns": d["determinism_reruns"], "mismatches": d["determinism_mismatches"], "violations_not_reproduced": d["unreproducible"]},
            "real_components": p["real"], "stub_components": C.STUBS + p.get("stubs", []),
            "build_s": round(bs, 1), "search_s": d["wall_s"],
        },
        "wall_s": round(wall, 1),
        "assumptions": C.ASSUMPTIONS + p.get("assumptions", []),
        "violations": len(violations),
        "violation_details": violations,
        "known_findings": [dict(k, hits=d["known_hits"][i] if i < len(d["known_hits"]) else 0) for i, k in enumerate(ks)],
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i, k in enumerate(ks):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d runs of %d inputs, %d distinct interleavings, %.1f s build, %.1f s search" %
          (prop, tier, d["runs"], d["inputs"], d["distinct_traces"], bs, d["wall_s"]))
    if violations:
        v = violations[0]
        print("%s: %s (%s)" % (v["scenario"], v["message"], v["fresh_process_replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        sys.exit(1)
    if d["worker_failure"]:
        sys.stderr.write("a search worker failed\n")
        sys.exit(3)


main()
