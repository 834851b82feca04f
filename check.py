#!/usr/bin/env python3
"""Entry point of every check.

  check.py PROP [--tier quick|thorough] [--runs N] [--seconds S] [--workers W]
  check.py --replay FILE      re-executes a replay file; exit 1 if it still fails
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.path.insert(0, VERIF)
import vbuild  # noqa: E402

PY = vbuild.PY


def environment(pkg, preload):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "PYTHONPATH": pkg, "LD_LIBRARY_PATH": os.path.join(pkg, "awkward"),
        "LD_PRELOAD": preload, "PYTHONHASHSEED": os.environ.get("VSIM_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "1", "ARROW_DEFAULT_MEMORY_POOL": "system",
        # fresh malloc memory is filled, freed memory is overwritten: reads of either are deterministic and visible
        "MALLOC_PERTURB_": "165",
        "VERIF_DIR": VERIF,
    }
    for k in ("VSIM_MAXV", "VSIM_VERBOSE"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def worker(env, args, **kw):
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "sim", "worker.py")] + args, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, **kw)


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def replay_once(env, path):
    p = worker(env, ["replay", path])
    out, err = p.communicate()
    try:
        return json.loads(out.decode())
    except ValueError:
        return {"err": err.decode(errors="replace")[-2000:], "hash": "?"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--log", action="store_true", help="with --replay: print the recorded history")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop
    if a.replay:
        with open(a.replay) as f:
            prop = json.load(f)["plan"]["prop"]
    cfg_path = os.path.join(VERIF, "sim", "props", prop.lower() + ".json")
    with open(cfg_path) as f:
        cfg = json.load(f)
    try:
        pkg = vbuild.build("pkg")
        preload = vbuild.build("preload")
        env = environment(pkg, preload)
        if cfg.get("native"):
            env["VSIM_NATIVE"] = vbuild.build("native")
    except vbuild.BuildError as e:
        print("build failed: %s" % e)
        sys.exit(3)
    t_build = time.time() - t0

    if a.replay:
        r = replay_once(env, a.replay)
        if a.log:
            for line in r.get("lines", []):
                print("   ", line)
        if r.get("v"):
            print("%s %s" % (r["v"]["kind"], r["v"]["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            sys.exit(1)
        if "err" in r:
            print(r["err"])
            sys.exit(3)
        print("replay of %s: property %s held" % (a.replay, prop))
        sys.exit(0)

    tier = a.tier
    runs = a.runs or cfg[tier]["runs"]
    seconds = a.seconds or cfg[tier]["seconds"]
    ps = [worker(env, ["run", prop, tier, str(seed), str(w), str(a.workers), str(runs), str(seconds)])
          for w in range(a.workers)]
    agg = {"runs": 0, "steps": 0, "faulty_runs": 0, "twice": 0}
    faults, probes, known = {}, {}, {}
    hashes, nth, states = set(), set(), set()
    violations, errors, twice_bad, samples = [], [], [], []
    for p in ps:
        out, err = p.communicate()
        try:
            r = json.loads(out.decode())
        except ValueError:
            errors.append({"i": -1, "err": "worker died rc=%s: %s" % (p.returncode, err.decode(errors="replace")[-3000:])})
            continue
        for k in agg:
            agg[k] += r[k]
        merge(faults, r["faults"])
        merge(probes, r["probes"])
        merge(known, r["known"])
        hashes.update(r["hashes"])
        nth.update(r["nt_hashes"])
        states.update(r["states"])
        violations += r["violations"]
        errors += r["errors"]
        twice_bad += r["twice_bad"]
        samples += r["samples"]
    wall = time.time() - t0
    t_run = wall - t_build

    confirmed = []
    unconfirmed = []
    outdir = os.path.join(VERIF, "replays")
    for v in sorted(violations, key=lambda v: v["i"])[:8]:
        os.makedirs(outdir, exist_ok=True)
        base = os.path.join(outdir, "%s-%d-%d" % (prop, seed, v["i"]))
        doc = {"property": prop, "seed": [seed, v["i"]], "v": v["v"], "plan": v["plan"]}
        with open(base + ".full.json", "w") as f:
            json.dump(doc, f)
        r1 = replay_once(env, base + ".full.json")
        r2 = replay_once(env, base + ".full.json")
        same = all(r.get("v") and r["v"]["kind"] == v["v"]["kind"] for r in (r1, r2))
        if not same:
            unconfirmed.append({"i": v["i"], "kind": v["v"]["kind"], "replays": [x.get("v") for x in (r1, r2)]})
            continue
        # minimise, then the minimised plan must fail the same way in a fresh process
        final = base + ".full.json"
        p = worker(env, ["minimise", base + ".full.json", base + ".min.tmp"])
        p.communicate()
        if os.path.exists(base + ".min.tmp"):
            with open(base + ".min.tmp") as f:
                plan = json.load(f)
            os.unlink(base + ".min.tmp")
            doc["plan"] = plan
            with open(base + ".json", "w") as f:
                json.dump(doc, f, indent=1)
            r3 = replay_once(env, base + ".json")
            if r3.get("v") and r3["v"]["kind"] == v["v"]["kind"]:
                doc["v"] = r3["v"]
                doc["history"] = r3.get("lines", [])[-200:]
                with open(base + ".json", "w") as f:
                    json.dump(doc, f, indent=1)
                final = base + ".json"
        confirmed.append((v, final, doc["v"]))
        break

    # listed findings: replay each one's own history
    kf_lines = []
    kf_path = os.path.join(VERIF, "known_findings.json")
    listed = []
    if os.path.exists(kf_path):
        with open(kf_path) as f:
            listed = [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]
    for k in listed:
        r = replay_once(env, os.path.join(VERIF, k["replay"]))
        if r.get("v") and r["v"]["kind"] == k["kind"]:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            known[k["id"]] = known.get(k["id"], 0) + 1

    fault_free = agg["runs"] - agg["faulty_runs"]
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(nth),
        "rule": cfg["rule"],
        "samples": samples[:4],
        "simulated_runs": agg["runs"],
        "seeds_per_hour": int(agg["runs"] / max(t_run, 1e-3) * 3600),
        "simulated_steps": agg["steps"],
        "simulated_time": "logical: %d recorded events (the code under test reads no clock)" % agg["steps"],
        "faults_injected": dict(sorted(faults.items())),
        "runs_with_faults": agg["faulty_runs"],
        "runs_fault_free": fault_free,
        "probes": dict(sorted(probes.items())),
        "distinct_histories": len(hashes),
        "distinct_states": len(states),
        "state_measure": cfg.get("state_measure", ""),
        "determinism": {"runs_executed_twice": agg["twice"], "hash_mismatches": len(twice_bad)},
        "components_real": cfg.get("real", []),
        "components_stub": cfg.get("stub", []),
        "known_findings_hit": known,
        "unconfirmed": unconfirmed,
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": cfg["level"], "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs (%d with faults), %d steps, %d distinct histories, %d states, %.1f s (build %.1f s)"
          % (prop, tier, seed, agg["runs"], agg["faulty_runs"], agg["steps"], len(hashes), len(states), wall, t_build))
    if faults:
        print("  faults fired: " + ", ".join("%s=%d" % kv for kv in sorted(faults.items())))
    if probes:
        print("  probes: " + ", ".join("%s=%d" % kv for kv in sorted(probes.items())))
    if twice_bad:
        print("  NONDETERMINISM: runs %s gave two different histories" % twice_bad[:10])
    for k in kf_lines:
        print(k)
    for u in unconfirmed:
        print("  unconfirmed: %s" % json.dumps(u))
    if confirmed:
        for v, path, vv in confirmed:
            print("%s: %s" % (vv["kind"], vv["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        print("HARNESS ERRORS: %d" % len(errors))
        for e in errors[:3]:
            print(e["i"], e["err"])
        sys.exit(3)
    # an outcome that two fresh executions of the same plan do not repeat decides nothing: it is
    # printed and recorded in the evidence (coverage.unconfirmed), and is not a violation
    sys.exit(0)


main()
