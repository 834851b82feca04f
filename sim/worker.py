"""Worker process: runs a stripe of seeds of one property, or one replay file.

  worker.py run PROP TIER BASE START STRIDE COUNT SECONDS
  worker.py replay FILE        -> prints result JSON
  worker.py minimise FILE OUT  -> shrinks the plan in FILE into OUT
"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core  # noqa: E402


def load(prop):
    mod = importlib.import_module("sim.props." + prop.lower())
    if hasattr(mod, "template"):
        mod.template()  # imports etc., done once before forking
    return mod


def known():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["status"] == "known"]
    except OSError:
        return []


def is_known(prop, v, findings):
    import re
    for k in findings:
        if k["property"] == prop and k.get("kind") == v["kind"] and re.search(k["match"], v["detail"]):
            return k["id"]
    return None


def fixed_addresses():
    """Re-execute without address randomisation, so that one seed is one execution down to the addresses."""
    if os.environ.get("VSIM_NOASLR"):
        return
    os.environ["VSIM_NOASLR"] = "1"
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        old = libc.personality(0xffffffff)
        if old >= 0 and not old & 0x0040000 and libc.personality(old | 0x0040000) >= 0:
            os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
    except Exception:
        pass


def main():
    fixed_addresses()
    cmd = sys.argv[1]
    if cmd == "run":
        prop, tier, base, start, stride, count, seconds = sys.argv[2:9]
        base, start, stride, count, seconds = int(base), int(start), int(stride), int(count), float(seconds)
        mod = load(prop)
        kf = known()
        timeout = getattr(mod, "TIMEOUT", 60.0)
        t0 = time.monotonic()
        agg = {"runs": 0, "steps": 0, "faults": {}, "faulty_runs": 0, "probes": {}, "hashes": [], "nt_hashes": [],
               "states": set(), "violations": [], "errors": [], "twice": 0, "twice_bad": [], "known": {}, "samples": []}
        hs, nth = set(), set()
        i = start
        done = 0
        while i < count and time.monotonic() - t0 < seconds:
            rng = core.run_rng(prop, base, i)
            plan = mod.gen(rng, tier)
            plan["prop"] = prop
            plan["seed"] = [base, i]
            plan = json.loads(json.dumps(plan))
            r = core.execute_forked(mod, plan, timeout)
            agg["runs"] += 1
            agg["steps"] += r["n"]
            for k, v in r["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            agg["faulty_runs"] += 1 if r["faults"] else 0
            for k, v in r["probes"].items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            hs.add(r["hash"])
            if r["nt"]:
                nth.add(r["hash"])
            agg["states"].update(r["states"])
            if "err" in r:
                agg["errors"].append({"i": i, "err": r["err"]})
                if len(agg["errors"]) >= 3:
                    break
            if done < 2 and r["nt"]:
                s = json.dumps(plan)
                agg["samples"].append(plan if len(s) < 3000 else s[:3000])
            if done % 16 == 0 and not r.get("v"):
                r2 = core.execute_forked(mod, plan, timeout)
                agg["twice"] += 1
                if r2["hash"] != r["hash"]:
                    agg["twice_bad"].append(i)
            if r.get("v"):
                kid = is_known(prop, r["v"], kf)
                if kid:
                    agg["known"][kid] = agg["known"].get(kid, 0) + 1
                else:
                    agg["violations"].append({"i": i, "v": r["v"], "hash": r["hash"], "plan": plan})
                    if len(agg["violations"]) >= int(os.environ.get("VSIM_MAXV", "3")):
                        break
            done += 1
            i += stride
        agg["states"] = sorted(agg["states"])
        agg["hashes"] = sorted(hs)
        agg["nt_hashes"] = sorted(nth)
        agg["seconds"] = time.monotonic() - t0
        sys.stdout.write(json.dumps(agg))
        sys.stdout.flush()
    elif cmd == "replay":
        with open(sys.argv[2]) as f:
            doc = json.load(f)
        plan = doc.get("plan", doc)
        mod = load(plan["prop"])
        r = core.execute_forked(mod, plan, getattr(mod, "TIMEOUT", 60.0), keep=True)
        sys.stdout.write(json.dumps(r))
    elif cmd == "minimise":
        with open(sys.argv[2]) as f:
            doc = json.load(f)
        mod = load(doc["plan"]["prop"])
        best = core.minimise(mod, doc["plan"], doc["v"]["kind"], min(20.0, getattr(mod, "TIMEOUT", 60.0)))
        with open(sys.argv[3], "w") as f:
            json.dump(best, f)


main()
