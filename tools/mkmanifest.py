#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and sim/props/*.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    c = os.path.join(V, "sim", "props", p["id"].lower() + ".json")
    if os.path.exists(c):
        cfg = json.load(open(c))
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": cfg.get("technique", "deterministic simulation with fault injection (seeded search over histories, schedules and faults)"),
            "level": cfg["level"],
            "level_note": cfg.get("level_note", cfg["rule"] + " A clean batch is evidence, not proof. Assumes: " + "; ".join(cfg.get("assumptions", ["nothing beyond the stated seams"])) + "."),
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "Not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py pkg preload native",
     "hooks": {"guard": "AWKWARD_VSIM (reserved, no hook is present in /repo)",
               "enable": "no hook is needed: the simulator interposes operator new[]/delete[] and fopen with a preloaded library, supplies caches, generators, containers and iterables through the public API, and compiles /repo's unmodified sources with -fsanitize=thread instrumentation calls bound to its own scheduler",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay any failure with: python3 check.py --replay FILE [--log]"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
