#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/tools/checks.json"))
checks = []
for i in ids:
    if i in T:
        c = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
                       "thorough_cmd": "./check.sh " + i + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"),
                       "level_note": c["note"]})
na = [{"property": i, "reason": "not claimed yet: its monitor is still being built"} for i in ids if i not in T]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(demixer_verif)",
               "enable": "RUSTFLAGS='--cfg demixer_verif' (set by /verif/env.sh for every build of a check)",
               "source_commits": T.get("_hook_commits", [])},
     "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
