#!/usr/bin/env python3
"""Source of MANIFEST.json (run from anywhere)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
titles = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
CHECKS = {}
def check(ids, harness, technique, level, note):
    for i in ids.split():
        assert i in titles
        c = f"python3 mc/build.py {harness} {i}"
        CHECKS[i] = {"property": i, "quick_cmd": c, "thorough_cmd": c + " --thorough",
                     "evidence_file": f"evidence/{i}.json", "technique": technique,
                     "level": level, "level_note": note}
exec(open(os.path.join(root, "tools", "checks.py")).read())
NA = {}
for i in titles:
    if i not in CHECKS:
        NA[i] = NOT_APPLICABLE.get(i, "check not built yet")
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "JOEDB_MC_HOOKS", "enable": "no hooks were needed: the harnesses interpose at link time and use public interfaces", "source_commits": []},
     "checks": [CHECKS[i] for i in sorted(CHECKS)],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA)]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(CHECKS), "checks,", len(NA), "not claimed")
