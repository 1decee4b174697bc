#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the list of claimed checks.
import json, sys, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
claimed = open("claimed.txt").read().split()
notes = json.load(open("level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "exhaustive bounded enumeration of executions of the real code, each compared with an explicit-state reference model"),
            "level": "model_checking",
            "level_note": n.get("note", "Every case of the stated finite spaces is executed on the implementation and compared with a reference model written independently of it; nothing beyond the bounds in the evidence file is covered."),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the exported API and the built commands", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh ID TIER rebuilds the explorer (mc/) against /repo's working tree and runs one property's spaces in 8 worker processes."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
