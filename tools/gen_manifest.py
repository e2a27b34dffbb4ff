"""Writes properties.jsonl and MANIFEST.json from the definitions in props_*.py (only properties that have a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = []
for name in sorted(os.listdir(HERE)):
    if name.startswith("props_") and name.endswith(".py"):
        props += __import__(name[:-3]).PROPS
checks = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in props:
        i = p["id"]
        if not os.path.exists(os.path.join(VERIF, "checks", i.lower() + ".py")):
            print("no check yet:", i)
            continue
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        for f in p["anchors"]["files"] + [w["where"] for w in p["anchors"]["mechanism"]]:
            assert os.path.exists("/repo/" + f), f
        checks.append({"property": i, "quick_cmd": "./run_check.sh %s quick" % i, "thorough_cmd": "./run_check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]})
man = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo are needed: every property is observed at the package's public entry points (results, raised errors, files, figures). "
                "Known and fixed findings are in known-findings.txt."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
