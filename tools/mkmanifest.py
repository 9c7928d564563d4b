"""MANIFEST.json from the list of contracts"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
NA = {}
NOTE = json.load(open(os.path.join(H, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    n = NOTE.get(i)
    if not n:
        na.append({"property": i, "reason": "no contract yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": n["technique"], "level": n["level"], "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
