#!/usr/bin/env python3
"""claim.py PID LEVEL NOTE: adds a property to levels.json and rewrites MANIFEST.json"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "levels.json")
d = json.load(open(p))
pid, level, note = sys.argv[1:4]
t = d["C01"]["technique"] if os.path.exists(os.path.join(here, "..", "lemmas")) and pid in json.load(open(os.path.join(here, "..", "lemmas", "USES.json"))) else d["C11"]["technique"]
d[pid] = {"technique": t, "level": level, "note": note}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(here, "mkmanifest.py")])
