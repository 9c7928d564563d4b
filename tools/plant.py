"""plant.py ID PROPERTY FILE  <<< JSON {old,new,needs,breaks,demo}: writes seeded/ID (development helper)"""
import json, os, subprocess, sys
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))


def plant(id_, prop, edits, needs, breaks, demo):
    d = os.path.join(H, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/plant-wt"
    if os.path.exists(w):
        subprocess.run(["rm", "-rf", w], check=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id_, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["rm", "-rf", w], check=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
