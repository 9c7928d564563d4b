"""reverts.py [ID ...]: development helper; every repaired defect, put back in a scratch copy, must be reported again by its check"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fs = [f for f in json.load(open(H + "/KNOWN_FINDINGS.json"))["findings"] if f["status"] == "fixed" and (not sys.argv[1:] or f["id"] in sys.argv[1:])]


def one(f):
    w = "/tmp/w-rev-" + f["id"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    # later repairs of the same lines are taken out first
    cs = {"F14": ["870d557"], "F16": ["47529d2"]}.get(f["id"], []) + [f["commit"]] + re.findall(r"\(after ([0-9a-f]{7})\)", f["line"])
    msg = ""
    for c in cs:
        r = subprocess.run(["git", "revert", "-n", c], cwd=w, capture_output=True, text=True)
        if r.returncode:
            msg = "CONFLICT " + c
    out = ""
    if not msg:
        r = subprocess.run(["bash", H + "/check.sh", f["property"]], cwd=H, env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        msg = "rc=%d %s" % (r.returncode, out[:1])
    shutil.rmtree(w, ignore_errors=True)
    print(f["id"], f["property"], f["commit"], msg, flush=True)


with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    list(ex.map(one, fs))
