"""check.py PID [--tier quick|thorough]

1. contract verification of the functions the property depends on (contracts/, vp/: obligations generated from
   the current source of /repo, discharged by the equational prover and z3),
2. bounded stand-in and replay: exact-rational oracles run against the real code (oracle/),
3. outcome: exit 0, or exit 1 with  VIOLATION property=<id> replay=<path> [no-failing-input-found]."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tools import leanrun

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PY_REAL = "/opt/venv/bin/python"
PY_VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VP_REPO=REPO, PYTHONHASHSEED="0")
LIMIT = {"quick": 420, "thorough": 780}
TRUSTED = [
    "vp/ verification-condition generator (symbolic execution of the instrumented source, loop rule, numpy view semantics) and equational prover",
    "z3 (integer linear arithmetic, uninterpreted functions, nonlinear real arithmetic)",
    "CPython semantics of the constructs executed",
    "numpy / scipy contracts of vp/shim.py used by the functions (listed under assumptions)",
]


def sub(cmd, out, limit):
    """runs cmd in its own process group, kills the group at the limit"""
    p = subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
        note = ""
    except subprocess.TimeoutExpired:
        note = "time limit of %d s" % limit
        o = b""
    try:
        os.killpg(p.pid, 9)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(5)
    except Exception:
        pass
    try:
        return json.load(open(out)), note
    except Exception:
        return None, note or o.decode(errors="replace")[-1500:]


def known():
    L = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        L = [d for d in json.load(open(p))["findings"] if d.get("status") == "known"]
    return L


def matches(f, k):
    if f["property"] != k["property"] or f["oracle"] != k["match"]["oracle"]:
        return False
    c = f["case"]
    if not all(c.get(a) == b for a, b in k["match"].get("case", {}).items()):
        return False
    if "case_in" in k["match"]:
        for a, bs in k["match"]["case_in"].items():
            if c.get(a) not in bs:
                return False
    m = k["match"].get("messages")
    return m is None or f["message"] in m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = {c["property"]: c["level"] for c in man["checks"]}.get(pid, "other")
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vp-")
    try:
        # the oracle runs in parallel with the verifier
        import threading
        box = {}

        def orc():
            out = os.path.join(tmp, "oracle.json")
            b = 100 if tier == "quick" else 400
            box["o"] = sub([PY_REAL, "-m", "oracle.run", pid, "--tier", tier, "--seed", str(a.seed), "--budget", str(b), "--maxfail", "200", "--out", out], out, b + 200)
        th = threading.Thread(target=orc)
        th.start()
        tl = threading.Thread(target=lambda: box.__setitem__("lean", leanrun.run(pid)))
        tl.start()
        contracts, cnote = [], ""
        if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
            out = os.path.join(tmp, "contracts.json")
            contracts, cnote = sub([PY_VT, "-m", "contracts.run", pid, "--tier", tier, "--out", out], out, LIMIT[tier])
        th.join()
        tl.join()
        orac, onote = box["o"]
        if any(o["status"] == "failed" for c in contracts or [] for o in c["obligations"]) and not (orac or {}).get("failures") and time.time() - t0 < 500:
            # an obligation fails and the bounded search found no failing input: search again with other seeds and the larger tier
            for k in range(1, 4):
                out = os.path.join(tmp, "oracle%d.json" % k)
                left = 560 - (time.time() - t0)
                if left < 40:
                    break
                o2, _ = sub([PY_REAL, "-m", "oracle.run", pid, "--tier", "thorough", "--seed", str(a.seed + 1000 * k), "--budget", str(int(min(120, left - 30))), "--maxfail", "200", "--out", out], out, left)
                if o2 and o2["failures"]:
                    orac = o2
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    crash = contracts is None
    contracts = contracts or []

    # ---- known findings
    kf = known()
    new, hit = [], {}
    for f in (orac or {}).get("failures", []):
        for k in kf:
            if matches(f, k):
                hit.setdefault(k["id"], (k, []))[1].append(f)
                break
        else:
            new.append(f)
    for k, fs in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # ---- obligations
    obl = [(c, o) for c in contracts for o in c["obligations"]]
    proved = [x for x in obl if x[1]["status"] == "proved"]
    failed = [x for x in obl if x[1]["status"] == "failed"]
    lean = box.get("lean", [])
    undec = [x for x in obl if x[1]["status"] == "undecided"]
    unsup = [c for c in contracts if c["status"] != "ok"]
    replay, suffix, nv = None, "", 0
    if new:
        nv = len(new)
        f = dict(new[0])
        f["failed_obligations"] = [{"contract": c["name"], "obligation": o["name"], "verifier": o["detail"]} for c, o in failed[:10]]
        f["all_messages"] = [x["message"] for x in new[:20]]
        f["replay_cmd"] = "%s oracle/run.py --replay <this file>" % PY_REAL
    elif orac is None and onote and not onote.startswith("time limit"):
        # the package cannot be imported or used any more
        nv, suffix = 1, " no-failing-input-found"
        f = {"property": pid, "oracle_output": onote, "failed_obligations": [{"contract": c["name"], "obligation": o["name"], "verifier": o["detail"]} for c, o in failed[:10]]}
    elif failed:
        nv, suffix = len(failed), " no-failing-input-found"
        f = {"property": pid, "failed_obligations": [{"contract": c["name"], "functions": c["functions"], "obligation": o["name"], "verifier": o["detail"]} for c, o in failed[:20]],
             "note": "the verifier does not discharge these obligations on the current source; no failing input was found by the bounded oracles"}
    if nv:
        replay = os.path.join(ev, "replay-%s.json" % pid)
        json.dump(f, open(replay, "w"), indent=1)

    # ---- evidence
    z = {}
    for c in contracts:
        for k, n in c["z3"].items():
            z[k] = round(z.get(k, 0) + n, 3)
    assumed = {}
    for c in contracts:
        for k, n in c["assumed"].items():
            assumed[k] = assumed.get(k, 0) + n
    o = orac or {"evaluations": 0, "distinct": 0, "samples": [], "rules": [], "kinds": {}, "wall": 0, "truncated": []}
    cov = {
        "obligations": len(obl) + len(unsup) + sum(len(x["theorems"]) for x in lean), "discharged": len(proved) + sum(len(x["theorems"]) for x in lean if x["status"] == "checked"),
        "checker_cmd": "python3-vt -m contracts.run %s -v" % pid,
        "trusted_base": TRUSTED,
        "explanation": "deductive part: every postcondition, loop step and frame condition of the contracts listed under 'contracts', generated from /repo's current source; "
                       "bounded part (never counted as proved): the oracle cases listed under 'bounded'",
        "contracts": [{"name": c["name"], "title": c["title"], "functions": c["functions"], "status": c["status"], "message": c["message"],
                       "obligations": len(c["obligations"]), "discharged": sum(x["status"] == "proved" for x in c["obligations"]), "paths": c["paths"], "wall_s": c["wall"],
                       "obligation_names": sorted({x["name"].split(": ", 1)[-1] for x in c["obligations"]})[:40]} for c in contracts],
        "functions_under_contract": sorted({x for c in contracts if c["status"] == "ok" for x in c["functions"]}),
        "outside_the_verified_subset": [{"contract": c["name"], "reason": c["message"]} for c in unsup],
        "undecided": [{"contract": c["name"], "obligation": x["name"], "reason": x["detail"]} for c, x in undec],
        "back_ends": {"equational prover (vp/prover.py)": {"obligations": len(obl), "s": round(sum(x["s"] for _, x in obl), 2)}, "z3": z,
                      "lean 4 + Mathlib (lemmas over the contracts)": lean},
        "evaluations": o["evaluations"], "distinct_nontrivial": o["distinct"],
        "rule": "bounded stand-in, distinct JSON-encoded inputs of: " + " | ".join(str(r) for r in o["rules"]),
        "samples": o["samples"],
        "bounded": {"cases_by_kind": o["kinds"], "truncated": o["truncated"], "wall_s": round(o["wall"], 2)},
    }
    if cnote:
        cov["verifier_note"] = cnote
    assumptions = ["machine floating point arithmetic is treated as exact real arithmetic in the deductive part; the bounded part runs the real floating point code with tolerances",
                   "python float literals stand for the rational they are printed as"] + ["assumed contract: %s (used %d times)" % kv for kv in sorted(assumed.items())]
    for x in lean:
        if x["status"] != "checked":
            assumptions.append("lemmas of %s assumed, the Lean back end did not check them in this run: %s" % (x["file"], x["output"]))
    for c in contracts:
        assumptions += [x for x in c.get("assumptions", []) if x not in assumptions]
    json.dump({"property": pid, "tier": tier, "seed": a.seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": nv}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for x in lean:
        print("  lean %s: %s (%s)" % (x["file"], x["status"], ", ".join(x["theorems"])))
    print("%s: %d/%d obligations discharged in %d contracts (%d outside of the subset, %d undecided); %d bounded cases; %.1f s" % (
        pid, len(proved), len(obl), len(contracts), len(unsup), len(undec), o["evaluations"], time.time() - t0))
    for c in unsup:
        print("  bounded only: %s (%s)" % (c["name"], c["message"][:200]))
    for c, x in undec:
        print("  undecided: %s %s" % (c["name"], x["name"]))
    if crash:
        print("  verifier: %s" % cnote[:1000])
    if nv:
        for x in new[:5]:
            print("  %s: %s  %s" % (x["oracle"], x["message"], json.dumps(x["case"])[:300]))
        for c, x in failed[:8]:
            print("  obligation not discharged: %s / %s: %s" % (c["name"], x["name"], x["detail"][:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, suffix))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
