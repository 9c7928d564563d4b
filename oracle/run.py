"""python run.py PID --tier quick --seed 1 --budget 100 --out OUT.json | --replay FILE"""
import argparse
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from oracle.base import ORACLES
import oracle.o_lagrange, oracle.o_q, oracle.o_qdelta, oracle.o_utils, oracle.o_order


def enc(o):
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    if isinstance(o, np.ndarray):
        return enc(o.tolist())
    if isinstance(o, complex):
        return {"re": o.real, "im": o.imag}
    if isinstance(o, np.generic):
        return o.item()
    return o


def runcase(cls, p):
    try:
        return cls.check(p)
    except Exception as e:
        return "raised %s: %s [%s]" % (type(e).__name__, str(e)[:200],
                                      " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:])))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=100)
    ap.add_argument("--maxfail", type=int, default=12)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if "case" not in d:
            print("no input: the replay file names the failed obligation")
            print(json.dumps(d, indent=1)[:4000])
            return 1
        for cls in ORACLES[d["property"]]:
            if cls.__name__ == d["oracle"]:
                m = runcase(cls, d["case"])
                print("FAIL %s" % m if m else "PASS")
                return 1 if m else 0
        print("unknown oracle")
        return 2
    t0 = time.time()
    fails, n, seen, samples, kinds = [], 0, set(), [], {}
    classes = ORACLES.get(a.pid, [])
    truncated = []
    for ci, cls in enumerate(classes):
        rng = np.random.default_rng([a.seed, ci, sum(map(ord, a.pid))])
        share = t0 + a.budget * (ci + 1) / len(classes)
        nf = 0
        for p in cls.cases(rng, a.tier):
            if time.time() > share:
                truncated.append(cls.__name__)
                break
            p = json.loads(json.dumps(enc(p)))
            m = runcase(cls, p)
            n += 1
            key = json.dumps(p, sort_keys=True)
            if key not in seen:
                seen.add(key)
                k = "%s/%s" % (cls.__name__, p.get("kind", ""))
                kinds[k] = kinds.get(k, 0) + 1
                if kinds[k] == 1 and len(samples) < 12:
                    samples.append({"oracle": cls.__name__, "case": key[:600]})
            if m:
                nf += 1
                fails.append({"property": a.pid, "oracle": cls.__name__, "case": p, "message": m})
                if nf >= a.maxfail:
                    break
    res = {"property": a.pid, "evaluations": n, "distinct": len(seen), "kinds": kinds, "samples": samples,
           "failures": fails, "truncated": truncated, "rules": [c.__doc__ for c in classes], "wall": time.time() - t0}
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        for f in fails:
            print("FAIL", f["oracle"], f["message"], json.dumps(f["case"])[:400])
        print(a.pid, "cases", n, "fails", len(fails), kinds, "trunc", truncated, "%.1fs" % (time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
