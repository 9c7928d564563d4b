"""python3-vt -m contracts.run PID [--tier T] [--only NAME] [--out JSON] [-v]"""
import argparse
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp
import multiprocessing.connection


MEM = 4 << 30          # address space of one contract


def one(a):
    pid, k = a
    from contracts import base
    sys.setrecursionlimit(30000)
    importlib.import_module("contracts.%s" % pid.lower())
    return base.run_contract(base.CONTRACTS[pid][k])


def child(a, conn):
    import resource
    import z3
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    z3.set_param("memory_max_size", 2500)
    try:
        r = one(a)
    except MemoryError:
        r = "memory limit"
    except BaseException as e:        # reported as not decided, never as a violation
        r = "ended by %s: %s" % (type(e).__name__, str(e)[:200])
    conn.send(r)
    conn.close()


def pool(pid, todo, jobs, L):
    """every contract in a process of its own"""
    ctx = mp.get_context("fork")
    wait, run, res = list(todo), {}, {}
    while wait or run:
        while wait and len(run) < jobs:
            k = wait.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=((pid, k), w))
            p.start()
            w.close()
            run[r] = (k, p)
        for r in mp.connection.wait(list(run)):
            k, p = run.pop(r)
            try:
                v = r.recv()
            except EOFError:
                p.join()
                v = "process ended with %s" % p.exitcode
            p.join()
            if isinstance(v, str):
                m = L[k]
                v = {"name": m["name"], "title": m["title"], "functions": m["functions"], "status": "unsupported",
                     "message": v, "obligations": [], "assumed": {}, "paths": 0, "wall": 0, "z3": {}}
            res[k] = v
    return [res[k] for k in todo]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from contracts import base
    importlib.import_module("contracts.%s" % a.pid.lower())
    L = base.CONTRACTS.get(a.pid, [])
    todo = [k for k, m in enumerate(L) if (a.only is None or a.only in m["name"]) and (m["tier"] == "quick" or a.tier == "thorough")]
    out = []
    if a.jobs == 1 or len(todo) == 1:
        for k in todo:
            out.append(one((a.pid, k)))
    else:
        out = pool(a.pid, todo, a.jobs, L)
    if a.out:
        json.dump(out, open(a.out, "w"))
        return 0
    for r in out:
        n = len(r["obligations"])
        p = sum(o["status"] == "proved" for o in r["obligations"])
        print("%-28s %-12s %d/%d obligations, %d paths, %.1fs %s" % (r["name"], r["status"], p, n, r["paths"], r["wall"], r["message"][:300]))
        for o in r["obligations"]:
            if a.v or o["status"] != "proved":
                print("   %-9s %6.2fs %s %s" % (o["status"], o["s"], o["name"], o["detail"][:400]))
        if a.v:
            print("   assumed", r["assumed"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
