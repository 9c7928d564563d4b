"""runs the Lean 4 back end on the lemma files a property uses (lemmas/USES.json).
A theorem counts as checked only if lean exits with 0, the file has no `sorry`/`axiom`/`native_decide`, and
`#print axioms` reports no axioms outside of propext, Classical.choice, Quot.sound."""
import glob
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OK = {"propext", "Classical.choice", "Quot.sound"}


def lean_env():
    env = dict(os.environ)
    exe = shutil.which("lean")
    if not exe:
        c = sorted(glob.glob("/app/lean4*/build/release/stage1/bin/lean")) + sorted(glob.glob("/root/.elan/bin/lean"))
        exe = c[-1] if c else None
    if not env.get("LEAN_PATH"):
        L = []
        for d in sorted(glob.glob("/app/mathlib4*")):
            L += [d + "/.lake/build/lib", d + "/.lake/build/lib/lean"]
            for p in sorted(glob.glob(d + "/.lake/packages/*")):
                L += [p + "/.lake/build/lib", p + "/.lake/build/lib/lean"]
        for d in sorted(glob.glob("/app/lean4*/build/release/stage1/lib/lean")):
            L.append(d)
            env.setdefault("LD_LIBRARY_PATH", d)
        if L:
            env["LEAN_PATH"] = ":".join(L)
    return exe, env


def run(pid, limit=240):
    uses = json.load(open(os.path.join(HERE, "lemmas", "USES.json"))).get(pid, [])
    res = []
    for u in uses:
        f = os.path.join(HERE, "lemmas", u["file"])
        t0 = time.time()
        exe, env = lean_env()
        src = open(f).read()
        out, status = "", "not run"
        if exe is None:
            out = "lean not found"
        else:
            try:
                p = subprocess.run([exe, f], cwd=HERE, env=env, capture_output=True, text=True, timeout=limit)
                out = p.stdout + p.stderr
                status = "checked" if p.returncode == 0 else "error"
            except (subprocess.TimeoutExpired, OSError) as e:
                out = repr(e)
        code = re.sub(r"/-.*?-/", "", src, flags=re.S)
        code = re.sub(r"--.*", "", code)
        if status == "checked":
            if re.search(r"\b(sorry|axiom|native_decide|unsafe|implemented_by)\b", code.replace("#print axioms", "")) or "sorry" in out:
                status, out = "error", "sorry or axiom in " + u["file"]
            for t in u["theorems"]:
                m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % re.escape(t), out)
                none = "'%s' does not depend on any axioms" % t in out
                if not none and (not m or not {x.strip() for x in m.group(1).split(",")} <= OK):
                    status, out = "error", "axioms of %s: %s" % (t, m.group(1) if m else "not reported")
                    break
        res.append({"file": u["file"], "theorems": u["theorems"], "says": u["says"], "status": status, "wall_s": round(time.time() - t0, 2),
                    "output": out[-500:] if status != "checked" else ""})
    return res


if __name__ == "__main__":
    import sys
    for r in run(sys.argv[1]):
        print(json.dumps(r, indent=1))
