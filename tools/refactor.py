"""behaviour-preserving edits: every check must stay quiet.  python3 refactor.py [ID...]   (scratch copies under /tmp)"""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R


def apply(s, old, new):
    if old in s:
        return s.replace(old, new, 1)
    pat = r"[ \t]*\n(?:[ \t]*\n)*".join(re.escape(x.rstrip()) for x in re.split(r"\n+", old))
    m = re.search(pat, s)
    return None if m is None else s[:m.start()] + new + s[m.end():]


def one(id_):
    pids, edits = R[id_]
    W = "/tmp/rf-" + id_
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "docs", "build"))
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            s = apply(s, old, new)
            if s is None:
                return id_, ["EDIT DOES NOT APPLY: %s: %r" % (f, old[:60])]
            open(p, "w").write(s)
        for pid in pids:
            r = subprocess.run(["./check.sh", pid], cwd=VERIF, env=dict(os.environ, VP_REPO=W), capture_output=True, text=True, timeout=900)
            txt = r.stdout + r.stderr
            v = [l for l in txt.split("\n") if l.startswith("VIOLATION")]
            b = [l.strip() for l in txt.split("\n") if "bounded only" in l]
            o = [l.strip() for l in txt.split("\n") if "not discharged" in l or "undecided" in l and "obligation" in l and "0 undecided" not in l]
            tail = [l for l in txt.split("\n") if l.strip()][-12:]
            st = "ALARM" if v else ("rc %d" % r.returncode if r.returncode else "quiet")
            out.append("%s %s %s%s" % (pid, st, " | ".join(x[:230] for x in b[:3]), ("\n      " + "\n      ".join(l[:260] for l in (o[:4] or tail))) if st != "quiet" else ""))
    except Exception as e:
        out.append("%s" % e)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return id_, out


if __name__ == "__main__":
    ids = [i for i in R if len(sys.argv) < 2 or any(re.fullmatch(a, i) for a in sys.argv[1:])]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for id_, out in ex.map(one, ids):
            print("== %s" % id_)
            for l in out:
                print("   " + l, flush=True)
