"""mutate.py PID FILE:QUALNAME[,..] [--n N] [--seed S]: development helper; mutates functions in copies of /repo/qmat, runs the
contracts and the oracle of PID against the copies and lists the mutants nobody notices"""
import argparse, ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, sys, tempfile
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult, ast.MatMult: ast.Mult}


def muts(fn):
    """list of (description, apply(node copy))"""
    out = []
    nodes = list(ast.walk(fn))
    for k, n in enumerate(nodes):
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    out.append((L, "cmp", k, i))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out.append((L, "bin", k, 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((L, "const+", k, 0))
            out.append((L, "const-", k, 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((L, "bool", k, 0))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            out.append((L, "negif", k, 0))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((L, "usub", k, 0))
        elif isinstance(n, ast.BoolOp):
            out.append((L, "boolop", k, 0))
        elif isinstance(n, ast.Slice):
            for a in ("lower", "upper", "step"):
                if getattr(n, a) is not None:
                    out.append((L, "slice-" + a, k, a))
        elif isinstance(n, ast.Attribute) and n.attr in ("copy",):
            out.append((L, "nocopy", k, 0))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((st.lineno, "del", k, (f, i)))
    return out


def apply(fn, m):
    L, kind, k, i = m
    n = list(ast.walk(fn))[k]
    if kind == "cmp":
        n.ops[i] = CMP[type(n.ops[i])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "const+":
        n.value = n.value + 1
    elif kind == "const-":
        n.value = n.value - 1 if n.value else -1
    elif kind == "bool":
        n.value = not n.value
    elif kind == "negif":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "usub":
        n.op = ast.UAdd()
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind.startswith("slice-"):
        setattr(n, i, None)
    elif kind == "nocopy":
        n.attr = "view"
    elif kind == "del":
        getattr(n, i[0])[i[1]] = ast.Pass()


def find(tree, q):
    cur = tree
    for part in q.split("."):
        cur = next(x for x in cur.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part)
    return cur


def one(a):
    pid, f, q, m, tests = a
    src = open("/repo/" + f).read()
    tree = ast.parse(src)
    fn = find(tree, q)
    before = ast.unparse(tree)
    apply(fn, m)
    after = ast.unparse(ast.fix_missing_locations(tree))
    if after == before:
        return None
    d1, d2 = before.splitlines(), after.splitlines()
    diff = [(x.strip(), y.strip()) for x, y in zip(d1, d2) if x != y][:1]
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo/qmat", w + "/qmat", ignore=shutil.ignore_patterns("__pycache__"))
        open(w + "/" + f, "w").write(after)
        env = dict(os.environ, VP_REPO=w, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONPATH=w)
        j = w + "/out.json"
        try:
            subprocess.run(["python3-vt", "-m", "contracts.run", pid, "--jobs", "2", "--out", j], cwd=H, env=env, timeout=400, capture_output=True)
            R = json.load(open(j))
            bad = [o["name"] for r in R for o in r["obligations"] if o["status"] != "proved"]
            uns = ["%s: %s" % (r["name"], r["message"][:80]) for r in R if r["status"] != "ok"]
            c = "failed" if bad else "unsupported" if uns else "ok"
            det = (bad or uns or [""])[0][:110]
        except (OSError, ValueError, subprocess.TimeoutExpired) as e:
            c, det = "crash", repr(e)[:80]
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "oracle.run", pid, "--tier", "quick", "--seed", "1"], cwd=H, env=env, timeout=300, capture_output=True, text=True)
            last = (p.stdout.strip().splitlines() or [""])[-1]
            import re
            k = re.search(r"fails (\d+)", p.stdout)
            o = "ok" if k and k.group(1) == "0" and p.returncode == 0 else "fails"
        except subprocess.TimeoutExpired:
            o = "timeout"
        t = ""
        if tests and c == "ok" and o == "ok":
            os.makedirs(w + "/tests", exist_ok=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "%s:%d %s" % (q, m[0], m[1]), c, o, diff, det


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("targets")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    jobs = []
    for t in a.targets.split(","):
        f, q = t.split(":")
        fn = find(ast.parse(open("/repo/" + f).read()), q)
        jobs += [(a.pid, f, q, m, False) for m in muts(fn)]
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.n]
    n = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            w, c, o, diff, det = r
            n[c, o] = n.get((c, o), 0) + 1
            if a.all or o == "ok" or c == "ok":
                print(w, "| contract:", c, "| oracle:", o, "|", *(["%s  ->  %s" % d for d in diff]), "|", det if c != "ok" else "", flush=True)
    print(a.pid, {"contract %s, oracle %s" % k: v for k, v in sorted(n.items())})


main()
