"""autoref.py [--jobs N] [--test] [TRANSFORM:FILE ...]: development helper; behaviour-preserving rewritings made automatically
(every function of a file at once) in a scratch copy; every check that depends on the file must stay quiet"""
import ast, copy, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "qmat/lagrange.py": "C01 C02 C03 C04 C05 C07 C11",
    "qmat/nodes.py": "C06 C07 C21",
    "qmat/qcoeff/__init__.py": "C08 C10 C14 C17 C20 C09",
    "qmat/qcoeff/collocation.py": "C07 C08 C16 C21 C22 C23",
    "qmat/qcoeff/butcher.py": "C09 C10 C14",
    "qmat/qdelta/__init__.py": "C08 C14 C15 C16 C20",
    "qmat/qdelta/algebraic.py": "C12 C14 C16",
    "qmat/qdelta/diag.py": "C13 C14 C16 C22",
    "qmat/qdelta/timestepping.py": "C11 C14 C16 C23",
    "qmat/utils/__init__.py": "C16 C20 C14",
    "qmat/utils/num.py": "C19 C12",
    "qmat/utils/sdc.py": "C18 C23",
}
FN = (ast.FunctionDef,)
N = lambda s: ast.Name(s, ast.Load())
ST = lambda s: ast.Name(s, ast.Store())


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def new(self, p="tmp"):
        self.k += 1
        return "%s%d_" % (p, self.k)

    def body(self, b):
        out = []
        for st in b:
            r = self.stmt(st)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, st):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(st, f, None), list) and getattr(st, f) and isinstance(getattr(st, f)[0], ast.stmt):
                setattr(st, f, self.body(getattr(st, f)))
        for h in getattr(st, "handlers", []):
            h.body = self.body(h.body)
        return self.one(st)

    def one(self, st):
        return st

    def run(self, tree):
        # only inside of functions
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) or isinstance(n, ast.Module):
                for f in n.body:
                    if isinstance(f, FN):
                        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                        self.fn = f
                        f.body = doc + self.body(f.body[len(doc):])
        return tree


SIMPLE = (ast.Name, ast.Constant)


class Temps(Base):
    """arguments and operands through temporaries"""

    def hoist(self, e, pre):
        if isinstance(e, SIMPLE) or isinstance(e, ast.Starred):
            return e
        t = self.new()
        pre.append(ast.Assign([ST(t)], e, lineno=0))
        return N(t)

    def one(self, st):
        pre = []
        v = getattr(st, "value", None)
        if isinstance(st, (ast.Return, ast.Assign, ast.AugAssign)) and isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not (isinstance(v.func, ast.Name) and v.func.id in ("super", "property", "locals")):
            if isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, ast.Name):
                v.func.value = self.hoist(v.func.value, pre)
            v.args = [self.hoist(a, pre) for a in v.args]
        elif isinstance(st, (ast.Return, ast.Assign, ast.AugAssign)) and isinstance(v, ast.BinOp):
            v.left = self.hoist(v.left, pre)
            v.right = self.hoist(v.right, pre)
        if isinstance(st, ast.Return) and v is not None and not isinstance(v, SIMPLE):
            st.value = self.hoist(v, pre)
        return pre + [st]


class FlipCmp(ast.NodeTransformer):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n

    def run(self, t):
        return self.visit(t)


class NegIf(Base):
    """if c: A else: B -> if not c: B else: A; conditional expressions become statements"""

    def one(self, st):
        if isinstance(st, ast.If) and st.orelse and not (len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If)):
            st.test, st.body, st.orelse = ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body
        if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
            e = st.value
            a, b = copy.deepcopy(st), copy.deepcopy(st)
            a.value, b.value = e.body, e.orelse
            return ast.If(e.test, [a], [b])
        return st


class Impl(Base):
    """every function through a helper with its body"""

    def run(self, tree):
        def conv(body, cls):
            out = []
            for f in body:
                if isinstance(f, ast.ClassDef):
                    f.body = conv(f.body, f)
                if isinstance(f, FN) and not (cls and f.name.startswith("__") and f.name != "__init__") and not f.args.vararg and not f.args.kwarg and not any(isinstance(d, ast.Attribute) for d in f.decorator_list):
                    src = ast.unparse(f)
                    dec = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                    if "nonlocal" in src or "locals()" in src or f.name == "__init__" and "super()" in src or any(d not in ("property", "staticmethod", "classmethod") for d in dec) or "classmethod" in dec:
                        out.append(f)
                        continue
                    h = copy.deepcopy(f)
                    h.decorator_list = [N("staticmethod")] if "staticmethod" in dec else []
                    h.name = "_impl_%s_%s_" % (cls.name if cls else "", f.name.strip("_"))
                    h.args.defaults, h.returns = [], None
                    ps = [a.arg for a in f.args.args]
                    if f.args.kwonlyargs:
                        out.append(f)
                        continue
                    if cls and "staticmethod" in dec:
                        call = ast.Call(ast.Attribute(N(cls.name), h.name, ast.Load()), [N(p) for p in ps], [])
                    elif cls:
                        call = ast.Call(ast.Attribute(N(ps[0]), h.name, ast.Load()), [N(p) for p in ps[1:]], [])
                    else:
                        call = ast.Call(N(h.name), [N(p) for p in ps], [])
                    doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                    f.body = doc + [ast.Return(call)]
                    out += [h, f]
                else:
                    out.append(f)
            return out
        tree.body = conv(tree.body, None)
        return tree


class Index(Base):
    """for x in name -> for k in range(len(name)): x = name[k];  comprehensions become loops"""

    def one(self, st):
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Name):
            k = self.new("k")
            get = ast.Assign([st.target], ast.Subscript(st.iter, N(k), ast.Load()), lineno=0)
            return ast.For(ST(k), ast.Call(N("range"), [ast.Call(N("len"), [st.iter], [])], []), [get] + st.body, st.orelse, lineno=0)
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "enumerate" and len(st.iter.args) == 1 and isinstance(st.iter.args[0], ast.Name):
            k, x = st.target.elts
            get = ast.Assign([x], ast.Subscript(st.iter.args[0], N(k.id), ast.Load()), lineno=0)
            return ast.For(k, ast.Call(N("range"), [ast.Call(N("len"), [st.iter.args[0]], [])], []), [get] + st.body, st.orelse, lineno=0)
        return st


class CompLoop(Base):
    """list comprehensions assigned to a name become loops with append"""

    def one(self, st):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
            g = st.value.generators[0]
            nm = st.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st.value)):
                return st
            app = ast.Expr(ast.Call(ast.Attribute(N(nm), "append", ast.Load()), [st.value.elt], []))
            body = [app]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ST(nm)], ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, body, [], lineno=0)]
        return st


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def run(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, (ast.ClassDef, ast.Module)):
                for f in n.body:
                    if isinstance(f, FN):
                        self.fn(f)
        return tree

    def fn(self, f):
        if "locals()" in ast.unparse(f):
            return
        par = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        par |= {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        imp = {a.asname or a.name.split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par - imp
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "v_" + x.id


class Ops(ast.NodeTransformer):
    """methods and operators become numpy functions"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("ravel", "sum", "dot", "prod", "any", "all", "cumsum", "argsort") and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "spl", "spo", "math")):
            return ast.Call(ast.Attribute(N("np"), n.func.attr, ast.Load()), [n.func.value] + n.args, n.keywords)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            return ast.Call(ast.Attribute(N("np"), "dot", ast.Load()), [n.left, n.right], [])
        return n

    def run(self, t):
        return self.visit(t)


class Asserts(Base):
    """assert c, m -> if not c: raise AssertionError(m); if c: A; elif -> nested; try bodies unchanged"""

    def one(self, st):
        if isinstance(st, ast.Assert):
            return ast.If(ast.UnaryOp(ast.Not(), st.test), [ast.Raise(ast.Call(N("AssertionError"), [st.msg] if st.msg else [], []), None)], [])
        return st


def rw(st):
    w = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    r = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    return r, w


class Reorder(Base):
    """adjacent independent assignments change places"""

    def body(self, b):
        b = super().body(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets) and self.pure(s.value) for s in (x, y)):
                (r1, w1), (r2, w2) = rw(x), rw(y)
                at = [ast.unparse(t) for s in (x, y) for t in s.targets if isinstance(t, ast.Attribute)]
                if not (w1 & (r2 | w2) or w2 & r1) and not at:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b

    def pure(self, e):
        return not any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) or isinstance(n, ast.Call) and not ast.unparse(n.func).startswith("np.") for n in ast.walk(e))


class Closure(Base):
    """loop bodies without local assignments become local functions"""

    def one(self, st):
        if isinstance(st, ast.For) and isinstance(st.target, ast.Name):
            inner = [x for b in st.body for x in ast.walk(b)]
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in inner):
                return st
            nm = self.new("body")
            d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(st.target.id)], None, [], [], None, []), st.body, [], lineno=0)
            return [d, ast.For(st.target, st.iter, [ast.Expr(ast.Call(N(nm), [N(st.target.id)], []))], [], lineno=0)]
        return st


class While(Base):
    """for i in range(n) -> while loop"""

    def one(self, st):
        if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "range" and len(st.iter.args) <= 2 and not st.orelse:
            if any(isinstance(x, ast.Continue) for b in st.body for x in ast.walk(b)):
                return st
            a = st.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            i, e = st.target.id, self.new("end")
            return [ast.Assign([ST(i)], lo, lineno=0), ast.Assign([ST(e)], hi, lineno=0),
                    ast.While(ast.Compare(N(i), [ast.Lt()], [N(e)]), st.body + [ast.AugAssign(ST(i), ast.Add(), ast.Constant(1))], [])]
        return st


class EarlyReturn(Base):
    """if c: return A else: B -> if c: return A; B   and   if c: A(return) ... ; x -> else branch"""

    def body(self, b):
        b = super().body(b)
        out = []
        for k, st in enumerate(b):
            if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)):
                rest = st.orelse
                st.orelse = []
                out += [st] + rest
            elif isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and b[k + 1:]:
                st.orelse = b[k + 1:]
                out.append(st)
                return out
            else:
                out.append(st)
        return out


T = {"temps": Temps, "flip": FlipCmp, "negif": NegIf, "impl": Impl, "index": Index, "comploop": CompLoop, "rename": Rename, "ops": Ops, "asserts": Asserts,
     "reorder": Reorder, "closure": Closure, "while": While, "early": EarlyReturn}


def one(a):
    t, f, test = a
    W = "/tmp/ar-%s-%s" % (t, re.sub(r"\W", "-", f))
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "build"))
    out = []
    try:
        p = os.path.join(W, f)
        src = open(p).read()
        before = ast.unparse(ast.parse(src))
        tree = T[t]().run(ast.parse(src))
        after = ast.unparse(ast.fix_missing_locations(tree))
        if before == after:
            return t, f, []
        ast.parse(after)
        open(p, "w").write(after)
        if test:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "3", "tests", "--ignore", "tests/test_4_notebooks.py"], cwd=W, env=dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            last = (r.stdout.strip().split("\n") or [""])[-1]
            if r.returncode:
                return t, f, ["TESTS FAIL: " + last[:200]]
        for pid in FILES[f].split():
            try:
                r = subprocess.run(["./check.sh", pid], cwd=H, env=dict(os.environ, VP_REPO=W), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                out.append("%s TIMEOUT" % pid)
                continue
            txt = r.stdout + r.stderr
            v = [l for l in txt.split("\n") if l.startswith("VIOLATION")]
            b = [l.strip() for l in txt.split("\n") if "bounded only" in l or l.startswith("  undecided")]
            tail = [l for l in txt.split("\n") if l.strip()][-8:]
            out.append("%s %s %s" % (pid, "ALARM" if v else "rc %d" % r.returncode if r.returncode else "quiet", " | ".join(x[:170] for x in b[:3])) + ("\n      " + "\n      ".join(x[:300] for x in tail) if v or r.returncode else ""))
    except Exception as e:
        out.append("ERROR %r" % e)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return t, f, out


if __name__ == "__main__":
    args = [x for x in sys.argv[1:] if not x.startswith("--")]
    jobs = [(t, f, "--test" in sys.argv) for t in T for f in FILES if not args or any(re.fullmatch(x, t + ":" + f) for x in args)]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for t, f, out in ex.map(one, jobs):
            if out:
                print("== %s %s" % (t, f))
                for l in out:
                    print("   " + l, flush=True)
