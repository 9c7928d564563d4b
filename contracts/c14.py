"""C14 generated coefficients never depend on what callers did before.

Invariant of every generator object: the arrays reachable from it are written by no one after construction (calls only add
new ones), and no array a generation call hands out shares memory with a reachable one, with an argument, with another
generator or with class / module tables.  Then whatever callers write into returned arrays, every later call meets the
state a first call meets, up to cached matrices; both the cached and the uncached case of every call are verified below."""
from fractions import Fraction
from .base import *
from .c08 import generator, FULL
from .c10 import table, TAB
from . import c07

M = var("M", "I")
PRE = (le(ic(2), M),)
k, L = var("k", "I"), var("L", "I")


class Heap:
    """arrays reachable from the given objects"""

    def __init__(self, *objs):
        self.sym, self.con, self.other = {}, {}, {}
        seen, st = set(), list(objs)
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, SArr):
                self.sym[x.buf] = x.buf.elem
            elif isinstance(x, np.ndarray):
                self.con[id(x)] = (x, x.copy())
            elif isinstance(x, SList):
                self.other[id(x)] = (x, (x.n, x.get))
            elif isinstance(x, dict):
                self.other[id(x)] = (x, dict(x))
                st += list(x.values())
            elif isinstance(x, (list, tuple)):
                if isinstance(x, list):
                    self.other[id(x)] = (x, list(x))
                st += list(x)
            elif hasattr(x, "__dict__") and not isinstance(x, (type, type(np))) and not callable(x):
                st += list(vars(x).values())

    def unchanged(self):
        bad = ["array %s" % (b.shape,) for b, e in self.sym.items() if b.elem is not e]
        bad += ["array" for a, c in self.con.values() if not (a.shape == c.shape and (a == c).all())]
        for x, c in self.other.values():
            if isinstance(x, dict):
                # new entries may appear (cache), the old ones stay
                bad += ["entry %r" % (q,) for q in c if not any(y is q or (not isinstance(y, Sym) and y == q) for y in x) or x[q] is not c[q]]
            elif isinstance(x, list):
                bad += ["list"] if len(x) != len(c) or any(p is not q for p, q in zip(x, c)) else []
            elif isinstance(x, SList):
                bad += ["list"] if (x.n, x.get) != c else []
        return bad

    def shares(self, a):
        if isinstance(a, SArr):
            return a.buf in self.sym
        return any(np.shares_memory(a, c[0]) for c in self.con.values()) if isinstance(a, np.ndarray) else False


def flat(v):
    return [x for x in (v if isinstance(v, (list, tuple)) else [v])]


class History:
    """a run of generation calls: every returned array is recorded, checked against the heap, and then overwritten"""

    def __init__(self, w, *roots):
        self.w, self.roots = w, roots
        self.bad = []
        self.n = 0

    def call(self, what, f):
        before = Heap(*self.roots)
        shared = Shared(self.w)
        out = flat(f())
        after = Heap(*self.roots)
        ch = shared.changes()
        if ch:
            # state that survives the generator: this contract does not describe it, the histories of the bounded check decide
            raise Unsupported("%s changes %s" % (what, ch[0]))
        for b in before.unchanged():
            self.bad.append("%s changes %s held by a generator or argument" % (what, b))
        res = []
        for a in out:
            if not isinstance(a, (SArr, np.ndarray)):
                raise Unsupported("a generation call returns a %s" % type(a).__name__)
            if after.shares(a) or before.shares(a):
                self.bad.append("%s returns an array that shares memory with a generator or argument" % what)
            if isinstance(a, SArr):
                res.append((a.snap(), a.vshape))
            else:
                c = a.copy()
                res.append((darr(c).snap(), darr(c).vshape))
        # two outputs of one call are different arrays
        for p in range(len(out)):
            for q in range(p):
                if isinstance(out[p], SArr) and isinstance(out[q], SArr) and out[p].buf is out[q].buf:
                    self.bad.append("%s: two outputs share memory" % what)
        self.n += 1
        for p, a in enumerate(out):
            if isinstance(a, SArr):
                a[...] = SArr.new(a.vshape, lambda *i, p=p, n=self.n: app("junk", (ic(n), ic(p)) + tuple(i), "R"), "f")
            else:
                a[...] = -1e9
        return res


def same(P, what, a, b):
    """two recorded outputs are equal"""
    if not P.fact("%s: same number of outputs" % what, len(a) == len(b)):
        return
    for p, ((f, sf), (g, sg)) in enumerate(zip(a, b)):
        P.array("%s, output %d" % (what, p), SArr(Buf(tuple(sf), f, "f")), sg, g)


# ------------------------------------------------------------------ the base class, for any approximation
def arbitrary(V):
    qd = V.mod("qmat.qdelta")

    def gen(dep, persistent):
        """computeQDelta(k): values determined by k, either in a new array or in an array the object keeps"""
        if persistent:
            def compute(self, k=None):
                return self.kept
        else:
            def compute(self, k=None):
                return SArr.new((M, M), lambda i, j: app("QD", ((term(k) if k is not None else ic(-1)) if dep else I0, i, j), "R"), "f")
        c = type("AnyDelta", (qd.QDeltaGenerator,), {"_K_DEPENDENT": dep, "computeQDelta": compute, "size": property(lambda self: wrap(M))})
        g = c(arr("Q", (M, M)))
        if persistent:
            g.kept = SArr.new((M, M), lambda i, j: app("QD", (I0, i, j), "R"), "f")
        return g
    for dep, per in ((False, False), (True, False), (True, True), (False, True)):
        val = lambda kk: (lambda i, j: app("QD", ((ic(-1) if kk is None else kk) if dep and not per else I0, i, j), "R"))
        rd = lambda f: (lambda i, j: sub(f(i, j), ite(eq(i, I0), R0, f(sub(i, I1), j))))
        CALLS = {
            "getQDelta": lambda g, q: g.getQDelta(q),
            "getSDelta": lambda g, q: g.getSDelta(q),
            "genCoeffs(Z2N)": lambda g, q: g.genCoeffs(q),
            "genCoeffs(N2N)": lambda g, q: g.genCoeffs(q, form="N2N"),
            "genCoeffs(dTau)": lambda g, q: g.genCoeffs(q, dTau=True),
            "genCoeffs([k, 1])": lambda g, q: g.genCoeffs([q, 1]),
            "genCoeffs([1, k], N2N)": lambda g, q: g.genCoeffs([1, q], "N2N"),
        }

        def spec(P, name, r, kk):
            kt = None if kk is None else term(kk)
            m, s = r[0]
            sl = SArr(Buf(tuple(s), m, "f"))
            if "[k" in name or "[1" in name:
                w = rd if "N2N" in name else (lambda f: f)
                a, b = (kt, I1) if "[k" in name else (I1, kt)
                P.array("the matrices of the requested sweeps", sl, (ic(2), M, M), lambda t, i, j: ite(eq(t, I0), w(val(a))(i, j), w(val(b))(i, j)))
            else:
                w = rd if "N2N" in name or "SDelta" in name else (lambda f: f)
                P.array("the matrix of the requested sweep", sl, (M, M), w(val(kt)))
            if "dTau" in name:
                m, s = r[1]
                P.array("dTau", SArr(Buf(tuple(s), m, "f")), (M,), lambda i: R0)
        for name, call in CALLS.items():
            for before in (("getQDelta",), ("genCoeffs([k, 1])", "getSDelta"), ("genCoeffs(Z2N)", "genCoeffs(dTau)")):
                for kk in (None, k):
                    if kk is None and "[" in name:
                        continue

                    def run():
                        g = gen(dep, per)
                        H = History(V.w, g)
                        for b, q in zip(before, (L, var("L2", "I"))):
                            H.call(b, lambda: CALLS[b](g, wrap(q)))
                        if kk is None and not dep:
                            H.call("getQDelta()", lambda: g.getQDelta())
                        r = H.call(name, lambda: call(g, None if kk is None else wrap(kk)))
                        r2 = H.call(name, lambda: call(g, None if kk is None else wrap(kk)))
                        return H, r, r2

                    def post(P, v):
                        H, r, r2 = v
                        P.fact("no shared memory, no held array changed", not H.bad, "; ".join(H.bad[:3]))
                        spec(P, name, r, None if kk is None else wrap(kk))
                        same(P, "the same call again", r2, r)
                    V.explore("%s(%s) after %s, %s%s" % (name, "k" if kk is not None else "", " and ".join(before), "depends on k" if dep else "any sweep",
                              ", matrix kept by the object" if per else ""), (le(I1, M),) + tuple(le(I1, q) for q in (k, L, var("L2", "I"))), run, post)


contract("C14", ["QDeltaGenerator.getQDelta", "QDeltaGenerator.getSDelta", "QDeltaGenerator.genCoeffs", "QDeltaGenerator.dTau", "QDeltaGenerator.zeros"],
         "any approximation: every call after other calls (cached or not, any sweep numbers) and overwritten results", time_=200)(arbitrary)


# ------------------------------------------------------------------ every registered approximation
class Opt:
    """contract of scipy.optimize: a point determined by the function (its value at a generic point), the start and the
    options, in a new array; its value is not specified"""

    @staticmethod
    def point(name, f, x0, a, kw):
        x = darr(x0)
        if x.ndim != 1 or a or any(not isinstance(v, (int, float, str)) for v in kw.values()):
            raise Unsupported("%s options" % name)
        n, g = x.vshape[0], x.snap()
        v = darr(f(SArr.new((n,), lambda i: app("X", (i,), "R"), "f")))
        h = v.snap()
        val = lam("I", lambda i: toR(h(i))) if v.ndim == 1 else lam("I", lambda i: toR(h()))
        opt = tm.mk("const", (Fraction(hash_(sorted((q, str(w)) for q, w in kw.items()))),), "I")
        sym.S.note("scipy.optimize.%s: a point determined by function, start and options (its value is not specified)" % name)
        return SArr.new((n,), lambda i: app(name, (n, lam("I", lambda j: toR(g(j))), val, opt, i), "R"), "f")

    @staticmethod
    def minimize(f, x0, *a, **kw):
        return type("Result", (), {"x": Opt.point("minimize", f, x0, a, kw), "success": True})()

    @staticmethod
    def fsolve(f, x0, *a, **kw):
        return Opt.point("fsolve", f, x0, a, kw)


def hash_(x):
    import zlib
    return zlib.crc32(repr(x).encode())


class DerivStub:
    def __init__(self, points):
        self.p = darr(points)

    def getDerivativeMatrix(self):
        t = [self.p.at(ic(q)) for q in range(3)]
        sym.S.note("LagrangeApproximation.getDerivativeMatrix (contract of C03)")
        sym.S.assume(ne(app("Dm", tuple(t) + (I1, ic(2)), "R"), R0))
        return SArr.new((ic(3), ic(3)), lambda i, j: app("Dm", tuple(t) + (i, j), "R"), "f")


class Coll:
    """contract of Collocation (C07): M nodes and the matrix Q"""

    def __init__(self, nNodes=None, nodeType=None, quadType=None, **kw):
        if kw:
            raise Unsupported("Collocation options")
        n = self.n = term(nNodes)
        self.nNodes, self.nodeType, self.quadType = nNodes, nodeType, quadType
        sym.S.note("Collocation: nodes and Q (contract of C07)")
        self._x = SArr.new((n,), lambda i: app("cx", (n, i), "R"), "f")
        self._Q = SArr.new((n, n), lambda i, j: app("cQ", (n, i, j), "R"), "f")

    nodes = property(lambda self: self._x)
    Q = property(lambda self: self._Q)


def ldu_(a):
    a = darr(a)
    n = a.vshape[0]
    l = shim._lam2(a)
    sym.S.note("lduFactorization (contract of C19)")
    f = lambda nm: SArr.new((n, n), lambda i, j: app(nm, (n, l, i, j), "R"), "f")
    return f("LDL"), SArr.new((n, n), lambda i, j: ite(eq(i, j), app("LDD", (n, l, i), "R"), R0), "f"), f("LDR")


def prepare(V):
    dg, ts, al = (V.mod("qmat.qdelta." + q) for q in ("diag", "timestepping", "algebraic"))
    dg.spo = Opt
    if hasattr(dg, "Collocation"):
        dg.Collocation = Coll
    ts.LagrangeApproximation = DerivStub
    if hasattr(al, "lduFactorization"):
        al.lduFactorization = ldu_
    V.mod("qmat.utils.num").lduFactorization = ldu_
    return V.mod("qmat.qdelta")


def classes(V):
    qd = prepare(V)
    return V.mod("qmat.utils").getClasses(qd.QDELTA_GENERATORS)


def params(V, cls, size, quad):
    """arguments for the class, as arrays of the caller"""
    import inspect
    names = [p.name for p in inspect.signature(cls.__init__).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD and p.name != "self"]
    tabs = V.mod("qmat.qdelta.mincoeffs")
    if hasattr(tabs, cls.__name__):
        t = getattr(tabs, cls.__name__)
        nt = sorted(t)[0]
        qt = sorted(t[nt])[0]
        size, quad, ntype = ic(sorted(t[nt][qt])[0]), qt, nt
    else:
        ntype = "LEGENDRE"
    av = {"Q": lambda: arr("Q", (size, size)), "nodes": lambda: arr("x", (size,)), "tLeft": lambda: wrap(var("tL", "R")),
          "nNodes": lambda: wrap(size), "nodeType": lambda: ntype, "quadType": lambda: quad}
    if set(names) - set(av):
        raise Unsupported("%s needs %s" % (cls.__name__, names))
    return {n: av[n]() for n in names}


def each(V, name):
    cls = classes(V).get(name)
    if cls is None:
        raise Unsupported("%s is not registered" % name)
    qd = V.mod("qmat.qdelta")
    tabs = V.mod("qmat.qdelta.mincoeffs")
    ct = {q: v for q, v in vars(tabs).items() if isinstance(v, dict)}
    iterative = name in ("MIN_SR_S", "MIN_SR_FLEX")
    sizes = [(M, q) for q in (("RADAU-RIGHT", "LOBATTO") if iterative else ("RADAU-RIGHT",))] + ([(I1, "RADAU-RIGHT")] if iterative else [])
    fn_ = qd.genQDeltaCoeffs
    calls = {
        "getQDelta": lambda g, q: g.getQDelta(q),
        "genCoeffs(dTau)": lambda g, q: g.genCoeffs(q, dTau=True),
        "getSDelta": lambda g, q: g.getSDelta(q),
        "genCoeffs([k, k])": lambda g, q: g.genCoeffs([q, q], dTau=True),
    }
    for size, quad in sizes:
        for cn, call in calls.items():
            for kk in (k, None):
                if kk is None and "[" in cn:
                    continue
                q = None if kk is None else wrap(kk)

                def run():
                    par = params(V, cls, size, quad)
                    g, h = cls(**par), cls(**par)
                    H = History(V.w, g, h, par, ct)
                    r = H.call(cn, lambda: call(g, q))                           # first call
                    for b in calls:
                        H.call(b, lambda: calls[b](g, wrap(L)))
                    r2 = H.call(cn, lambda: call(g, q))                          # again, after other sweeps
                    H.call("of another generator", lambda: call(h, wrap(L)))
                    r3 = H.call(cn, lambda: call(g, q))
                    r4 = H.call("genQDeltaCoeffs", lambda: fn_(name, dTau=True, **par))
                    return H, r, r2, r3

                def post(P, v):
                    H, r, r2, r3 = v
                    P.fact("no shared memory; generators, arguments and tables unchanged", not H.bad, "; ".join(H.bad[:3]))
                    same(P, "after calls for other sweeps", r2, r)
                    same(P, "after calls of another generator", r3, r)
                n0 = "" if size is M else " [%s nodes, %s]" % (show(size), quad)
                V.explore("%s: %s(%s)%s" % (name, cn, "k" if kk is not None else "", n0), PRE + (le(I1, k), le(I1, L)), run, post)


def _names():
    w = World()
    w.module("qmat")
    return sorted(w.module("qmat.utils").getClasses(w.module("qmat.qdelta").QDELTA_GENERATORS))


for _n in ("BE", "BEPAR", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "Exact", "FE", "FlexJumper", "GS", "Jumper", "LDU", "LU", "LU2", "MIN", "MIN3",
           "MIN_SR_FLEX", "MIN_SR_NS", "MIN_SR_S", "MIN_VDHS", "PIC", "QPar", "SOE", "TRAP", "TRAPAR"):
    def _f(V, _n=_n):
        each(V, _n)
    _f.__name__ = "history_" + _n
    contract("C14", ["qmat.qdelta: %s.__init__, computeQDelta, dTau" % _n, "QDeltaGenerator.getQDelta", "getSDelta", "genCoeffs", "genQDeltaCoeffs"],
             "%s: calls, other sweeps, other generators and overwritten results leave every later call unchanged" % _n, time_=150)(_f)


# ------------------------------------------------------------------ Q generators
def qgens(V):
    qc = V.mod("qmat.qcoeff")
    opts = [dict(form=f, hCoeffs=h, embedded=e) for f in ("Z2N", "N2N") for h in (False, True) for e in (False, True)]
    qc.LagrangeApproximation = c07.Approx

    def go(label, make, roots, pre, emb):
        for o in opts:
            if o["embedded"] and not emb:
                continue

            def run():
                c07.Approx.made, c07.Nodes.log = [], []
                g = make()
                H = History(V.w, *(roots(g)))
                r = H.call("genCoeffs", lambda: g.genCoeffs(**o))
                for o2 in opts[:: 3]:
                    if emb or not o2["embedded"]:
                        H.call("genCoeffs %s" % o2, lambda: g.genCoeffs(**o2))
                r2 = H.call("genCoeffs", lambda: g.genCoeffs(**o))
                g2 = make()
                r3 = H.call("genCoeffs of another instance", lambda: g2.genCoeffs(**o))
                return H, r, r2, r3

            def post(P, v):
                H, r, r2, r3 = v
                P.fact("no shared memory, generators and tables unchanged", not H.bad, "; ".join(H.bad[:3]))
                same(P, "the same call again", r2, r)
                same(P, "another instance", r3, r)
            V.explore("%s %s" % (label, o), pre, run, post)
    N = var("N", "I")
    box = {}

    def rk():
        if "c" not in box:
            box["c"] = table(V, True)
        return box["c"]()
    go("Runge-Kutta, any table", rk, lambda g: [g] + [getattr(box["c"], q) for q in TAB], (le(I1, N),), True)
    for pad in ("LEFT", "RIGHT", "BOTH"):
        go("Runge-Kutta, any table, padding %s" % pad, lambda: (rk(), box["c"](padding=pad))[1], lambda g: [g] + [getattr(box["c"], q) for q in TAB], (le(I1, N),), True)
    co = c07.setup(V)
    for quad in ("GAUSS", "LOBATTO"):
        go("Collocation %s" % quad, lambda: co.Collocation(wrap(c07.N), "LEGENDRE", quad, wrap(c07.tl), wrap(c07.tr)), lambda g: [g], (le(ic(2), c07.N), ne(c07.tl, c07.tr)), False)
    box2 = {}

    def other():
        box2["g"] = generator(V, hCoeffs=qc.QGenerator.hCoeffs)
        return box2["g"]
    go("any other generator", other, lambda g: [g, list(g.data.values())], (le(I1, N),), True)


contract("C14", ["QGenerator.genCoeffs", "QGenerator.S", "QGenerator.hCoeffs", "RK.__init__", "RK.hCoeffs", "Collocation.__init__", "Collocation.S", "Collocation.hCoeffs"],
         "Q generators: repeated calls with every option, overwritten results, other instances and class tables", time_=200)(qgens)
