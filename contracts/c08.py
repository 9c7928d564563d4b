"""C08 zero-to-node and node-to-node forms."""
from .base import *

N, k = var("N", "I"), var("k", "I")
PRE = (le(I1, N),)


def q(i, j):
    return A("Q", i, j)


def rowdiff(f):
    return lambda i, j: sub(f(i, j), ite(eq(i, I0), R0, f(sub(i, I1), j)))


FULL = {"Q": (N, N), "weights": (N,), "nodes": (N,), "weightsEmbedded": (N,), "hCoeffs": (N,)}


def generator(V, **over):
    """a Q-generator with arbitrary coefficients"""
    qc = V.mod("qmat.qcoeff")
    data = {n: arr(n, s) for n, s in FULL.items()}
    d = {n: property(lambda self, n=n: data[n]) for n in FULL}
    d["order"] = property(lambda self: 1)
    d["data"] = data
    d.update(over)
    return type("AnyGenerator", (qc.QGenerator,), d)()


def transfer(V):
    st = {}

    def run():
        g = generator(V)
        st["g"], st["fr"] = g, Frame(**g.data)
        return g.T, g.Tinv, g.S

    def post(P, v):
        T, Ti, S = v
        for what, a in (("T", T), ("Tinv", Ti), ("S", S)):
            P.shape(what, a, (N, N))
        P.array("S is the row difference of Q", S, (N, N), rowdiff(q))
        i, j = fresh("i", "I"), fresh("j", "I")
        rng = (le(I0, i), lt(i, N), le(I0, j), lt(j, N))
        mm = lambda a, b: Sum(I0, N, lambda p: mul(toR(a.at(i, p)), toR(b.at(p, j))))
        delta = ite(eq(i, j), R1, R0)
        P.prove("T Tinv = I", eq(mm(T, Ti), delta), *rng)
        P.prove("Tinv T = I", eq(mm(Ti, T), delta), *rng)
        P.prove("S = T Q", eq(S.at(i, j), Sum(I0, N, lambda p: mul(toR(T.at(i, p)), q(p, j)))), *rng)
        P.prove("Q = Tinv S: cumulated rows", eq(Sum(I0, N, lambda p: mul(toR(Ti.at(i, p)), rowdiff(q)(p, j))), q(i, j)), *rng)
        st["fr"].check(P)
        P.owned("S shares no memory with Q", S, st["g"].data["Q"])
    V.explore("transfer matrices of any generator", PRE, run, post)


contract("C08", ["QGenerator.T", "QGenerator.Tinv", "QGenerator.S"], "T, Tinv, S of any generator and any number of nodes: row differences, inverse, round trip")(transfer)


def outputs(V):
    """every combination of the options, in the documented order"""
    for form in ("Z2N", "N2N"):
        for h in (False, True):
            for e in (False, True):
                for how in ("genCoeffs", "genQCoeffs"):
                    st = {}

                    def run():
                        g = generator(V)
                        st["g"], st["fr"] = g, Frame(**g.data)
                        if how == "genCoeffs":
                            return g.genCoeffs(form=form, hCoeffs=h, embedded=e)
                        V.mod("qmat.qcoeff").Q_GENERATORS["AnyGenerator"] = lambda **kw: g
                        try:
                            return V.mod("qmat").genQCoeffs("AnyGenerator", form=form, hCoeffs=h, embedded=e)
                        finally:
                            del V.mod("qmat.qcoeff").Q_GENERATORS["AnyGenerator"]

                    def post(P, v):
                        v = list(v)
                        if not P.fact("number of outputs", len(v) == 3 + h, "%d outputs" % len(v)):
                            return
                        P.array("first output: nodes", v[0], (N,), lambda i: A("nodes", i))
                        if e:
                            P.array("second output: weights and embedded weights", v[1], (ic(2), N), lambda r, i: ite(eq(r, I0), A("weights", i), A("weightsEmbedded", i)))
                        else:
                            P.array("second output: weights", v[1], (N,), lambda i: A("weights", i))
                        P.array("third output: the matrix in the requested form", v[2], (N, N), q if form == "Z2N" else rowdiff(q))
                        if h:
                            P.array("fourth output: h coefficients", v[3], (N,), lambda i: A("hCoeffs", i))
                        for a, w in zip(v[:3], ("nodes", "weights", "matrix")):
                            P.owned("%s are a copy" % w, a, *st["g"].data.values())
                        st["fr"].check(P)
                    V.explore("%s form=%s h=%s embedded=%s" % (how, form, h, e), PRE, run, post)
    f = Str("form")
    no = (not_(term(f == "Z2N")), not_(term(f == "N2N")))
    V.explore("any other form name", PRE + no, lambda: generator(V).genCoeffs(form=f), raises=ValueError)
    V.explore("any other form name, with all options", PRE + no, lambda: generator(V).genCoeffs(form=f, hCoeffs=True, embedded=True), raises=ValueError)

    def generic():
        V.mod("qmat.qcoeff").Q_GENERATORS["AnyGenerator"] = lambda **kw: generator(V)
        return V.mod("qmat").genQCoeffs("AnyGenerator", form=f)
    V.explore("any other form name, generic function", PRE + no, generic, raises=ValueError)


contract("C08", ["QGenerator.genCoeffs", "genQCoeffs"], "outputs in the documented order for every option; other forms rejected")(outputs)


class IntegStub:
    """contract of LagrangeApproximation (proved under C02 / C04): entries are integrals W_j(b) - W_j(a) of the j-th basis polynomial"""

    def __init__(self, points, *a, **kw):
        if a or kw:
            raise Unsupported("LagrangeApproximation options")
        self.n = darr(points).vshape[0]

    def getIntegrationMatrix(self, intervals, *a, **kw):
        if a or kw:
            raise Unsupported("getIntegrationMatrix options")
        t = darr(intervals)
        if len(t.vshape) != 2:
            raise Unsupported("intervals")
        g = t.snap()
        sym.S.note("LagrangeApproximation.getIntegrationMatrix: entries W_j(b) - W_j(a) (contract of C02)")
        return SArr.new((t.vshape[0], self.n), lambda i, j: sub(A("W", j, toR(g(i, I1))), A("W", j, toR(g(i, I0)))), "f")

    def getInterpolationMatrix(self, times, *a, **kw):
        if a or kw:
            raise Unsupported("getInterpolationMatrix options")
        t = darr(times)
        g = t.snap()
        sym.S.note("LagrangeApproximation.getInterpolationMatrix (contract of C01)")
        return SArr.new((t.vshape[0], self.n), lambda i, j: A("H", j, toR(g(i))), "f")


class NodesStub:
    """contract of NodesGenerator.getNodes (C06): n nodes in [-1, 1], a new array"""

    def __init__(self, nodeType=None, quadType=None):
        self.t, self.q = nodeType, quadType

    def getNodes(self, nNodes):
        sym.S.note("NodesGenerator.getNodes: n nodes (contract of C06)")
        return SArr.new((term(nNodes),), lambda i: A("xi", i), "f")


def colloc(V):
    co = V.mod("qmat.qcoeff.collocation")
    co.LagrangeApproximation, co.NodesGenerator = IntegStub, NodesStub
    for quad in ("GAUSS", "LOBATTO", "RADAU-LEFT", "RADAU-RIGHT"):
        def run():
            g = co.Collocation(wrap(N), "LEGENDRE", quad, tLeft=wrap(var("tl", "R")), tRight=wrap(var("tr", "R")))
            return g.Q, g.S, g.genCoeffs(form="N2N")[2], g.T, g.Tinv

        def post(P, v):
            Q, S, S2, T, Ti = v
            P.shape("Q", Q, (N, N))
            i, j = fresh("i", "I"), fresh("j", "I")
            rng = (le(I0, i), lt(i, N), le(I0, j), lt(j, N))
            P.array("S is the row difference of Q", S, (N, N), rowdiff(lambda i, j: Q.at(i, j)))
            P.array("node-to-node coefficients", S2, (N, N), rowdiff(lambda i, j: Q.at(i, j)))
            P.prove("T Q = S", eq(S.at(i, j), Sum(I0, N, lambda p: mul(toR(T.at(i, p)), Q.at(p, j)))), *rng)
            # Tinv S = Q: cumulated row differences, proved for any Q in the contract 'transfer'
            P.array("Tinv cumulates", Ti, (N, N), lambda i, j: ite(le(j, i), R1, R0))
        V.explore("Collocation %s" % quad, (le(ic(2), N),) if quad == "LOBATTO" else PRE, run, post)


contract("C08", ["qmat.qcoeff.collocation.Collocation.__init__", "Collocation.S", "Collocation.Q", "QGenerator.genCoeffs"],
         "Collocation: S (own integration intervals) is the row difference of Q on any interval")(colloc)


def deltas(V):
    """getSDelta for any approximation and sweep number"""
    qd = V.mod("qmat.qdelta")

    def gen(dep):
        d = {"_K_DEPENDENT": dep,
             "computeQDelta": lambda self, k=None: SArr.new((N, N), lambda i, j: A("QD", toR(term(k)) if k is not None else rc(Fraction(-1)), i, j), "f"),
             "size": property(lambda self: wrap(N))}
        return type("AnyDelta", (qd.QDeltaGenerator,), d)(arr("Q", (N, N)))
    for dep in (False, True):
        for kk in ("none", "k", "list"):
            K = R0

            def run(form):
                def f():
                    g = gen(dep)
                    if kk == "none":
                        return g.genCoeffs(form=form), (g.getSDelta() if form == "N2N" else g.getQDelta())
                    if kk == "k":
                        return g.genCoeffs(wrap(k), form=form), (g.getSDelta(wrap(k)) if form == "N2N" else g.getQDelta(wrap(k)))
                    if dep:
                        return (g.genCoeffs([1, 2, 3], form=form),)
                    return (g.genCoeffs([1], form=form),)
                return f

            def post(form):
                def f(P, v):
                    one = rc(Fraction(-1)) if kk == "none" else toR(k)
                    qd_ = lambda K: (lambda i, j: A("QD", K, i, j))
                    w = rowdiff if form == "N2N" else (lambda f: f)
                    if kk == "list":
                        n = 3 if dep else 1
                        P.array("%s slices" % form, v[0], (ic(n), N, N), lambda s, i, j: w(qd_(add(toR(s), R1)))(i, j))
                    else:
                        for a in v:
                            P.array("%s matrix" % form, a, (N, N), w(qd_(one)))
                return f
            for form in ("Z2N", "N2N"):
                V.explore("QDelta, %s, k %s, %s" % ("depends on k" if dep else "any sweep", kk, form), PRE, run(form), post(form))
    f = Str("form")
    V.explore("QDelta, any other form name", PRE + (not_(term(f == "Z2N")), not_(term(f == "N2N"))), lambda: gen(True).genCoeffs(wrap(k), form=f), raises=ValueError)


contract("C08", ["QDeltaGenerator.getSDelta", "QDeltaGenerator.getQDelta", "QDeltaGenerator.genCoeffs"],
         "SDelta is the row difference of QDelta for any approximation, size and sweep number; other forms rejected")(deltas)


def inherit(V):
    """the generators use the functions verified above"""
    qd, qc = V.mod("qmat.qdelta"), V.mod("qmat.qcoeff")
    co = V.mod("qmat.qcoeff.collocation")

    def own(c, base, names):
        return sorted("%s.%s" % (c.__name__, n) for n in names if getattr(c, n) is not getattr(base, n))
    bad = []
    for c in set(qd.QDELTA_GENERATORS.values()):
        bad += own(c, qd.QDeltaGenerator, ["getQDelta", "getSDelta", "genCoeffs"])
    for c in set(qc.Q_GENERATORS.values()):
        bad += own(c, qc.QGenerator, ["T", "Tinv", "genCoeffs"] + ([] if c is co.Collocation else ["S"]))
    if bad:
        raise Unsupported("own versions of verified functions: %s" % bad[:5])
    V.obl("every registered generator inherits the verified functions", "proved", 0)


contract("C08", ["Q_GENERATORS", "QDELTA_GENERATORS"], "every registered generator inherits the verified conversions")(inherit)
