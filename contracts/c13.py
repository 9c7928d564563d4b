"""C13 diagonal approximations: formulas, tables, annihilation of the sweep."""
from .base import *

M, k, L = var("M", "I"), var("k", "I"), var("L", "I")
PRE = (le(I1, M),)


def x(i):
    return A("x", i)


def make(kind):
    if kind == "list":
        return SList(M, lambda i: wrap(x(i)))
    if kind == "int":
        return SArr.new((M,), lambda i: app("xi", (i,), "I"), "i")
    return arr("x", (M,))


def ints(t):
    return loops.mapapps(t, {"x": lambda a: tm.toR(app("xi", tuple(a), "I"))})


R = tm.toR
over = lambda a, b: div(a, R(b) if b.sort == "I" else b)
#  name: value of the diagonal entry for nodes x, sweep number k
FORMULA = {
    "MIN_SR_NS": (lambda i, k: over(x(i), M), False),
    "Jumper": (lambda i, k: over(x(i), mul(ic(2), k)), True),
    "FlexJumper": (lambda i, k: ite(eq(k, I1), x(i), over(x(i), mul(ic(2), sub(k, I1)))), True),
    "DNODES": (lambda i, k: x(i), False),
    "DNODES2": (lambda i, k: over(x(i), ic(2)), False),
    "DNODES3": (lambda i, k: over(x(i), ic(3)), False),
    "DNODES4": (lambda i, k: over(x(i), ic(4)), False),
    "DNODES5": (lambda i, k: over(x(i), ic(5)), False),
}


def diagonal(P, v, f):
    P.array("diagonal with the stated entries", v, (M, M), lambda i, j: ite(eq(i, j), f(i), R0))


def formula(V, name):
    mod = V.mod("qmat.qdelta.diag")
    f, dep = FORMULA[name]
    for kind in ("array", "list", "int"):
        tr = ints if kind == "int" else (lambda t: t)
        st = {}

        def go(call):
            def run():
                n = make(kind)
                st["n"], st["fr"] = n, Frame(nodes=n)
                return call(getattr(mod, name)(n))
            return run

        def post(kk):
            def g(P, v):
                vs = v if isinstance(v, tuple) else (v,)
                for w in vs:
                    diagonal(P, w, lambda i: tr(f(i, kk)))
                    P.owned("QDelta shares no memory with the nodes", w, st["n"])
                st["fr"].check(P)
            return g
        pk = PRE + (le(I1, k),)
        V.explore("%s(%s nodes), no sweep number" % (name, kind), PRE, go(lambda g: (g.getQDelta(), g.genCoeffs(), g.computeQDelta())), post(I1))
        V.explore("%s(%s nodes), sweep k" % (name, kind), pk, go(lambda g: g.getQDelta(wrap(k))), post(k))
        V.explore("%s(%s nodes), sweep k after another sweep" % (name, kind), pk + (le(I1, L),), go(lambda g: (g.genCoeffs(wrap(L)), g.genCoeffs(wrap(k)), g.genCoeffs(wrap(k)))[1:]), post(k))
        if dep:
            V.explore("%s(%s nodes), sweep number below 1" % (name, kind), PRE + (le(k, I0),), go(lambda g: g.genCoeffs(wrap(k))), raises=ValueError)
    V.explore("%s, generic call" % name, PRE, lambda: V.mod("qmat").genQDeltaCoeffs(name, nodes=make("array")), lambda P, v: diagonal(P, v, lambda i: f(i, I1)))


for _n in FORMULA:
    def _f(V, _n=_n):
        formula(V, _n)
    _f.__name__ = "formula_" + _n
    contract("C13", ["qmat.qdelta.diag.MIN_SR_NS.__init__", "qmat.qdelta.diag.%s.computeQDelta" % _n, "QDeltaGenerator.getQDelta", "QDeltaGenerator.genCoeffs", "genQDeltaCoeffs"] +
             (["qmat.qdelta.diag.check"] if FORMULA[_n][1] else []), "%s: stated diagonal for every sweep number, refusal of k < 1, frame" % _n)(_f)


class CollStub:
    """contract of Collocation (proved under C07): M nodes x in increasing order"""

    def __init__(self, nNodes=None, nodeType=None, quadType=None, **kw):
        if kw:
            raise Unsupported("Collocation options")
        self.nNodes, self.nodeType, self.quadType = nNodes, nodeType, quadType
        self.nodes = arr("x", (M,))
        self.Q = arr("Q", (M, M))
        sym.S.note("Collocation: M nodes (contract of C07)")


def stiff(self, k=None):
    """result of MIN_SR_S (not part of this contract)"""
    sym.S.note("MIN_SR_S.computeQDelta: a diagonal matrix (its values are not specified)")
    return SArr.new((M, M), lambda i, j: ite(eq(i, j), A("s", i), R0), "f")


def flex(V):
    mod = V.mod("qmat.qdelta.diag")
    mod.Collocation = CollStub
    mod.MIN_SR_S.computeQDelta = stiff

    def gen():
        return mod.MIN_SR_FLEX(wrap(M), Str("nodeType"), Str("quadType"))
    f = lambda kk: (lambda i: over(x(i), kk))
    V.explore("MIN_SR_FLEX, no sweep number", PRE, lambda: (gen().getQDelta(), gen().genCoeffs()), lambda P, v: [diagonal(P, w, f(I1)) for w in v])
    V.explore("MIN_SR_FLEX, sweep 1 <= k <= M", PRE + (le(I1, k), le(k, M)), lambda: gen().getQDelta(wrap(k)), lambda P, v: diagonal(P, v, f(k)))
    V.explore("MIN_SR_FLEX, sweep k <= M after another sweep", PRE + (le(I1, k), le(k, M), le(I1, L)),
              lambda: (lambda g: (g.getQDelta(wrap(L)), g.getQDelta(wrap(k)))[1])(gen()), lambda P, v: diagonal(P, v, f(k)))
    V.explore("MIN_SR_FLEX, sweep k > M: the MIN_SR_S coefficients", PRE + (lt(M, k), le(I1, L)),
              lambda: (lambda g: (g.getQDelta(wrap(L)), g.getQDelta(wrap(k)))[1])(gen()), lambda P, v: diagonal(P, v, lambda i: A("s", i)))
    V.explore("MIN_SR_FLEX, k < 1", PRE + (le(k, I0),), lambda: gen().getQDelta(wrap(k)), raises=ValueError)


contract("C13", ["qmat.qdelta.diag.MIN_SR_S.__init__", "qmat.qdelta.diag.MIN_SR_FLEX.computeQDelta", "qmat.qdelta.diag.check", "QDeltaGenerator.getQDelta"],
         "MIN_SR_FLEX: node/k for k up to M, MIN_SR_S above, refusal of k < 1")(flex)


def tabulated(V):
    """every configuration of the tables, and every other configuration"""
    mod = V.mod("qmat.qdelta.diag")
    tables = mod.tables
    for name in ("MIN3", "MIN_VDHS"):
        tab = getattr(tables, name)
        for nt in tab:
            for qt in tab[nt]:
                for n, c in tab[nt][qt].items():
                    def post(P, v, c=c, n=n):
                        c = [sym.rat(y) for y in c]
                        P.fact("the table has one coefficient per node", len(c) == n)
                        P.array("the tabulated vector of this configuration", v, (ic(n), ic(n)), lambda i, j: ite(eq(i, j), sym.sel(i, [rc(y) for y in c]), R0))
                        P.fact("first coefficient 0 exactly for a node on the left bound", (c[0] == 0) == (qt in ("LOBATTO", "RADAU-LEFT")))
                    V.explore("%s %s %s %d" % (name, nt, qt, n), (), lambda: darr(getattr(mod, name)(nNodes=n, nodeType=nt, quadType=qt).getQDelta()), post)
        # any configuration: the tabulated one or a refusal
        nts = sorted(tab)
        m = var("n", "I")

        def other():
            g = getattr(mod, name)(nNodes=wrap(m), nodeType=nts[0], quadType=sorted(tab[nts[0]])[0])
            return g.getQDelta()
        keys = sorted(tab[nts[0]][sorted(tab[nts[0]])[0]])
        V.explore("%s, number of nodes without entry" % name, (le(I1, m),) + tuple(ne(m, ic(q)) for q in keys), other, raises=(NotImplementedError, ValueError))
        V.explore("%s, unknown node type" % name, (le(I1, m),), lambda: getattr(mod, name)(nNodes=wrap(m), nodeType="none", quadType="LOBATTO").getQDelta(), raises=(NotImplementedError, ValueError))
        V.explore("%s, unknown quadrature type" % name, (le(I1, m),), lambda: getattr(mod, name)(nNodes=wrap(m), nodeType=nts[0], quadType="none").getQDelta(), raises=(NotImplementedError, ValueError))


contract("C13", ["qmat.qdelta.diag.FromTable.__init__", "qmat.qdelta.diag.FromTable.computeQDelta", "qmat.qdelta.mincoeffs"],
         "tabulated coefficients: exactly the requested entry (all entries), refusal of others")(tabulated)


def annihilate(V):
    """Q integrates t^j, j < M, from 0 to each node (contract of C07); D is the matrix the code returns (contracts above)"""
    j, c = var("j", "I"), var("c", "R")
    i = var("i", "I")
    pre = PRE + (le(I0, i), lt(i, M), le(I0, j), lt(j, M), le(I1, k), le(k, M))
    mono = lambda m, e: powt(x(m), e)
    exact = sub(Sum(I0, M, lambda m: mul(A("Q", i, m), mono(m, j))), div(mono(i, add(j, I1)), R(add(j, I1))))
    mod = V.mod("qmat.qdelta.diag")
    mod.Collocation = CollStub
    mod.MIN_SR_S.computeQDelta = stiff

    def ns(P, D):
        # (Q - D) (c t^j) = c (1/(j+1) - 1/M) t^(j+1)
        lhs = Sum(I0, M, lambda m: mul(sub(A("Q", i, m), D.at(i, m)), c, mono(m, j)))
        fac = sub(recip(R(add(j, I1))), recip(R(M)))
        P.prove("(Q - QDelta) c t^j = c (1/(j+1) - 1/M) t^(j+1), modulo exactness of Q on t^j",
                eq(sub(lhs, mul(c, fac, mono(i, add(j, I1)))), mul(c, exact)))
        P.prove("the factor vanishes for j = M - 1", eq(fac, R0), eq(j, sub(M, I1)))
    V.explore("non-stiff sweep on monomials", pre, lambda: mod.MIN_SR_NS(arr("x", (M,))).getQDelta(), ns)

    def fl(P, D):
        # D_k (c t^j) - Q (c t^j) k-scaled:  with D_k = N/k:  D_k v_j = (1/k) t^(j+1), Q v_j = 1/(j+1) t^(j+1)
        dv = Sum(I0, M, lambda m: mul(D.at(i, m), c, mono(m, j)))
        fac = sub(R1, over(R(k), add(j, I1)))
        # (I - D^-1 Q) v = w  <=>  D v - Q v = D w ; w = c (1 - k/(j+1)) t^j
        qv = Sum(I0, M, lambda m: mul(A("Q", i, m), c, mono(m, j)))
        dw = Sum(I0, M, lambda m: mul(D.at(i, m), c, fac, mono(m, j)))
        P.prove("(I - QDelta_k^-1 Q) c t^j = c (1 - k/(j+1)) t^j, multiplied by QDelta_k, modulo exactness of Q on t^j",
                eq(sub(sub(dv, qv), dw), neg(mul(c, exact))))
        P.prove("the factor vanishes for k = j + 1", eq(fac, R0), eq(k, add(j, I1)))
    V.explore("flexible sweep on monomials", pre, lambda: mod.MIN_SR_FLEX(wrap(M), Str("a"), Str("b")).getQDelta(wrap(k)), fl)


contract("C13", ["qmat.qdelta.diag.MIN_SR_NS.computeQDelta", "qmat.qdelta.diag.MIN_SR_FLEX.computeQDelta"],
         "annihilation: the sweeps act on t^j, j < M, by factors that vanish within M sweeps")(annihilate)
