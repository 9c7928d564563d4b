"""C21 order of collocation methods: what the property `order` reports is covered by the exactness proved in lemmas/Gauss.lean
from the contracts of C06 (nodes) and C07 (weights exact below M on the affine images of the nodes)."""
from .base import *
from . import c06
from .c06 import NT, QT, OP, a_, b_, ratio
from .c07 import setup, Nodes, Approx

N = var("M", "I")
tl, tr = var("tl", "R"), var("tr", "R")


def exact(nt, qt):
    """the weights are exact for all degrees below this (lemmas/Gauss.lean)"""
    if nt == "LEGENDRE":
        return {"GAUSS": mul(ic(2), N), "LOBATTO": sub(mul(ic(2), N), ic(2))}.get(qt, sub(mul(ic(2), N), I1))
    if nt in ("EQUID", "CHEBY-1", "CHEBY-2") and qt in ("GAUSS", "LOBATTO"):
        return add(N, imod(N, ic(2)))        # one more for an odd number of symmetric nodes
    return N


@contract("C21", ["qmat.qcoeff.collocation.Collocation.order"], "the reported order for every node type, quadrature type, number of nodes and interval")
def order(V):
    co = setup(V)
    for nt in NT:
        for qt in QT:
            for default in (False, True):
                def run():
                    Nodes.log, Approx.made = [], []
                    g = co.Collocation(wrap(N), nt, qt) if default else co.Collocation(wrap(N), nt, qt, tLeft=wrap(tl), tRight=wrap(tr))
                    return g.order

                def post(P, r):
                    r = tm.toI(term(r))
                    if nt == "LEGENDRE":
                        P.prove("the reported order", eq(r, exact(nt, qt)))
                    else:
                        P.prove("the reported order does not exceed the exactness", le(r, exact(nt, qt)))
                V.explore("%s %s%s" % (nt, qt, ", default interval" if default else ""), (le(ic(2 if qt in ("LOBATTO", "RADAU-LEFT") else 1), N), ne(tl, tr)), run, post)


@contract("C21", ["NodesGenerator.getNodes", "NodesGenerator.getTridiagCoefficients"], "the nodes are symmetric where the order relies on it")
def symmetric(V):
    nd = V.mod("qmat.nodes")
    i = var("i", "I")
    for qt in ("GAUSS", "LOBATTO"):
        low = 2 if qt == "LOBATTO" else 1
        V.explore("EQUID %s" % qt, (le(ic(low), N),), lambda: nd.NodesGenerator("EQUID", qt).getNodes(wrap(N)),
                  lambda P, r: P.prove("node M-1-i = -node i", eq(toR(r.at(sub(sub(N, I1), i))), neg(toR(r.at(i)))), le(I0, i), lt(i, N)))
        for nt in ("CHEBY-1", "CHEBY-2"):
            for what, pre in [("one node", (eq(N, I1),))] * (low == 1) + [("two or more nodes", (le(ic(2), N),))]:
                if low == 1:
                    n, hyp = (wrap(N) if what != "one node" else 1), ()
                else:
                    n, L, L2 = wrap(N), sub(N, I1), sub(N, ic(2))
                    hyp = tuple(c for s in (1, -1) for c in (eq(OP(s, I0), R1), eq(OP(s, L), mul(ratio(nt, s, L2), OP(s, L2))), ne(OP(s, L2), R0)))
                ends = c06.Ends(nt)
                nd.NodesGenerator.evalOrthogPoly = lambda self, t, a, b: ends(self, t, a, b)

                def run():
                    sym.S.dets = []
                    return nd.NodesGenerator(nt, qt).getTridiagCoefficients(n)

                def post(P, r):
                    al = toR(r[0].at(i))
                    if low == 2:
                        m = {OP(s, L): mul(ratio(nt, s, L2), OP(s, L2)) for s in (1, -1)}
                        last = tm.replace(toR(r[0].at(L)), m)
                        P.prove("the last alpha vanishes", eq(last, R0))
                        P.prove("alpha vanishes", eq(al, R0), le(I0, i), lt(i, L))
                    else:
                        P.prove("alpha vanishes", eq(al, R0), le(I0, i), lt(i, N))
                V.explore("%s %s, %s" % (nt, qt, what), pre + hyp, run, post)
