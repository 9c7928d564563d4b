"""C07 Collocation: nodes, Q, S, weights and h coefficients on any interval.  Exactness of the rows is the contract of
LagrangeApproximation (C01, C02); here: which intervals and points it is given."""
from .base import *
from .c08 import generator, FULL

N = var("M", "I")
tl, tr = var("tl", "R"), var("tr", "R")
HALF = recip(rc(2))
LEFT, RIGHT = ("LOBATTO", "RADAU-LEFT"), ("LOBATTO", "RADAU-RIGHT")


class Nodes:
    """contract of NodesGenerator (C06): a new array of n strictly increasing nodes in [-1, 1].  That end nodes are exactly
    -1 / 1 is not used: the interval ends must be hit whatever the rounding of the affine map"""
    log = None

    def __init__(self, *a, **k):
        nt, qt = (list(a) + [None, None])[:2]
        self.nt, self.qt = k.pop("nodeType", nt), k.pop("quadType", qt)
        if k or len(a) > 2:
            raise Unsupported("NodesGenerator options")

    def getNodes(self, nNodes):
        sym.S.note("NodesGenerator.getNodes: strictly increasing nodes in [-1, 1] (contract of C06)")
        n = term(nNodes)
        Nodes.log.append((self.nt, self.qt, n))
        a = SArr.new((n,), lambda i: A("xi", i), "f")
        return a


class Approx:
    """contract of LagrangeApproximation(points) with the default options (C01, C02): rows are identified by the points held,
    the interval and the column: W(j, a, b) integral of the j-th basis polynomial over [a, b], H(j, t) its value at t"""
    made = None

    def __init__(self, points, *a, **kw):
        if a or kw:
            raise Unsupported("LagrangeApproximation options")
        self.points = darr(points)
        if len(self.points.vshape) != 1:
            raise Unsupported("points")
        self.snap = self.points.snap()
        self.n = self.points.vshape[0]
        Approx.made.append(self)

    def getIntegrationMatrix(self, intervals, *a, **kw):
        if a or (set(kw) - {"numQuad"}) or (kw and kw["numQuad"] not in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY")):
            raise Unsupported("getIntegrationMatrix options")
        t = darr(intervals)
        if len(t.vshape) != 2 or not sym.S.ctx.valid(eq(sym.dimsize(t.vshape[1]), ic(2))):
            raise Unsupported("intervals")
        g = t.snap()
        sym.S.note("LagrangeApproximation.getIntegrationMatrix: exact integrals over the intervals, in order (contract of C02)")
        return SArr.new((t.vshape[0], self.n), lambda i, j: A("W", j, toR(g(i, I0)), toR(g(i, I1))), "f")

    def getInterpolationMatrix(self, times, *a, **kw):
        if a or kw:
            raise Unsupported("getInterpolationMatrix options")
        t = darr(times)
        if len(t.vshape) != 1:
            raise Unsupported("times")
        g = t.snap()
        sym.S.note("LagrangeApproximation.getInterpolationMatrix: basis values at the times, in order (contract of C01)")
        return SArr.new((t.vshape[0], self.n), lambda i, j: A("H", j, toR(g(i))), "f")


def setup(V):
    co = V.mod("qmat.qcoeff.collocation")
    co.NodesGenerator, co.LagrangeApproximation = Nodes, Approx
    return co


def bounds(quad):
    """the end points the quadrature type prescribes and the images of the other reference nodes"""
    f = lambda i: add(tl, mul(sub(tr, tl), HALF, add(A("xi", i), R1)))
    if quad in LEFT:
        g0 = f
        f = lambda i, g0=g0: ite(eq(i, I0), tl, g0(i))
    if quad in RIGHT:
        g1 = f
        f = lambda i, g1=g1: ite(eq(i, sub(N, I1)), tr, g1(i))
    return f


def colloc(V):
    co = setup(V)
    for quad in ("GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"):
        for default in (False, True):
            nt = Str("nodeType")
            sub_ = (lambda t: replace_(t)) if default else (lambda t: t)

            def replace_(t):
                return tm.replace(t, {tl: R0, tr: R1})

            def run():
                Nodes.log, Approx.made = [], []
                g = co.Collocation(wrap(N), nt, quad) if default else co.Collocation(wrap(N), nt, quad, tLeft=wrap(tl), tRight=wrap(tr))
                out = g.nodes, g.weights, g.Q, g.S, g.hCoeffs, g.rightIsNode
                return (g,) + out + (list(Nodes.log), list(Approx.made))

            def post(P, v):
                g, x, w, Q, S, h, rn, log, made = v
                nd = bounds(quad)
                node = lambda i: sub_(nd(i))
                a, b = sub_(tl), sub_(tr)
                P.fact("nodes of the given type", bool(log) and all(q[0] is nt and q[1] == quad for q in log), "%s" % [q[1] for q in log])
                P.prove("the given number of nodes", and_(*[eq(q[2], N) for q in log]))
                P.array("nodes: affine image of the reference nodes, the included ends exactly", x, (N,), node)
                for k, ap in enumerate(made):
                    P.array("approximation %d is built on the nodes" % k, SArr.new((ap.n,), ap.snap, "f"), (N,), node)
                    P.array("approximation %d still holds the nodes" % k, ap.points, (N,), node)
                P.array("Q: row i over [tLeft, node i]", Q, (N, N), lambda i, j: A("W", j, a, node(i)))
                P.array("S: row i over [node i-1 or tLeft, node i]", S, (N, N), lambda i, j: A("W", j, ite(eq(i, I0), a, node(sub(i, I1))), node(i)))
                P.array("weights: over [tLeft, tRight]", w, (N,), lambda j: A("W", j, a, b))
                P.array("h coefficients: basis values at tRight", h, (N,), lambda j: A("H", j, b))
                P.prove("rightIsNode: the last node is the right end", eqB(term(rn), eq(node(sub(N, I1)), b)))
                P.fact("attributes", g.nodeType is nt and g.quadType == quad, "%r %r" % (g.nodeType, g.quadType))
                P.prove("bounds are stored", and_(eq(toR(term(g.tLeft)), a), eq(toR(term(g.tRight)), b)))
            # order and range of the nodes, from the contract of C06
            V.explore("Collocation %s%s" % (quad, ", default interval" if default else ""), (le(ic(2 if quad in LEFT else 1), N), ne(tl, tr)), run, post)

    def args():
        Nodes.log, Approx.made = [], []
        return co.Collocation(wrap(N), "LEGENDRE", "GAUSS", wrap(tl), wrap(tr)), co.Collocation(nNodes=wrap(N), nodeType="LEGENDRE", quadType="GAUSS", tRight=wrap(tr), tLeft=wrap(tl))

    def same(P, v):
        for g in v:
            P.array("nodes", g.nodes, (N,), bounds("GAUSS"))
    V.explore("positional and named arguments", (le(I1, N), ne(tl, tr)), args, same)


def eqB(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


contract("C07", ["qmat.qcoeff.collocation.Collocation.__init__", "Collocation.nodes", "Collocation.Q", "Collocation.weights", "Collocation.S", "Collocation.hCoeffs", "Collocation.rightIsNode"],
         "every number and type of nodes, every interval: nodes, end points, intervals of Q, S, weights, evaluation point of h")(colloc)


def distinct(V):
    """the nodes handed to LagrangeApproximation are distinct (precondition of exactness), from the contract of C06"""
    S = sym.set_session(Session(Ctx((), ())))
    i, j = var("i", "I"), var("j", "I")
    y = lambda k: A("xi", k)
    for quad in ("GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"):
        f = bounds(quad)
        # strictly increasing reference nodes in [-1, 1], with -1 / 1 at the included ends
        h = [le(I0, i), lt(i, j), lt(j, N), lt(y(i), y(j)), le(rc(-1), y(i)), le(y(j), R1), ne(tl, tr)]
        e0, e1 = eq(y(I0), rc(-1)), eq(y(sub(N, I1)), R1)
        h += [e0] if quad in LEFT else []
        h += [e1] if quad in RIGHT else []
        cases = [(tl, tr), (tr, tl)]
        for lo_, hi_ in cases:
            ctx = Ctx(tuple(h) + (lt(lo_, hi_),), ())
            V.goal("%s, %s: the nodes are distinct and ordered" % (quad, "tLeft < tRight" if lo_ is tl else "tRight < tLeft"),
                   lt(f(i), f(j)) if lo_ is tl else lt(f(j), f(i)), ctx, S)
            V.goal("%s, %s: the nodes lie in the interval" % (quad, "tLeft < tRight" if lo_ is tl else "tRight < tLeft"),
                   and_(le(lo_, f(i)), le(f(i), hi_), le(lo_, f(j)), le(f(j), hi_)), ctx, S)


contract("C07", ["qmat.qcoeff.collocation.Collocation.__init__"], "the nodes are distinct, ordered and in the interval (contract of C06 under the affine map)")(distinct)


def hcoeffs(V):
    """h coefficients of any other generator"""
    V.mod("qmat.qcoeff").LagrangeApproximation = Approx
    qc = V.mod("qmat.qcoeff")
    st = {}

    def run():
        Approx.made = []
        g = generator(V)
        st["g"], st["fr"] = g, Frame(**g.data)
        return qc.QGenerator.hCoeffs.fget(g), list(Approx.made)

    def post(P, v):
        h, made = v
        n = sym.dimsize(st["g"].data["nodes"].vshape[0])
        P.array("h coefficients: basis values at 1", h, (n,), lambda j: A("H", j, R1))
        for ap in made:
            P.array("on the nodes of the generator", ap.points, (n,), lambda i: A("nodes", i))
        st["fr"].check(P)
    from .c08 import PRE
    V.explore("QGenerator.hCoeffs", PRE, run, post)


contract("C07", ["QGenerator.hCoeffs"], "h coefficients of a generator on [0, 1]")(hcoeffs)
