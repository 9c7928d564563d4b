"""C11 time-stepping approximations: composition of the scheme's steps."""
from .base import *

M, tL = var("M", "I"), var("tL", "R")
PRE = (le(I1, M),)
half = rc(Fraction(1, 2))


def x(i):
    return A("x", i)


def delta(j):
    """length of the j-th step, from the left bound through the nodes"""
    return sub(x(j), ite(eq(j, I0), tL, x(sub(j, I1))))


SPEC = {
    # BE: u_i = u_0 + sum_{j<=i} delta_j f_j ; FE: f of the previous node; TRAP: mean; PAR: one step from the left bound
    "BE": (lambda i, j: ite(le(j, i), delta(j), R0), lambda i: R0),
    "FE": (lambda i, j: ite(lt(j, i), delta(add(j, I1)), R0), lambda i: delta(I0)),
    "TRAP": (lambda i, j: scale(Fraction(1, 2), add(ite(le(j, i), delta(j), R0), ite(lt(j, i), delta(add(j, I1)), R0))), lambda i: scale(Fraction(1, 2), delta(I0))),
    "BEPAR": (lambda i, j: ite(eq(i, j), sub(x(i), tL), R0), lambda i: R0),
    "TRAPAR": (lambda i, j: ite(eq(i, j), scale(Fraction(1, 2), sub(x(i), tL)), R0), lambda i: scale(Fraction(1, 2), sub(x(i), tL))),
}


def nodes(kind):
    if kind == "list":
        return SList(M, lambda k: wrap(x(k)))
    if kind == "int":
        return SArr.new((M,), lambda i: app("xi", (i,), "I"), "i")
    return arr("x", (M,))


def scheme(name, kind, direct=True, left=True):
    def check(V):
        ts = V.mod("qmat.qdelta.timestepping")
        st = {}

        def run():
            n = nodes(kind)
            st["n"] = n
            st["fr"] = Frame(nodes=n)
            kw = {"tLeft": wrap(tL)} if left else {}
            if direct:
                g = getattr(ts, name)(nodes=n, **kw)
                return g.getQDelta(), g.dTau
            return V.mod("qmat").genQDeltaCoeffs(name, nodes=n, dTau=True, **kw)

        def post(P, v):
            Q, d = v
            sQ, sd = SPEC[name]
            m = {}
            if not left:
                m[tL] = R0
            f = lambda t: subst(t, m)
            if kind == "int":
                g = f
                f = lambda t: prover_sub(g(t))
            P.array("QDelta is the composition of the %s steps" % name, Q, (M, M), lambda i, j: f(sQ(i, j)))
            P.array("dTau is the weight of the left bound", d, (M,), lambda i: f(sd(i)))
            i = fresh("i", "I")
            rng = (le(I0, i), lt(i, M))
            rs = sub(add(Sum(I0, M, lambda q: Q.at(i, q)), d.at(i)), f(sub(x(i), tL)))
            P.prove("row sums plus dTau are the distances from the left bound", eq(rs, R0), *rng)
            st["fr"].check(P)
            P.owned("QDelta is not a view of the nodes", Q, st["n"])
            P.owned("dTau is not a view of the nodes", d, st["n"])
        V.explore("%s(%s nodes%s%s)" % (name, kind, "" if left else ", default tLeft", "" if direct else ", genQDeltaCoeffs"), PRE, run, post)
    return check


def prover_sub(t):
    """x(i) -> integer nodes"""
    return loops.mapapps(t, {"x": lambda a: tm.toR(app("xi", tuple(a), "I"))})


for _n in SPEC:
    def _f(V, _n=_n):
        scheme(_n, "array")(V)
        scheme(_n, "list")(V)
        scheme(_n, "int")(V)
        scheme(_n, "array", left=False)(V)
        scheme(_n, "array", direct=False)(V)
    _f.__name__ = "scheme_" + _n
    contract("C11", ["qmat.qdelta.timestepping.TimeStepping.__init__", "qmat.qdelta.timestepping.%s.computeQDelta" % _n,
                     "qmat.qdelta.timestepping.%s.dTau" % _n, "QDeltaGenerator.getQDelta", "genQDeltaCoeffs"], "%s: composition of steps, row sums, frame" % _n)(_f)


# ------------------------------------------------------------------ SOE
class DerivStub:
    """contract of LagrangeApproximation(points).getDerivativeMatrix() on three points t0 <= t1 < t2 (proved under C03 / C04):
    the middle row differentiates constants and linear functions exactly, and quadratics when t0 < t1;
    its last entry is not zero"""

    def __init__(self, points, *a, **k):
        if a or k:
            raise Unsupported("LagrangeApproximation options in SOE")
        self.p = points

    def getDerivativeMatrix(self, *a, **k):
        if a or k:
            raise Unsupported("getDerivativeMatrix options in SOE")
        p = sym.darr(self.p)
        if len(p.vshape) != 1 or not sym.S.ctx.valid(eq(sym.dimsize(p.vshape[0]), ic(3))):
            raise Unsupported("SOE differentiates on other than three points")
        t = [p.at(ic(k)) for k in range(3)]
        D = lambda k: app("Dm", tuple(t) + (I1, ic(k)), "R")
        sym.S.assume(ne(D(2), R0))
        sym.S.note("LagrangeApproximation.getDerivativeMatrix: middle row exact (contract of C03/C04)")
        return SArr.new((ic(3), ic(3)), lambda i, j: app("Dm", tuple(t) + (i, j), "R"), "f")


def soe(V):
    ts = V.mod("qmat.qdelta.timestepping")
    ts.LagrangeApproximation = DerivStub
    st = {}

    def t(i):
        """times of row i: t(-1) is the left bound"""
        return ite(lt(i, I0), tL, x(i))

    def a(m, k):
        """coefficients of the derivative at node m-1 on nodes m-2, m-1, m"""
        return app("Dm", (t(sub(m, ic(2))), t(sub(m, I1)), t(m), I1, ic(k)), "R")

    def run():
        n = nodes("array")
        st["n"], st["fr"] = n, Frame(nodes=n)
        g = ts.SOE(nodes=n, tLeft=wrap(tL))
        return g.getQDelta(), g.dTau

    def post(P, v):
        Q, d = v
        P.shape("QDelta", Q, (M, M))
        P.shape("dTau", d, (M,))
        i, j = fresh("i", "I"), fresh("j", "I")
        ri = (le(I1, i), lt(i, M), le(I0, j), lt(j, M))
        prev2 = ite(eq(i, I1), R0, Q.at(sub(i, ic(2)), j))
        for what, case in (("node m-1", (eq(j, sub(i, I1)),)),
                           ("earlier nodes", (lt(j, sub(i, I1)), lt(I1, i))), ("later nodes", (le(i, j),))):
            P.prove("leap-frog step at every node, ap Q[m,j] + a0 Q[m-1,j] + am Q[m-2,j] = [j = m-1]: " + what,
                    eq(add(mul(a(i, 2), Q.at(i, j)), mul(a(i, 1), Q.at(sub(i, I1), j)), mul(a(i, 0), prev2)), ite(eq(j, sub(i, I1)), R1, R0)),
                    ne(a(i, 2), R0), *(ri + case), unfold_depth=1)
        P.prove("no step before the first node", eq(Q.at(I0, j), R0), le(I0, j), lt(j, M))
        P.prove("strictly lower triangular", eq(Q.at(i, j), R0), le(I0, i), lt(i, M), le(i, j), lt(j, M))
        P.prove("dTau of the first node is its distance from the left bound", eq(d.at(I0), sub(x(I0), tL)))
        # row sums when the first node is the left bound, by induction over the node
        row = lambda m: Sum(I0, M, lambda q: Q.at(m, q))
        body = lambda m: lambda q: sub(add(mul(a(m, 2), Q.at(m, q)), mul(a(m, 1), Q.at(sub(m, I1), q)), mul(a(m, 0), Q.at(sub(m, ic(2)), q))), ite(eq(q, sub(m, I1)), R1, R0))
        none = lambda x_, ctx: None
        P.prove("row sums: the leap-frog relation summed over the nodes", eq(Sum(I0, M, body(i)),
                sub(add(mul(a(i, 2), row(i)), mul(a(i, 1), row(sub(i, I1))), mul(a(i, 0), row(sub(i, ic(2))))), R1)), le(ic(2), i), lt(i, M), unfold=none)
        r, r1, r2 = var("r", "R"), var("r1", "R"), var("r2", "R")
        exact0, exact1 = eq(add(a(i, 0), a(i, 1), a(i, 2)), R0), eq(add(mul(a(i, 0), t(sub(i, ic(2)))), mul(a(i, 1), t(sub(i, I1))), mul(a(i, 2), t(i))), R1)
        D = lambda k: a(i, k)
        lhs = sub(add(mul(D(2), r), mul(D(1), sub(x(sub(i, I1)), tL)), mul(D(0), sub(x(sub(i, ic(2))), tL))), R1)
        am = sub(neg(D(1)), D(2))
        z = sub(lhs, mul(D(2), sub(r, sub(x(i), tL))))
        e1 = sub(add(mul(D(0), x(sub(i, ic(2)))), mul(D(1), x(sub(i, I1))), mul(D(2), x(i))), R1)
        e0 = add(D(0), D(1), D(2))
        P.prove("row sums, inductive step: the relation determines the row sum, x[m] - tLeft satisfies it",
                eq(z, sub(e1, mul(tL, e0))), le(ic(2), i), lt(i, M), unfold=none)
        P.prove("row sums, first node", eq(row(I0), R0), le(I1, M), unfold_depth=3)
        P.prove("row sums, second node", eq(mul(a(I1, 2), row(I1)), R1), le(ic(2), M), ne(a(I1, 2), R0))
        st["fr"].check(P)
        P.owned("QDelta is not a view of the nodes", Q, st["n"])
    V.explore("SOE", PRE, run, post)


contract("C11", ["qmat.qdelta.timestepping.SOE.computeQDelta", "qmat.qdelta.timestepping.SOE.dTau"], "SOE: leap-frog relation at every node, structure, frame", time_=120)(soe)
