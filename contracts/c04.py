"""C04 repeated points: placement of the columns (lemmas/Placement.lean: values that agree on repeated points)."""
from .base import *
from . import c01, c02, c03
from .c01 import approx, n, NP, PREP, WNZ, place

N, m = var("N", "I"), var("m", "I")


def px(i):
    return A("p", i)


def placement(V):
    """the object built for a list of points: where the columns are placed"""
    lg = V.mod("qmat.lagrange")
    for how in ("USE_LEFT", "USE_RIGHT", None):
        st = {}

        def run():
            p = arr("p", (N,))
            st["fr"] = Frame(points=p)
            o = lg.LagrangeApproximation(p, weightComputation="FAST", **({} if how is None else {"duplicates": how}))
            M = SArr.new((m, o.uniquePoints.vshape[0]), lambda i, j: A("M", i, j), "f")
            st["m"] = Frame(matrix=M)
            return o, o._handleDuplicates(M), M

        def post(P, v):
            o, R, M = v
            K = sym.dimsize(o.uniquePoints.vshape[0])
            P.shape("matrix", R, (m, N))
            i, j, c, k = fresh("i", "I"), fresh("j", "I"), fresh("c", "I"), fresh("k", "I")
            rng = (le(I0, i), lt(i, m), le(I0, j), lt(j, N))
            u = lambda c: toR(o.uniquePoints.at(c))
            P.prove("the points of the object are distinct", ne(u(c), u(k)), le(I0, c), lt(c, k), lt(k, K))
            if how == "USE_RIGHT":
                only = Forall(I0, N, lambda l: implies(lt(j, l), ne(px(l), px(j))))
                other = (lt(j, k), lt(k, N), eq(px(k), px(j)))
            else:
                only = Forall(I0, N, lambda l: implies(lt(l, j), ne(px(l), px(j))))
                other = (le(I0, k), lt(k, j), eq(px(k), px(j)))
            P.prove("the column of a point is placed at the %s occurrence" % ("last" if how == "USE_RIGHT" else "first"),
                    eq(R.at(i, j), A("M", i, c)), only, le(I0, c), lt(c, K), eq(u(c), px(j)), *rng)
            P.prove("zeros at all other occurrences", eq(R.at(i, j), R0), *other, *rng)
            P.array("the points are kept in the given order", o.points, (N,), px)
            st["fr"].check(P)
            st["m"].check(P)
        V.explore("duplicates=%s" % how, (le(I1, N), le(I0, m)), run, post)
    s = Str("duplicates")
    a, b = var("a", "I"), var("b", "I")
    no = (not_(term(s == "USE_LEFT")), not_(term(s == "USE_RIGHT")), le(I0, a), lt(a, b), lt(b, N), eq(px(a), px(b)))
    V.explore("any other placement, with repeated points", no, lambda: lg.LagrangeApproximation(arr("p", (N,)), duplicates=s), raises=(NotImplementedError, ValueError))


contract("C04", ["qmat.lagrange.LagrangeApproximation.__init__", "_setupDuplicates", "_handleDuplicates"],
         "columns at the first (last) occurrence, zeros elsewhere, for every list of points")(placement)


def rowcases(P, o, rows, g):
    """two interpolation matrices are the same: outright, or at a time equal to a point, and at any
    other time at which the barycentric denominator does not vanish (lemmas/Barycentric.lean)"""
    def check(nm, X):
        i, j, q = fresh("i", "I"), fresh("j", "I"), fresh("q", "I")
        rng = (le(I0, i), lt(i, rows), le(I0, j), lt(j, NP))
        if not P.shape(nm, X, (rows, NP)):
            return
        goal = eq(toR(X.at(i, j)), toR(g(i, j)))
        if P.holds(goal, *rng):
            return P.prove(nm, goal, *rng)
        off = Forall(I0, n, lambda k: ne(A("t", i), A("x", k)))
        s = Sum(I0, n, lambda k: mul(A("w", k), recip(sub(A("t", i), A("x", k)))))
        P.prove(nm + " (time that is no point)", goal, off, ne(s, R0), *rng)
        P.prove(nm + " (time equal to a point)", goal, le(I0, q), lt(q, n), eq(A("t", i), A("x", q)), *rng)
    return check


def matrices(V):
    """with repeated points each matrix is the placed matrix of the distinct points"""
    c02.rules(V)
    calls = {
        "getInterpolationMatrix": lambda o, **kw: [o.getInterpolationMatrix(arr("t", (m,)), **kw)],
        "getIntegrationMatrix": lambda o, **kw: [o.getIntegrationMatrix(arr("I", (m, ic(2))), **kw)],
        "getIntegrationMatrix, LEGENDRE_NUMPY": lambda o, **kw: [o.getIntegrationMatrix(arr("I", (m, ic(2))), numQuad="LEGENDRE_NUMPY", **kw)],
        "getDerivativeMatrix": lambda o, **kw: [o.getDerivativeMatrix(**kw)],
        "getDerivativeMatrix(2)": lambda o, **kw: [o.getDerivativeMatrix(2, **kw)],
        "getDerivativeMatrix('ALL')": lambda o, **kw: list(o.getDerivativeMatrix("ALL", **kw)),
        "getDerivationMatrix('ALL')": lambda o, **kw: list(o.getDerivationMatrix("ALL", **kw)),
    }
    lg = V.mod("qmat.lagrange")
    orig = lg.LagrangeApproximation.getInterpolationMatrix
    for what, f in calls.items():
        st = {}
        lg.LagrangeApproximation.getInterpolationMatrix = orig
        if "Integration" in what:
            c02.rows(V)

        def run():
            o = approx(V, True)
            st["fr"] = Frame(points=o.points, unique=o.uniquePoints, weights=o.weights)
            st["o"] = o
            plain = f(o, duplicates=False)
            return plain, f(o), f(o, duplicates=True), [place(M) for M in plain]

        def post(P, v):
            plain, dflt, dup, want = v
            if not P.fact("number of matrices", len(plain) == len(dflt) == len(dup)):
                return
            for k, (M, D, E, W) in enumerate(zip(plain, dflt, dup, want)):
                rows = M.vshape[0]
                P.shape("matrix %d of the distinct points" % k, M, (rows, n))
                g = W.snap()
                check = rowcases(P, st["o"], rows, g) if "Interpolation" in what else lambda nm, X: P.array(nm, X, (rows, NP), g)
                check("matrix %d, repeated points: the matrix of the distinct points, placed" % k, E)
                check("matrix %d: repeated points are taken into account by default" % k, D)
            st["fr"].check(P)
        V.explore(what, PREP + (WNZ, le(I1, m)), run, post)


contract("C04", ["getInterpolationMatrix", "getIntegrationMatrix", "getDerivativeMatrix", "getDerivationMatrix"],
         "repeated points: every matrix is the placed matrix of the distinct points")(matrices)


def plain_interpolation(V):
    c01.interpolation(V, True)


def plain_integration(V):
    c02.integration(V, True)


def plain_derivative(V):
    c03.derivative(V, True)


contract("C04", ["getInterpolationMatrix"], "repetitions ignored: barycentric formula on the distinct points")(plain_interpolation)
contract("C04", ["getIntegrationMatrix"], "repetitions ignored: integrals on the distinct points, sufficient exactness")(plain_integration)
contract("C04", ["getDerivativeMatrix"], "repetitions ignored: derivative matrices of the distinct points")(plain_derivative)


def weights(V):
    lg = V.mod("qmat.lagrange")
    a, b = var("a", "I"), var("b", "I")
    rep = (le(I0, a), lt(a, b), lt(b, N), eq(px(a), px(b)))
    for algo, kw in c01.ALGOS:
        def run():
            return lg.LagrangeApproximation(arr("p", (N,)), weightComputation=algo, **kw)

        def post(P, o):
            w, u = o.weights, o.uniquePoints
            K = sym.dimsize(u.vshape[0])
            P.shape("weights", w, (K,))
            i, j = fresh("i", "I"), fresh("j", "I")
            rng = (le(I0, i), lt(i, K), le(I0, j), lt(j, K))
            nodal = lambda j: Prod(I0, K, lambda k: ite(eq(k, j), R1, sub(toR(u.at(j)), toR(u.at(k)))))
            P.prove("weights are a common multiple of those of the distinct points", eq(mul(w.at(i), nodal(i)), mul(w.at(j), nodal(j))), *rng)
            P.nonzero("weights do not vanish", w.at(i), *rng)
        V.explore("%s %s" % (algo, kw), rep, run, post)


contract("C04", ["qmat.lagrange.LagrangeApproximation.__init__"], "repeated points: barycentric weights of the distinct points", time_=200)(weights)
