"""C01 barycentric weights and interpolation matrices."""
from .base import *

n, m = var("n", "I"), var("m", "I")


def x(i):
    return A("x", i)


_i, _j = fresh("i", "I"), fresh("j", "I")
DIST = Forall(I0, n, lambda i: Forall(I0, n, lambda j: implies(lt(i, j), ne(x(i), x(j)))))
PRE = (le(I1, n), DIST)


def nodal(j):
    """prod_{k != j} (x_j - x_k)"""
    return Prod(I0, n, lambda k: ite(eq(k, j), R1, sub(x(j), x(k))))


ALGOS = [("FAST", {}), ("STABLE", {"scaleRef": "MAX"}), ("STABLE", {"scaleRef": "ZERO"}), ("CHEBFUN", {}), ("AUTO", {}), ("AUTO", {"scaleRef": "ZERO"})]


def weights(V, algo, kw):
    lg = V.mod("qmat.lagrange")
    for scale_ in (False, True):
        st = {}

        def run():
            p = arr("x", (n,))
            st["p"], st["fr"] = p, Frame(points=p)
            return lg.LagrangeApproximation(p, weightComputation=algo, scaleWeights=scale_, **kw)

        def post(P, o):
            P.array("the distinct points are kept, in the given order", o.uniquePoints, (n,), x)
            w = o.weights
            P.shape("weights", w, (n,))
            i, j = fresh("i", "I"), fresh("j", "I")
            rng = (le(I0, i), lt(i, n), le(I0, j), lt(j, n))
            P.prove("weights are a common multiple of 1 / prod (x_j - x_k)", eq(mul(w.at(i), nodal(i)), mul(w.at(j), nodal(j))), *rng)
            P.nonzero("weights do not vanish", w.at(i), *rng)
            st["fr"].check(P)
            P.owned("weights share no memory with the points", w, st["p"])
        V.explore("%s %s%s" % (algo, kw, " scaled" if scale_ else ""), PRE, run, post)


for _a, _k in ALGOS:
    def _f(V, _a=_a, _k=_k):
        weights(V, _a, _k)
    _f.__name__ = "weights_%s%s" % (_a, "_" + _k["scaleRef"] if _k else "")
    contract("C01", ["qmat.lagrange.LagrangeApproximation.__init__", "analytic", "logScale", "chebfun"],
             "%s %s: weights are a common non-zero multiple of the barycentric weights, points kept" % (_a, _k), time_=200)(_f)


# ------------------------------------------------------------------ interpolation matrix
def w_(j):
    return A("w", j)


def t_(i):
    return A("t", i)


WNZ = Forall(I0, n, lambda j: ne(w_(j), R0))


NP = var("NP", "I")                       # number of points when some of them are repeated
PREP = PRE + (lt(n, NP),)


def place(M):
    """contract of _handleDuplicates (C04): every column at one occurrence of its point, zeros elsewhere"""
    M = darr(M)
    if len(M.vshape) != 2 or not sym.S.ctx.valid(eq(sym.dimsize(M.vshape[1]), n)):
        raise Unsupported("placement of a matrix whose columns are not the distinct points")
    sym.S.note("_handleDuplicates: placement of the columns (contract of C04)")
    g = M.snap()
    inv = lambda j: app("INVERSE", (j,), "I")
    sym.S.assume(Forall(I0, NP, lambda j: and_(le(I0, inv(j)), lt(inv(j), n))))
    return SArr.new((M.vshape[0], NP), lambda i, j: ite(app("PLACED", (j,), "B"), toR(g(i, inv(j))), R0), "f")


def approx(V, rep=False, mine=True):
    """an approximation with arbitrary non-zero weights (their values are the contract of __init__), on n distinct points x;
    rep: the points p are repeated, with the distinct points x (contract of __init__ and _setupDuplicates, C04)"""
    o = V.mod("qmat.lagrange").LagrangeApproximation(arr("x", (n,)), weightComputation="FAST")
    o.weights = arr("w", (n,))
    if rep:
        if "uniquePoints" not in vars(o) or "points" not in vars(o):
            raise Unsupported("attributes of the approximation")
        o.points = arr("p", (NP,))
        o.uniquePoints = arr("x", (n,))
        o._handleDuplicates = place
    return o


def interpolation(V, rep=False):
    for dup in (None, True, False) if not rep else (False,):
        st = {}

        def run():
            o = approx(V, rep)
            t = arr("t", (m,))
            st["fr"], st["a"] = Frame(times=t, weights=o.weights, points=o.uniquePoints), (t, o.weights, o.uniquePoints)
            return o.getInterpolationMatrix(t) if dup is None else o.getInterpolationMatrix(t, duplicates=dup)

        def post(P, M):
            P.shape("matrix", M, (m, n))
            i, j, q = fresh("i", "I"), fresh("j", "I"), fresh("q", "I")
            rng = (le(I0, i), lt(i, m), le(I0, j), lt(j, n))
            off = Forall(I0, n, lambda k: ne(t_(i), x(k)))
            s = Sum(I0, n, lambda k: mul(w_(k), recip(sub(t_(i), x(k)))))
            P.prove("time that is no point: barycentric formula", eq(mul(M.at(i, j), s), mul(w_(j), recip(sub(t_(i), x(j))))), off, ne(s, R0), *rng)
            P.prove("time equal to a point: indicator row", eq(M.at(i, j), ite(eq(j, q), R1, R0)), le(I0, q), lt(q, n), eq(t_(i), x(q)), *rng)
            st["fr"].check(P)
            P.owned("the matrix is a new array", M, *st["a"])
        V.explore("getInterpolationMatrix(duplicates=%s)" % dup, (PREP if rep else PRE) + (WNZ, le(I0, m)), run, post)

    if rep:
        return

    def two():
        return approx(V).getInterpolationMatrix(arr("t", (m, n)))
    V.explore("two-dimensional times", PRE + (WNZ, le(I0, m)), two, raises=(AssertionError, ValueError))


contract("C01", ["qmat.lagrange.LagrangeApproximation.getInterpolationMatrix", "_passThrough"],
         "barycentric formula, indicator rows at the points, for any non-zero weights, any times")(interpolation)


def call(V):
    lg = V.mod("qmat.lagrange")
    p = var("p", "I")

    def stub(self, times, *a, **kw):
        if a or kw:
            raise Unsupported("options")
        t = darr(times)
        if len(t.vshape) != 1:
            raise AssertionError("times is not a 1D array")
        sym.S.note("getInterpolationMatrix: row of a time (contract 'interpolation')")
        g = t.snap()
        return SArr.new((t.vshape[0], n), lambda i, j: A("row", toR(g(i)), j), "f")
    lg.LagrangeApproximation.getInterpolationMatrix = stub
    val = lambda s: Sum(I0, n, lambda j: mul(A("row", s, j), A("f", j)))
    for what in ("given at construction", "given at the call"):
        for kind in ("scalar", "1D", "2D", "2D stored by columns", "2D transposed"):
            st = {}

            def run():
                f = arr("f", (n,))
                if kind == "scalar":
                    t = wrap(var("s", "R"))
                elif kind == "1D":
                    t = arr("t", (m,))
                elif kind == "2D transposed":
                    t = SArr.new((p, m), lambda i, j: A("t", j, i), "f")
                    t.buf.layout = "C"
                    t = t.T
                else:
                    t = arr("t", (m, p))
                    t.buf.layout = "C" if kind == "2D" else "F"
                st["fr"] = Frame(values=f, **({} if kind == "scalar" else {"times": t}))
                st["t"] = t
                if what == "given at construction":
                    return lg.LagrangeApproximation(arr("x", (n,)), fValues=f)(t)
                return lg.LagrangeApproximation(arr("x", (n,)))(t, fValues=f)

            def post(P, v):
                if kind == "scalar":
                    P.array("value", v, (), lambda: val(var("s", "R")))
                elif kind == "1D":
                    P.array("values in the shape of the argument", v, (m,), lambda i: val(t_(i)))
                else:
                    P.array("values in the shape of the argument", v, (m, p), lambda i, j: val(A("t", i, j)))
                st["fr"].check(P)
            V.explore("call, %s, values %s" % (kind, what), PRE + (le(I0, m), le(I0, p)), run, post)
    V.explore("no values", PRE, lambda: lg.LagrangeApproximation(arr("x", (n,)))(arr("t", (m,))), raises=(AssertionError, ValueError))


contract("C01", ["qmat.lagrange.LagrangeApproximation.__call__"], "calling the approximation: interpolated values in the shape of the argument")(call)
