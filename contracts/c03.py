"""C03 derivative matrices (the polynomial statement follows by lemmas/Barycentric.lean: deriv1, deriv2)."""
from .base import *
from .c01 import n, x, w_, PRE, PREP, WNZ, approx

LEAN = ["Barycentric.lean"]


def derivative(V, rep=False):
    for how in ("1", "2", "ALL", "default", "deprecated"):
        for dup in (True, False) if not rep else (False,):
            st = {}

            def run():
                o = approx(V, rep)
                st["a"] = (o.weights, o.uniquePoints, o.points)
                st["fr"] = Frame(weights=o.weights, unique=o.uniquePoints, points=o.points)
                kw = {} if dup else {"duplicates": False}
                if how == "default":
                    return (o.getDerivativeMatrix(**kw), None)
                if how == "deprecated":
                    return (o.getDerivationMatrix(**kw), None)
                if how == "ALL":
                    return tuple(o.getDerivativeMatrix("ALL", **kw))
                D = o.getDerivativeMatrix(int(how), **kw)
                return (D, None) if how == "1" else (None, D)

            def post(P, v):
                if not P.fact("number of matrices", len(v) == 2):
                    return
                D, E = v
                i, j = fresh("i", "I"), fresh("j", "I")
                rng = (le(I0, i), lt(i, n), le(I0, j), lt(j, n))
                d = lambda a, b: mul(w_(b), recip(mul(w_(a), sub(x(a), x(b)))))
                dd = lambda a: neg(Sum(I0, n, lambda k: ite(eq(k, a), R0, d(a, k))))
                if D is not None:
                    P.shape("first derivative", D, (n, n))
                    P.prove("first derivative, off the diagonal: D_ij w_i (x_i - x_j) = w_j", eq(mul(D.at(i, j), w_(i), sub(x(i), x(j))), w_(j)), ne(i, j), *rng)
                    P.prove("first derivative: rows sum to zero", eq(Sum(I0, n, lambda k: D.at(i, k)), R0), *rng)
                    P.owned("first derivative: a new array", D, *st["a"])
                if E is not None:
                    P.shape("second derivative", E, (n, n))
                    P.prove("second derivative, off the diagonal: E_ij (x_i - x_j) = -2 D_ij (1 - D_ii (x_i - x_j))",
                            eq(mul(E.at(i, j), sub(x(i), x(j))), mul(rc(-2), d(i, j), sub(R1, mul(dd(i), sub(x(i), x(j)))))), ne(i, j), *rng)
                    P.prove("second derivative: rows sum to zero", eq(Sum(I0, n, lambda k: E.at(i, k)), R0), *rng)
                    P.owned("second derivative: a new array", E, *st["a"])
                st["fr"].check(P)
            V.explore("order %s%s" % (how, "" if dup else ", duplicates=False"), (PREP if rep else PRE) + (WNZ,), run, post)
    if rep:
        return
    for bad in (0, 3, -1, "1", "all", None):
        V.explore("order %r" % (bad,), PRE + (WNZ,), lambda: approx(V).getDerivativeMatrix(bad), raises=(NotImplementedError, ValueError))


contract("C03", ["qmat.lagrange.LagrangeApproximation.getDerivativeMatrix", "getDerivationMatrix"],
         "first and second derivative matrices: barycentric off-diagonal entries, zero row sums, both orders at once, for any non-zero weights", time_=150)(derivative)
