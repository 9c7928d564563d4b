"""C19 numerical utilities."""
from .base import *
from vp.terms import mk
from vp.shim import INV

n = var("n", "I")


def ldu(V):
    num = V.mod("qmat.utils.num")
    st = {}

    def run():
        st["A"] = arr("A", (n, n))
        st["fr"] = Frame(A=st["A"])
        return num.lduFactorization(st["A"])

    def post(P, r):
        P.fact("three factors are returned", isinstance(r, tuple) and len(r) == 3)
        L, D, U = r
        i, j = fresh("i", "I"), fresh("j", "I")
        rng = (le(I0, i), lt(i, n), le(I0, j), lt(j, n))
        for what, X in (("L", L), ("D", D), ("U", U)):
            P.shape(what, X, (n, n))
            P.owned(what + " is a new array", X, st["A"], *[Y for Y in r if Y is not X])
        P.prove("L is unit lower triangular", eq(L.at(i, j), ite(eq(i, j), R1, R0)), *rng, le(i, j))
        P.prove("D is diagonal", eq(D.at(i, j), R0), *rng, ne(i, j))
        P.prove("U is unit upper triangular", eq(U.at(i, j), ite(eq(i, j), R1, R0)), *rng, le(j, i))
        prod = Sum(I0, n, lambda k: mul(L.at(i, k), Sum(I0, n, lambda l: mul(D.at(k, l), U.at(l, j)))))
        for what, c in (("below the diagonal", lt(j, i)), ("on the diagonal", eq(i, j)), ("above the diagonal", lt(i, j))):
            P.prove("L D U = A " + what, eq(prod, A("A", i, j)), *rng, c)
        st["fr"].check(P)
    V.explore("lduFactorization", (le(I1, n),), run, post, nonzero="precondition: the pivots (divisors) are not zero")


contract("C19", ["lduFactorization"], "LDU")(ldu)


def ldu_rejected(V):
    num = V.mod("qmat.utils.num")
    m = var("m", "I")
    V.explore("a matrix that is not square", (le(I1, n), le(I1, m), ne(n, m)), lambda: num.lduFactorization(arr("A", (n, m))), raises=AssertionError)


contract("C19", ["lduFactorization"], "a matrix that is not square is rejected")(ldu_rejected)

N, p = var("N", "I"), var("p", "I")


def extrapolation(V):
    num = V.mod("qmat.utils.num")
    for deg in (True, False):
        st = {}

        def run():
            st["x"], st["t"] = arr("x", (n,)), arr("t", (N,))
            st["fr"] = Frame(nodes=st["x"], times=st["t"])
            return num.getExtrapolationMatrix(st["x"], st["t"], **({"pOrder": wrap(p)} if deg else {}))

        def post(P, R):
            q = add(p, I1) if deg else n
            pw = lambda nm, i, a: powt(A(nm, i), a)
            G = lam("I", lambda a: lam("I", lambda b: Sum(I0, n, lambda j: mul(pw("x", j, a), pw("x", j, b)))))
            P.array("normal equations: T (X^T X)^-1 X^T", R, (N, n), lambda i, j:
                    Sum(I0, q, lambda a: mul(pw("t", i, a), Sum(I0, q, lambda b: mul(INV(q, G, a, b), pw("x", j, b))))))
            st["fr"].check(P)
            P.owned("a new array", R, st["x"], st["t"])
        V.explore("getExtrapolationMatrix, %s" % ("degree given" if deg else "default degree"), (le(I1, n), le(I1, N), le(I0, p), lt(p, n)), run, post)


contract("C19", ["getExtrapolationMatrix"], "normal equations of the polynomial regression, for all nodes, times and degrees; reproduction by lemmas/Regression.lean")(extrapolation)

c0, q0 = var("c", "R"), var("q", "R")


def order(V):
    num = V.mod("qmat.utils.num")
    lg = lambda v: fn("log10", v)
    for exact, kind in ((True, "i"), (False, "i"), (True, "f"), (False, "f")):
        st = {}
        stp = (lambda i: app("steps", (i,), "I")) if kind == "i" else (lambda i: app("fsteps", (i,), "R"))
        x = lambda i: lg(recip(toR(stp(i))))

        def run():
            st["n"] = arr("steps", (n,), "i") if kind == "i" else arr("fsteps", (n,), "f")
            st["e"] = SArr.new((n,), lambda i: mul(c0, fn("rpow", toR(stp(i)), neg(q0))), "f") if exact else arr("e", (n,))
            st["fr"] = Frame(nSteps=st["n"], err=st["e"])
            return num.numericalOrder(st["n"], st["e"])
        y = lambda i: lg(A("e", i))
        mx = mul(Sum(I0, n, x), recip(toR(n)))
        my = mul(Sum(I0, n, y), recip(toR(n)))
        sx = Sum(I0, n, lambda i: powi(sub(x(i), mx), 2))

        def post(P, r):
            P.fact("order and residual are returned", isinstance(r, tuple) and len(r) == 2)
            beta, rmse = [toR(term(v)) for v in r]
            if exact:
                P.prove("the order of C n^-q is q", eq(beta, q0))
                P.prove("with zero residual", mk("eq", (powi(rmse, 2),), "B"))
            else:
                sxy = Sum(I0, n, lambda i: mul(sub(x(i), mx), sub(y(i), my)))
                b = mul(sxy, recip(sx))
                P.prove("the order is the least-squares slope of log error against log step size", eq(beta, b))
                res = lambda i: sub(y(i), add(my, mul(b, sub(x(i), mx))))
                P.prove("the residual is the root mean square of the deviations", eq(powi(rmse, 2), mul(Sum(I0, n, lambda i: powi(res(i), 2)), recip(toR(n)))))
                P.prove("the residual is not negative", le(R0, rmse))
            st["fr"].check(P)
        asm = (le(ic(2), n), Forall(I0, n, lambda i: lt(I0 if kind == "i" else R0, stp(i))), Forall(I0, n, lambda i: lt(R0, A("e", i))), ne(sx, R0))
        if exact:
            asm += (lt(R0, c0),)        # errors C n^-q
        V.explore("numericalOrder, %s%s" % ("errors C n^-q" if exact else "any errors", "" if kind == "i" else ", step counts as floats"), asm, run, post, nonzero="precondition: at least two different step counts")


contract("C19", ["numericalOrder"], "least-squares slope; exact order of exact power laws")(order)
