"""C17 Dahlquist solver of a Q-generator."""
from .base import *
from .c08 import generator, N
from vp.shim import INV

lam_, u0, T, ns = var("lam", "R"), var("u0", "R"), var("tEnd", "R"), var("nSteps", "I")
PRE = (le(I1, N), le(I1, ns))


def zstep():
    return mul(lam_, T, recip(toR(ns)))


def resolvent(i, j):
    """entry of (I - z Q)^-1"""
    return INV(N, lam("I", lambda a: lam("I", lambda b: sub(ite(eq(a, b), R1, R0), mul(zstep(), A("Q", a, b))))), i, j)


def growth(w):
    """1 + z w^T (I - z Q)^-1 1"""
    return add(R1, mul(zstep(), Sum(I0, N, lambda i: mul(A(w, i), Sum(I0, N, lambda j: resolvent(i, j))))))


def solve(V):
    for emb in (None, False, True):
        st = {}

        def run():
            g = generator(V)
            st["fr"] = Frame(**g.data)
            st["d"] = list(g.data.values())
            return g.solveDahlquist(wrap(lam_), wrap(u0), wrap(T), wrap(ns), **({} if emb is None else {"useEmbeddedWeights": emb}))

        def post(P, u):
            P.shape("solution", u, (add(ns, I1),))
            P.fact("holds complex values", u.dt == "c", "type %s" % u.dt)
            P.prove("first value", eq(u.at(I0), u0))
            i = fresh("i", "I")
            w = "weightsEmbedded" if emb else "weights"
            P.prove("each value is the previous one times 1 + z w^T (I - zQ)^-1 1", eq(u.at(add(i, I1)), mul(u.at(i), growth(w))), le(I0, i), lt(i, ns))
            st["fr"].check(P)
            P.owned("a new array", u, *st["d"])
        V.explore("solveDahlquist, useEmbeddedWeights=%s" % emb, PRE, run, post)


contract("C17", ["QGenerator.solveDahlquist"], "Runge-Kutta step, for every table, lambda, initial value, horizon and number of steps")(solve)


def exact(i):
    """u0 exp(lam t_i), t_i = i tEnd / nSteps"""
    return mul(u0, fn("exp", mul(lam_, mul(T, mul(toR(i), recip(toR(ns)))))))


def error(V):
    for emb in (None, False, True):
        for given in (False, True):
            st = {}

            def run():
                g = generator(V)
                st.clear()
                st["u"] = arr("uNum", (add(ns, I1),))
                st["fr"] = Frame(uNum=st["u"], **g.data)

                def solve_(lam, u0_, tEnd, nSteps, useEmbeddedWeights=False):
                    sym.S.note("solveDahlquist: contract of solve")
                    st["call"] = (term(lam), term(u0_), term(tEnd), term(nSteps), bool(useEmbeddedWeights))
                    return st["u"]
                g.solveDahlquist = solve_
                kw = {} if emb is None else {"useEmbeddedWeights": emb}
                if given:
                    kw["uNum"] = st["u"]
                return g.errorDahlquist(wrap(lam_), wrap(u0), wrap(T), wrap(ns), **kw)

            def post(P, e):
                if given:
                    P.fact("the given solution is used", "call" not in st)
                else:
                    c = st.get("call")
                    P.fact("solveDahlquist is called", c is not None and c[4] == bool(emb))
                    if c:
                        P.prove("with the same arguments", and_(*[eq(a, b) for a, b in zip(c, (lam_, u0, T, ns))]))
                P.maxabs("error", e, add(ns, I1), lambda i: sub(A("uNum", i), exact(i)))
                st["fr"].check(P)
            V.explore("errorDahlquist, uNum %s, useEmbeddedWeights=%s" % ("given" if given else "computed", emb), PRE, run, post)


contract("C17", ["QGenerator.errorDahlquist"], "largest deviation from the exact exponential over all times, of the given or the computed solution")(error)
