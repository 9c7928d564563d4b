"""C23 orders reported for SDC."""
from .base import *
from math import factorial
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta import QDELTA_GENERATORS
from qmat.utils.sdc import getOrderSDC, solveDahlquistSDC
from .o_lagrange import NT, QT

STEP = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
OTHER = ["PIC", "LU", "LU2", "GS", "QPar", "Exact", "MIN-SR-NS", "Jumper"]


def series(Q, QD, w, K, n):
    """Taylor coefficients in z of one step of K sweeps from copied initial values (see C18)"""
    U = np.zeros((n + 1, len(Q)))
    U[0] = 1
    for _ in range(K):
        V = np.zeros_like(U)
        V[0] = 1
        for j in range(n):
            V[j + 1] = (Q - QD) @ U[j] + QD @ V[j]
        U = V
    return U[:, -1] if w is None else np.array([1.] + [w @ U[j] for j in range(n)])


def attained(s):
    """the order: number of coefficients behind the first one that agree with the exponential"""
    for j in range(len(s)):
        if not abs(s[j] * factorial(j) - 1) <= 1e-9:
            return j - 1
    return len(s) - 1


def guaranteed(p):
    """what every configuration attains (lemmas/Order.lean)"""
    M, nt, qt = p["coll"]
    if nt == "LEGENDRE":
        c = {"GAUSS": 2 * M, "LOBATTO": 2 * M - 2}.get(qt, 2 * M - 1)
    else:
        c = M + M % 2 if nt in ["EQUID", "CHEBY-1", "CHEBY-2"] and qt in ("GAUSS", "LOBATTO") else M
    K = p["K"]
    return min(c, K + (K > 0 and p["qd"] in ("TRAP", "TRAPAR")) + (p["up"] == "QUADRATURE"))


@oracle("C23")
class Orders:
    """reported order against the Taylor coefficients of the step, all node and quadrature types, the six time-stepping approximations and some others, 0 to 7 sweeps, 1 to 6 nodes (9 in thorough); solver: the coefficients against values of the solver on a circle"""

    @staticmethod
    def cases(rng, tier):
        top = 6 if tier == "quick" else 9
        for M in range(1, top + 1):
            for nt in NT:
                for qt in QT:
                    if M == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                        continue
                    for up in ("QUADRATURE", "LASTNODE"):
                        if up == "LASTNODE" and qt not in ("RADAU-RIGHT", "LOBATTO"):
                            continue
                        for qd in STEP + [OTHER[int(rng.integers(len(OTHER)))]]:
                            for K in range(0, 8):
                                yield {"kind": "order", "coll": [M, nt, qt], "qd": qd, "up": up, "K": K}
                            if rng.random() < (0.1 if tier == "quick" else 0.4):
                                yield {"kind": "solver", "coll": [M, nt, qt], "qd": qd, "up": up, "K": int(rng.integers(0, 5))}

    @staticmethod
    def check(p):
        M, nt, qt = p["coll"]
        c = Collocation(nNodes=M, nodeType=nt, quadType=qt)
        D = QDELTA_GENERATORS[p["qd"]](qGen=c).getQDelta()
        K = p["K"]
        w = np.array(c.weights) if p["up"] == "QUADRATURE" else None
        if p["kind"] == "solver":
            r, N, n = 0.6, 128, 8
            if np.abs(np.linalg.eigvals(D)).max() * r > 0.9:
                r = 0.9 / np.abs(np.linalg.eigvals(D)).max()
            z = r * np.exp(2j * np.pi * np.arange(N) / N)
            v = [solveDahlquistSDC(x, 1, 1, 1, K, c.Q, D, weights=w)[-1] for x in z]
            got = np.fft.fft(v)[:n + 1] / N * r ** -np.arange(n + 1.)
            return close(got, series(c.Q, D, w, K, n), 1e-9 * r ** -np.arange(n + 1.), "%s: Taylor coefficients of the step" % p)
        g = guaranteed(p)
        rep = getOrderSDC(c, K, p["qd"], p["up"])
        what = "%d nodes %s %s, %s, %s, %d sweeps" % (M, nt, qt, p["qd"], p["up"], K)
        if rep < g:
            return "%s: reported order %r, guaranteed %d" % (what, rep, g)
        a = attained(series(c.Q, D, w, K, max(int(rep), g) + 1))
        if a < rep:
            return "%s: reported order %r, attained %d" % (what, rep, a)
        if a < g:
            return "%s: attained order %d, guaranteed %d" % (what, a, g)
