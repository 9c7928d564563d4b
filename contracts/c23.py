"""C23 reported SDC orders.  lemmas/Order.lean: K sweeps of any approximations from copied initial values on a collocation
method whose weights are exact below p have order min(p, K + 1) with the weighted update and min(p, K) at the last node (the
right end), one order more for K >= 1 when the first QDelta integrates the first-degree polynomial exactly.  Here: the
trapezoidal approximations do, and getOrderSDC reports exactly that order.  Where it reports more (its table of single
configurations), the order is decided for that configuration from the Taylor coefficients of the step."""
import json
import os
from math import factorial
from .base import *
from . import c11
from .c06 import NT
from .c07 import setup, Nodes, Approx
from .c21 import exact

M, K = var("M", "I"), var("K", "I")
STEP = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
TRAPS = ("TRAP", "TRAPAR")
KNOWN = None
SINGLE = 7   # configurations with fewer nodes and sweeps may be singled out


def known():
    """reported orders recorded as known findings: {configuration: reported}"""
    global KNOWN
    if KNOWN is None:
        KNOWN = {}
        for d in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")))["findings"]:
            if d.get("status") == "known" and d["property"] == "C23":
                for m in d["match"]["messages"]:
                    what, rest = m.split(": reported order ")
                    KNOWN[what] = int(rest.split(",")[0])
    return KNOWN


def basis(x):
    """interpolation on the points x: coefficients of the Lagrange polynomials"""
    import mpmath as mp
    out = []
    for j in range(len(x)):
        c = [mp.mpf(1)]
        for k in range(len(x)):
            if k != j:
                d = x[j] - x[k]
                c = [((c[i - 1] if i else 0) - x[k] * (c[i] if i < len(c) else 0)) / d for i in range(len(c) + 1)]
        out.append(c)
    return out


def refnodes(n, nt, qt):
    """the nodes of C06 in [0, 1], 60 digits"""
    import mpmath as mp
    if nt == "EQUID":
        a, b = {"LOBATTO": (0, n - 1), "RADAU-RIGHT": (1, n), "RADAU-LEFT": (0, n), "GAUSS": (1, n + 1)}[qt]
        return [mp.mpf(a + i) / b for i in range(n)]
    al = [coeff("a", nt, k) for k in range(n)]
    be = [coeff("b", nt, k) for k in range(n)]

    def ev(m, t):
        p0, p1 = mp.mpf(0), mp.mpf(1)
        for k in range(m):
            p0, p1 = p1, (t - al[k]) * p1 - (be[k] if k else 0) * p0
        return p1
    # modified last coefficients: the polynomial vanishes at the prescribed ends
    L = n - 1
    A, B = al[L], be[L]
    if qt in ("RADAU-LEFT", "RADAU-RIGHT"):
        s = -1 if qt == "RADAU-LEFT" else 1
        A = s - (B * ev(L - 1, mp.mpf(s)) / ev(L, mp.mpf(s)) if L else 0)
    elif qt == "LOBATTO":
        p, q = [ev(L, mp.mpf(s)) for s in (-1, 1)], [ev(L - 1, mp.mpf(s)) for s in (-1, 1)]
        # (s - A) p_s - B q_s = 0 at both ends
        det = p[0] * q[1] - p[1] * q[0]
        A = (-p[0] * q[1] - p[1] * q[0]) / det
        B = 2 * p[0] * p[1] / det
    co = [[mp.mpf(1)]]
    prev = [mp.mpf(0)]
    for k in range(n):
        a = A if k == L else al[k]
        b = (B if k == L else be[k]) if k else mp.mpf(0)
        c = co[-1]
        z = lambda p, i: p[i] if 0 <= i < len(p) else mp.mpf(0)
        co.append([z(c, i - 1) - a * z(c, i) - b * z(prev, i) for i in range(len(c) + 1)])
        prev = c
    r = mp.polyroots(co[-1][::-1], maxsteps=500, extraprec=400)
    return sorted((mp.re(x) + 1) / 2 for x in r)


def coeff(which, nt, k):
    import mpmath as mp
    if which == "a":
        return mp.mpf({"CHEBY-3": 1, "CHEBY-4": -1}.get(nt, 0)) / 2 if k == 0 else mp.mpf(0)
    if nt == "LEGENDRE":
        return mp.mpf(k * k) / (4 * k * k - 1)
    return mp.mpf(1) / 2 if nt == "CHEBY-1" and k == 1 else mp.mpf(1) / 4


ATT = {}


def attained(n, nt, qt, qd, up, k, top=14):
    """number of Taylor coefficients of the step (behind the first) that are those of the exponential, 60 digits"""
    import mpmath as mp
    key = (n, nt, qt, qd, up, k)
    if key in ATT:
        return ATT[key]
    with mp.workdps(60):
        x = refnodes(n, nt, qt)
        B = basis(x)
        integ = lambda c, t: sum(v * t ** (i + 1) / (i + 1) for i, v in enumerate(c))
        Q = mp.matrix(n, n)
        for i in range(n):
            for j in range(n):
                Q[i, j] = integ(B[j], x[i])
        w = [integ(B[j], mp.mpf(1)) for j in range(n)]
        d = [x[0]] + [x[i] - x[i - 1] for i in range(1, n)]
        D = mp.matrix(n, n)
        for i in range(n):
            for j in range(n):
                be, fe = (d[j] if j <= i else 0), (d[j + 1] if j < i else 0)
                D[i, j] = {"BE": be, "FE": fe, "TRAP": mp.mpf(be + fe) / 2, "BEPAR": x[i] if i == j else 0, "TRAPAR": x[i] / 2 if i == j else 0}.get(qd, 0)
        if qd == "SOE":
            D = soe(n, x, d)
        U = [mp.matrix([1] * n)] + [mp.zeros(n, 1)] * top
        for _ in range(k):
            V = [U[0]]
            for j in range(top):
                V.append((Q - D) * U[j] + D * V[j])
            U = V
        s = [mp.mpf(1)] + [sum(w[i] * U[j][i] for i in range(n)) for j in range(top)] if up == "QUADRATURE" else [U[j][n - 1] for j in range(top + 1)]
        r = next((j - 1 for j in range(top + 1) if abs(s[j] * factorial(j) - 1) > mp.mpf(10) ** -40), top)
    ATT[key] = r
    return r


def soe(n, x, d):
    """leap-frog steps, the first one from the left bound 0 (forward Euler when the first node is the left bound): see C11"""
    import mpmath as mp
    D, t = mp.zeros(n, n), [mp.mpf(0)] + x
    for m in range(1, n):
        u, v, z = t[m - 1:m + 2]
        if u == v:
            am, a0, ap = 0, mp.mpf(0), 1 / (z - v)
        else:
            # derivative at v of the interpolation on u, v, z
            am, ap = (v - z) / ((u - v) * (u - z)), (v - u) / ((z - u) * (z - v))
            a0 = -am - ap
        for j in range(m):
            D[m, j] = ((1 if j == m - 1 else 0) - a0 * D[m - 1, j] - (am * D[m - 2, j] if m > 1 else 0)) / ap
    return D


@contract("C23", ["TRAP.computeQDelta", "TRAPAR.computeQDelta"], "the trapezoidal approximations integrate the first-degree polynomial exactly, any nodes and left bound")
def linear(V):
    ts = V.mod("qmat.qdelta.timestepping")
    x, tL = c11.x, c11.tL
    n = c11.M
    for name in TRAPS:
        def post(P, Q):
            i = fresh("i", "I")
            P.shape("square", Q, (n, n))
            s = sub(Sum(I0, n, lambda j: mul(Q.at(i, j), sub(x(j), tL))), scale(Fraction(1, 2), mul(sub(x(i), tL), sub(x(i), tL))))
            P.prove("row i applied to node - tLeft is (node i - tLeft)^2 / 2", eq(s, R0), le(I0, i), lt(i, n))
        V.explore(name, c11.PRE, lambda: getattr(ts, name)(nodes=arr("x", (n,)), tLeft=wrap(tL)).getQDelta(), post)


def formula(nt, qt, qd, up):
    """the order K sweeps attain (lemmas/Order.lean)"""
    t = add(K, ite(lt(I0, K), I1, I0)) if qd in TRAPS else K
    if up == "QUADRATURE":
        t = add(t, I1)
    p = exact(nt, qt)
    return ite(le(p, t), p, t)


def orders(up):
    def check(V):
        co = setup(V)
        sdc = V.mod("qmat.utils.sdc")
        for nt in NT:
            for qt in ("RADAU-RIGHT", "LOBATTO") + (("GAUSS", "RADAU-LEFT") if up == "QUADRATURE" else ()):
                low = 2 if qt in ("LOBATTO", "RADAU-LEFT") else 1
                for qd in STEP + [None]:
                    name = qd or Str("qDelta")
                    pre = (le(ic(low), M), le(I0, K)) + (() if qd else tuple(not_(tm.var("qDelta==%r" % q, "B")) for q in STEP))
                    F = formula(nt, qt, qd, up)

                    def run():
                        Nodes.log, Approx.made = [], []
                        c = co.Collocation(wrap(M), nt, qt)
                        return sdc.getOrderSDC(c, wrap(K), name, up)

                    def post(P, r):
                        r = tm.toI(term(r))
                        P.prove("not below the order every configuration attains", le(F, r))
                        if P.holds(le(r, F)):
                            P.prove("not above the order attained", le(r, F))
                            return
                        # single configurations: decided one by one, everything else by the formula
                        rest = []
                        for m in range(low, SINGLE):
                            for k in range(SINGLE):
                                at = [eq(M, ic(m)), eq(K, ic(k))]
                                rest.append(not_(and_(*at)))
                                if P.holds(tm.FALSE, *at) or P.holds(le(r, F), *at):
                                    continue
                                val = subst(r, {M: ic(m), K: ic(k)})
                                if not isconst(val):
                                    n = next((q for q in range(40) if P.holds(eq(r, ic(q)), *at)), None)
                                else:
                                    n = int(cval(val))
                                what = "%d nodes %s %s, %s, %s, %d sweeps" % (m, nt, qt, qd, up, k)
                                if n is None or not qd:
                                    P.prove("%s: not above the order attained" % what, le(r, F), *at)
                                elif known().get(what) == n:
                                    P.fact("reported order %d: known finding" % n, True)
                                else:
                                    a = attained(m, nt, qt, qd, up, k)
                                    P.fact("%s: reported order %d is attained (Taylor coefficients, 60 digits)" % (what, n), n <= a, "attained order %d" % a)
                        P.prove("not above the order attained", le(r, F), *rest)
                    V.explore("%s %s %s" % (nt, qt, qd or "any other name"), pre, run, post)
    check.__name__ = "orders_" + up
    contract("C23", ["qmat.utils.sdc.getOrderSDC", "qmat.qcoeff.collocation.Collocation.order"],
             "the reported order is the attained one, %s, every configuration, approximation, number of nodes and sweeps" % up, time_=200)(check)


for up in ("QUADRATURE", "LASTNODE"):
    orders(up)
