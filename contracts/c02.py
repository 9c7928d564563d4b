"""C02 integration matrices (the polynomial statement follows by lemmas/Quadrature.lean: integration_row)."""
from .base import *
from .c01 import n, x, w_, PRE, PREP, approx

m = var("m", "I")
HALF = recip(rc(2))


def rule(st, name, exact):
    """contract of a quadrature rule on [-1, 1]: nodes xi, weights om, exact for all degrees below exact(N)"""
    def f(N):
        N = term(N)
        st.setdefault("calls", []).append((name, N))
        st["exact"] = exact(N)
        st["need"] = (le(I1, N),)
        if not sym.S.ctx.valid(le(I1, N)):
            raise Unsupported("size of the quadrature rule")
        sym.S.note("%s(N): a rule on [-1, 1], exact for all degrees below %s" % (name, show(exact(var("N", "I")))))
        return (SArr.new((N,), lambda q: A("xi_" + name, q), "f"), SArr.new((N,), lambda q: A("om_" + name, q), "f"))
    return f


def rules(V):
    """callee contracts of the quadrature rules"""
    lg = V.mod("qmat.lagrange")
    st = {}
    lg.np.polynomial.legendre.leggauss = rule(st, "leggauss", lambda N: mul(ic(2), N))
    lg.roots_legendre = rule(st, "roots_legendre", lambda N: mul(ic(2), N))
    # computeFejerRule: exact below N, and for odd N (symmetry) below N + 1
    lg.computeFejerRule = rule(st, "fejer", lambda N: add(N, imod(N, ic(2))))
    return st


def rows(V):
    """callee contract of getInterpolationMatrix (C01): the row of a time"""
    lg = V.mod("qmat.lagrange")

    def stub(self, times, duplicates=True):
        t = darr(times)
        if len(t.vshape) != 1:
            raise AssertionError("times is not a 1D array")
        sym.S.note("getInterpolationMatrix: row of a time (contract of C01)")
        g = t.snap()
        if any(isinstance(d, tuple) for d in t.vshape):
            d = t.vshape[0]
            return SArr.new((d, n), lambda i, j: A("row", toR(g(i)), j), "f")
        return SArr.new((t.vshape[0], n), lambda i, j: A("row", toR(g(i)), j), "f")
    lg.LagrangeApproximation.getInterpolationMatrix = stub


def integration(V, rep=False):
    lg = V.mod("qmat.lagrange")
    st = rules(V)
    rows(V)
    a, b = (lambda i: A("I", i, I0)), (lambda i: A("I", i, I1))
    for quad, name in (("LEGENDRE_NUMPY", "leggauss"), ("LEGENDRE_SCIPY", "roots_legendre"), ("FEJER", "fejer"), (None, None)):
        for dup in (True, False) if not rep else (False,):
            def run():
                st.clear()
                o = approx(V, rep)
                I = arr("I", (m, ic(2)))
                st["fr"] = Frame(intervals=I, weights=o.weights, points=o.points)
                kw = {} if quad is None else {"numQuad": quad}
                if not dup:
                    kw["duplicates"] = False
                return o.getIntegrationMatrix(I, **kw), dict(st)

            def post(P, v):
                Q, st = v
                calls = st.get("calls", [])
                if not P.fact("a quadrature rule is used", len(calls) > 0):
                    return
                if len(calls) > 1:
                    raise Unsupported("several quadrature rules")
                nm, N = calls[0]
                P.prove("the rule is exact for every degree below the number of points", le(n, st["exact"]))
                half = lambda i: mul(sub(b(i), a(i)), HALF)
                P.array("entries: the moved rule applied to the interpolation rows, one row per interval in the given order", Q, (m, n),
                        lambda i, j: Sum(I0, N, lambda q: mul(A("om_" + nm, q), half(i),
                                         A("row", add(mul(half(i), A("xi_" + nm, q)), mul(HALF, add(b(i), a(i)))), j))))
                st["fr"].check(P)
            V.explore("numQuad=%s%s" % (quad, "" if dup else ", duplicates=False"), (PREP if rep else PRE) + (le(I1, m),), run, post)
    if rep:
        return
    s = Str("numQuad")
    no = tuple(not_(term(s == k)) for k in ("LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"))
    V.explore("any other rule name", PRE + no + (le(I1, m),), lambda: approx(V).getIntegrationMatrix(arr("I", (m, ic(2))), numQuad=s), raises=(NotImplementedError, ValueError))
    V.explore("intervals that are no list of pairs", PRE + (le(I1, m),), lambda: approx(V).getIntegrationMatrix(arr("I", (m, ic(3)))), raises=(AssertionError, ValueError))
    V.explore("one-dimensional intervals", PRE + (le(I1, m),), lambda: approx(V).getIntegrationMatrix(arr("I", (m,))), raises=(AssertionError, ValueError))


contract("C02", ["qmat.lagrange.LagrangeApproximation.getIntegrationMatrix"],
         "every interval list, every rule name: the rule moved to the interval, applied to the interpolation rows, with sufficient exactness")(integration)


# ------------------------------------------------------------------ Fejer rule
def reim(t):
    """real and imaginary part of a term over the reals and IMAG"""
    if IMAG not in t.fv:
        if t.op == "fn" and t.args[0] in ("re", "im"):
            return (toR(t.args[1]), R0) if t.args[0] == "re" else (R0, R0)
        return t, R0
    if t is IMAG:
        return R0, R1
    if t.op == "+":
        L = [reim(a) for a in t.args]
        return add(*[a for a, _ in L]), add(*[b for _, b in L])
    if t.op == "*":
        a, b = R1, R0
        for u in t.args:
            c, d = reim(u)
            a, b = sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))
        return a, b
    if t.op == "pow" and isconst(t.args[1]) and cval(t.args[1]) > 0:
        return reim(mk("*", (t.args[0],) * int(cval(t.args[1])), "R"))
    if t.op == "ite" and IMAG not in t.args[0].fv:
        (a, b), (c, d) = reim(t.args[1]), reim(t.args[2])
        return ite(t.args[0], a, c), ite(t.args[0], b, d)
    if t.op == "sum":
        lo, hi, l = t.args
        if IMAG in lo.fv or IMAG in hi.fv:
            raise Unsupported("complex bounds")
        k = fresh("k", "I")
        f = lambda i: reim(open_(l, i))
        return Sum(lo, hi, lambda i: f(i)[0]), Sum(lo, hi, lambda i: f(i)[1])
    if t.op == "fn" and t.args[0] == "exp":
        a, b = reim(t.args[1])
        e = R1 if a is R0 else fn("exp", a)
        return mul(e, fn("cos", b)), mul(e, fn("sin", b))
    if t.op == "fn" and t.args[0] in ("re", "im"):
        return reim(t.args[1])[t.args[0] == "im"], R0
    raise Unsupported("complex term %s" % show(t)[:200])


def fejer(V):
    """nodes and weights of the Fejer rule: the formula whose exactness is lemmas/Fejer.lean"""
    lg = V.mod("qmat.lagrange")
    cyc = lambda k, p, N: fn("exp", mul(IMAG, PI, rc(2), toR(k), toR(p), recip(toR(N))))

    def ifft(a, *o, **kw):
        if o or kw:
            raise Unsupported("ifft options")
        a = darr(a)
        if len(a.vshape) != 1:
            raise Unsupported("ifft of a matrix")
        N = sym.dimsize(a.vshape[0])
        g = a.snap()
        sym.S.note("np.fft.ifft(v)[p] = 1/n sum_k v_k exp(2 pi i k p / n)")
        return SArr.new((a.vshape[0],), lambda p: mul(recip(toR(N)), Sum(I0, N, lambda k: mul(toR(g(k)), cyc(k, p, N)))), "c")
    lg.np.fft.ifft = ifft
    nn = lambda: toR(n)
    for kind in ("int",):
        def run():
            return lg.computeFejerRule(wrap(n))

        def post(P, v):
            x, w = v
            P.array("nodes", x, (n,), lambda p: fn("cos", mul(PI, add(mul(rc(2), sub(nn(), toR(p))), rc(-1)), recip(mul(rc(2), nn())))))
            P.shape("weights", w, (n,))
            p = fresh("p", "I")
            m = sub(n, idiv(n, ic(2)))
            v0 = lambda k: ite(lt(k, m), mul(rc(2), fn("exp", mul(IMAG, PI, toR(k), recip(nn()))), recip(sub(R1, mul(rc(4), toR(k), toR(k))))), R0)
            v1 = lambda k: add(v0(k), sym.conj(v0(sub(n, k))))
            spec = mul(recip(nn()), Sum(I0, n, lambda k: mul(v1(k), cyc(k, p, n))))
            P.prove("weights: real part of the inverse Fourier transform of v0(k) + conj(v0(n - k))", eq(reim(toR(w.at(p)))[0], reim(spec)[0]), le(I0, p), lt(p, n))
            P.owned("nodes and weights are different arrays", x, w)
        V.explore("any number of points", (le(I1, n),), run, post, may_raise=[(ValueError, lambda ctx, e: bc(True))])


contract("C02", ["qmat.lagrange.computeFejerRule"], "nodes and weights of the Fejer rule, for every number of points")(fejer)
