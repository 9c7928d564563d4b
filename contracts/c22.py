"""C22 optimised diagonal coefficients make the stiff sweep nilpotent.

MIN_SR_S: the returned coefficients satisfy det((1 - z) I + z diag(1/c) Q) = 1 at every non-zero node z; lemmas/Stiff.lean
turns that into nilpotency of I - QDelta^{-1} Q.  MIN: the returned matrix is diag(1/x) with rho(I - diag(x) Q) not larger than
at the start of the search.  Assumed: what scipy.optimize promises (a root; a point not worse than the start)."""
from .base import *

M, S_ = var("M", "I"), var("S", "I")
cx = lambda n, i: app("cx", (n, i), "R")
cQ = lambda n, i, j: app("cQ", (n, i, j), "R")
LEFT = ("LOBATTO", "RADAU-LEFT")
QUADS = ("GAUSS", "RADAU-RIGHT", "RADAU-LEFT", "LOBATTO")
R = tm.toR
ROOTS = []          # (number, function) of every call of the root finder on the current path


class Coll:
    """contract of Collocation (C05, C07): n strictly increasing nodes in [0, 1], the first one 0 exactly for LOBATTO and
    RADAU-LEFT, and the matrix Q"""

    def __init__(self, nNodes=None, nodeType=None, quadType=None, **kw):
        if kw:
            raise Unsupported("Collocation options")
        n = self.n = term(nNodes)
        self.nNodes, self.nodeType, self.quadType = nNodes, nodeType, quadType
        sym.S.note("Collocation: nodes and Q (contract of C07)")
        self._x = SArr.new((n,), lambda i: cx(n, i), "f")
        self._Q = SArr.new((n, n), lambda i, j: cQ(n, i, j), "f")
        for f in nodefacts(n, quadType in LEFT):
            sym.S.assume(f)

    nodes = property(lambda self: self._x)
    Q = property(lambda self: self._Q)


def nodefacts(n, left):
    z = ic(1 if left else 0)
    return [Forall(z, n, lambda i: lt(R0, cx(n, i))), Forall(I0, n, lambda i: Forall(I0, n, lambda j: implies(lt(i, j), lt(cx(n, i), cx(n, j)))))] + ([eq(cx(n, I0), R0)] if left else [])


class Root:
    """contract of scipy.optimize: fsolve returns a zero of the function, in a new array; minimize returns some point"""

    @staticmethod
    def fsolve(f, x0, args=(), fprime=None, full_output=0, **kw):
        if args or fprime is not None or full_output or set(kw) - {"xtol", "maxfev", "col_deriv", "epsfcn", "factor", "diag", "band"}:
            raise Unsupported("fsolve options")
        x0 = darr(x0)
        if x0.ndim != 1:
            raise Unsupported("fsolve start")
        n = x0.vshape[0]
        sym.S.note("scipy.optimize.fsolve: a zero of the given function, none of whose entries vanishes")
        c = lambda i: app("root", (n, i), "R")
        sym.S.assume(Forall(I0, n, lambda i: ne(c(i), R0)))
        v = darr(f(SArr.new((n,), c, "f")))
        if v.ndim != 1 or not sym.dimeq(v.vshape[0], n):
            raise Unsupported("fsolve: shape of the function")
        g = v.snap()
        sym.S.assume(Forall(I0, n, lambda i: eq(toR(g(i)), R0)))
        ROOTS.append((n, g))
        return SArr.new((n,), c, "f")

    @staticmethod
    def minimize(f, x0, *a, **kw):
        x = darr(x0)
        n = x.vshape[0]
        sym.S.note("scipy.optimize.minimize: some point")
        return type("Result", (), {"x": SArr.new((n,), lambda i: app("argmin", (n, i), "R"), "f")})()


def detat(n, z, q, c):
    """det((1 - z) I + z diag(1/c) q)"""
    l = lam("I", lambda r: lam("I", lambda s: add(ite(eq(r, s), sub(R1, z), R0), mul(z, q(r, s), recip(c(r))))))
    return app("DET", (n, l), "R")


def gen(V, quad, size):
    dg = V.mod("qmat.qdelta.diag")
    dg.spo, dg.Collocation = Root, Coll
    return dg.MIN_SR_S(wrap(size), Str("nodeType"), quad)


def coeffs(V):
    for quad in QUADS:
        left = quad in LEFT
        o = I1 if left else I0
        lo = ic(2 if left else 1)
        for ab in (False, True):
            for which in ("the generator's own", "another"):
                m = S_ if which == "the generator's own" else M
                n = sub(m, o)

                def run():
                    del ROOTS[:]
                    g = gen(V, quad, S_)
                    v = g.computeCoeffs(wrap(m), wrap(var("a", "R")), wrap(var("b", "R"))) if ab else g.computeCoeffs(wrap(m))
                    return v, list(ROOTS)

                def post(P, v):
                    v, roots = v
                    c, x = darr(v[0]), darr(v[1])
                    P.array("the nodes", x, (m,), lambda i: cx(m, i))
                    if not P.shape("one coefficient for each node", c, (m,)):
                        return
                    if left:
                        P.prove("coefficient 0 for the node at the left bound", eq(toR(c.at(I0)), R0))
                    q = lambda r, s: cQ(m, add(r, o), add(s, o))
                    d = lambda r: toR(c.at(add(r, o)))
                    j = fresh("j", "I")
                    # a single one: either the entry of Q outright, or found like the others
                    single = not roots or P.holds(eq(d(I0), q(I0, I0)), eq(n, I1))
                    if single:
                        P.prove("a single coefficient is the entry of Q", eq(d(I0), q(I0, I0)), eq(n, I1))
                    rng = (le(I0, j), lt(j, n), lt(I1 if single else I0, n))
                    res = sub(detat(n, cx(m, add(j, o)), q, d), R1)
                    # the root finder makes the function it is given vanish: it is this residual, up to sign and order
                    z = R0
                    for nn, g in roots:
                        for c_ in (g(j), neg(toR(g(j))), g(sub(nn, add(j, I1)))):
                            if z is R0 and P.holds(eq(res, toR(c_)), *rng):
                                z = toR(c_)
                    P.prove("det((1 - z) I + z diag(1/c) Q) - 1, at each non-zero node z, is the function made zero", eq(res, z), *rng)
                V.explore("%s, %s number of nodes%s" % (quad, which, ", start values from the fit" if ab else ""), (le(lo, S_), le(lo, m)) + (() if m is S_ else (ne(m, S_),)), run, post)


contract("C22", ["qmat.qdelta.diag.MIN_SR_S.__init__", "qmat.qdelta.diag.MIN_SR_S.size", "qmat.qdelta.diag.MIN_SR_S.computeCoeffs"],
         "the coefficients solve the nilpotency condition at every non-zero node; leading 0 for a node at the left bound; any number of nodes, any start values")(coeffs)


def coeffsOf(self, nNodes, a=None, b=None):
    """contract of computeCoeffs (above): some coefficients for m nodes, and these nodes.  The start values are not
    looked at; the same symbol stands for the results of all calls for m nodes (a mixture of two such results is not told apart)"""
    m = tm.toI(term(nNodes))
    sym.S.note("MIN_SR_S.computeCoeffs (contract above)")
    return SArr.new((m,), lambda i: app("mins", (m, i), "R"), "f"), SArr.new((m,), lambda i: cx(m, i), "f")


def fitOf(coeffs, nodes):
    """fit: two numbers"""
    n = darr(coeffs).vshape[0]
    sym.S.note("MIN_SR_S.fit: some start values")
    return SArr.new((ic(2),), lambda i: app("fit", (n, i), "R"), "f")


def incremental(V):
    dg = V.mod("qmat.qdelta.diag")
    for quad in QUADS:
        for cls in ("MIN_SR_S", "MIN_SR_FLEX"):
            k = var("k", "I")

            def run():
                gen(V, quad, M)
                dg.MIN_SR_S.computeCoeffs = coeffsOf
                dg.MIN_SR_S.fit = staticmethod(fitOf)
                g = getattr(dg, cls)(wrap(M), Str("nodeType"), quad)
                return g.getQDelta(wrap(k))

            def post(P, v):
                P.array("the diagonal matrix of coefficients computed for all nodes", v, (M, M), lambda i, j: ite(eq(i, j), app("mins", (M, i), "R"), R0))
            V.explore("%s, %s%s" % (cls, quad, ", sweep k" if cls == "MIN_SR_S" else ", sweep k > M"), (le(ic(2 if quad in LEFT else 1), M), lt(M if cls != "MIN_SR_S" else I0, k)), run, post)


contract("C22", ["qmat.qdelta.diag.MIN_SR_S.computeQDelta", "qmat.qdelta.diag.MIN_SR_S.size"],
         "QDelta is the diagonal matrix of the coefficients computed for all nodes, whatever the incremental start values are")(incremental)


QM = lambda i, j: app("Q", (i, j), "R")


class Search(Root):
    """contract of minimize: the result is not worse than the start"""

    @staticmethod
    def minimize(f, x0, args=(), method=None, **kw):
        if args or kw or not isinstance(method, str) or method.lower() not in ("nelder-mead", "powell", "bfgs", "cg", "l-bfgs-b", "tnc", "slsqp"):
            raise Unsupported("minimize options")
        x = darr(x0)
        if x.ndim != 1:
            raise Unsupported("minimize start")
        n, g0 = x.vshape[0], x.snap()
        sym.S.note("scipy.optimize.minimize: a point with non-zero entries whose value is not above the one at the start")
        s = lambda i: app("argmin", (n, i), "R")
        sym.S.assume(Forall(I0, n, lambda i: ne(s(i), R0)))
        ROOTS.append((n, g0, f(SArr.new((n,), s, "f")), f(SArr.new((n,), g0, "f"))))
        return type("Result", (), {"x": SArr.new((n,), s, "f"), "success": True})()


def radius(n, d):
    """absolute values of the eigenvalues of I - diag(d) Q"""
    l = lam("I", lambda r: lam("I", lambda s: sub(ite(eq(r, s), R1, R0), mul(d(r), QM(r, s)))))
    return lambda i: add(app("EIGR", (n, l, i), "R"), mul(IMAG, app("EIGI", (n, l, i), "R")))


def search(V):
    dg = V.mod("qmat.qdelta.diag")
    k = var("k", "I")
    for how, call in (("getQDelta()", lambda g: g.getQDelta()), ("getQDelta(k)", lambda g: g.getQDelta(wrap(k)))):
        def run():
            dg.spo = Search
            del ROOTS[:]
            g = dg.MIN(arr("Q", (M, M)))
            return call(g), list(ROOTS)

        def post(P, v):
            D, roots = v
            if not P.fact("one search", len(roots) == 1, "%d calls of minimize" % len(roots)):
                return
            n, x0, fx, f0 = roots[0]
            P.prove("one unknown for each node", eq(n, M))
            s = lambda i: app("argmin", (n, i), "R")
            P.array("QDelta is the inverse of the diagonal matrix of the result", D, (M, M), lambda i, j: ite(eq(i, j), recip(s(i)), R0))
            P.maxabs("the function that is minimised is the spectral radius of I - QDelta^-1 Q", fx, M, radius(M, s))
            P.maxabs("its value at the start is the spectral radius of I - QDelta0^-1 Q for the start of the search", f0, M, radius(M, x0))
            i = fresh("i", "I")
            P.nonzero("the start is a non-singular matrix", toR(x0(i)), le(I0, i), lt(i, M))
        V.explore("MIN, %s" % how, (le(I1, M), le(I1, k)), run, post)


contract("C22", ["qmat.qdelta.diag.MIN.rho", "qmat.qdelta.diag.MIN.computeQDelta", "QDeltaGenerator.__init__"],
         "QDelta = diag(1/x) for the result x of a minimisation of the spectral radius of I - diag(x) Q")(search)
