"""C12 algebraic approximations: exact factors of Q."""
from .base import *

N = var("N", "I")
PRE = (le(I1, N),)


def q(i, j):
    return A("Q", i, j)


def LAMT(f):
    return lam("I", lambda i: lam("I", lambda j: toR(f(i, j))))


def LUU(i, j):
    """upper factor of scipy.linalg.lu of the transpose"""
    return ite(le(i, j), app("LUU", (N, LAMT(lambda a, b: q(b, a)), i, j), "R"), R0)


def ldustub(Am):
    """contract of lduFactorization (proved under C19): its second value is a diagonal matrix determined by the argument"""
    a = darr(Am)
    if len(a.vshape) != 2:
        raise Unsupported("lduFactorization of this shape")
    l, n = shim._lam2(a), a.vshape[0]
    sym.S.note("lduFactorization: (L, D, U), D diagonal (contract of C19)")
    f = lambda nm: SArr.new((n, n), lambda i, j: app(nm, (n, l, i, j), "R"), "f")
    return f("LDL"), SArr.new((n, n), lambda i, j: ite(eq(i, j), app("LDD", (n, l, i), "R"), R0), "f"), f("LDR")


SPEC = {
    "PIC": lambda i, j: R0,
    "Exact": lambda i, j: q(i, j),
    "QPar": lambda i, j: ite(eq(i, j), q(i, i), R0),
    "GS": lambda i, j: ite(le(j, i), q(i, j), R0),
    "LU": lambda i, j: LUU(j, i),
    "LU2": lambda i, j: scale(2, LUU(j, i)),
    "LDU": lambda i, j: ite(eq(i, j), app("LDD", (N, LAMT(q), i), "R"), R0),
}
LOWER = ["PIC", "QPar", "GS", "LU", "LU2", "LDU"]
DIAG = ["PIC", "QPar", "LDU"]


def scheme(V, name, how):
    al = V.mod("qmat.qdelta.algebraic")
    V.mod("qmat.utils.num").lduFactorization = ldustub
    if hasattr(al, "lduFactorization"):
        al.lduFactorization = ldustub
    st = {}

    def run():
        m = SArr.new((N, N), lambda i, j: app("Qi", (i, j), "I"), "i") if how == "int" else arr("Q", (N, N))
        st["m"], st["fr"] = m, Frame(Q=m)
        if how == "generic":
            return V.mod("qmat").genQDeltaCoeffs(name, Q=m)
        g = getattr(al, name)(m)
        if how == "k":
            return g.genCoeffs(k=wrap(var("k", "I")))
        if how == "compute":
            r = g.computeQDelta()
            st["again"] = g.getQDelta()
            return r
        return g.getQDelta()

    def post(P, v):
        sp = SPEC[name]
        if how == "int":
            f = lambda i, j: loops.mapapps(sp(i, j), {"Q": lambda a: tm.toR(app("Qi", tuple(a), "I"))})
        else:
            f = sp
        P.array("QDelta is the stated factor of Q", v, (N, N), f)
        if "again" in st:
            P.array("repeated evaluation", st["again"], (N, N), f)
        i, j = fresh("i", "I"), fresh("j", "I")
        rng = (le(I0, i), lt(i, N), le(I0, j), lt(j, N))
        if name in LOWER:
            P.prove("lower triangular", eq(v.at(i, j), R0), lt(i, j), *rng)
        if name in DIAG:
            P.prove("diagonal", eq(v.at(i, j), R0), ne(i, j), *rng)
        st["fr"].check(P)
        P.owned("QDelta shares no memory with Q", v, st["m"])
    V.explore("%s(%s)" % (name, how), PRE, run, post)


for _n in SPEC:
    def _f(V, _n=_n):
        for how in ("array", "int", "generic", "k", "compute"):
            scheme(V, _n, how)
    _f.__name__ = "algebraic_" + _n
    contract("C12", ["QDeltaGenerator.__init__", "qmat.qdelta.algebraic.%s.computeQDelta" % _n, "QDeltaGenerator.getQDelta", "QDeltaGenerator.genCoeffs",
                     "genQDeltaCoeffs"], "%s: stated factor of Q, structure, frame" % _n)(_f)
