"""C09 Runge-Kutta tables: storage of an arbitrary table; the finite set of registered tables, every rooted-tree condition."""
import json
from .base import *
from .c10 import table, TAB, N
from fractions import Fraction as F

# ---------------------------------------------------------------- rooted trees


def trees(n, memo={}):
    """rooted trees with n vertices, as non-increasing tuples of subtrees (built from the multisets of subtrees)"""
    if n not in memo:
        pool = [(s, k, t) for s in range(1, n) for k, t in enumerate(trees(s))]

        def pick(left, last):
            if left == 0:
                yield ()
            for q in range(last, len(pool)):
                if pool[q][0] <= left:
                    for r in pick(left - pool[q][0], q):
                        yield (pool[q][2],) + r
        memo[n] = list(pick(n - 1, 0))
    return memo[n]


COUNT = {1: 1, 2: 1, 3: 2, 4: 4, 5: 9, 6: 20, 7: 48, 8: 115, 9: 286}   # number of rooted trees, OEIS A000081


def tsize(t):
    return 1 + sum(map(tsize, t))


def gamma(t):
    g = tsize(t)
    for s in t:
        g *= gamma(s)
    return g


def canon(t):
    return tuple(sorted(map(canon, t)))


def phi(t, M):
    v = [F(1)] * len(M)
    for s in t:
        p = phi(s, M)
        v = [x * sum((a * q for a, q in zip(r, p)), F(0)) for x, r in zip(v, M)]
    return v


# ---------------------------------------------------------------- arbitrary tables
def store(V):
    bt = V.mod("qmat.qcoeff.butcher")
    nb, nc, n1, n2 = (var(q, "I") for q in ("nb", "nc", "n1", "n2"))
    for emb in (False, True):
        st = {}

        def make(shA, shb, shc):
            d = {"A": arr("A", shA), "b": arr("b", shb), "c": arr("c", shc), "order": 3}
            if emb:
                d["b2"] = arr("b2", shb)
            st["name"] = "Scheme%d" % len(bt.RK_SCHEMES)
            return type(st["name"], (bt.RK,), d)

        def run():
            bt.RK_SCHEMES = {}
            st["cls"] = c = make((N, N), (N,), (N,))
            st["in"] = {k: getattr(c, k) for k in TAB if emb or k != "b2"}
            st["fr"] = Frame(**st["in"])
            return bt.checkAndStore(c)

        def post(P, c):
            P.fact("returns the class", c is st["cls"])
            for k in TAB:
                if k == "b2" and not emb:
                    P.fact("no embedded weights appear", c.b2 is None)
                    continue
                P.array("%s is stored entry for entry" % k, getattr(c, k), TAB[k], lambda *i: A(k, *i))
            P.fact("stored under its name only", list(bt.RK_SCHEMES) == [st["name"]] and bt.RK_SCHEMES[st["name"]] is c)
            st["fr"].check(P)
        V.explore("checkAndStore%s" % (", embedded weights" if emb else ""), (le(I1, N),), run, post, keep=True)

        def bad():
            return bt.checkAndStore(make((n1, n2), (nb,), (nc,)))
        V.explore("checkAndStore refuses inconsistent shapes%s" % (", embedded weights" if emb else ""),
                  [le(I1, q) for q in (nb, nc, n1, n2)] + [not_(and_(eq(nb, nc), eq(n1, nc), eq(n2, nc)))], bad, raises=AssertionError)

    def coeffs():
        c = table(V, True)
        g = c()
        st["g"] = g
        return g.genCoeffs(embedded=True)

    def pc(P, out):
        n, w, Q = out
        P.array("nodes are c", n, (N,), lambda i: A("c", i))
        P.array("Q is A", Q, (N, N), lambda i, j: A("A", i, j))
        P.array("weights are b and b2", w, (ic(2), N), lambda i, j: ite(eq(i, I0), A("b", j), A("b2", j)))
    V.explore("genCoeffs of any table", (le(I1, N),), coeffs, pc)


contract("C09", ["qmat.qcoeff.butcher.checkAndStore", "RK.nodes", "RK.weights", "RK.weightsEmbedded", "RK.Q", "RK.__init__", "QGenerator.genCoeffs"],
         "any table is stored and returned entry for entry; inconsistent shapes are refused")(store)

# ---------------------------------------------------------------- the registered tables
EXPLICIT = ("FE RK21 RK2 HEUN2 RK32 RK33 RK53 RK4 RK4_38 RK65 CashKarp ARK548L2SAERK ARK548L2SAERK2 ARK324L2SAERK ARK222ERK ARK443ERK "
            "ARK343ERK ARK4ERK").split()
DIAGIMP = ("BE MidPoint TRAP SDIRK2 SDIRK2_2 SDIRK3 DIRK43 SDIRK54 EDIRK43 EDIRK4 ESDIRK43 ESDIRK53 ARK548L2SAESDIRK ARK548L2SAESDIRK2 "
           "ARK324L2SAESDIRK ARK222EDIRK ARK443ESDIRK ARK343ESDIRK ARK4EDIRK").split()
PAIRS = [("ARK548L2SAERK", "ARK548L2SAESDIRK"), ("ARK548L2SAERK2", "ARK548L2SAESDIRK2"), ("ARK324L2SAERK", "ARK324L2SAESDIRK"),
         ("ARK222ERK", "ARK222EDIRK"), ("ARK443ERK", "ARK443ESDIRK"), ("ARK343ERK", "ARK343ESDIRK"), ("ARK4ERK", "ARK4EDIRK")]
ULP = F(1, 2 ** 52)
# precision of the published coefficients: correctly rounded doubles, except for two tables given to ten decimals
PREC = {"ARK343ERK": F(1, 2 * 10 ** 10), "ARK343ESDIRK": F(1, 2 * 10 ** 10)}


def known():
    L = [d for d in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")))["findings"]
         if d.get("status") == "known" and d["property"] == "C09"]
    out = {}
    for d in L:
        c = d["match"]["case"]
        for t in d["match"].get("case_in", {}).get("tree", []):
            out[c["scheme"], c["w"], canon(eval(t, {"__builtins__": {}}))] = d["id"], [m.rsplit(" ", 1)[1].rstrip(")") for m in d["match"]["messages"]]
    return out


def tables(V):
    """the instances the registry hands out: exact rational values of the double tables"""
    bt = V.mod("qmat.qcoeff.butcher")
    us = V.mod("qmat.utils")
    fx = lambda a: [fx(x) for x in a] if getattr(a, "ndim", 0) else F(float(a))
    for name, cls in sorted(us.getClasses(bt.RK_SCHEMES).items()):
        g = bt.RK_SCHEMES[name]()
        if not all(isinstance(x, np.ndarray) and x.dtype.kind == "f" for x in (g.nodes, g.weights, g.Q)):
            raise Unsupported("table of %s is not an array of doubles" % name)
        yield name, g, fx(g.nodes), fx(g.weights), fx(g.Q), None if g.b2 is None else fx(g.weightsEmbedded)


def label(t):
    return "[%s]" % "".join(map(label, t))


def registered(V):
    kf = known()
    eps = Session(Ctx((), ()))
    sym.set_session(eps)
    ctx = eps.ctx
    for n, k in COUNT.items():
        V.goal("the enumeration of rooted trees with %d vertices is complete" % n, eq(ic(len(set(map(canon, trees(n))))), ic(k)), ctx)
    seen = {}

    def check(name, what, lhs, bound):
        V.goal("%s: %s" % (name, what), and_(le(rc(-bound), rc(lhs)), le(rc(lhs), rc(bound))), ctx)

    def absm(M):
        return [[abs(x) for x in r] for r in M]
    for name, g, c, b, Q, b2 in tables(V):
        seen[name] = (c, b, Q)
        s = len(c)
        u = PREC.get(name, ULP)
        V.goal("%s: shapes" % name, and_(eq(ic(len(Q)), ic(s)), eq(ic(len(b)), ic(s)), *[eq(ic(len(r)), ic(s)) for r in Q]), ctx)
        for i in range(s):
            check(name, "row sum of stage %d" % i, sum(Q[i]) - c[i], u * (abs(c[i]) + sum(map(abs, Q[i])) if name not in PREC else s + 1))
        if name in EXPLICIT:
            V.goal("%s: explicit, strictly lower triangular" % name, and_(*[eq(rc(Q[i][j]), R0) for i in range(s) for j in range(i, s)]), ctx)
        if name in DIAGIMP:
            V.goal("%s: diagonally implicit, lower triangular" % name, and_(*[eq(rc(Q[i][j]), R0) for i in range(s) for j in range(i + 1, s)]), ctx)
        for wn, w, p in (("b", b, int(g.order)),) + ((("b2", b2, int(g.orderEmbedded)),) if b2 is not None else ()):
            V.goal("%s: %s has one weight per stage" % (name, wn), eq(ic(len(w)), ic(s)), ctx)
            if not 1 <= p <= 8:
                raise Unsupported("%s reports order %s" % (name, p))
            for o in range(1, p + 1):
                for t in trees(o):
                    r = sum(x * y for x, y in zip(w, phi(t, Q))) - F(1, gamma(t))
                    bound = 2 * o * u * max(sum(abs(x) * y for x, y in zip(w, phi(t, absm(Q)))), F(int(name in PREC)))
                    k = kf.get((name, wn, canon(t)))
                    if k:
                        V.assumed["excluded: known finding %s (%s, %s, residuals as recorded)" % (k[0], name, wn)] = 1
                        V.goal("%s: %s condition of order %d, tree %s: the recorded residual (%s)" % (name, wn, o, label(t), k[0]),
                               or_(*[eq(rc(F("%.3e" % float(r))), rc(F(m))) for m in k[1]]), ctx)
                        continue
                    check(name, "%s condition of order %d, tree %s" % (wn, o, label(t)), r, bound)
            if wn == "b":
                V.goal("%s: a condition of order %d fails" % (name, p + 1), or_(*[
                    lt(rc(F(1, 10 ** 6)), rc(abs(sum(x * y for x, y in zip(w, phi(t, Q))) - F(1, gamma(t))))) for t in trees(p + 1)]), ctx)
    for n in EXPLICIT + DIAGIMP + ["GAUSS_LG"]:
        V.obl("%s is registered" % n, "proved" if n in seen else "failed", 0)
    for a, b in PAIRS:
        if a in seen and b in seen:
            V.goal("%s / %s: shared nodes" % (a, b), and_(*[eq(rc(x), rc(y)) for x, y in zip(seen[a][0], seen[b][0])], eq(ic(len(seen[a][0])), ic(len(seen[b][0])))), ctx)
    V.paths += 1


contract("C09", ["qmat.qcoeff.butcher: every registered scheme", "RK.order", "RK.orderEmbedded"],
         "every table: row sums, all rooted-tree conditions up to and not beyond the reported order, structure, pairs (exact rational arithmetic)")(registered)
