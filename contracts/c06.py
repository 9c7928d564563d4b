"""C06 quadrature nodes: recurrences of the families, evaluation, modified coefficients, nodes (lemmas/Orthogonal.lean)."""
from .base import *

N = var("N", "I")
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
HALF, QUART = rc(sym.rat(0.5)), rc(sym.rat(0.25))


def case(*cs):
    """((condition, value)..., value)"""
    r = cs[-1]
    for c, v in reversed(cs[:-1]):
        r = ite(c, v, r)
    return r


# ---- the named families: monic orthogonal polynomials p_{k+1} = (t - a_k) p_k - b_k p_{k-1}, b_0 the total mass
def a_(nt, k):
    return case((eq(k, I0), {"CHEBY-3": HALF, "CHEBY-4": neg(HALF)}.get(nt, R0)), R0)


def b_(nt, k):
    z = toR(k)
    mass = {"LEGENDRE": rc(2), "CHEBY-2": mul(HALF, sym.PI)}.get(nt, sym.PI)
    if nt == "LEGENDRE":
        return case((eq(k, I0), mass), mul(z, z, recip(sub(mul(rc(4), z, z), R1))))
    if nt == "CHEBY-1":
        return case((eq(k, I0), mass), (eq(k, I1), HALF), QUART)
    return case((eq(k, I0), mass), QUART)


def ratio(nt, s, k):
    """p_{k+1}(s) / p_k(s) at the end s = 1 or -1"""
    z = toR(k)
    if (nt, s) in (("CHEBY-3", -1), ("CHEBY-4", 1)):
        r = mul(add(mul(rc(2), z), rc(3)), recip(mul(rc(2), add(mul(rc(2), z), R1))))
    elif nt == "LEGENDRE":
        r = mul(add(z, R1), recip(add(mul(rc(2), z), R1)))
    elif nt == "CHEBY-1":
        r = case((eq(k, I0), R1), HALF)
    elif nt == "CHEBY-2":
        r = mul(add(z, rc(2)), recip(mul(rc(2), add(z, R1))))
    else:
        r = HALF
    return r if s > 0 else neg(r)


def OP(s, k):
    """value at the end s of the polynomial of degree k of the family"""
    return app("OPR" if s > 0 else "OPL", (k,), "R")


def rec(nt, s, k):
    """definition of p_{k+1}(s), k >= 1"""
    return eq(OP(s, add(k, I1)), sub(mul(sub(rc(s), a_(nt, k)), OP(s, k)), mul(b_(nt, k), OP(s, sub(k, I1)))))


# ---- coefficients
@contract("C06", ["NodesGenerator.getOrthogPolyCoefficients"], "recurrence coefficients of the named family, for every number of coefficients")
def family(V):
    nd = V.mod("qmat.nodes")
    V_names(V, nd)
    for nt in NT[1:]:
        for qt in QT:
            st = {}

            def run():
                g = nd.NodesGenerator(nt, qt)
                st["first"] = g.getOrthogPolyCoefficients(wrap(N))
                st["snap"] = [x.snap() for x in st["first"]]
                for x in st["first"]:
                    x[...] = wrap(var("overwritten", "R"))
                return g.getOrthogPolyCoefficients(wrap(N))

            def post(P, r):
                al, be = r
                P.array("alpha", al, (N,), lambda k: a_(nt, k))
                P.array("beta", be, (N,), lambda k: b_(nt, k))
                P.owned("alpha is a new array", al, *st["first"], be)
                P.owned("beta is a new array", be, *st["first"])
            V.explore("%s %s" % (nt, qt), (le(I1, N),), run, post)


def V_names(V, nd):
    v = Path(V, sym.S, Ctx(()), "available", ())
    v.fact("the node types are the documented ones", list(nd.NODE_TYPES) == NT, repr(nd.NODE_TYPES))
    v.fact("the quadrature types are the documented ones", list(nd.QUAD_TYPES) == QT, repr(nd.QUAD_TYPES))


@contract("C06", ["NodesGenerator.evalOrthogPoly"], "polynomial evaluation follows the recurrence, for any coefficients, any number of them and any points", time_=200)
def evaluation(V):
    nd = V.mod("qmat.nodes")
    t, m = var("t", "R"), var("m", "I")
    forms = [("number", wrap(t), lambda z: t, ()), ("array", arr("t", (m,)), lambda z: A("t", z), (m,))]
    for what, arg, tv, shape in forms:
        st = {}

        def run():
            st["a"], st["b"] = arr("a", (N,)), arr("b", (N,))
            st["fr"] = Frame(a=st["a"], b=st["b"], t=arg)
            return nd.NodesGenerator().evalOrthogPoly(arg, st["a"], st["b"])

        def post(P, r):
            z = [fresh("z", "I") for _ in shape]
            P.ctx = P.ctx.extend(*[c for i, n in zip(z, shape) for c in (le(I0, i), lt(i, n))])
            P.S.ctx = P.ctx
            P.fact("two values", isinstance(r, (tuple, list)) and len(r) == 2)
            for x in r:
                P.shape("value", x, shape)
            lo, hi = [toR(darr(x).at(*z)) for x in r]
            tz = tv(z[0] if z else None)
            at = lambda x, n: subst(x, {N: n})
            nx = add(N, I1)
            c0 = P.S.ctx
            # the values of 0 coefficients are p_{-1} = 0 and p_0 = 1
            for nme, v, w in (("p_{-1} = 0", lo, R0), ("p_0 = 1", hi, R1)):
                P.v.goal("%s: %s" % (P.label, nme), eq(at(v, I0), w), P.ctx, P.S)
            inv = rows_equal(P, hi, lo)
            # one more coefficient: one step of the recurrence
            P.prove("the next polynomial is (t - alpha) p - beta p_before", eq(at(hi, nx), sub(mul(sub(tz, A("a", N)), hi), mul(A("b", N), lo))), *inv)
            P.prove("the polynomial before it is p", eq(at(lo, nx), hi), *inv)
            st["fr"].check(P)
            P.owned("new values", r[0], st["a"], st["b"], arg)
            P.owned("new values", r[1], st["a"], st["b"], arg)
        V.explore(what, (le(I0, N), le(I0, m)), run, post)


@contract("C06", ["family recurrences at the interval ends"], "p_{k+1}(+-1) = ratio p_k(+-1) with ratios of constant sign, for every k (induction)")
def ratios(V):
    k = var("k", "I")
    for nt in NT[1:]:
        for s in (1, -1):
            P = Path(V, sym.set_session(Session(Ctx((le(I0, k),), (LEM.lemma,)))), Ctx((le(I0, k),), (LEM.lemma,)), "%s at %d" % (nt, s), ())
            P.prove("first ratio", eq(sub(rc(s), a_(nt, I0)), ratio(nt, s, I0)))
            k1 = add(k, I1)
            # p_{k+1} = r_k p_k  =>  p_{k+2} = (s - a_{k+1}) p_{k+1} - b_{k+1} p_k = r_{k+1} p_{k+1}
            pk = var("pk", "R")
            P.prove("next ratio (induction step)", eq(sub(mul(sub(rc(s), a_(nt, k1)), ratio(nt, s, k), pk), mul(b_(nt, k1), pk)), mul(ratio(nt, s, k1), ratio(nt, s, k), pk)))
            P.prove("sign", lt(R0, mul(rc(s), ratio(nt, s, k))))


def rows_equal(P, *ts):
    """invariants of the recursions of the code: components (rows) that are equal after every number of coefficients, by
    induction; -> hypotheses"""
    out, seen = [], set()
    for t in ts:
        for x in tm.subterms(t):
            if not (x.op == "app" and x.args[0] in P.S.ghosts and x.args[1] is N) or x.args[0] in seen:
                continue
            seen.add(x.args[0])
            ks = [i for i, c in enumerate(x.args) if i > 1 and isconst(c)]
            if len(ks) != 1:
                continue
            row = lambda n, r: app(x.args[0], (n,) + tuple(ic(r) if i == ks[0] else c for i, c in enumerate(x.args) if i > 1), x.sort)
            for r in range(3):
                for q in range(r):
                    hyp = eq(row(N, r), row(N, q))
                    if P.holds(eq(row(I0, r), row(I0, q))) and P.holds(eq(row(add(N, I1), r), row(add(N, I1), q)), hyp):
                        out.append(hyp)
    return out


SCALES = [R1] + [rc(sym.rat(x)) for x in (2.0, 0.5, 4.0)]


def POW(c, n):
    """c^n, positive"""
    return app("POW", (c, n), "R")


@contract("C06", ["family recurrences at the interval ends"], "the recurrence with coefficients c a_k, c^2 b_k at c t gives c^k p_k(t), for every k (induction)")
def scaling(V):
    k = var("k", "I")
    t, w, p, q = (var(x, "R") for x in ("t", "w", "p", "q"))
    for nt in NT[1:]:
        for c in SCALES[1:]:
            hyp = (le(I0, k), lt(R0, w))
            P = Path(V, sym.set_session(Session(Ctx(hyp, (LEM.lemma,)))), Ctx(hyp, (LEM.lemma,)), "%s scaled by %s" % (nt, cval(c)), ())
            # w = c^k, p = p_k(t), q = p_{k-1}(t)
            step = lambda f, x, now, before: sub(mul(sub(mul(f, x), mul(f, a_(nt, k))), now), mul(f, f, b_(nt, k), before))
            P.prove("induction step", eq(step(c, t, mul(w, p), mul(w, recip(c), q)), mul(c, w, step(R1, t, p, q))))


class Ends:
    """contract of evalOrthogPoly at the interval ends for coefficients of the family: (p_{n-1}, p_n), n the number of
    coefficients (contract 'evaluation'); for other coefficients or points the values are unknown"""

    def __init__(self, nt):
        self.nt, self.used = nt, []

    def __call__(self, obj, t, alpha, beta):
        S = sym.S
        a, b = darr(alpha), darr(beta)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("evalOrthogPoly arguments")
        n = a.vshape[0]
        S.note("NodesGenerator.evalOrthogPoly: values of the last two polynomials (contract 'evaluation')")
        if not S.ctx.valid(eq(n, b.vshape[0])):
            raise Unsupported("evalOrthogPoly: different numbers of coefficients")
        # coefficients of the family, or those of its polynomials scaled by c at each degree, c^n p_n(t / c) (contract 'scaling')
        some = S.decide(le(I1, n))
        fam = [c for c in SCALES if not some or
               (loops.seteq(a, SArr.new((n,), lambda k: mul(c, a_(self.nt, k)), "f")) and
                loops.seteq(b[1:], SArr.new((sub(n, I1),), lambda k: mul(c, c, b_(self.nt, add(k, I1))), "f")))]
        tt = darr(t)

        def val(x, d):
            for c in fam:
                for s in (1, -1):
                    if S.ctx.valid(eq(toR(x), mul(c, rc(s)))):
                        v = self.end(s, n, d)
                        return v if c is R1 else mul(POW(c, n), recip(c) if d else R1, v)
            return fresh("unknown", "R")
        out = []
        for d in (1, 0):
            if not tt.ndim:
                out.append(wrap(val(tt.at(), d)))
            elif tt.ndim == 1 and isconst(tt.vshape[0]):
                vs = [val(tt.at(ic(i)), d) for i in range(int(cval(tt.vshape[0])))]
                out.append(darr([wrap(v) for v in vs]))
            else:
                raise Unsupported("evalOrthogPoly at symbolic points")
        return tuple(out)

    def end(self, s, n, d):
        S = sym.S
        k = sub(n, ic(d))
        if S.ctx.valid(lt(k, I0)):
            return R0
        if S.ctx.valid(le(I0, k)):
            return OP(s, k)
        return ite(lt(k, I0), R0, OP(s, k))


def tri(nt, qt):
    def f(V):
        nd = V.mod("qmat.nodes")
        ends = Ends(nt)
        nd.NodesGenerator.evalOrthogPoly = lambda self, t, alpha, beta: ends(self, t, alpha, beta)
        low = 2 if qt in ("LOBATTO", "RADAU-LEFT") else 1

        for what, pre in [("one node", (eq(N, I1),))] * (low == 1) + [("two or more nodes", (le(ic(2), N),))]:
            st = {}
            facts = []
            L, L2 = sub(N, I1), sub(N, ic(2))
            rr = {s: ratio(nt, s, L2) for s in (1, -1)}
            facts += [lt(R0, POW(c, L)) for c in SCALES[1:]]
            for s in (1, -1):
                facts.append(eq(OP(s, I0), R1))
                if what != "one node":
                    # contract 'ratios'
                    facts.append(eq(OP(s, L), mul(rr[s], OP(s, L2))))
                    facts.append(ne(OP(s, L2), R0))
            if what == "one node":
                pre = pre + ()

            def run():
                sym.S.dets = st["dets"] = []
                g = nd.NodesGenerator(nt, qt)
                st["n"] = wrap(N) if what != "one node" else 1
                st["r"] = r = g.getTridiagCoefficients(st["n"])
                return r

            def post(P, r):
                al, be = r
                P.shape("alpha", al, (N,))
                P.shape("beta", be, (N,))
                k = fresh("k", "I")
                P.prove("only the last alpha may change", eq(al.at(k), a_(nt, k)), le(I0, k), lt(k, L))
                P.prove("only the last beta may change", eq(be.at(k), b_(nt, k)), le(I0, k), lt(k, L))
                an, bn = toR(al.at(L)), toR(be.at(L))
                if what == "one node":
                    p1 = {s: R1 for s in (1, -1)}
                    p0 = {s: R0 for s in (1, -1)}
                    lastr = {s: ratio(nt, s, I0) for s in (1, -1)}
                else:
                    # p_{N-1} = ratio * p_{N-2}, p_{N-2} is not zero: everything divided by p_{N-2}
                    p0 = {s: OP(s, L2) for s in (1, -1)}
                    p1 = {s: mul(rr[s], p0[s]) for s in (1, -1)}
                    lastr = {s: ratio(nt, s, L) for s in (1, -1)}
                m = {OP(s, L): p1[s] for s in (1, -1)} if what != "one node" else {OP(s, I0): R1 for s in (1, -1)}
                an, bn = tm.replace(an, m), tm.replace(bn, m)
                for c, d in st["dets"]:
                    P.v.goal(P.label + ": the linear system is regular", ne(tm.replace(d, m), R0), P.ctx, P.S)
                pn = {s: sub(mul(sub(rc(s), an), p1[s]), mul(bn, p0[s])) for s in (1, -1)}
                want = {"GAUSS": dict(lastr), "LOBATTO": {1: R0, -1: R0},
                        "RADAU-RIGHT": {1: R0, -1: sub(lastr[-1], lastr[1])}, "RADAU-LEFT": {1: sub(lastr[1], lastr[-1]), -1: R0}}[qt]
                for s in (1, -1):
                    P.prove("polynomial of degree N at %d: %s" % (s, "zero" if want[s] is R0 else "stated multiple of the previous one"), eq(pn[s], mul(want[s], p1[s])))
                if qt != "LOBATTO":
                    P.prove("the last beta is that of the family", eq(bn, b_(nt, L)))
                if qt == "GAUSS":
                    P.prove("the last alpha is that of the family", eq(an, a_(nt, L)))
                if what != "one node":
                    P.prove("the last beta is positive", lt(R0, bn))
                    P.prove("the other betas are positive", lt(R0, b_(nt, k)), le(I1, k), lt(k, L))
            V.explore(what, pre + tuple(facts), run, post)
    f.__name__ = "tridiag_%s_%s" % (nt.replace("-", ""), qt.replace("-", ""))
    return f


for nt in NT[1:]:
    for qt in QT:
        contract("C06", ["NodesGenerator.getTridiagCoefficients"], "%s %s: family coefficients, the last ones changed so that the prescribed ends are roots" % (nt, qt), time_=200)(tri(nt, qt))


@contract("C06", ["NodesGenerator.getNodes"], "equidistant nodes for every quadrature type and count")
def equid(V):
    nd = V.mod("qmat.nodes")
    for qt in QT:
        low = 2 if qt in ("LOBATTO", "RADAU-LEFT") else 1
        left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")

        def run():
            return nd.NodesGenerator("EQUID", qt).getNodes(wrap(N))

        def post(P, r):
            # N of the points of the equidistant grid of [-1, 1] of N + (missing ends) points
            cells = sub(add(N, ic((not left) + (not right))), I1)
            P.array("nodes", r, (N,), lambda i: add(rc(-1), mul(rc(2), toR(add(i, ic(not left))), recip(toR(cells)))))
            i, j = fresh("i", "I"), fresh("j", "I")
            rng = (le(I0, i), lt(i, N))
            P.prove("strictly increasing", lt(r.at(i), r.at(add(i, I1))), le(I0, i), lt(add(i, I1), N))
            P.prove("first node %s" % ("is -1" if left else "is above -1"), (eq if left else gt)(toR(r.at(I0)), rc(-1)))
            P.prove("last node %s" % ("is 1" if right else "is below 1"), (eq if right else lt)(toR(r.at(sub(N, I1))), R1))
        V.explore(qt, (le(ic(low), N),), run, post)


@contract("C06", ["NodesGenerator.getNodes"], "roots of the modified polynomial, in increasing order, with exact ends, for every type and count", time_=200)
def roots(V):
    nd = V.mod("qmat.nodes")
    keep = nd.NodesGenerator.getTridiagCoefficients
    al, be = (lambda i: A("al", i)), (lambda i: A("be", i))
    log = []

    def stub(self, nNodes):
        log.append(term(nNodes))
        sym.S.note("NodesGenerator.getTridiagCoefficients (contracts 'tridiag')")
        n = tm.toI(term(nNodes))
        return SArr.new((n,), al, "f"), SArr.new((n,), be, "f")
    nd.NodesGenerator.getTridiagCoefficients = stub
    W = lambda i: app("EIGT", (i,), "R")
    for nt in NT[1:]:
        for qt in QT:
            low = 2 if qt in ("LOBATTO", "RADAU-LEFT") else 1
            left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
            L = sub(N, I1)
            st = {}
            # contract of the eigenvalues + lemmas/Orthogonal.lean: increasing roots of the polynomial of degree N, in [-1, 1],
            # every root among them; the prescribed ends are roots, the others are not
            facts = [Forall(I0, N, lambda i: Forall(I0, N, lambda j: implies(lt(i, j), lt(W(i), W(j))))),
                     Forall(I0, N, lambda i: and_(le(rc(-1), W(i)), le(W(i), R1)))]
            for here, s in ((left, -1), (right, 1)):
                e = var("e%d" % s, "I")
                facts += [le(I0, e), lt(e, N), eq(W(e), rc(s))] if here else [Forall(I0, N, lambda i, s=s: ne(W(i), rc(s)))]
            positive = Forall(I1, N, lambda i: lt(R0, be(i)))

            def run():
                del log[:]
                sym.S.eigs = st["e"] = []
                return nd.NodesGenerator(nt, qt).getNodes(wrap(N))

            def post(P, r):
                P.fact("the coefficients asked for", len(log) == 1 and log[0] is N)
                if not P.fact("eigenvalues of one matrix", len(st["e"]) == 1):
                    return
                d, e, n = st["e"][0]
                k = fresh("k", "I")
                P.prove("size", eq(n, N))
                P.prove("diagonal of the matrix", eq(d(k), al(k)), le(I0, k), lt(k, N))
                ek = toR(e(k))
                P.prove("squares of the off-diagonal entries", eq(mul(ek, ek), be(add(k, I1))), le(I0, k), lt(k, L))
                P.array("the nodes are the roots", r, (N,), W)
                P.prove("strictly increasing", lt(r.at(k), r.at(add(k, I1))), le(I0, k), lt(add(k, I1), N))
                P.prove("in [-1, 1]", and_(le(rc(-1), r.at(k)), le(r.at(k), R1)), le(I0, k), lt(k, N))
                P.prove("first node %s" % ("is -1" if left else "is above -1"), (eq if left else gt)(toR(r.at(I0)), rc(-1)))
                P.prove("last node %s" % ("is 1" if right else "is below 1"), (eq if right else lt)(toR(r.at(L)), R1))
            V.explore("%s %s" % (nt, qt), (le(ic(low), N), positive) + tuple(facts), run, post)


@contract("C06", ["NodesGenerator.__init__", "NodesGenerator.getNodes"], "exactly the documented names and counts are accepted")
def refuse(V):
    nd = V.mod("qmat.nodes")
    isin = lambda s, L: or_(*[var("%s==%r" % (s.name, x), "B") for x in L])
    a, b = Str("nodeType"), Str("quadType")
    st = {}

    def run():
        st["g"] = nd.NodesGenerator(a, b)
        return st["g"]

    def post(P, g):
        P.prove("accepted names are documented ones", and_(isin(a, NT), isin(b, QT)))
        P.fact("the names are kept", g.nodeType is a and g.quadType is b)
    V.explore("any names", (), run, post, may_raise=[(ValueError, lambda ctx, e: not_(and_(isin(a, NT), isin(b, QT))))])
    for nt in NT:
        for qt in QT:
            def one():
                return nd.NodesGenerator(nt, qt)
            V.explore("%s %s" % (nt, qt), (), one, lambda P, g: P.fact("accepted", (g.nodeType, g.quadType) == (nt, qt)))
            V.explore("%s %s by name" % (nt, qt), (), lambda: nd.NodesGenerator(quadType=qt, nodeType=nt), lambda P, g: P.fact("accepted", (g.nodeType, g.quadType) == (nt, qt)))
            low = 2 if qt in ("LOBATTO", "RADAU-LEFT") else 1
            V.explore("%s %s: fewer than %d nodes" % (nt, qt, low), (lt(N, ic(low)),), lambda: nd.NodesGenerator(nt, qt).getNodes(wrap(N)), raises=ValueError)
    V.explore("default", (), lambda: nd.NodesGenerator(), lambda P, g: P.fact("documented default", (g.nodeType, g.quadType) == ("LEGENDRE", "LOBATTO")))
