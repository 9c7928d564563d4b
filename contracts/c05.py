"""C05 sparse interpolation: every row for any grid, targets, order and period."""
import itertools
from .base import *

n, m, p = var("n", "I"), var("m", "I"), var("p", "I")
q = var("q", "I")
X, T_ = (lambda i: A("x", i)), (lambda i: A("t", i))
DISTINCT = Forall(I0, n, lambda i: Forall(I0, n, lambda j: or_(eq(i, j), ne(X(i), X(j)))))
PRE = (le(I1, n), le(I0, m), le(I1, p), le(p, n), DISTINCT, le(I0, q), lt(q, p))


class Lil:
    """contract of scipy.sparse.lil_matrix: zero entries; A[i, idx] = line writes one row"""

    def __init__(self, sinks, shape, dtype=None):
        sinks.append(self)
        self.shape, self.log = tuple(shape), []

    def __setitem__(self, key, v):
        if not (isinstance(key, tuple) and len(key) == 2):
            raise Unsupported("lil_matrix index")
        self.log.append((key[0], key[1], v))

    def _conv(self, *a, **k):
        return self
    tocsc = tocsr = asformat = tocoo = _conv


class Lagrange:
    """contract of LagrangeApproximation for distinct points (C01): the interpolation row of a target t has the moments of
    the monomials (x - t)^q, q < number of points, at t: 1 for q = 0, otherwise 0"""
    made = []

    def __init__(self, points=None, *a, **kw):
        if a or kw:
            raise Unsupported("LagrangeApproximation options")
        x = self.x = darr(points).snap()
        k = self.n = darr(points).vshape[0]
        i, j = fresh("i", "I"), fresh("j", "I")
        self.pre = (sym.S.ctx, (le(I0, i), lt(i, k), le(I0, j), lt(j, k), ne(i, j)), ne(toR(x(i)), toR(x(j))))
        self.rows = []
        Lagrange.made.append(self)
        self.l = lam("I", lambda i: toR(x(i)))

    def getInterpolationMatrix(self, times, *a, **kw):
        if a or kw:
            raise Unsupported("getInterpolationMatrix options")
        t = darr(times)
        g, x, l, k = t.snap(), self.x, self.l, self.n
        row = lambda s: (lambda j: app("LAGROW", (k, l, s, j), "R"))
        sym.S.note("LagrangeApproximation.getInterpolationMatrix on distinct points (contract of C01, lemmas/Barycentric.lean)")
        for r in range(int(cval(t.vshape[0])) if isconst(t.vshape[0]) else self._many()):
            s = toR(g(ic(r)))
            self.rows.append((s, row(s)))
            sym.S.assume(Forall(I0, k, lambda d: self.moment(s, row(s), d)))
        return SArr.new((t.vshape[0], k), lambda r, j: row(toR(g(r)))(j), "f")

    def moment(self, s, row, d):
        return eq(Sum(I0, self.n, lambda j: mul(row(j), powt(sub(toR(self.x(j)), s), d))), ite(eq(d, I0), R1, R0))

    def _many(self):
        raise Unsupported("interpolation of a symbolic number of targets")


def moments(P, made, n_, w, dist):
    """sum over z < n_ of w(z) * dist(z)^q = [q = 0] for all q < n_: the summands are those of the moments of a row given by
    the contract of LagrangeApproximation"""
    name = "moments: polynomials of degree below the order are reproduced"
    z = fresh("z", "I")
    rz = and_(le(I0, z), lt(z, n_))
    for L in reversed(made):
        for s, row in reversed(L.rows):
            if P.holds(eq(L.n, n_)) and P.holds(eq(dist(z), sub(toR(L.x(z)), s)), rz) and P.holds(eq(w(z), row(z)), rz):
                P.prove(name + ": number of points", eq(L.n, n_))
                P.prove(name + ": distances to the target", eq(dist(z), sub(toR(L.x(z)), s)), rz)
                P.prove(name + ": entries are those of the interpolation row", eq(w(z), row(z)), rz)
                P.prove(name, eq(Sum(I0, L.n, lambda j: mul(row(j), powt(sub(toR(L.x(j)), s), q))), ite(eq(q, I0), R1, R0)), L.moment(s, row, q))
                return
    P.prove(name, eq(Sum(I0, n_, lambda j: mul(w(j), powt(dist(j), q))), ite(eq(q, I0), R1, R0)))


def start(V):
    la = V.mod("qmat.lagrange")
    la.LagrangeApproximation = Lagrange
    sinks = []
    import scipy.sparse
    sp = V.w.imp("scipy.sparse", None, None, ("lil_matrix",), 0)
    sp.__dict__["lil_matrix"] = lambda shape, dtype=None, **k: Lil(sinks, shape)

    def call(f):
        del sinks[:]
        del Lagrange.made[:]
        sym.S.looprule = loops.memoloop(sinks)
        try:
            return ("end", f(), list(sinks), list(Lagrange.made))
        except loops.Iteration as e:
            return ("row", e, list(sinks), list(Lagrange.made))
        finally:
            sym.S.looprule = None
    return la, call, sinks


def plain(V):
    la, call, sinks = start(V)
    P_ = var("P", "R")
    for what, kw, asm in (("no period", {}, ()), ("period not positive", {"gridPeriod": wrap(P_)}, (le(P_, R0),))):
        def post(P, v):
            kind, r, sinks, made = v
            P.fact("one matrix", len(sinks) == 1)
            if kind == "end":
                P.fact("the matrix is returned", r is sinks[0] and not r.log, "other result or entries outside of the loop")
                P.prove("its shape", and_(eq(term(r.shape[0]), m), eq(term(r.shape[1]), n)))
                return
            for k, g in enumerate(made):
                P.v.goal("%s: interpolated points are distinct [%d]" % (P.label, k), g.pre[2], g.pre[0].extend(*g.pre[1]), P.S)
            i = r.i
            log, = r.effects
            if not P.fact("one row is written", len(log) == 1, "%d writes" % len(log)):
                return
            row, idx, line = log[0]
            idx, line = darr(idx), darr(line)
            P.prove("row of the iteration", eq(term(row), i))
            P.shape("columns", idx, (p,))
            P.shape("entries", line, (p,))
            a, b, c = fresh("a", "I"), fresh("b", "I"), fresh("c", "I")
            ra, rb, rc_ = (and_(le(I0, z), lt(z, w)) for z, w in ((a, p), (b, p), (c, n)))
            J = lambda z: idx.at(z)
            d = lambda z: fn("abs", sub(X(z), T_(i)))
            P.prove("columns are grid indices", and_(le(I0, J(a)), lt(J(a), n)), ra)
            P.prove("columns are different", ne(J(a), J(b)), ra, rb, ne(a, b))
            P.prove("no point outside of the row is closer", le(d(J(a)), d(c)), ra, rc_, Forall(I0, p, lambda z: ne(J(z), c)))
            moments(P, made, p, lambda z: toR(line.at(z)), lambda z: sub(X(J(z)), T_(i)))
            P.fact("grid and targets are not modified", not fr(), "written")
        st = {}

        def run():
            x, t = arr("x", (n,)), arr("t", (m,))
            st["e"] = (x, x.buf.elem, t, t.buf.elem)
            return call(lambda: la.getSparseInterpolationMatrix(x, t, wrap(p), **kw))

        def fr():
            x, e, t, f = st["e"]
            return x.buf.elem is not e or t.buf.elem is not f
        V.explore(what, PRE + asm, run, post)


contract("C05", ["getSparseInterpolationMatrix"], "every row on any grid without period: columns, closeness, moments of all degrees below the order, by the memo invariant over any number of targets", time_=200)(plain)


def apps(ts, pred, memo=None):
    """applications without bound variables in the terms"""
    out, seen = {}, set()

    def go(t):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if pred(t) and not any(v.args[0].startswith("@") for v in t.fv):
            out[t] = True
        for x in t.args:
            go(x)
    for t in ts:
        go(t)
    return list(out)


def periodic(V):
    """The 3n images x(c) + s P, s in {-1, 0, 1}, of the grid around the target tg in [gs, gs + P)"""
    la, call, sinks = start(V)
    Pd, tg, gs = var("P", "R"), var("tg", "R"), var("gs", "R")
    EXT = Forall(I0, n, lambda i: Forall(I0, n, lambda j: lt(sub(X(i), X(j)), Pd)))
    st = {}

    def run():
        x, t = arr("x", (n,)), arr("t", (m,))
        st["e"] = (x, x.buf.elem, t, t.buf.elem)
        return call(lambda: la.getSparseInterpolationMatrix(x, t, wrap(p), gridPeriod=wrap(Pd)))

    def post(P, v):
        kind, r, sk, made = v
        P.fact("one matrix", len(sk) == 1)
        if kind == "end":
            P.fact("the matrix is returned", r is sk[0] and not r.log, "other result or entries outside of the loop")
            P.prove("its shape", and_(eq(term(r.shape[0]), m), eq(term(r.shape[1]), n)))
            return
        i = r.i
        log, = r.effects
        if not P.fact("one row is written", len(log) == 1, "%d writes" % len(log)):
            return
        row, idx, line = log[0]
        idx, line = darr(idx), darr(line)
        P.prove("row of the iteration", eq(term(row), i))
        PJ = P
        # only what concerns this iteration
        P = Path(V, PJ.S, Ctx([h for h in PJ.ctx.asm if all(v is i or "!" not in v.args[0] or v.sort != "I" for v in h.fv)], PJ.ctx.lemmas), PJ.label, PJ.conds)
        x, e, t, f = st["e"]
        P.fact("grid and targets are not modified", x.buf.elem is e and t.buf.elem is f, "written")
        a, b, c, z = (fresh(w, "I") for w in "abcz")
        J = lambda z: idx.at(z)
        # ---- what the implementation takes as target, images and ranks
        ja = J(a)
        if ja.op != "imod" or ja.args[1] is not n:
            raise Unsupported("grid index of an image is not its index modulo the number of points")
        E = lambda z: subst(ja.args[0], {a: z})
        mods = [t for t in apps([ja], lambda t: t.op == "fn" and t.args[0] == "mod" and i in t.fv)]
        if len(mods) != 1 or mods[0].args[2] is not Pd:
            raise Unsupported("the target is not moved by one remainder modulo the period")
        md, arg = mods[0], mods[0].args[1]
        start_ = sub(T_(i), arg)                       # target in [start, start + P)
        target = add(start_, md)
        w = fresh("periods", "I")
        MOD = [le(R0, md), lt(md, Pd), eq(arg, add(md, mul(Pd, toR(w))))]
        S_note("fn mod: 0 <= mod(u, P) < P and u - mod(u, P) is an integer multiple of P, for P > 0")
        mins = [t for t in apps([start_], lambda t: t.op == "app" and t.args[0] == "MIN")]
        k_ = fresh("argmin", "I")
        MIN = []
        for t in mins:
            N_, l = t.args[1:3]
            MIN += [Forall(I0, N_, lambda k: le(t, open_(l, k))), le(I0, k_), lt(k_, N_), eq(t, open_(l, k_))]
            S_note("np.min: a lower bound which is attained")
        P.prove("the grid lies in the period of the target", and_(le(start_, X(c)), lt(X(c), add(start_, Pd))), le(I0, c), lt(c, n), *MIN)
        sorts = [t for t in apps([ja], lambda t: t.op == "app" and t.args[0] == "ARGSORT") if i in t.fv]
        keys = {t.args[:3] for t in sorts if not any(v.args[0].startswith("@") for v in t.args[2].fv)} or \
               {t.args[:3] for t in apps_bound([ja], "ARGSORT") if i in t.fv}
        if len(keys) != 1:
            raise Unsupported("the images are not ranked by one argsort")
        _, n3, l = keys.pop()
        at = lambda k: app("ARGSORT", (n3, l, k), "I")
        rank = lambda e: app("ARGSORTINV", (n3, l, e), "I")
        D = lambda e: open_(l, e)
        if not P.holds(eq(n3, mul(ic(3), n))):
            raise Unsupported("number of images")
        sg = []
        for k in range(3):
            for s in (1, -1, 0):
                if P.holds(eq(D(add(b, mul(ic(k), n))), fn("abs", sub(add(X(b), mul(rc(s), Pd)), target))), le(I0, b), lt(b, n)):
                    sg.append(s)
                    break
        if sorted(sg) != [-1, 0, 1]:
            raise Unsupported("blocks of images")
        for k, s in enumerate(sg):
            P.prove("images x %+d P: ranked by the distance to the target" % s, eq(D(add(b, mul(ic(k), n))), fn("abs", sub(add(X(b), mul(rc(s), Pd)), target))), le(I0, b), lt(b, n))
        # ---- the geometry over ghost names: tg, gs, Y(e) the image relative to the target
        img = lambda e: and_(le(I0, e), lt(e, mul(ic(3), n)))
        def grid(*cs):
            h = [lt(R0, Pd), le(gs, tg), lt(tg, add(gs, Pd)), le(I1, n)]
            for c in cs:
                h += [le(gs, X(c)), lt(X(c), add(gs, Pd))]
            for c, d in itertools.combinations(cs, 2):
                h += [or_(eq(c, d), ne(X(c), X(d))), or_(ne(c, d), eq(X(c), X(d)))]
            return h

        def ab(t):
            return ite(le(R0, t), t, neg(t))
        G = lambda name, goal, *h: V.goal("%s: %s" % (P.label, name), goal, Ctx(tuple(x for y in h for x in (y if isinstance(y, list) else [y])), (LEM.lemma,)), P.S)
        # facts about the ranks, from the contract of argsort
        e1, e2 = fresh("e", "I"), fresh("f", "I")
        r3 = lambda e: and_(le(I0, e), lt(e, n3))
        P.prove("ranks: an image at a larger distance has a larger rank", lt(rank(e1), rank(e2)), r3(e1), r3(e2), lt(D(e1), D(e2)))
        P.prove("ranks: no two images share a rank", ne(rank(e1), rank(e2)), r3(e1), r3(e2), ne(e1, e2))
        P.prove("ranks: range", and_(le(I0, rank(e1)), lt(rank(e1), n3)), r3(e1))
        K = sym.dimsize(idx.vshape[0])
        P.prove("one column per chosen image: number of columns", eq(K, p), *MIN, *MOD)
        PJ.shape("entries", line, (p,))
        rK = lambda z: and_(le(I0, z), lt(z, p))
        P.prove("columns: chosen images", and_(img(E(a)), le(I0, rank(E(a))), lt(rank(E(a)), p)), rK(a))
        P.prove("columns: different images", ne(E(a), E(b)), rK(a), rK(b), ne(a, b))
        P.prove("columns: every chosen image is used", le(p, rank(e1)), r3(e1), Forall(I0, p, lambda z: ne(E(z), e1)))
        if not P.ctx.extend(*MIN, *MOD).feasible():
            raise Unsupported("contradictory assumptions")
        BL = lambda k, b: add(b, mul(ic(k), n))
        IMOD = lambda e: or_(*[and_(le(BL(k, I0), e), lt(e, BL(k, n)), eq(tm.imod(e, n), sub(e, BL(k, I0)))) for k in range(3)])
        L = made[0] if made else None
        if L is None:
            raise Unsupported("no interpolation for the row")
        # the interpolated points are the chosen images
        S_note("e mod n = e - k n for k n <= e < (k + 1) n")
        P.prove("columns are grid indices", and_(le(I0, J(a)), lt(J(a), n)), rK(a), IMOD(E(a)))
        P.prove("interpolated points: the chosen images, relative to the target", or_(*[and_(eq(E(a), BL(k, J(a))), eq(toR(L.x(a)), sub(add(X(J(a)), mul(rc(s), Pd)), target))) for k, s in enumerate(sg)]), rK(a), IMOD(E(a)))
        for k, M in enumerate(made):
            V.goal("%s: interpolated points are distinct [%d]" % (P.label, k), M.pre[2], M.pre[0].extend(*M.pre[1]), P.S)
        # target = t_i - w P
        G("the target is moved by whole periods", eq(sub(T_(i), target), mul(Pd, toR(w))), MOD)
        moments(PJ, made, p, lambda z: toR(line.at(z)), lambda z: toR(L.x(z)))
        # different columns: two chosen images u, v of one point c, |Y(v)| <= |Y(u)|, leave for every point b an image other than v
        # which is u or closer than u, hence chosen; these n + 1 images have different ranks below p <= n (lemmas/Pigeonhole.lean)
        u, v_ = fresh("u", "I"), fresh("v", "I")
        Yk = lambda k, b: sub(add(X(b), mul(rc(sg[k]), Pd)), tg)
        im = lambda e, y, c: or_(*[and_(eq(e, BL(k, c)), eq(y, Yk(k, c))) for k in range(3)])
        yu, yv = fresh("yu", "R"), fresh("yv", "R")
        rn = lambda c: and_(le(I0, c), lt(c, n))
        G("columns: if two chosen images belong to one point, every point has an image at least as close as the farther one",
          or_(*[and_(ne(BL(k, b), v_), or_(eq(BL(k, b), u), lt(ab(Yk(k, b)), ab(yu)))) for k in range(3)]),
          grid(b, c), rn(b), rn(c), im(u, yu, c), im(v_, yv, c), ne(u, v_), le(ab(yv), ab(yu)))
        for k in range(3):
            for h in range(3):
                G("columns: images of different points are different (%d, %d)" % (k, h), ne(BL(k, b), BL(h, c)), rn(b), rn(c), ne(b, c))
        S_note("columns are different: no n + 1 different ranks below p <= n (lemmas/Pigeonhole.lean)")
        # closeness
        P.prove("closest: images of points outside of the row have larger ranks", le(p, rank(e1)), r3(e1), IMOD(e1), Forall(I0, p, lambda z: and_(IMOD(E(z)), ne(J(z), tm.imod(e1, n)))))
        P.prove("closest: a smaller rank is not farther", le(D(e1), D(e2)), r3(e1), r3(e2), lt(rank(e1), p), le(p, rank(e2)))
        q_, pk, y = fresh("periods", "I"), fresh("pk", "R"), fresh("y", "R")
        G("closest: no periodic image of a point outside of the row is closer", le(ab(y), ab(sub(add(X(c), pk), tg))), grid(c), rn(c), *[le(ab(y), ab(Yk(k, c))) for k in range(3)],
          or_(*[and_(eq(q_, ic(k)), eq(pk, mul(rc(k), Pd))) for k in (-1, 0, 1)], and_(le(ic(2), q_), le(mul(rc(2), Pd), pk)), and_(le(q_, ic(-2)), le(pk, mul(rc(-2), Pd)))))
        # whole periods
        kk = fresh("k", "I")
        moved = add(T_(i), mul(Pd, toR(kk)))
        S_note("fn mod: mod(u + k P, P) = mod(u, P) for integers k")

        def move(t):
            t = tm.replace(t, {T_(i): moved})
            return tm.replace(t, {fn("mod", add(arg, mul(Pd, toR(kk))), Pd): md})
        P.prove("whole periods: the columns of the row do not change", eq(move(J(a)), J(a)), rK(a))
        P.prove("whole periods: the interpolated points of the row do not change", eq(move(toR(L.x(a))), toR(L.x(a))), rK(a))
    V.explore("period", PRE + (lt(R0, Pd), EXT), run, post)


def S_note(s):
    sym.S.note(s)


def apps_bound(ts, name):
    out, seen = {}, set()

    def go(t):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "app" and t.args[0] == name and not any(v.args[0].startswith("@") for x in t.args[1:3] for v in x.fv):
            out[t] = True
        for x in t.args:
            go(x)
    for t in ts:
        go(t)
    return list(out)


contract("C05", ["getSparseInterpolationMatrix"], "periodic grids: every row", time_=300)(periodic)


def refuse(V):
    la, call, sinks = start(V)
    V.explore("order above the number of points", (le(I1, n), le(I0, m), lt(n, p)), lambda: call(lambda: la.getSparseInterpolationMatrix(arr("x", (n,)), arr("t", (m,)), wrap(p))), raises=AssertionError)
    V.explore("order above the number of points, period", (le(I1, n), le(I0, m), lt(n, p), lt(R0, var("P", "R"))),
              lambda: call(lambda: la.getSparseInterpolationMatrix(arr("x", (n,)), arr("t", (m,)), wrap(p), wrap(var("P", "R")))), raises=AssertionError)


contract("C05", ["getSparseInterpolationMatrix"], "order above the number of points is refused")(refuse)
