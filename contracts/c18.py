"""C18 SDC solver of the Dahlquist problem (fixed points: lemmas/Sweep.lean)."""
from .base import *
from vp.shim import INV

M, ns, K = var("M", "I"), var("nSteps", "I"), var("nSweeps", "I")
lam_, u0, T = var("lam", "R"), var("u0", "R"), var("tEnd", "R")
PRE = (le(I1, M), le(I1, ns), le(I0, K))
SW = "SWEPT"                                # specification: node values after m sweeps from the step value v


def z():
    return mul(lam_, T, recip(toR(ns)))


def sweep(D, k, v, f):
    """node values solving (I - z D_k) new = v + z (Q - D_k) f"""
    def new(j):
        l = lam("I", lambda a: lam("I", lambda b: sub(ite(eq(a, b), R1, R0), mul(z(), D(k, a, b)))))
        return Sum(I0, M, lambda a: mul(INV(M, l, j, a), add(v, mul(z(), Sum(I0, M, lambda b: mul(sub(A("Q", a, b), D(k, a, b)), f(b)))))))
    return new


def swept(v, m, q):
    return app(SW, (v, m, q), "R")


def define(S, D):
    """the specification function, defined by recursion over the number of sweeps"""
    v, q, i = fresh("v", "R"), fresh("q", "I"), fresh("i", "I")
    S.ghosts[SW] = loops.Ghost(SW, "time", (v,), (q,), "R", init=v, i=i, step=sweep(D, i, v, lambda b: swept(v, i, b))(q))


def induction(P, val, D, at):
    """every recursion of the code over the sweeps that provably follows the specification:
    G(i, m, q) == SWEPT(val(i), m, q) for all m, q, by induction on m; -> the rewriting for i == at"""
    S, out = P.S, {}
    for g in list(S.ghosts.values()):
        if g.name == SW or g.kind != "time" or g.sort != "R" or len(g.params) != 1 or len(g.q) != 1:
            continue
        p, q = g.params[0], g.q[0]

        def rule(where, g=g):
            v = val(where)
            return {g.name: lambda a: swept(v, a[1], a[2]) if a[0] is where else app(g.name, a, "R")}
        ctx = P.ctx.extend(le(I0, p), lt(p, ns))
        # probe without recording: another recursion of the code may be something else
        probe = V(P.v.meta)
        ok = probe.goal("", eq(g.init, val(p)), ctx, S) and \
            probe.goal("", eq(loops.mapapps(g.step, rule(p)), sweep(D, g.i, val(p), lambda b: swept(val(p), g.i, b))(q)), ctx.extend(le(I0, g.i), lt(g.i, K)), S)
        if ok:
            P.fact("every sweep solves (I - z QDelta_k) u_new = u_step + z (Q - QDelta_k) u_old, from u_step on (induction)", True)
            out.update(rule(at))
    return out


def run_solver(V, what, nd, weights, monitors):
    sdc = V.mod("qmat.utils.sdc")
    st = {}
    D = (lambda k, a, b: A("D", k, a, b)) if nd == 3 else (lambda k, a, b: A("D", a, b))
    rep = lambda: SArr.new((K, M, M), lambda k, a, b: A("D", a, b), "f")

    def run():
        st["Q"], st["D"] = arr("Q", (M, M)), rep() if nd == "rep" else arr("D", (M, M) if nd == 2 else (K, M, M))
        kw = {}
        if weights:
            kw["weights"] = st["w"] = arr("w", (M,))
        if monitors:
            st["m"] = kw["monitors"] = list(monitors)
        st["fr"] = Frame(**{k: v for k, v in st.items() if isinstance(v, SArr)})
        return sdc.solveDahlquistSDC(wrap(lam_), wrap(u0), wrap(T), wrap(ns), wrap(K), st["Q"], st["D"], **kw)

    def post(P, r):
        if monitors:
            ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) and sorted(r[1]) == sorted(monitors)
            P.fact("the solution and the monitors asked for are returned", ok)
            if not ok:
                return
            u, mon = r
        else:
            u, mon = r, {}
        P.shape("solution", u, (add(ns, I1),))
        P.fact("holds complex values", u.dt == "c", "type %s" % u.dt)
        P.prove("first value", eq(u.at(I0), u0))
        define(P.S, D)
        i, k, j = fresh("i", "I"), fresh("k", "I"), fresh("j", "I")
        rng = (le(I0, i), lt(i, ns))
        P.ctx = P.ctx.extend(*rng)
        val = lambda a: u.at(a)
        h = induction(P, val, D, i)
        ui = u.at(i)
        unf = loops.unfolder(P.S)
        only = lambda x, ctx: unf(x, ctx) if x.args[0] == SW else None
        new = u.at(add(i, I1))
        # one step of a definition by recursion over the steps
        m = {x: unf(x, P.ctx) for x in tm.subterms(new) if x.op == "app" and x not in set(tm.subterms(ui)) and
             x.args[0] in P.S.ghosts and P.S.ghosts[x.args[0]].kind == "def"}
        new = loops.mapapps(tm.replace(new, {x: y for x, y in m.items() if y is not None}), h)
        if weights:
            spec = add(ui, mul(z(), Sum(I0, M, lambda a: mul(A("w", a), swept(ui, K, a)))))
        else:
            spec = swept(ui, K, sub(M, I1))
        P.prove("end of each step", eq(new, spec), unfold=only)
        for key in mon:
            P.shape(key, mon[key], (add(K, I1), ns, M))
            P.fact(key + " hold complex values", mon[key].dt == "c", "type %s" % mon[key].dt)
            for when, kk, sp in (("of the initial values", I0, lambda a: ui), ("after every sweep", add(k, I1), sweep(D, k, ui, lambda b: swept(ui, k, b)))):
                if key == "residuals":
                    e = sub(add(ui, mul(z(), Sum(I0, M, lambda a: mul(A("Q", j, a), sp(a))))), sp(j))
                else:
                    t = add(mul(T, toR(i), recip(toR(ns))), mul(T, recip(toR(ns)), Sum(I0, M, lambda a: A("Q", j, a))))
                    e = sub(sp(j), mul(u0, fn("exp", mul(lam_, t))))
                P.prove("%s %s" % (key, when), eq(loops.mapapps(mon[key].at(kk, i, j), h), e), le(I0, k), lt(k, K), le(I0, j), lt(j, M), unfold=only)
            P.owned(key + " is a new array", mon[key], u, *[v for v in st.values() if isinstance(v, SArr)])
        st["fr"].check(P)
        P.owned("a new array", u, *[v for v in st.values() if isinstance(v, SArr)])
        if monitors:
            P.fact("the list of monitors is not modified", st["m"] == list(monitors))
    V.explore(what, PRE, run, post)


def solve(nd):
    def f(V):
        for weights in (False, True):
            for mon in ((), ("residuals",), ("errors",), ("residuals", "errors")):
                run_solver(V, "QDelta %dD, %s, monitors %s" % (nd, "weights" if weights else "last node", "+".join(mon) or "none"), nd, weights, mon)
    f.__name__ = "solve_%dD" % nd
    return f


for nd in (2, 3):
    contract("C18", ["solveDahlquistSDC"], "sweeps of every step, %s, with and without step update and monitors" %
             ("one matrix for all sweeps" if nd == 2 else "one matrix per sweep"))(solve(nd))


def repeated(V):
    """the stack of a repeated matrix: same specification as the single matrix"""
    for weights in (False, True):
        run_solver(V, "repetition of one matrix, %s" % ("weights" if weights else "last node"), "rep", weights, ())


contract("C18", ["solveDahlquistSDC"], "a repeated matrix follows the specification of the single matrix")(repeated)


def rejected(V):
    sdc = V.mod("qmat.utils.sdc")
    a, b, c = var("d0", "I"), var("d1", "I"), var("d2", "I")
    pos = (le(I0, a), le(I0, b), le(I0, c))

    def call(D, **kw):
        return lambda: sdc.solveDahlquistSDC(wrap(lam_), wrap(u0), wrap(T), wrap(ns), wrap(K), arr("Q", (M, M)), arr("D", D), **kw)
    V.explore("a single matrix of another shape", PRE + pos + (or_(ne(a, M), ne(b, M)),), call((a, b)), raises=AssertionError)
    V.explore("a stack of another shape", PRE + pos + (or_(ne(a, K), ne(b, M), ne(c, M)),), call((a, b, c)), raises=AssertionError)
    V.explore("a vector", PRE + pos, call((a,)), raises=AssertionError)
    V.explore("an unknown monitor", PRE, call((M, M), monitors=["residuals", "unknown"]), raises=AssertionError)


contract("C18", ["solveDahlquistSDC"], "inconsistent shapes and unknown monitors are rejected")(rejected)


def error(V):
    sdc = V.mod("qmat.utils.sdc")
    for weights in (False, True):
        for given in (False, True):
            st = {}

            def run():
                st.clear()
                st["Q"], st["D"], st["u"] = arr("Q", (M, M)), arr("D", (M, M)), arr("uNum", (add(ns, I1),))
                kw = {}
                if weights:
                    kw["weights"] = st["w"] = arr("w", (M,))
                if given:
                    kw["uNum"] = st["u"]
                st["fr"] = Frame(**{k: v for k, v in st.items() if isinstance(v, SArr)})

                def solve_(lam, u0_, tEnd, nSteps, nSweeps, Q, QDelta, weights=None, monitors=None):
                    sym.S.note("solveDahlquistSDC: contract of solve")
                    st["call"] = ((term(lam), term(u0_), term(tEnd), term(nSteps), term(nSweeps)), (Q, QDelta, weights), monitors)
                    return st["u"]
                sdc.solveDahlquistSDC = solve_
                return sdc.errorDahlquistSDC(wrap(lam_), wrap(u0), wrap(T), wrap(ns), wrap(K), st["Q"], st["D"], **kw)

            def post(P, e):
                if given:
                    P.fact("the given solution is used", "call" not in st)
                else:
                    c = st.get("call")
                    P.fact("solveDahlquistSDC is called without monitors", c is not None and not c[2])
                    if c:
                        P.prove("with the same parameters", and_(*[eq(x, y) for x, y in zip(c[0], (lam_, u0, T, ns, K))]))
                        for nme, x, y in zip(("Q", "QDelta", "weights"), c[1], (st["Q"], st["D"], st.get("w"))):
                            if y is None:
                                P.fact("no weights", x is None)
                            else:
                                P.array("with the same " + nme, x, y.vshape, lambda *i, y=y: y.at(*i))
                P.maxabs("error", e, add(ns, I1), lambda i: sub(A("uNum", i), mul(u0, fn("exp", mul(lam_, mul(T, toR(i), recip(toR(ns))))))))
                st["fr"].check(P)
            V.explore("errorDahlquistSDC, uNum %s, %s" % ("given" if given else "computed", "weights" if weights else "last node"), PRE, run, post)


contract("C18", ["errorDahlquistSDC"], "largest deviation from the exact exponential over all times, of the given or the computed solution")(error)
