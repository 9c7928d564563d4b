"""C15 multi-sweep generation."""
from .base import *
from .stubs import *

L, n, k = var("L", "I"), var("nSweeps", "I"), var("k", "I")
PRE = (le(I1, M),)
tn = lambda i: app("name", (i,), "I")


def setup(V):
    log = []
    qd = V.mod("qmat.qdelta")
    qd.QDELTA_GENERATORS = Registry(log)
    return qd, log


ARGS = {"nodes": object(), "other": object()}


def stack(V):
    qd, log = setup(V)
    gen = lambda *a, **kw: qd.genQDeltaCoeffs(*a, **kw, **ARGS)

    def args_ok(P):
        P.fact("every generator gets exactly the given parameters", bool(log) and all(set(q) == set(ARGS) and all(q[x] is ARGS[x] for x in ARGS) for q in log), "%s" % [sorted(q) for q in log[:3]])

    def dtau(P, d, t):
        P.array("dTau of the first approximation", d, (M,), lambda i: app("DT", (t, i), "R"))

    def out(P, v, dt):
        """-> (coefficients, dTau)"""
        if not dt:
            P.fact("a single array", isinstance(v, SArr) or isinstance(v, np.ndarray), type(v).__name__)
            return v, None
        P.fact("two outputs", isinstance(v, (list, tuple)) and len(v) == 2)
        return v[0], v[1]
    names = lambda: SList(L, lambda i: Name(tn(i)))
    kn = Forall(I0, L, lambda i: known(tn(i)))
    for form in ("Z2N", "N2N"):
        for dt in (False, True):
            kw = {"form": form, "dTau": dt}
            one = tn(I0)
            f = ic(1 if form == "N2N" else 0)
            q = lambda t, s: (lambda i, j: app("QD", (t, s, f, i, j), "R"))

            def run(*a, **k2):
                def r():
                    log.clear()
                    st["names"] = None
                    a2 = [x() if callable(x) else x for x in a]
                    if a2 and isinstance(a2[0], SList):
                        st["names"] = (a2[0], a2[0].n, a2[0].get)
                    if a2 and type(a2[0]) is list:
                        st["names"] = (a2[0], list(a2[0]))
                    return gen(*a2, **dict(kw, **{x: (y() if callable(y) else y) for x, y in k2.items()}))
                return r
            st = {}

            def frame(P):
                if st.get("names"):
                    x = st["names"]
                    P.fact("the list of names is unchanged", (x[0].n is x[1] and x[0].get is x[2]) if len(x) == 3 else
                           (len(x[0]) == len(x[1]) and all(p is q for p, q in zip(*x))))

            def single(P, v):
                m, d = out(P, v, dt)
                P.array("the matrix of the approximation without sweep number", m, (M, M), q(one, NONE))
                if dt:
                    dtau(P, d, one)
                args_ok(P)

            def many(t, cnt):
                def post(P, v):
                    m, d = out(P, v, dt)
                    P.array("slice s: the matrix of approximation s for sweep s + 1", m, (cnt, M, M), lambda s, i, j: app("QD", (t(s), add(s, I1), f, i, j), "R"))
                    if dt:
                        dtau(P, d, t(I0))
                    args_ok(P)
                    frame(P)
                return post
            la = "form=%s dTau=%s: " % (form, dt)
            V.explore(la + "one name, no sweep count", PRE + (known(one),), run(lambda: Name(one)), single)
            V.explore(la + "one name, n sweeps", PRE + (known(one), le(I1, n)), run(lambda: Name(one), nSweeps=lambda: wrap(n)), many(lambda s: one, n))
            V.explore(la + "list, no sweep count", PRE + (kn, le(I1, L)), run(names), many(tn, L))
            V.explore(la + "list, n sweeps", PRE + (kn, le(I1, L), le(L, n)), run(names, nSweeps=lambda: wrap(n)), many(lambda s: tn(ite(lt(s, L), s, sub(L, I1))), n))
            V.explore(la + "list of one name (a Python list), n sweeps", PRE + (known(one), le(I1, n)), run(lambda: [Name(one)], nSweeps=lambda: wrap(n)), many(lambda s: one, n))
            V.explore(la + "list of two names (a Python list)", PRE + (known(one), known(tn(I1))), run(lambda: [Name(one), Name(tn(I1))]), many(tn, ic(2)))
            V.explore(la + "list of two names (a Python list), n sweeps", PRE + (known(one), known(tn(I1)), le(ic(2), n)), run(lambda: [Name(one), Name(tn(I1))], lambda: wrap(n)),
                      many(lambda s: tn(ite(lt(s, ic(2)), s, I1)), n))


contract("C15", ["genQDeltaCoeffs"], "slices, number of slices, repetition of the last name, dTau, frame, for lists of any length and any number of sweeps", time_=200)(stack)


def refuse(V):
    qd, log = setup(V)
    names = lambda: SList(L, lambda i: Name(tn(i)))
    kn = Forall(I0, L, lambda i: known(tn(i)))
    one = tn(I0)
    g = lambda *a, **kw: (lambda: qd.genQDeltaCoeffs(*[x() if callable(x) else x for x in a], **kw, **ARGS))
    real = wrap(var("x", "R"))
    err = (ValueError, AssertionError)
    V.explore("one name, sweep count below 1", PRE + (known(one), le(n, I0)), g(lambda: Name(one), wrap(n)), raises=err)
    V.explore("list, sweep count below 1", PRE + (kn, le(I1, L), le(n, I0)), g(names, wrap(n)), raises=err)
    V.explore("one name, sweep count that is no integer", PRE + (known(one),), g(lambda: Name(one), real), raises=err)
    V.explore("list, sweep count that is no integer", PRE + (kn, le(I1, L)), g(names, real), raises=err)
    for bad in ("2", [2], 2.0, (3,)):
        V.explore("one name, nSweeps=%r" % (bad,), PRE + (known(one),), g(lambda: Name(one), nSweeps=bad), raises=err)
        V.explore("list, nSweeps=%r" % (bad,), PRE + (kn, le(I1, L)), g(names, nSweeps=bad), raises=err)
    V.explore("list longer than the sweep count", PRE + (kn, le(I1, n), lt(n, L)), g(names, wrap(n)), raises=err)
    V.explore("empty list", PRE, g(lambda: []), raises=err)
    V.explore("empty list, n sweeps", PRE + (le(I1, n),), g(lambda: [], wrap(n)), raises=err)
    V.explore("empty list of symbolic length", PRE + (le(L, I0), eq(L, I0)), g(names), raises=err)
    bad_ = not_(kn)
    V.explore("unknown name", PRE + (not_(known(one)),), g(lambda: Name(one)), raises=ValueError)
    V.explore("unknown name, n sweeps", PRE + (not_(known(one)), le(I1, n)), g(lambda: Name(one), wrap(n)), raises=ValueError)
    V.explore("list with an unknown name", PRE + (bad_, le(I1, L)), g(names), raises=ValueError)
    V.explore("list with an unknown name, n sweeps", PRE + (bad_, le(I1, L), le(L, n)), g(names, wrap(n)), raises=ValueError)
    for t in (None, 3, ("BE",), {"BE"}, object()):
        V.explore("qDeltaType of type %s" % type(t).__name__, PRE, g(t), raises=err)
        V.explore("qDeltaType of type %s, n sweeps" % type(t).__name__, PRE + (le(I1, n),), g(t, wrap(n)), raises=err)
    f = Str("form")
    V.explore("unknown form", PRE + (known(one),), lambda: qd.genQDeltaCoeffs(Name(one), form="other", **ARGS), raises=ValueError)
    V.explore("unknown form, n sweeps", PRE + (known(one), le(I1, n)), lambda: qd.genQDeltaCoeffs(Name(one), wrap(n), form="other", **ARGS), raises=ValueError)


contract("C15", ["genQDeltaCoeffs"], "refusal of sweep counts, lists, types and names outside of the contract")(refuse)


def slices(V):
    """QDeltaGenerator.genCoeffs on the contracts of getQDelta, getSDelta (C08, C14)"""
    qd = V.mod("qmat.qdelta")

    def gen():
        one = NONE
        mat = lambda nm: (lambda self, k=None, copy=True: SArr.new((M, M), lambda i, j: app(nm, (NONE if k is None else term(k), i, j), "R"), "f"))
        return type("AnyDelta", (qd.QDeltaGenerator,), {
            "getQDelta": mat("QDZ"), "getSDelta": mat("QDN"), "size": property(lambda self: wrap(M)),
            "dTau": property(lambda self: arr("DT", (M,)))})(arr("Q", (M, M)))
    for form, nm in (("Z2N", "QDZ"), ("N2N", "QDN")):
        for dt in (False, True):
            kw = {"dTau": dt, "form": form}

            def chk(what, shape, spec):
                def post(P, v):
                    m, d = v if dt else (v, None)
                    P.array(what, m, shape, spec)
                    if dt:
                        P.array("dTau", d, (M,), lambda i: A("DT", i))
                return post
            ks = lambda: SList(L, lambda i: wrap(app("ks", (i,), "I")))
            V.explore("genCoeffs(%s, dTau=%s), no sweep number" % (form, dt), PRE, lambda: gen().genCoeffs(**kw), chk("one matrix", (M, M), lambda i, j: app(nm, (NONE, i, j), "R")))
            V.explore("genCoeffs(%s, dTau=%s), sweep k" % (form, dt), PRE, lambda: gen().genCoeffs(wrap(k), **kw), chk("one matrix", (M, M), lambda i, j: app(nm, (k, i, j), "R")))
            V.explore("genCoeffs(%s, dTau=%s), list of sweeps" % (form, dt), PRE + (le(I1, L),), lambda: gen().genCoeffs(ks(), **kw),
                      chk("slice s: the matrix of sweep k[s]", (L, M, M), lambda s, i, j: app(nm, (app("ks", (s,), "I"), i, j), "R")))
            V.explore("genCoeffs(%s, dTau=%s), two sweeps" % (form, dt), PRE, lambda: gen().genCoeffs((wrap(k), 7), **kw),
                      chk("slices", (ic(2), M, M), lambda s, i, j: app(nm, (ite(eq(s, I0), k, ic(7)), i, j), "R")))


contract("C15", ["QDeltaGenerator.genCoeffs"], "one slice per requested sweep, in order, in the requested form")(slices)
