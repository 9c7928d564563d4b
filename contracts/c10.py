"""C10 padding of Butcher tables: block structure, stages and steps, isolation of the class tables."""
from .base import *

N = var("N", "I")
PRE = (le(I1, N),)
z = var("z", "R")
TAB = {"A": (N, N), "b": (N,), "c": (N,), "b2": (N,)}


def table(V, emb):
    """a scheme with an arbitrary table, as checkAndStore leaves it"""
    bt = V.mod("qmat.qcoeff.butcher")
    d = {n: arr(n, s) for n, s in TAB.items() if emb or n != "b2"}
    d["order"] = property(lambda self: 1)
    return type("AnyRK", (bt.RK,), d)


def lo(pad):
    return 1 if pad in ("LEFT", "BOTH") else 0


def hi(pad):
    return 1 if pad in ("RIGHT", "BOTH") else 0


def size(pad):
    return add(N, ic(lo(pad) + hi(pad)))


def spec(pad, emb):
    l, h = ic(lo(pad)), hi(pad)
    inb = lambda i: and_(le(l, i), lt(i, add(l, N)))
    last = lambda i: eq(i, add(l, N)) if h else FALSE
    s = {
        "Q": lambda i, j: ite(and_(inb(i), inb(j)), A("A", sub(i, l), sub(j, l)), ite(and_(last(i), inb(j)), A("b", sub(j, l)), R0)),
        "weights": lambda i: ite(inb(i), A("b", sub(i, l)), R0),
        "nodes": lambda i: ite(inb(i), A("c", sub(i, l)), ite(last(i), R1, R0)),
    }
    if emb:
        s["weightsEmbedded"] = lambda i: ite(inb(i), A("b2", sub(i, l)), R0)
    return s


def padded(V, pad, emb):
    st = {}

    def run():
        c = table(V, emb)
        st["c"] = c
        st["fr"] = Frame(**{n: getattr(c, n) for n in TAB if emb or n != "b2"})
        st["o"] = c()
        st["fr2"] = Frame(**{n: getattr(st["o"], n) for n in TAB if emb or n != "b2"})
        g = c(padding=pad)
        st["after"] = c()
        return g

    def post(P, g):
        n = size(pad)
        sp = spec(pad, emb)
        for what, f in sp.items():
            v = getattr(g, what)
            P.array("%s: the original table as a block, the added stage" % what, v, (n,) * (2 if what == "Q" else 1), f)
            for o, w in ((st["c"], "the class table"), (st["o"], "another instance"), (st["after"], "a later instance")):
                P.owned("%s of the padded scheme shares no memory with %s" % (what, w), v, *[getattr(o, q) for q in TAB if getattr(o, q) is not None])
        for what, nm in (("Q", "A"), ("weights", "b"), ("nodes", "c")) + ((("weightsEmbedded", "b2"),) if emb else ()):
            for o, w in ((st["o"], "an instance created before"), (st["after"], "an instance created after")):
                P.array("%s of %s is the unpadded table" % (what, w), getattr(o, what), TAB[nm], lambda *i: A(nm, *i))
                P.owned("%s of %s is not the class table" % (what, w), getattr(o, what), getattr(st["c"], nm))
        st["fr"].check(P)
        st["fr2"].check(P)
        if not emb:
            try:
                g.weightsEmbedded
                P.fact("no embedded weights are invented", False, "a scheme without b2 gets embedded weights")
            except NotImplementedError:
                P.fact("no embedded weights are invented", True)
        # the step on u' = lambda u (z = lambda dt; a linear system is the same with a commuting z):
        # stages u of the original table, u = 1 + z A u; the padded stages 1, u, 1 + z b.u solve the padded system
        l = ic(lo(pad))
        u = lambda i: A("u", i)
        step = add(R1, mul(z, Sum(I0, N, lambda j: mul(A("b", j), u(j)))))
        U = lambda i: ite(lt(i, l), R1, ite(lt(i, add(l, N)), u(sub(i, l)), step))
        Q, w = g.Q, g.weights
        i = fresh("i", "I")
        res = sub(U(i), add(R1, mul(z, Sum(I0, n, lambda j: mul(Q.at(i, j), U(j))))))
        orig = sub(u(sub(i, l)), add(R1, mul(z, Sum(I0, N, lambda j: mul(A("A", sub(i, l), j), u(j))))))
        P.prove("added stages: satisfy their stage equation", eq(res, R0), le(I0, i), lt(i, n), or_(lt(i, l), le(add(l, N), i)))
        P.prove("original stages: same stage equation", eq(res, orig), le(l, i), lt(i, add(l, N)))
        P.prove("the step is unchanged", eq(add(R1, mul(z, Sum(I0, n, lambda j: mul(w.at(j), U(j))))), step))
        if emb:
            w2 = g.weightsEmbedded
            P.prove("the embedded step is unchanged", eq(Sum(I0, n, lambda j: mul(w2.at(j), U(j))), Sum(I0, N, lambda j: mul(A("b2", j), u(j)))))
        j = fresh("j", "I")
        rng = (le(I0, i), lt(i, n), le(I0, j), lt(j, n))
        if lo(pad):
            P.prove("the added first stage is at 0 and unused", and_(eq(g.nodes.at(I0), R0)))
            P.prove("no stage uses the added first stage", eq(Q.at(i, I0), R0), *rng)
            P.prove("nor do the weights", eq(w.at(I0), R0))
        if hi(pad):
            e = sub(n, I1)
            P.prove("the added last stage is at 1", eq(g.nodes.at(e), R1))
            P.prove("its row repeats the weights", eq(Q.at(e, j), w.at(j)), *rng)
    V.explore("padding %s%s" % (pad, "" if emb else ", no embedded weights"), PRE, run, post)


for _p in ("LEFT", "RIGHT", "BOTH"):
    def _f(V, _p=_p):
        padded(V, _p, True)
        padded(V, _p, False)
    _f.__name__ = "padding_" + _p
    contract("C10", ["qmat.qcoeff.butcher.RK.__init__", "RK.Q", "RK.weights", "RK.nodes", "RK.weightsEmbedded", "QGenerator.nNodes"],
             "padding %s of an arbitrary table: blocks, stage equations, step, isolation" % _p)(_f)


def plain(V):
    st = {}

    def run():
        c = table(V, True)
        st["c"], st["fr"] = c, Frame(**{n: getattr(c, n) for n in TAB})
        return c()

    def post(P, g):
        for what, nm in (("Q", "A"), ("weights", "b"), ("nodes", "c"), ("weightsEmbedded", "b2")):
            P.array("%s is the table" % what, getattr(g, what), TAB[nm], lambda *i: A(nm, *i))
            P.owned("%s is not the class table itself" % what, getattr(g, what), *[getattr(st["c"], q) for q in TAB])
        st["fr"].check(P)
    V.explore("no padding", PRE, run, post)

    def bad():
        return table(V, True)(padding="UP")
    V.explore("unknown padding", PRE, bad, raises=(AssertionError, ValueError))


contract("C10", ["qmat.qcoeff.butcher.RK.__init__"], "no padding: a copy of the table; unknown padding refused")(plain)
