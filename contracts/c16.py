"""C16 a Q-generator argument is equivalent to spelling its parameters out.

For every registered QDelta class: construct it from an arbitrary Q generator with every subset of its parameters given
explicitly (by position or by name), and compare with the construction from parameters alone, where the missing ones are
the attributes of the Q generator with the same name (tLeft: 0 when it has none)."""
import inspect
import itertools
from .base import *
from . import c14

M, k = var("M", "I"), var("k", "I")
PRE = (le(ic(2), M), le(I1, k))
FLAG = ("coll", "qGen")


def stubs(V):
    """(qmat.qdelta, maker of an arbitrary Q generator / collocation with given attributes)"""
    qd = c14.prepare(V)
    qc, cm, dg = V.mod("qmat.qcoeff"), V.mod("qmat.qcoeff.collocation"), V.mod("qmat.qdelta.diag")
    at = lambda q: property(lambda self: self.at[q])
    body = {"nodes": at("nodes"), "Q": at("Q"), "weights": property(lambda self: arr("w", self.at["nodes"].vshape)), "nNodes": at("nNodes")}

    class CollStub(c14.Coll, cm.Collocation):
        """used inside of the approximations, and as super class of the given object"""
        def __init__(self, *a, **kw):
            if "given" in kw:
                self.at = kw["given"]
                self.nodeType, self.quadType = self.at["nodeType"], self.at["quadType"]
                self.tLeft, self.tRight = self.at["tLeft"], wrap(var("tR", "R"))
            else:
                self.at = None
                c14.Coll.__init__(self, *a, **kw)
        nodes = property(lambda self: self._x if self.at is None else self.at["nodes"])
        Q = property(lambda self: self._Q if self.at is None else self.at["Q"])
        weights = property(lambda self: arr("w", (self.n,)) if self.at is None else arr("w", (term(self.at["nNodes"]),)))
        nNodes = property(lambda self: wrap(self.n) if self.at is None else self.at["nNodes"], lambda self, v: None)
    if hasattr(dg, "Collocation"):
        dg.Collocation = CollStub
    if hasattr(cm, "Collocation"):
        cm.Collocation = CollStub

    def make(kind, at):
        if kind == "collocation":
            return CollStub(given=at)
        ns = {q: body[q] for q in body}
        c = type("AnyQGen", (qc.QGenerator,), ns)
        g = c.__new__(c)
        g.at = at
        if kind == "with tLeft":
            g.tLeft = at["tLeft"]
        return g
    return qd, make


def attrs(V, cls, which, size, quad):
    """attribute values of the Q generator (which = 'g') or explicit values (which = 'e')"""
    tabs = V.mod("qmat.qdelta.mincoeffs")
    ntype, nn = "LEGENDRE", size
    t = getattr(tabs, cls.__name__, None)
    if isinstance(t, dict):
        opts = [(nt, qt, s) for nt in sorted(t) for qt in sorted(t[nt]) for s in sorted(t[nt][qt])]
        ntype, quad, nn = opts[0] if which == "g" else opts[-1]
        nn = ic(nn)
    elif which == "e":
        quad = "LOBATTO" if quad != "LOBATTO" else "RADAU-RIGHT"
        nn = var("M2", "I") if size is M else ic(size.args[0] % 3 + 2)
    sz = nn if which == "g" or size is not M or isinstance(t, dict) else size
    return {"Q": arr("Q" + which, (sz, sz)), "nodes": arr("x" + which, (sz,)), "tLeft": wrap(var("tL" + which, "R")),
            "nNodes": wrap(nn), "nodeType": ntype, "quadType": quad}


ERR = (AssertionError, ValueError, KeyError, NotImplementedError, TypeError)


def build(f):
    """the generator f(), or the type of the exception"""
    try:
        return f()
    except Unsupported:
        raise
    except ERR as e:
        return type(e)


def equal(P, a, b):
    """both values are equal (quietly: no obligation is recorded)"""
    if a is b:
        return True
    if isinstance(a, (SArr, np.ndarray)) and isinstance(b, (SArr, np.ndarray)):
        a, b = darr(a), darr(b)
        if len(a.vshape) != len(b.vshape):
            return False
        ix = [fresh("i", "I") for _ in a.vshape]
        rng = [c for i, n in zip(ix, b.vshape) for c in (le(I0, i), lt(i, term(n)))]
        goals = [(eq(sym.dimsize(p), sym.dimsize(q)), P.ctx) for p, q in zip(a.vshape, b.vshape)] + [(eq(toR(a.at(*ix)), toR(b.at(*ix))), P.ctx.extend(*rng))]
    elif isinstance(a, Sym) or isinstance(b, Sym):
        if not (isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float))):
            return False
        goals = [(eq(toR(term(a)), toR(term(b))), P.ctx)]
    elif isinstance(a, (int, float, str, type(None))) and type(a) is type(b):
        return a == b
    elif isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(equal(P, p, q) for p, q in zip(a, b))
    elif isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return all(equal(P, a[q], b[q]) for q in a)
    elif isinstance(a, c14.Coll) and isinstance(b, c14.Coll):
        return equal(P, vars(a), vars(b))
    else:
        return False
    for g, c in goals:
        try:
            prover.prove(g, c, {"time": 20, "unfold": loops.unfolder(P.S)})
        except (prover.ProofFail, prover.Undefined, prover.Budget, RecursionError):
            return False
    return True


def same(P, what, a, b):
    if isinstance(a, type) or isinstance(b, type):
        P.fact("%s: rejected like the parameters alone" % what, isinstance(a, type) and isinstance(b, type), "%s / %s" % (
            a.__name__ if isinstance(a, type) else "result", b.__name__ if isinstance(b, type) else "result"))
        return
    if type(a) is type(b) and vars(a) and equal(P, vars(a), vars(b)):
        P.fact("%s: the same generator object state, hence the same coefficients" % what, True)
        return
    # other states: compare what they generate
    with symbolic():
        out = [[build(lambda: g.getQDelta(wrap(k))), build(lambda: g.getQDelta()), build(lambda: g.dTau)] for g in (a, b)]
    for nm, p, q in zip(("matrix of sweep k", "matrix without sweep", "dTau"), *out):
        if isinstance(p, type) or isinstance(q, type):
            P.fact("%s: %s" % (what, nm), isinstance(p, type) and isinstance(q, type), "rejected by one of both")
            continue
        q = darr(q)
        P.array("%s: %s" % (what, nm), p, q.vshape, q.snap())


def each(V, name):
    qd, make = stubs(V)
    cls = V.mod("qmat.utils").getClasses(qd.QDELTA_GENERATORS).get(name)
    if cls is None:
        raise Unsupported("%s is not registered" % name)
    fn = qd.genQDeltaCoeffs
    names = [p.name for p in inspect.signature(cls.__init__).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD and p.name != "self"]
    iterative = name in ("MIN_SR_S", "MIN_SR_FLEX")
    sizes = [(M, "RADAU-RIGHT")] + ([(I1, "RADAU-RIGHT")] if iterative else [])
    kinds = ["collocation"] if "nNodes" in names else ["collocation", "with tLeft", "without tLeft"]
    if set(names) - {"Q", "nodes", "tLeft", "nNodes", "nodeType", "quadType"}:
        raise Unsupported("%s needs %s" % (name, names))
    for size, quad in sizes:
        for kind in kinds:
            # every subset of explicit parameters, the first ones by position
            for sub_ in itertools.chain.from_iterable(itertools.combinations(names, r) for r in range(len(names) + 1)):
                npos = 0
                while npos < len(sub_) and sub_[npos] == names[npos]:
                    npos += 1
                for pos in range(npos + 1):
                    def run():
                        ga, ea = attrs(V, cls, "g", size, quad), attrs(V, cls, "e", size, quad)
                        if kind == "without tLeft":
                            ga["tLeft"] = 0
                        full = {q: ea[q] if q in sub_ else ga[q] for q in names}
                        g = lambda: make(kind, ga)
                        args = [ea[q] for q in sub_[:pos]]
                        kw = {q: ea[q] for q in sub_[pos:]}
                        ref = build(lambda: cls(**full))
                        out = {"qGen": build(lambda: cls(*args, qGen=g(), **kw)),
                               "extra parameters": build(lambda: cls(*args, unrelated=ea["Q"], form="N2N", qGen=g(), **kw)),
                               "deprecated name": build(lambda: cls(*args, coll=g(), **kw))}
                        if len(sub_) == len(names):
                            out["no Q generator"] = build(lambda: cls(*args, **kw))
                            out["Q generator None"] = build(lambda: cls(*args, qGen=None, **kw))
                            out["no Q generator, extra parameters"] = build(lambda: cls(*args, unrelated=ea["Q"], k=2, **kw))
                        return ref, out

                    def post(P, v):
                        ref, out = v
                        for w, r in out.items():
                            same(P, w, r, ref)
                    V.explore("%s: %s%s, explicit: %s%s" % (name, kind, "" if size is M else " (%s nodes)" % show(size), ", ".join(sub_) or "none", " (%d by position)" % pos if pos else ""),
                              PRE + (le(ic(2), var("M2", "I")),), run, post)
            for both in (lambda g: cls(qGen=g, coll=g), lambda g: fn(name, qGen=g, coll=g), lambda g: cls(coll=make(kind, attrs(V, cls, "e", size, quad)), qGen=g)):
                V.explore("%s: %s, both names of the argument" % (name, kind), PRE, lambda: both(make(kind, attrs(V, cls, "g", size, quad))), raises=AssertionError)


for _n in sorted(("BE", "BEPAR", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "Exact", "FE", "FlexJumper", "GS", "Jumper", "LDU", "LU", "LU2", "MIN", "MIN3",
                  "MIN_SR_FLEX", "MIN_SR_NS", "MIN_SR_S", "MIN_VDHS", "PIC", "QPar", "SOE", "TRAP", "TRAPAR")):
    def _f(V, _n=_n):
        each(V, _n)
    _f.__name__ = "qgen_" + _n
    contract("C16", ["qmat.utils.useQGen", "qmat.qdelta: %s.__init__, extractParams" % _n, "genQDeltaCoeffs"],
             "%s: every Q generator, every subset of explicit parameters by position or name, extra parameters, deprecated name" % _n, time_=200)(_f)
