"""C20 registries: every name resolves to exactly one complete class.

Registrations are verified against an arbitrary registry: the invariant (names of registered classes resolve to them, no
name is redirected, a failed registration changes nothing) is preserved by every single registration, hence by every
sequence of registrations and lookups."""
import itertools
from .base import *
from .stubs import AnyGen

tn = lambda i: var("name%s" % i, "I")


class RName(str):
    """arbitrary string (a real str object, as class names have to be), identified by a term"""

    def __new__(cls, t):
        s = str.__new__(cls, "<any name %s>" % show(t))
        s.t = t
        return s

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, RName):
            return sym.S.decide(eq(self.t, o.t))
        if isinstance(o, str):
            raise Unsupported("arbitrary name compared with %r" % o)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def _no(self, *a, **k):
        raise Unsupported("string operation on an arbitrary name")
    startswith = endswith = lower = upper = split = strip = replace = __add__ = __lt__ = __getitem__ = __contains__ = _no


class Reg(dict):
    """arbitrary registry: the function name -> registered class, and the names stored since"""

    def __init__(self, tag):
        self.tag, self.log, self.cls = tag, [], {}

    def old(self, t):
        return app("registered" + self.tag, (t,), "B")

    def key(self, k):
        if not isinstance(k, RName):
            raise Unsupported("registry access with %r" % (k,))
        return k.t

    def __contains__(self, k):
        t = self.key(k)
        return any(sym.S.decide(eq(t, u)) for u, _ in reversed(self.log)) or sym.S.decide(self.old(t))

    def __setitem__(self, k, v):
        self.log.append((self.key(k), v))

    def __getitem__(self, k):
        t = self.key(k)
        for u, v in reversed(self.log):
            if sym.S.decide(eq(t, u)):
                return v
        if not sym.S.decide(self.old(t)):
            raise KeyError(k)
        return self.lookup(t)

    def lookup(self, t):
        if t not in self.cls:
            self.cls[t] = type("Registered", (), {})
        return self.cls[t]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, o=(), **kw):
        for k, v in (o.items() if isinstance(o, dict) else o):
            self[k] = v
        if kw:
            raise Unsupported("registry update")

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{registry %s}" % self.tag
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def _no(self, *a, **k):
        raise Unsupported("registry access")
    keys = values = popitem = clear = __iter__ = __len__ = copy = __or__ = _no

    def items(self):
        """the names stored since, after one arbitrary name registered before"""
        sym.S.note("iteration over a registry treats the names registered before one by one (one arbitrary such name is followed)")
        t = fresh("other", "I")
        sym.S.assume(self.old(t))
        cur = {}
        for u, v in self.log:
            cur[u] = v
        return iter([(RName(t), self.lookup(t))] + [(RName(u), v) for u, v in cur.items()])

    def __delitem__(self, k):
        t = self.key(k)
        for e in reversed(self.log):
            if sym.S.decide(eq(t, e[0])):
                self.log = [f for f in self.log if f[0] is not e[0]]
                return
        if not sym.S.decide(self.old(t)):
            raise KeyError(k)
        self.log.append((t, None))

    def pop(self, k, *d):
        if d and k not in self:
            return d[0]
        v = self[k]
        del self[k]
        return v


ERR = (AssertionError, AttributeError, TypeError, ValueError, KeyError, NotImplementedError)


def attempt(f):
    try:
        return True, f()
    except Unsupported:
        raise
    except ERR as e:
        return False, e


def distinct(ts):
    return and_(*[ne(a, b) for a, b in itertools.combinations(ts, 2)])


def outcome(P, res, regs, cls, names, complete, returned=True):
    """registration of cls under names in the registries (in that order of tags): exactly when it is complete, the names are
    pairwise different and free; all names afterwards, nothing on failure"""
    ok, out = res
    free = and_(distinct(names), *[not_(r.old(t)) for r in regs for t in names])
    if ok:
        P.fact("accepted only if the class is complete", complete, "accepted")
        P.prove("accepted only if all names are free and different", free)
        if returned:
            P.fact("returns the class", out is cls, "returns another object")
        for r in regs:
            for n, t in enumerate(names):
                P.prove("registry %s: name %d resolves to the class" % (r.tag, n), or_(*[eq(t, u) for u, v in r.log if v is cls]))
            for u, v in r.log:
                P.fact("registry %s: only the class is stored" % r.tag, v is cls, "another object stored")
                P.prove("registry %s: no registered name is redirected, no other name is added" % r.tag, and_(not_(r.old(u)), or_(*[eq(u, t) for t in names])))
    else:
        for r in regs:
            P.fact("registry %s is unchanged by a rejected registration" % r.tag, not r.log, "names stored: %s" % [show(u) for u, _ in r.log])
        if complete:
            P.prove("a complete class with free and different names is accepted (%s)" % type(out).__name__, not_(free))



def store(V):
    ut = V.mod("qmat.utils")

    def alias():
        r, c = Reg("D"), type("AnyClass", (), {})
        return attempt(lambda: ut.storeAlias(c, r, RName(tn(0)))), r, c
    V.explore("storeAlias", (), alias, lambda P, v: outcome(P, v[0], [v[1]], v[2], [tn(0)], True, returned=False))
    for n in range(5):
        def run():
            r = Reg("D")
            c = type(RName(tn(0)), (), {"aliases": [RName(tn(q)) for q in range(1, n + 1)]})
            if type(c.__name__) is not RName:
                raise Unsupported("class names")
            return attempt(lambda: ut.storeClass(c, r)), r, c

        def post(P, v):
            outcome(P, v[0], [v[1]], v[2], [tn(q) for q in range(n + 1)], True, returned=False)
            P.fact("the aliases of the class are unchanged", len(v[2].aliases) == n and all(a.t is tn(q + 1) for q, a in enumerate(v[2].aliases)), "changed")
        V.explore("storeClass, %d aliases" % n, (), run, post, maxpaths=2000)
    for what, ns in (("no aliases attribute", {}), ("aliases None", {"aliases": None})):
        def run():
            r = Reg("D")
            c = type(RName(tn(0)), (), dict(ns))
            return attempt(lambda: ut.storeClass(c, r)), r, c
        V.explore("storeClass, %s" % what, (), run, lambda P, v: outcome(P, v[0], [v[1]], v[2], [tn(0)], True, returned=False))


contract("C20", ["storeAlias", "storeClass"], "any registry, any names; class name and 0 to 4 aliases (bounded number of aliases)")(store)


# ------------------------------------------------------------------ Q generators
PROPS = ("nodes", "Q", "weights", "order")


def qclass(qc, shape, constr, aliases, base=None):
    """a class that overrides the base with the given shape: 'p' property, 'f' function, '-' nothing"""
    ns = {}
    for q, s in zip(PROPS, shape):
        if s == "p":
            ns[q] = property(lambda self: 1)
        elif s == "f":
            ns[q] = lambda self: 1
    if constr != "default":
        ns["__init__"] = lambda self, a: None
        if constr == "params":
            ns["DEFAULT_PARAMS"] = {"a": 1}
        elif constr == "bad":
            ns["DEFAULT_PARAMS"] = {"b": 1}
    if aliases:
        ns["aliases"] = [RName(tn(q)) for q in range(1, aliases + 1)]
    return type(RName(tn(0)), (base or qc.QGenerator,), ns)


def regq(V):
    qc = V.mod("qmat.qcoeff")

    def go(label, mk, n, complete):
        def run():
            r = qc.Q_GENERATORS = Reg("Q")
            c = mk()
            return attempt(lambda: qc.register(c)), r, c
        V.explore(label, (), run, lambda P, v: outcome(P, v[0], [v[1]], v[2], [tn(q) for q in range(n + 1)], complete))
    for shape in itertools.product("pf-", repeat=4):
        for constr in ("default", "params", "none", "bad"):
            if constr in ("none", "bad") and "-" in shape:
                continue
            good = shape == ("p",) * 4 and constr in ("default", "params")
            go("overrides %s, constructor %s" % ("".join(shape), constr), lambda: qclass(qc, shape, constr, 0), 0, good)
    for n in (1, 2, 3):
        go("complete class with %d aliases" % n, lambda: qclass(qc, "pppp", "default", n), n, True)
        go("incomplete class with %d aliases" % n, lambda: qclass(qc, "ppp-", "default", n), n, False)
    # requirements met by an intermediate class
    mid = lambda: type("Mid", (qc.QGenerator,), {q: property(lambda self: 1) for q in PROPS[:3]})
    go("overrides inherited from an intermediate class", lambda: qclass(qc, "---p", "default", 1, mid()), 1, True)
    go("order missing in the class and in the intermediate class", lambda: qclass(qc, "----", "default", 1, mid()), 1, False)


contract("C20", ["qmat.qcoeff.register", "checkOverriding", "storeClass"], "Q generators: any registry and names, every combination of overridden, missing and wrong members and constructors", time_=150)(regq)


def regqd(V):
    qd = V.mod("qmat.qdelta")
    sig = {"k=None": (lambda self, k=None: 0, True), "k=1": (lambda self, k=1: 0, True), "k=0": (lambda self, k=0: 0, True), "missing": (None, False), "without k": (lambda self: 0, False), "other name": (lambda self, j=None: 0, False),
           "keyword only": (eval("lambda self, *, k=None: 0"), False), "positional only": (eval("lambda self, k=None, /: 0"), False), "*k": (lambda self, *k: 0, False), "**k": (lambda self, **k: 0, False)}
    con = {"inherited": (None, True), "**kwargs": (lambda self, Q, **kwargs: None, True), "no **kwargs": (lambda self, Q: None, False),
           "kwargs positional": (lambda self, Q, kwargs=None: None, False), "*kwargs": (lambda self, Q, *kwargs: None, False)}

    def go(label, s, c, n, complete):
        def run():
            r = qd.QDELTA_GENERATORS = Reg("QD")
            ns = {}
            if sig[s][0] is not None:
                ns["computeQDelta"] = sig[s][0]
            if con[c][0] is not None:
                ns["__init__"] = con[c][0]
            if n:
                ns["aliases"] = [RName(tn(q)) for q in range(1, n + 1)]
            cl = type(RName(tn(0)), (qd.QDeltaGenerator,), ns)
            return attempt(lambda: qd.register(cl)), r, cl

        def post(P, v):
            outcome(P, v[0], [v[1]], v[2], [tn(q) for q in range(n + 1)], complete)
            if v[0][0] and complete:
                P.fact("dependence on the sweep number", bool(v[2]._K_DEPENDENT) == (s != "k=None"), "recorded as %r" % v[2]._K_DEPENDENT)
            P.fact("the base class is unchanged", qd.QDeltaGenerator._K_DEPENDENT is False, "changed")
        V.explore(label, (), run, post)
    for s in sig:
        for c in con:
            go("computeQDelta(%s), constructor %s" % (s, c), s, c, 0, sig[s][1] and con[c][1])
    for n in (1, 2, 3):
        go("complete class with %d aliases" % n, "k=None", "inherited", n, True)
        go("complete sweep dependent class with %d aliases" % n, "k=1", "**kwargs", n, True)
        go("incomplete class with %d aliases" % n, "without k", "inherited", n, False)


contract("C20", ["qmat.qdelta.register", "checkOverriding", "checkGenericConstr", "storeClass"], "QDelta generators: any registry and names, every kind of constructor and computeQDelta signature", time_=150)(regqd)


def regrk(V):
    qc, bt = V.mod("qmat.qcoeff"), V.mod("qmat.qcoeff.butcher")
    ok = {"A": [[0.5, 0], [0.5, 0.5]], "b": [0.5, 0.5], "c": [0.5, 1]}
    bad = {"b": {"b": [1.0]}, "longer b": {"b": [1.0, 0, 0]}, "A": {"A": [[0.5]]}, "rectangular A": {"A": [[0.5, 0.5]]}, "A with more columns": {"A": [[0.5, 0, 0], [0, 0, 1]]}, "c": {"c": [0.5]}, "longer c": {"c": [0, 0.5, 1]}}

    def go(label, data, order, n, complete):
        def run():
            rq, rr = Reg("Q"), Reg("RK")
            qc.Q_GENERATORS, bt.RK_SCHEMES = rq, rr
            ns = dict(ok, **data)
            if order == "p":
                ns["order"] = property(lambda self: 2)
            elif order == "f":
                ns["order"] = lambda self: 2
            if n:
                ns["aliases"] = [RName(tn(q)) for q in range(1, n + 1)]
            c = type(RName(tn(0)), (bt.RK,), ns)
            return attempt(lambda: bt.registerRK(c)), rq, rr, c
        names = [tn(q) for q in range(n + 1)]
        # every RK scheme is a Q generator (invariant)
        inv = tuple(or_(not_(app("registeredRK", (t,), "B")), app("registeredQ", (t,), "B")) for t in names)

        def post(P, v):
            outcome(P, v[0], [v[1], v[2]], v[3], names, complete)
            P.fact("the base class is unchanged", bt.RK.A is None and bt.RK.b is None and bt.RK.c is None and bt.RK.b2 is None, "changed")
        V.explore(label, inv, run, post)
    for n in (0, 1, 2, 3):
        go("complete class with %d aliases" % n, {}, "p", n, True)
        go("embedded weights, %d aliases" % n, {"b2": [1, 0]}, "p", n, True)
    for w, d in bad.items():
        for n in (0, 2):
            go("wrong sizes (%s), %d aliases" % (w, n), d, "p", n, False)
    for o in ("-", "f"):
        go("order not given as a property (%s)" % o, {}, o, 1, False)


contract("C20", ["qmat.qcoeff.butcher.registerRK", "checkAndStore", "qmat.qcoeff.register", "storeClass"], "Runge-Kutta classes: any two registries with RK_SCHEMES contained in Q_GENERATORS, any names, table sizes", time_=150)(regrk)


# ------------------------------------------------------------------ listing
def listing(V):
    ut = V.mod("qmat.utils")
    mods = ("pkg.qdelta.diag", "pkg.qdelta.algebraic", "pkg.qdelta.xdiag", "pkg.qdelta.diagonal", "pkg.diag.sub")

    def parts(n, k=0):
        """assignments of n entries to classes, up to renaming"""
        if n == 0:
            yield ()
            return
        for p in parts(n - 1):
            for q in range(max(p, default=-1) + 2):
                yield p + (q,)
    for n in range(5):
        for p in parts(n):
            for ms in itertools.product(mods if n < 4 else mods[:2], repeat=max(p, default=-1) + 1):
                for m in (None, "diag", "algebraic", "qdelta", "nosuch"):
                    if m is None and any(x != mods[0] for x in ms):
                        continue
                    cl = [type("C%d" % q, (), {"__module__": x}) for q, x in enumerate(ms)]
                    d = {"n%d" % q: cl[c] for q, c in enumerate(p)}
                    with symbolic():
                        out = ut.getClasses(dict(d), m) if m is not None else ut.getClasses(d)
                    want = {c for c in cl if m is None or c.__module__.endswith("." + m)}
                    good = len(out) == len(want) and set(out.values()) == want and all(d.get(q) is c for q, c in out.items())
                    if not good or n == 4:
                        V.obl("%d names of classes %s in %s, listing %s" % (n, p, ms, m), "proved" if good else "failed", 0, "" if good else "lists %s" % out)
    V.obl("registries of up to 3 names, every assignment of classes and modules", "proved", 0)


contract("C20", ["getClasses"], "each class once, under one of its names, restricted to a submodule (bounded: up to 4 names)")(listing)


# ------------------------------------------------------------------ lookups and present classes
def present(V):
    ut, qc, bt, qd = (V.mod(q) for q in ("qmat.utils", "qmat.qcoeff", "qmat.qcoeff.butcher", "qmat.qdelta"))
    for nm, d, base in (("Q_GENERATORS", qc.Q_GENERATORS, qc.QGenerator), ("RK_SCHEMES", bt.RK_SCHEMES, bt.RK), ("QDELTA_GENERATORS", qd.QDELTA_GENERATORS, qd.QDeltaGenerator)):
        cl = list(dict.fromkeys(d.values()))
        F = lambda what, ok, msg="": V.obl("%s: %s" % (nm, what), "proved" if ok else "failed", 0, "" if ok else str(msg)[:300])
        F("not empty", len(cl) > 0)
        for c in cl:
            al = getattr(c, "aliases", None) or []
            F("%s is a class of its kind" % c.__name__, issubclass(c, base))
            F("%s is reachable by its name and aliases" % c.__name__, all(d.get(q) is c for q in [c.__name__] + list(al)), al)
            F("%s has no other name" % c.__name__, {q for q, x in d.items() if x is c} == set([c.__name__] + list(al)), [q for q, x in d.items() if x is c])
            need = ("computeQDelta",) if base is qd.QDeltaGenerator else PROPS
            root = qd.QDeltaGenerator if base is qd.QDeltaGenerator else qc.QGenerator
            F("%s overrides %s" % (c.__name__, ", ".join(need)), all(getattr(c, q) is not getattr(root, q) for q in need))
            if nm == "RK_SCHEMES":
                F("%s is the Q generator of the same names" % c.__name__, all(qc.Q_GENERATORS.get(q) is c for q in [c.__name__] + list(al)))
        lists = [(None, set(cl))] + [(m, {c for c in cl if c.__module__.split(".")[-1] == m}) for m in sorted({c.__module__.split(".")[-1] for c in cl})] + [("nosuch", set())]
        for m, want in lists:
            with symbolic():
                g = ut.getClasses(d, m)
            F("listing %s" % (m or "all"), len(g) == len(want) and set(g.values()) == want and all(d[q] is c for q, c in g.items()), sorted(g))


contract("C20", ["Q_GENERATORS", "RK_SCHEMES", "QDELTA_GENERATORS", "getClasses"], "every present name, alias and class of the three registries (complete enumeration)")(present)


def lookup(V):
    qc = V.mod("qmat.qcoeff")
    box = {}

    class Gen:
        def __init__(self, *a, **kw):
            box["args"] = (a, kw)

        def genCoeffs(self, *a, **kw):
            import inspect
            b = inspect.signature(qc.QGenerator.genCoeffs).bind(self, *a, **kw)
            b.apply_defaults()
            box["gen"] = {q: v for q, v in b.arguments.items() if q != "self"}
            return box.setdefault("out", object())
    par = {"a": object(), "nodes": object()}
    t = tn(0)

    def setup():
        box.clear()
        r = qc.Q_GENERATORS = Reg("Q")
        r.lookup = lambda t: Gen
        return RName(t)
    for kw in ({}, {"form": "N2N"}, {"hCoeffs": True}, {"embedded": True}, {"form": "N2N", "hCoeffs": True, "embedded": True}, {"form": "Z2N", "hCoeffs": False, "embedded": True}):
        want = dict({"form": "Z2N", "hCoeffs": False, "embedded": False}, **kw)
        for n in range(4):
            args = tuple(want.values())[:n]
            k2 = {q: v for q, v in kw.items() if q not in tuple(want)[:n]}

            def post(P, v):
                P.fact("the generator gets exactly the parameters", box["args"] == ((), par), str(box["args"])[:200])
                P.fact("and the options", box["gen"] == want, str(box["gen"]))
                P.fact("its coefficients are returned", v is box["out"], "other result")
            V.explore("genCoeffs of a registered name, %s, %d by position" % (kw or "defaults", n), (app("registeredQ", (t,), "B"),), lambda: qc.genQCoeffs(setup(), *args, **k2, **par), post)
        V.explore("unknown name, %s" % (kw or "defaults"), (not_(app("registeredQ", (t,), "B")),), lambda: qc.genQCoeffs(setup(), **kw, **par), raises=ValueError)


contract("C20", ["genQCoeffs"], "lookup in any registry: the registered class with the given parameters and options; unknown names raise ValueError (genQDeltaCoeffs: C15)")(lookup)
