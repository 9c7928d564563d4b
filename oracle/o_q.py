"""C07-C10, C17, C21: Q generators."""
from .base import *
from qmat import genQCoeffs, Q_GENERATORS, QDELTA_GENERATORS, genQDeltaCoeffs
from qmat.qcoeff import QGenerator
from qmat.qcoeff.collocation import Collocation
from qmat.qcoeff.butcher import RK_SCHEMES, RK
from qmat.utils import getClasses
from .o_lagrange import NT, QT

INTERVALS = [[0, 1], [0.0, 1.0], [-1, 1], [2, 5], [-3.5, -1.25], [0.5, 0.625], [0, 1e-3], [10.0, 1000.0], [-7, 0], [0, 1e-9], [1e5, 1e5 + 1], [-2048, -2047.5]]


def admissible(M, qt):
    return not (M < 2 and qt in ("LOBATTO", "RADAU-LEFT"))


@oracle("C07")
class Coll:
    """all node and quadrature types, 1 to 9 nodes, several intervals; exact rational integrals of the basis on the actual nodes"""
    @staticmethod
    def cases(rng, tier):
        for M in range(1, 8 if tier == "quick" else 12):
            for nt in NT:
                for qt in QT:
                    if not admissible(M, qt):
                        continue
                    iv = INTERVALS if tier == "thorough" else [INTERVALS[i] for i in sorted(set([0] + rng.choice(len(INTERVALS), 3).tolist()))]
                    for t in iv:
                        yield {"kind": "coll", "M": M, "nt": nt, "qt": qt, "iv": t}
                    a = float(np.round(rng.normal() * 3, 3))
                    yield {"kind": "coll", "M": M, "nt": nt, "qt": qt, "iv": [a, a + float(np.round(np.exp(rng.normal()), 4)) + 1e-3]}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            return first(rejects(lambda: Collocation(3, "foo", "GAUSS"), ValueError, "node type"),
                         rejects(lambda: Collocation(3, "LEGENDRE", "foo"), ValueError, "quadrature type"),
                         rejects(lambda: Collocation(0, "LEGENDRE", "GAUSS"), ValueError, "0 nodes"))
        M, nt, qt, (a, b) = p["M"], p["nt"], p["qt"], p["iv"]
        c = Collocation(M, nt, qt, tLeft=a, tRight=b) if (a, b) != (0, 1) or M % 2 else Collocation(nNodes=M, nodeType=nt, quadType=qt)
        from qmat.nodes import NodesGenerator
        x = c.nodes
        ref = NodesGenerator(nt, qt).getNodes(M)
        h = b - a
        big = max(abs(a), abs(b), h)
        m = close(x, a + (ref + 1) / 2 * h, 1e-14 * big, "nodes")
        Lf, Rt = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
        if (x[0] == a) != Lf or (x[-1] == b) != Rt:
            m = m or "interval ends: first node %r, last node %r on [%r, %r]" % (x[0], x[-1], a, b)
        if bool(c.rightIsNode) != Rt:
            m = m or "rightIsNode is %r" % c.rightIsNode
        L = Lag(x)
        # rounding in the position of the nodes is amplified by big/h
        sc = 1e-12 * big / h * (M + 2) ** 2 * 2.0 ** M
        Q = fl([L.integral(a, t) for t in x])
        prev = [a] + list(x[:-1])
        S = fl([L.integral(u, v) for u, v in zip(prev, x)])
        w = fl([L.integral(a, b)])[0]
        H = fl([L.row(b)])[0]
        m = m or close(c.Q, Q, sc * h, "Q") or close(c.S, S, sc * h, "S") or close(c.weights, w, sc * h, "weights") or close(c.hCoeffs, H, sc, "hCoeffs")
        g = genQCoeffs("Collocation", nNodes=M, nodeType=nt, quadType=qt, tLeft=a, tRight=b, hCoeffs=True)
        m = m or same(g[0], x, "generated nodes") or same(g[1], c.weights, "generated weights") or same(g[2], c.Q, "generated Q") or same(g[3], c.hCoeffs, "generated hCoeffs")
        g = genQCoeffs("coll", form="N2N", nNodes=M, nodeType=nt, quadType=qt, tLeft=a, tRight=b)
        m = m or close(g[2], S, sc * h, "generated S")
        if c.nNodes != M or (c.tLeft, c.tRight) != (a, b) or (c.nodeType, c.quadType) != (nt, qt):
            m = m or "attributes"
        return m


@oracle("C21")
class Order:
    """every node type, quadrature type and 1 to 16 nodes: degree of exactness of the weights against the reported order"""
    @staticmethod
    def cases(rng, tier):
        for M in range(1, 17 if tier == "quick" else 25):
            for nt in NT:
                for qt in QT:
                    if admissible(M, qt):
                        yield {"kind": "order", "M": M, "nt": nt, "qt": qt}

    @staticmethod
    def check(p):
        M, nt, qt = p["M"], p["nt"], p["qt"]
        c = Collocation(M, nt, qt, tLeft=-1, tRight=1)
        o = c.order
        if nt == "LEGENDRE":
            e = {"GAUSS": 2 * M, "LOBATTO": 2 * M - 2}.get(qt, 2 * M - 1)
            if o != e:
                return "order %d reported instead of %d" % (o, e)
        th = np.arccos(np.clip(c.nodes, -1, 1))
        lam = np.abs(c.weights).sum()
        for k in range(o):
            ex = 0.0 if k % 2 else 2 / (1 - k * k)
            v = (c.weights * np.cos(k * th)).sum()
            if not abs(v - ex) < 1e-11 * (1 + lam) ** 2 * 2 ** (M if nt == "EQUID" else 0):
                return "degree %d is not integrated exactly (order %d reported): %r instead of %r" % (k, o, v, ex)
        if o < 1:
            return "order %d" % o
        return None


# ------------------------------------------------------------------------------ conversions
def diffrows(Q):
    S = np.array(Q, copy=True)
    S[1:] = Q[1:] - Q[:-1]
    return S


class AnyQ(QGenerator):
    """generator with given coefficients"""

    def __init__(self, nodes, weights, Q, b2=None):
        self._n, self._w, self._Q, self._b2 = [np.array(v) if v is not None else None for v in (nodes, weights, Q, b2)]
    nodes = property(lambda s: s._n)
    weights = property(lambda s: s._w)
    Q = property(lambda s: s._Q)
    order = property(lambda s: 1)

    @property
    def weightsEmbedded(self):
        if self._b2 is None:
            raise NotImplementedError
        return self._b2


def qgen(d):
    if d["g"] == "any":
        return AnyQ(d["nodes"], d["w"], d["Q"], d.get("b2"))
    kw = dict(d.get("kw", {}))
    return Q_GENERATORS[d["g"]](**kw)


@oracle("C08")
class Forms:
    """every registered Q generator, random generators of 1 to 9 nodes, every QDelta generator and sweep number"""
    @staticmethod
    def cases(rng, tier):
        for name in sorted(getClasses(Q_GENERATORS)):
            if name == "Collocation":
                for M in range(1, 9):
                    nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
                    if admissible(M, qt):
                        yield {"kind": "q", "g": "Collocation", "kw": {"nNodes": M, "nodeType": nt, "quadType": qt, "tLeft": float(rng.choice([0, -1, 2])), "tRight": 3.0}}
            else:
                for pad in [None, "LEFT", "RIGHT", "BOTH"]:
                    yield {"kind": "q", "g": name, "kw": {"padding": pad} if pad else {}}
        for n in range(1, 10):
            for rep in range(4):
                yield {"kind": "q", "g": "any", "nodes": np.sort(rng.random(n)), "w": rng.random(n), "Q": rng.normal(size=(n, n)), "b2": rng.random(n) if rep % 2 else None}
        for name in sorted(getClasses(QDELTA_GENERATORS)):
            if name == "MIN":
                Ms = (2, 3)
            else:
                Ms = (1, 2, 3, 4, 5, 7) if tier == "quick" else range(1, 10)
            for M in Ms:
                yield {"kind": "qd", "name": name, "M": M, "nt": "LEGENDRE", "qt": "RADAU-RIGHT"}
                if M > 1:
                    yield {"kind": "qd", "name": name, "M": M, "nt": "LEGENDRE", "qt": "LOBATTO"}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            c = Collocation.getInstance()
            g = QDELTA_GENERATORS["BE"](qGen=c)
            out = None
            for f in ("foo", "z2n", "", None, "N2Z", 1):
                out = out or rejects(lambda: c.genCoeffs(form=f), ValueError, "Q form %r" % (f,)) or rejects(lambda: g.genCoeffs(form=f), ValueError, "QDelta form %r" % (f,)) or \
                    rejects(lambda: genQCoeffs("BE", form=f), ValueError, "genQCoeffs form %r" % (f,)) or \
                    rejects(lambda: genQDeltaCoeffs("BE", form=f, qGen=c), ValueError, "genQDeltaCoeffs form %r" % (f,)) or \
                    rejects(lambda: genQDeltaCoeffs(["BE", "FE"], form=f, qGen=c), ValueError, "genQDeltaCoeffs form %r" % (f,))
            return out or rejects(lambda: genQCoeffs("foo"), ValueError, "unknown name")
        if p["kind"] == "q":
            g = qgen(p)
            Q = np.array(g.Q)
            n = Q.shape[0]
            T, Ti = g.T, g.Tinv
            tol = 1e-12 * (np.abs(Q).max() + 1)
            if p["g"] == "Collocation":
                tol = 1e-11 * (np.abs(Q).max() + 1) * 2 ** n
            m = first(close(T @ Ti, np.eye(n), 1e-14, "T Tinv"), close(Ti @ T, np.eye(n), 1e-14, "Tinv T"), close(g.S, diffrows(Q), tol, "S"),
                      close(T @ Q, diffrows(Q), tol, "T Q"), close(Ti @ g.S, Q, tol, "Tinv S"), close(T @ (Ti @ g.S), g.S, tol, "back and forth"))
            a, b, c = g.genCoeffs()
            m = m or first(same(a, g.nodes, "nodes"), same(b, g.weights, "weights"), same(c, Q, "Q"))
            z = g.genCoeffs("N2N")
            m = m or ("length" if len(z) != 3 else None) or first(same(z[0], g.nodes, "N2N nodes"), same(z[1], g.weights, "N2N weights"), close(z[2], diffrows(Q), tol, "N2N matrix"))
            h = g.hCoeffs
            for form in ("Z2N", "N2N"):
                o = g.genCoeffs(form, hCoeffs=True)
                m = m or ("length with hCoeffs" if len(o) != 4 else None) or same(o[3], h, "hCoeffs") or same(o[1], g.weights, "weights") or close(o[2], Q if form == "Z2N" else diffrows(Q), tol, form)
                try:
                    b2 = g.weightsEmbedded
                except NotImplementedError:
                    m = m or rejects(lambda: g.genCoeffs(form, embedded=True), NotImplementedError, "no embedded weights")
                    continue
                o = g.genCoeffs(form, hCoeffs=True, embedded=True)
                m = m or ("length with all" if len(o) != 4 else None) or same(o[1], np.array([g.weights, b2]), "stacked weights") or same(o[3], h, "hCoeffs") or same(o[0], g.nodes, "nodes") or \
                    close(o[2], Q if form == "Z2N" else diffrows(Q), tol, form)
                o = g.genCoeffs(form, False, True)
                m = m or ("length with embedded" if len(o) != 3 else None) or same(o[1], np.array([g.weights, b2]), "stacked weights")
            if p["g"] != "any":
                kw = p.get("kw", {})
                o = genQCoeffs(p["g"], form="N2N", hCoeffs=True, **kw)
                m = m or close(o[2], diffrows(Q), tol, "genQCoeffs N2N") or same(o[3], h, "genQCoeffs hCoeffs")
            return m
        c = Collocation(p["M"], p["nt"], p["qt"])
        try:
            g = QDELTA_GENERATORS[p["name"]](qGen=c)
            g.getQDelta(1)
        except (NotImplementedError, ) as e:
            return None
        m = None
        for k in (None, 1, 2, 3, 5, p["M"], p["M"] + 1):
            QD = g.getQDelta(k)
            S = g.getSDelta(k)
            if not np.isfinite(QD).all():
                return None
            tol = 1e-12 * (1 + np.abs(QD).max())
            m = m or close(S, diffrows(QD), tol, "SDelta(k=%s)" % k) or close(np.tri(p["M"]) @ S, QD, tol, "back from SDelta") or \
                same(g.genCoeffs(k, form="N2N"), S, "genCoeffs N2N") or same(g.genCoeffs(k), QD, "genCoeffs Z2N")
            o = g.genCoeffs(k, form="N2N", dTau=True)
            m = m or ("outputs" if len(o) != 2 else None) or same(o[0], S, "with dTau") or same(o[1], g.dTau, "dTau")
        l = [1, 3, 2]
        st = g.genCoeffs(l, form="N2N")
        m = m or close(st, np.array([diffrows(g.getQDelta(k)) for k in l]), 1e-11 * (1 + np.abs(st).max()), "stack N2N")
        st, dt = g.genCoeffs(l, dTau=True)
        m = m or same(st, np.array([g.getQDelta(k) for k in l]), "stack") or same(dt, g.dTau, "dTau")
        if p["name"] not in ("MIN", "MIN_SR_S"):
            m = m or same(genQDeltaCoeffs(p["name"], form="N2N", qGen=c), g.getSDelta(), "genQDeltaCoeffs N2N") if p["name"] != "MIN_SR_FLEX" else m
        return m


# ------------------------------------------------------------------------------ Butcher tables
def trees(n, memo={}):
    """rooted trees with n vertices: sorted tuples of subtrees"""
    if n in memo:
        return memo[n]
    if n == 1:
        memo[n] = [()]
        return memo[n]
    out = []

    def rec(left, mx, acc):
        if left == 0:
            out.append(tuple(acc))
            return
        for s in range(min(left, mx[0]), 0, -1):
            ts = trees(s)
            for i, t in enumerate(ts):
                if s == mx[0] and i > mx[1]:
                    break
                rec(left - s, (s, i), acc + [t])
    rec(n - 1, (n - 1, 10 ** 9), [])
    memo[n] = out
    return out


def tsize(t):
    return 1 + sum(map(tsize, t))


def gamma(t):
    g = tsize(t)
    for s in t:
        g *= gamma(s)
    return g


def phi(t, A):
    v = np.ones(A.shape[0])
    for s in t:
        v = v * (A @ phi(s, A))
    return v


EXPLICIT = ["FE", "RK21", "RK2", "HEUN2", "RK32", "RK33", "RK53", "RK4", "RK4_38", "RK65", "CashKarp", "ARK548L2SAERK", "ARK548L2SAERK2",
            "ARK324L2SAERK", "ARK222ERK", "ARK443ERK", "ARK343ERK", "ARK4ERK"]
DIAGIMP = ["BE", "MidPoint", "TRAP", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "SDIRK54", "EDIRK43", "EDIRK4", "ESDIRK43", "ESDIRK53",
           "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK", "ARK343ESDIRK", "ARK4EDIRK"]
PAIRS = [("ARK548L2SAERK", "ARK548L2SAESDIRK"), ("ARK548L2SAERK2", "ARK548L2SAESDIRK2"), ("ARK324L2SAERK", "ARK324L2SAESDIRK"),
         ("ARK222ERK", "ARK222EDIRK"), ("ARK443ERK", "ARK443ESDIRK"), ("ARK343ERK", "ARK343ESDIRK"), ("ARK4ERK", "ARK4EDIRK")]


@oracle("C09")
class Butcher:
    """every registered scheme: row sums, every rooted-tree order condition up to the reported orders, failure of one condition of
    the next order, triangularity, nodes of additive pairs (tolerance 1e-9 on the double tables)"""
    @staticmethod
    def cases(rng, tier):
        for name in sorted(getClasses(RK_SCHEMES)):
            yield {"kind": "shape", "scheme": name}
            g = RK_SCHEMES[name]()
            for o in range(1, min(int(g.order), 8) + 1):
                for i, t in enumerate(trees(o)):
                    yield {"kind": "tree", "scheme": name, "w": "b", "tree": repr(t)}
            yield {"kind": "beyond", "scheme": name}
            if g.b2 is not None:
                for o in range(1, min(int(g.orderEmbedded), 8) + 1):
                    for i, t in enumerate(trees(o)):
                        yield {"kind": "tree", "scheme": name, "w": "b2", "tree": repr(t)}
        for a, b in PAIRS:
            yield {"kind": "pair", "a": a, "b": b}
        yield {"kind": "list"}

    @staticmethod
    def check(p):
        if p["kind"] == "list":
            n = set(getClasses(RK_SCHEMES))
            d = set(EXPLICIT + DIAGIMP + ["GAUSS_LG"]) - n
            return "schemes missing: %s" % sorted(d) if d else None
        if p["kind"] == "pair":
            return close(RK_SCHEMES[p["a"]]().nodes, RK_SCHEMES[p["b"]]().nodes, 1e-14, "nodes of the pair")
        name = p["scheme"]
        g = RK_SCHEMES[name]()
        A, b, c = np.array(g.Q), np.array(g.weights), np.array(g.nodes)
        if p["kind"] == "shape":
            m = close(A.sum(axis=1), c, 1e-9, "row sums")
            if name in EXPLICIT and np.triu(A).any():
                m = m or "explicit scheme with non-zero upper part"
            if name in DIAGIMP and np.triu(A, 1).any():
                m = m or "diagonally implicit scheme with non-zero upper part"
            o = g.genCoeffs()
            return m or same(o[0], g.c, "c") or same(o[1], g.b, "b") or same(o[2], g.A, "A") or \
                (close(genQCoeffs(name, embedded=True)[1], [g.b, g.b2], 0, "embedded") if g.b2 is not None else None)
        if p["kind"] == "beyond":
            o = int(g.order) + 1
            if o > 9:
                return "order %d" % (o - 1)
            if all(abs(b @ phi(t, A) - 1 / gamma(t)) < 1e-9 for t in trees(o)):
                return "all conditions of order %d hold as well" % o
            return None
        t = eval(p["tree"], {"__builtins__": {}})
        w = b if p["w"] == "b" else np.array(g.weightsEmbedded)
        r = w @ phi(t, A) - 1 / gamma(t)
        if not abs(r) < 1e-9:
            return "%s: %s condition of order %d fails (residual %.3e)" % (name, p["w"], tsize(t), r)
        return None


@oracle("C10")
class Padding:
    """every scheme and padding, and random tables: step on linear problems, block structure, embedded weights, independence"""
    @staticmethod
    def cases(rng, tier):
        for name in sorted(getClasses(RK_SCHEMES)):
            for pad in ("LEFT", "RIGHT", "BOTH"):
                yield {"kind": "pad", "g": name, "pad": pad, "z": [[float(rng.normal()), float(rng.normal())] for _ in range(4)]}
        for rep in range(60):
            s = int(rng.integers(1, 6))
            yield {"kind": "pad", "g": "any", "pad": ["LEFT", "RIGHT", "BOTH"][rep % 3], "A": rng.normal(size=(s, s)), "b": rng.normal(size=s), "c": rng.normal(size=s),
                   "b2": rng.normal(size=s) if rep % 2 else None, "z": [[float(rng.normal()), float(rng.normal())] for _ in range(4)]}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            return first(*[rejects(lambda: RK_SCHEMES["RK4"](padding=x), AssertionError, "padding %r" % x) for x in ("left", "UP", "LEFTRIGHT")])
        if p["g"] == "any":
            cls = type("AnyRK", (RK,), {k: (None if p[k] is None else np.array(p[k])) for k in ("A", "b", "c", "b2")})
        else:
            cls = RK_SCHEMES[p["g"]]
        old = {k: None if getattr(cls, k) is None else np.array(getattr(cls, k), copy=True) for k in ("A", "b", "c", "b2")}
        g0 = cls()
        A, b, c = np.array(g0.Q, copy=True), np.array(g0.weights, copy=True), np.array(g0.nodes, copy=True)
        b2 = None if g0.b2 is None else np.array(g0.b2, copy=True)
        pad = p["pad"]
        g = cls(padding=pad) if p["z"][0][0] > 0 else cls(pad)
        l, r = pad in ("LEFT", "BOTH"), pad in ("RIGHT", "BOTH")
        s = len(c)
        n = s + l + r
        PA, Pb, Pc = np.array(g.Q), np.array(g.weights), np.array(g.nodes)
        if PA.shape != (n, n) or Pb.shape != (n,) or Pc.shape != (n,) or g.nNodes != n:
            return "shapes %s %s %s" % (PA.shape, Pb.shape, Pc.shape)
        sl = slice(int(l), int(l) + s)
        m = first(same(PA[sl, sl], A, "block"), same(Pb[sl], b, "weights block"), same(Pc[sl], c, "nodes block"))
        if l:
            if PA[0].any() or PA[:-1 if r else None, 0].any() or Pb[0] or Pc[0]:
                m = m or "first stage is not an unused stage at 0"
        if r:
            m = m or same(PA[-1], Pb, "last row") or ("last stage" if PA[:, -1].any() or Pb[-1] or Pc[-1] != 1 else None)
        if b2 is not None:
            e = np.concatenate([[0]] * l + [b2] + [[0]] * r) if l or r else b2
            m = m or same(g.weightsEmbedded, e, "embedded weights")
        elif g.b2 is not None:
            m = m or "embedded weights appeared"
        for x, y in p["z"]:
            z = complex(x, y)
            R = lambda A, b: 1 + z * b @ np.linalg.solve(np.eye(len(b)) - z * A, np.ones(len(b)))
            r0 = R(A, b)
            k = np.linalg.cond(np.eye(s) - z * A)
            m = m or (None if abs(R(PA, Pb) - r0) < 1e-11 * (1 + abs(r0)) * (1 + k) else "stability function at %s" % z)
            if b2 is not None:
                m = m or (None if abs(R(PA, np.array(g.weightsEmbedded)) - R(A, b2)) < 1e-11 * (1 + abs(r0)) * (1 + k) else "embedded stability function at %s" % z)
        u = g0.solveDahlquist(-0.7, 1.0, 0.5, 3)
        m = m or close(g.solveDahlquist(-0.7, 1.0, 0.5, 3), u, 1e-10 * (1 + np.abs(u).max()), "Dahlquist solution")
        # independence
        for a in ("A", "b", "c", "b2"):
            v = getattr(g, a)
            if v is not None:
                v[...] = 77
        # an instance without padding owns its table as well
        h = cls()
        for v in (h.A, h.b, h.c, h.b2):
            if v is not None:
                v[...] = 55
        g1 = cls()
        for k, ref in (("A", A), ("b", b), ("c", c), ("b2", b2)):
            for o, w in ((g0, "other instance"), (g1, "later instance")):
                if ref is not None:
                    m = m or same(getattr(o, k), ref, "%s of the %s after padding" % (k, w))
            if old[k] is not None:
                m = m or same(getattr(cls, k), old[k], "class table %s" % k)
                getattr(cls, k)[...] = old[k]
        return m


@oracle("C17")
class Dahlquist:
    """random coefficients and registered generators, real and complex data, against the one-step stability function"""
    @staticmethod
    def cases(rng, tier):
        names = sorted(getClasses(Q_GENERATORS))
        for rep in range(220 if tier == "quick" else 1500):
            lam = float(np.round(rng.normal(), 3)) if rep % 3 else complex(rng.normal(), rng.normal() * 3)
            u0 = float(np.round(rng.normal(), 3)) if rep % 2 else complex(rng.normal(), rng.normal())
            d = {"kind": "run", "lam": lam, "u0": u0, "T": float(rng.choice([1, 0.1, 2.5, 1e-2, -1.0])), "n": int(rng.integers(1, 8)), "emb": bool(rep % 4 == 1)}
            if rep % 2:
                s = int(rng.integers(1, 6))
                d.update(g="any", nodes=rng.random(s), w=rng.normal(size=s), Q=rng.normal(size=(s, s)), b2=rng.normal(size=s))
            else:
                d.update(g=str(rng.choice(names)), kw={})
                if d["g"] == "Collocation":
                    d["kw"] = {"nNodes": 3, "nodeType": "LEGENDRE", "quadType": "GAUSS"}
                if d["g"] == "Collocation" or RK_SCHEMES[d["g"]].b2 is None:
                    d["emb"] = False
            yield d

    @staticmethod
    def check(p):
        g = qgen(p)
        lam, u0, T, n = ucx(p["lam"]), ucx(p["u0"]), p["T"], p["n"]
        Q, w = np.array(g.Q), np.array(g.weightsEmbedded if p["emb"] else g.weights)
        z = lam * T / n
        s = len(w)
        K = np.eye(s) - z * Q
        cond = np.linalg.cond(K)
        R = 1 + z * w @ np.linalg.solve(K, np.ones(s))
        kw = {"useEmbeddedWeights": True} if p["emb"] else {}
        u = g.solveDahlquist(lam, u0, T, n, **kw)
        if np.shape(u) != (n + 1,):
            return "shape %s" % (np.shape(u),)
        e = u0 * R ** np.arange(n + 1)
        sz = np.abs(e).max() + abs(u0)
        tol = 1e-13 * cond * (1 + np.abs(z) * np.abs(w).sum() * 10) * sz * (n + 1) + 1e-14
        m = close(u, e, tol, "solution")
        if u[0] != u0:
            m = m or "initial value %r" % u[0]
        t = np.linspace(0, T, n + 1)
        ex = u0 * np.exp(lam * t)
        er = np.abs(e - ex).max()
        m = m or close(g.errorDahlquist(lam, u0, T, n, **kw), er, tol + 1e-13 * (sz + np.abs(ex).max()), "error")
        v = np.array(e) + (np.arange(n + 1) == n // 2) * 5.0
        sn = snapshot(v)
        m = m or close(g.errorDahlquist(lam, u0, T, n, uNum=v), np.abs(v - ex).max(), 1e-12 * (1 + sz + np.abs(ex).max()), "error of a given solution") or unchanged((v,), sn, "errorDahlquist")
        return m or same(g.Q, Q, "Q after use")
