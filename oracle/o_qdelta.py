"""C11-C16: QDelta generators."""
import copy as _copy
import scipy.linalg as spl
from .base import *
from qmat import genQCoeffs, genQDeltaCoeffs, Q_GENERATORS, QDELTA_GENERATORS
from qmat.qcoeff.collocation import Collocation
from qmat.qcoeff.butcher import RK_SCHEMES
from qmat.lagrange import LagrangeApproximation
from qmat.utils import getClasses
import qmat.qdelta.mincoeffs as tables
from .o_lagrange import NT, QT
from .o_q import AnyQ, admissible, diffrows

TS = {"BE": ["BE", "IE"], "FE": ["FE", "EE"], "TRAP": None, "BEPAR": None, "TRAPAR": None, "SOE": None}


def ts_spec(name, x, tl):
    """(Q, dTau) by composing steps of the scheme for u' = f"""
    x = [Fr(float(v)) for v in x]
    tl = Fr(float(tl))
    M = len(x)
    d = [x[0] - tl] + [x[i] - x[i - 1] for i in range(1, M)]
    Q = [[Fr(0)] * M for _ in range(M)]
    dt = [Fr(0)] * M
    if name in ("BE", "FE", "TRAP"):
        th = {"BE": Fr(1), "FE": Fr(0), "TRAP": Fr(1, 2)}[name]
        row, t = [Fr(0)] * M, Fr(0)
        for m in range(M):
            row = list(row)
            row[m] += th * d[m]
            if m:
                row[m - 1] += (1 - th) * d[m]
            else:
                t = t + (1 - th) * d[m]
            Q[m] = row
            dt[m] = t
    elif name in ("BEPAR", "TRAPAR"):
        for m in range(M):
            f = Fr(1) if name == "BEPAR" else Fr(1, 2)
            Q[m][m] = f * (x[m] - tl)
            dt[m] = (1 - f) * (x[m] - tl)
    else:
        # explicit two-step scheme: derivative of the parabola through three values at the middle one
        u = [([Fr(0)] * M, Fr(0)), ([Fr(0)] * M, d[0])]      # at tLeft and at the first node (one explicit Euler step)
        tt = [tl] + x
        for m in range(1, M):
            t0, t1, t2 = tt[m - 1], tt[m], tt[m + 1]
            if t0 == t1:
                am, a0, ap = -1 / (t2 - t1), Fr(0), 1 / (t2 - t1)
            else:
                am = (t1 - t2) / ((t0 - t1) * (t0 - t2))
                ap = (t1 - t0) / ((t2 - t0) * (t2 - t1))
                a0 = -am - ap
            f = [-(a0 * p + am * q) / ap for p, q in zip(u[m][0], u[m - 1][0])]
            f[m - 1] += 1 / ap
            u.append((f, -(a0 * u[m][1] + am * u[m - 1][1]) / ap))
        for m in range(M):
            Q[m], dt[m] = u[m + 1]
    return fl(Q), np.array([float(v) for v in dt])


def build(cls, x, tl, form):
    """nodes in several number types"""
    if form == "list":
        n = [float(v) for v in x]
    elif form == "int":
        n = [int(v) for v in x]
    elif form == "intarr":
        n = lay(np.array(x).astype(int))
    elif form == "tuple":
        n = tuple(float(v) for v in x)
    else:
        n = lay(np.array(x, dtype=float))
    return n


@oracle("C11")
class TimeStep:
    """random increasing nodes (irregular, starting at the left bound or not, integers), left bounds, aliases; composition of the
    scheme's steps in exact rationals; structure and row sums"""
    @staticmethod
    def cases(rng, tier):
        for name in TS:
            for M in range(1, 9):
                for rep in range(6 if tier == "quick" else 40):
                    form = ["array", "list", "int", "intarr", "tuple", "array"][rep % 6]
                    if form in ("int", "intarr"):
                        x = np.sort(rng.permutation(np.arange(1, 30))[:M])
                        tl = int(rng.integers(-3, 1)) if rep % 4 < 2 or name == "SOE" else float(rng.integers(-9, 3)) / 4
                    else:
                        x = np.cumsum(0.05 + rng.random(M)) + float(np.round(rng.normal(), 2))
                        tl = float(x[0] - [0, rng.random() * 2, 1][rep % 3])
                    if rep % 5 == 4:
                        tl = x[0].item()
                    if rep == 5 and name != "SOE":
                        tl = float(x[-1] - 0.25)        # a left bound beyond some of the nodes
                    if name == "SOE" and tl != x[0]:
                        yield {"kind": "soe-dtau", "name": name, "x": x, "tl": tl, "form": form}
                    yield {"kind": "step", "name": name, "x": x, "tl": tl, "form": form, "k": [None, 1, 3][rep % 3]}
            yield {"kind": "step", "name": name, "x": [0.5, 1.0], "tl": 0, "form": "array", "k": None, "notl": True}
            yield {"kind": "step", "name": name, "x": [0.0, 0.25, 1.0], "tl": 0, "form": "list", "k": None, "notl": True}

    @staticmethod
    def check(p):
        name, x, tl = p["name"], p["x"], p["tl"]
        cls = QDELTA_GENERATORS[name]
        n = build(cls, x, tl, p["form"])
        sn = snapshot(n)
        kw = {} if p.get("notl") else {"tLeft": tl}
        g = cls(nodes=n, **kw)
        Q, dt = ts_spec(name, x, tl)
        QD = g.getQDelta(p.get("k"))
        d = g.dTau
        x = np.array(x, dtype=float)
        M = len(x)
        s = np.abs(Q).max() + np.abs(dt).max() + np.abs(x - tl).max()
        tol = 1e-12 * s * (1 if name != "SOE" else 1e2 * (1 + np.abs(Q).max()))
        if p["kind"] == "soe-dtau":
            return close(QD.sum(axis=1) + d, x - tl, tol, "row sums plus dTau")
        m = first(close(QD, Q, tol, name), close(d[:1] if name == "SOE" else d, dt[:1] if name == "SOE" else dt, tol, "dTau"),
                  "dTau shape" if np.shape(d) != (M,) else None)
        if name != "SOE" or tl == x[0]:
            m = m or close(d, dt, tol, "dTau") or close(QD.sum(axis=1) + d, x - tl, tol, "row sums plus dTau")
        else:
            # known finding (SOE dTau is constant): nothing else than that or the right value
            if close(d, np.full(M, dt[0]), tol) and close(d, dt, tol):
                m = m or close(d, dt, tol, "dTau")
        if name in ("FE", "SOE"):
            m = m or ("not strictly lower" if np.triu(QD).any() else None)
        elif name in ("BEPAR", "TRAPAR"):
            m = m or ("not diagonal" if (QD - np.diag(np.diag(QD))).any() else None)
        else:
            m = m or ("not lower" if np.triu(QD, 1).any() else None)
        if name == "TRAP":
            a, b = QDELTA_GENERATORS["BE"](nodes=n, **kw), QDELTA_GENERATORS["FE"](nodes=n, **kw)
            m = m or close(QD, (a.getQDelta() + b.getQDelta()) / 2, tol, "mean of BE and FE") or close(d, (a.dTau + b.dTau) / 2, tol, "mean dTau")
        o = genQDeltaCoeffs(name, nodes=n, dTau=True, **kw)
        return m or same(o[0], QD, "genQDeltaCoeffs") or same(o[1], d, "genQDeltaCoeffs dTau") or unchanged((n,), sn, name)


@oracle("C12")
class Algebraic:
    """random square matrices (general, needing pivoting, singular, integer, triangular), 1 to 9 rows"""
    @staticmethod
    def cases(rng, tier):
        for rep in range(260 if tier == "quick" else 2000):
            n = rep % 9 + 1
            kind = rep % 7
            A = rng.normal(size=(n, n))
            if kind == 1:
                A = rng.integers(-5, 6, (n, n)).astype(float)
            elif kind == 2:
                A = A * np.exp(rng.normal(size=(n, 1)) * 3)
            elif kind == 3:
                A[0] = 0
            elif kind == 4:
                A = np.tril(A)
            elif kind == 5 and n > 1:
                A[n - 1] = A[0]
            elif kind == 6:
                A = A + 5 * np.eye(n)
            yield {"kind": "alg", "A": A, "int": kind == 1, "list": bool(rep % 2)}
        for M in range(1, 8):
            for nt, qt in (("LEGENDRE", "RADAU-RIGHT"), ("EQUID", "LOBATTO"), ("LEGENDRE", "GAUSS")):
                if admissible(M, qt):
                    yield {"kind": "alg", "A": Collocation(M, nt, qt).Q, "int": False, "list": False}

    @staticmethod
    def check(p):
        A = np.array(p["A"], dtype=float)
        n = len(A)
        arg = [[int(v) if p["int"] else float(v) for v in r] for r in A] if p["list"] else lay(A.astype(int) if p["int"] else A)
        sn = snapshot(arg)
        U = spl.lu(A.T)[2]
        # LDU
        L, D, W = np.eye(n), np.zeros((n, n)), np.eye(n)
        F = [[Fr(v) for v in r] for r in A.tolist()]
        ok = True
        piv = []
        G = [list(r) for r in F]
        for i in range(n):
            piv.append(G[i][i])
            if G[i][i] == 0:
                ok = i == n - 1
                break
            for j in range(i + 1, n):
                f = G[j][i] / G[i][i]
                G[j] = [u - f * v for u, v in zip(G[j], G[i])]
        exp = {"PIC": np.zeros((n, n)), "Exact": A, "LU": U.T, "LU2": 2 * U.T, "QPar": np.diag(np.diag(A)), "GS": np.tril(A)}
        m = None
        s = np.abs(A).max() + 1e-300
        for name, e in exp.items():
            g = QDELTA_GENERATORS[name](Q=arg)
            for k in (None, 2):
                R = g.getQDelta(k)
                m = m or close(R, e, 1e-11 * s * n if name[:2] == "LU" else 0, name)
            if name != "Exact" and np.triu(R, 1).any():
                m = m or "%s is not lower triangular" % name
            m = m or close(g.dTau, np.zeros(n), 0, "dTau") or unchanged((arg,), sn, name)
            R2 = g.genCoeffs()
            R2[...] = 5
            if name == "Exact":     # a separate copy of Q
                g.computeQDelta()[...] = 7
                g.getQDelta(copy=False)
            m = m or unchanged((arg,), sn, name + " result") or same(g.Q, A, name + " Q") or close(g.getQDelta(), R, 0, name + " again") or \
                close(QDELTA_GENERATORS[name](np.array(arg)).getQDelta(), R, 0, name + " positional")
        mn = min([abs(float(v)) for v in piv])
        if ok and len(piv) == n and mn > 1e-6 * s:
            g = QDELTA_GENERATORS["LDU"](Q=arg)
            R = g.getQDelta()
            m = m or close(R, np.diag([float(v) for v in piv]), 1e-10 * s * max(1, (s / mn)) ** 2, "LDU") or \
                ("LDU is not diagonal" if (R - np.diag(np.diag(R))).any() else None) or unchanged((arg,), sn, "LDU")
        return m


DIAG = {"MIN_SR_NS": lambda x, k: x / len(x), "Jumper": lambda x, k: x / (2 * (k or 1)),
        "FlexJumper": lambda x, k: x / (1 if (k or 1) == 1 else 2 * (k - 1)), "DNODES": lambda x, k: x, "DNODES2": lambda x, k: x / 2,
        "DNODES3": lambda x, k: x / 3, "DNODES4": lambda x, k: x / 4, "DNODES5": lambda x, k: x / 5}
KDEP = ["Jumper", "FlexJumper", "MIN_SR_FLEX"]


@oracle("C13")
class Diagonal:
    """random nodes (floats, integers, lists), sweep numbers 1 to 12 in any order, every tabulated configuration, nilpotency on
    random distinct nodes"""
    @staticmethod
    def cases(rng, tier):
        for name in DIAG:
            for rep in range(14 if tier == "quick" else 60):
                M = int(rng.integers(1, 9))
                x = np.cumsum(rng.random(M) + 0.01) if rep % 3 else np.sort(rng.permutation(np.arange(1, 20))[:M])
                yield {"kind": "nodes", "name": name, "x": x, "int": rep % 3 == 0, "list": bool(rep % 2), "ks": rng.permutation([None] + list(range(1, 13)))[:6].tolist()}
        for M in range(1, 8):
            for nt in NT:
                for qt in (QT if M > 1 else ["GAUSS", "RADAU-RIGHT"]):
                    if M > 4 and tier == "quick" and nt not in ("LEGENDRE", "EQUID"):
                        continue
                    yield {"kind": "flex", "M": M, "nt": nt, "qt": qt}
        for n in ("MIN3", "MIN_VDHS"):
            for nt in NT:
                for qt in QT:
                    for M in range(1, 12):
                        yield {"kind": "table", "name": n, "nt": nt, "qt": qt, "M": M}
        for M in range(1, 9):
            for rep in range(5):
                x = np.sort(points(rng, M, "sorted", scaled=False) + 1.6)
                yield {"kind": "nil", "x": x if rep % 2 else rng.permutation(x)}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        kind = p["kind"]
        if kind == "reject":
            out = None
            for name in KDEP:
                g = QDELTA_GENERATORS[name](qGen=Collocation.getInstance())
                for k in (0, -1, -5, 0.5):
                    out = out or rejects(lambda: g.getQDelta(k), ValueError, "%s k=%r" % (name, k)) or rejects(lambda: g.genCoeffs(k=k), ValueError, "%s genCoeffs k=%r" % (name, k))
                out = out or rejects(lambda: g.genCoeffs(k=[1, 0]), ValueError, "%s k=[1,0]" % name) or rejects(lambda: g.getSDelta(0), ValueError, "getSDelta")
            return out
        if kind == "nodes":
            x = p["x"]
            arg = [int(v) if p["int"] else v for v in x] if p["list"] else lay(np.array(x, dtype=int if p["int"] else float))
            sn = snapshot(arg)
            g = QDELTA_GENERATORS[p["name"]](nodes=arg)
            xf = np.array(x, dtype=float)
            m = None
            for k in p["ks"]:
                e = np.diag(DIAG[p["name"]](xf, k))
                m = m or close(g.getQDelta(k), e, 1e-14 * np.abs(xf).max(), "%s k=%s" % (p["name"], k)) or close(g.genCoeffs(k), e, 1e-14 * np.abs(xf).max(), "genCoeffs")
            m = m or close(g.getQDelta(), np.diag(DIAG[p["name"]](xf, None)), 1e-14 * np.abs(xf).max(), "no k") or close(g.dTau, 0 * xf, 0, "dTau")
            return m or unchanged((arg,), sn, p["name"])
        if kind == "table":
            t = getattr(tables, p["name"])
            f = lambda: QDELTA_GENERATORS[p["name"]](nNodes=p["M"], nodeType=p["nt"], quadType=p["qt"]).getQDelta()
            try:
                v = t[p["nt"]][p["qt"]][p["M"]]
            except KeyError:
                return rejects(f, NotImplementedError, "missing table entry")
            v = np.array(v, dtype=float)
            if v.shape != (p["M"],):
                return rejects(f, ValueError, "table entry of another size")
            return same(f(), np.diag(v), "tabulated coefficients")
        if kind == "nil":
            x = np.array(p["x"])
            M = len(x)
            L = Lag(x)
            Q = fl([L.integral(0, t) for t in x])
            N = QDELTA_GENERATORS["MIN_SR_NS"](nodes=x).getQDelta()
            K = Q - N
            n = np.linalg.norm(K)
            P = np.linalg.matrix_power(K, M)
            kap = (np.abs(Q).max() + 1) ** M * 2 ** M
            m = None
            if np.abs(P).max() > 1e-11 * kap:
                m = "Q - QDelta is not nilpotent: %g" % np.abs(P).max()
            return m
        c = Collocation(p["M"], p["nt"], p["qt"])
        M = p["M"]
        g = QDELTA_GENERATORS["MIN_SR_FLEX"](qGen=c)
        m = None
        for k in [None] + list(range(M, 0, -1)):
            m = m or close(g.getQDelta(k), np.diag(c.nodes / (k or 1)), 1e-15, "FLEX k=%s" % k)
        if M <= 4:
            e = QDELTA_GENERATORS["MIN_SR_S"](qGen=c).getQDelta()
            for k in (M + 1, M + 4):
                m = m or close(g.getQDelta(k), e, 1e-12, "FLEX k=%d beyond M" % k)
        if c.nodes[0] > 0:
            P = np.eye(M)
            kap = 1.0
            for k in range(1, M + 1):
                K = np.eye(M) - np.linalg.inv(g.getQDelta(k)) @ c.Q
                P = K @ P
                kap *= max(1, np.abs(K).max())
            if np.abs(P).max() > 1e-10 * kap * M:
                m = m or "product of the flexible sweeps does not vanish: %g" % np.abs(P).max()
        return m


@oracle("C22")
class Optimised:
    """stiff-limit coefficients of every node distribution and type for 1 to 10 nodes (deviation of the characteristic
    polynomial of I - QDelta^-1 Q from X^n: the root search of the unchanged code stays below 1e-6), by every way to call; the
    spectral radius of MIN against the recorded start of its search, for collocation and random matrices"""
    @staticmethod
    def cases(rng, tier):
        for M in range(1, 11):
            for nt in NT:
                for qt in (QT if M > 1 else ["GAUSS", "RADAU-RIGHT"]):
                    yield {"kind": "stiff", "M": M, "nt": nt, "qt": qt}
        for M in range(1, 6 if tier == "quick" else 9):
            for nt in NT if tier != "quick" else ["LEGENDRE", "EQUID", "CHEBY-1"]:
                for qt in (QT if M > 1 else ["GAUSS", "RADAU-RIGHT"]):
                    yield {"kind": "min", "Q": Collocation(M, nt, qt).Q.tolist()}
        for rep in range(10 if tier == "quick" else 60):
            M = int(rng.integers(1, 6))
            yield {"kind": "min", "Q": (rng.random((M, M)) + np.tril(np.ones((M, M)))).tolist()}

    @staticmethod
    def check(p):
        if p["kind"] == "stiff":
            M, nt, qt = p["M"], p["nt"], p["qt"]
            c = Collocation(M, nt, qt)
            left = qt in ("LOBATTO", "RADAU-LEFT")
            g = QDELTA_GENERATORS["MIN_SR_S"](nNodes=M, nodeType=nt, quadType=qt)
            outs = [("getQDelta()", g.getQDelta()), ("getQDelta(3)", g.getQDelta(3))]
            if M <= 6:
                f = QDELTA_GENERATORS["MIN-SR-FLEX"](qGen=c)
                outs += [("genQDeltaCoeffs", genQDeltaCoeffs("MIN-SR-S", qGen=c)), ("genCoeffs(k=[2])", g.genCoeffs(k=[2])[0]), ("FLEX beyond M", f.getQDelta(M + 1)), ("FLEX beyond M, again", f.genCoeffs(k=M + 3))]
            for what, D in outs:
                D = np.asarray(D)
                if D.shape != (M, M) or (D != np.diag(np.diag(D))).any() or not np.isfinite(D).all():
                    return "%s: not a diagonal matrix of %d finite coefficients" % (what, M)
                d, Q = np.diag(D), c.Q
                if left:
                    if d[0] != 0:
                        return "%s: coefficient %r for the node at the left bound" % (what, d[0])
                    d, Q = d[1:], Q[1:, 1:]
                if (d == 0).any():
                    return "%s: coefficient 0" % what
                e = np.abs(np.poly(np.eye(len(d)) - Q / d[:, None])[1:]).max()
                if not e < 1e-5:
                    return "%s: I - QDelta^-1 Q is not nilpotent, its characteristic polynomial differs from X^%d by %g" % (what, len(d), e)
            return None
        import qmat.qdelta.diag as dg
        Q = np.array(p["Q"])
        M = len(Q)
        rho = lambda D: np.abs(np.linalg.eigvals(np.eye(M) - np.linalg.solve(D, Q))).max()
        start = []

        class Rec:
            def __getattr__(self, n):
                return getattr(spo_, n)

            @staticmethod
            def minimize(f, x0, *a, **k):
                start.append(np.array(x0, dtype=float))
                return spo_.minimize(f, x0, *a, **k)
        spo_ = getattr(dg, "spo", None)
        try:
            if spo_ is not None:
                dg.spo = Rec()
            D = np.asarray(QDELTA_GENERATORS["MIN"](Q=Q).getQDelta())
        finally:
            if spo_ is not None:
                dg.spo = spo_
        if D.shape != (M, M) or np.abs(D - np.diag(np.diag(D))).max() > 1e-14 * np.abs(D).max() or not np.isfinite(D).all() or (np.diag(D) == 0).any():
            return "MIN: not a diagonal matrix of finite non-zero coefficients"
        x0 = start[0] if len(start) == 1 and start[0].shape == (M,) and (start[0] != 0).all() else 10 * np.ones(M)
        a, b = rho(D), rho(np.diag(1 / x0))
        return None if a <= b * (1 + 1e-7) + 1e-12 else "MIN: spectral radius %.6g, above %.6g at the start of the search" % (a, b)


# ------------------------------------------------------------------------------ histories
QD_H = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "PIC", "Exact", "LU", "LU2", "QPar", "GS", "LDU", "MIN3", "MIN_VDHS", "MIN_SR_NS",
        "MIN_SR_S", "MIN_SR_FLEX", "Jumper", "FlexJumper", "DNODES", "DNODES3"]


def newgen(name):
    if name in ("MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX"):
        return QDELTA_GENERATORS[name](nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
    return QDELTA_GENERATORS[name](qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT"))


KS = [None, 1, 2, 3, 4, 7]
_REF = {}


def ref(name, call):
    key = (name, repr(call))
    if key not in _REF:
        _REF[key] = _copy.deepcopy(docall(newgen(name), call))
    return _REF[key]


def docall(g, call):
    m, k, form, dt = call
    if m == "Q":
        return [g.getQDelta(k)]
    if m == "S":
        return [g.getSDelta(k)]
    r = g.genCoeffs(k=k, form=form, dTau=dt)
    return list(r) if dt else [r]


@oracle("C14")
class History:
    """random histories of generation calls on shared generator objects, modifying every returned array in place, compared with
    a first call on a new object; Q generators, class tables, arguments and module-level functions likewise"""
    @staticmethod
    def cases(rng, tier):
        for name in QD_H:
            for rep in range(8 if tier == "quick" else 60):
                calls = []
                for _ in range(int(rng.integers(2, 9))):
                    m = str(rng.choice(["Q", "S", "G", "G", "L"]))
                    k = KS[int(rng.integers(len(KS)))]
                    form = str(rng.choice(["Z2N", "N2N"]))
                    if m == "L":
                        calls.append(["G", [int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4)))], form, bool(rng.random() < 0.5)])
                    else:
                        calls.append([m, k, form, bool(rng.random() < 0.5)])
                yield {"kind": "qd", "name": name, "calls": calls}
        for name in sorted(getClasses(Q_GENERATORS)):
            for rep in range(3):
                yield {"kind": "q", "name": name, "seq": rng.integers(0, 8, 6).tolist()}
        for rep in range(30 if tier == "quick" else 200):
            yield {"kind": "fn", "seq": rng.integers(0, 10, 8).tolist()}
        for name in QD_H:
            yield {"kind": "args", "name": name}

    @staticmethod
    def check(p):
        m = None
        if p["kind"] == "qd":
            g = newgen(p["name"])
            h = newgen(p["name"])
            for call in p["calls"]:
                want = ref(p["name"], call)
                got = docall(g, call)
                if len(got) != len(want):
                    return "number of outputs of %s" % (call,)
                for a, b in zip(got, want):
                    m = m or same(a, b, "%s %s after %s" % (p["name"], call, p["calls"][:p["calls"].index(call)]))
                for a in got:
                    a[...] = -123.25
            for call in p["calls"][-2:]:
                for a, b in zip(docall(h, call), ref(p["name"], call)):
                    m = m or same(a, b, "other object of %s %s" % (p["name"], call))
            return m
        if p["kind"] == "q":
            name = p["name"]
            kw = {"nNodes": 3, "nodeType": "LEGENDRE", "quadType": "LOBATTO"} if name == "Collocation" else {}
            cls = Q_GENERATORS[name]
            emb = hasattr(cls, "b2") and cls.b2 is not None
            opts = [dict(form=f, hCoeffs=h, embedded=e) for f in ("Z2N", "N2N") for h in (False, True) for e in ((False, True) if emb else (False, False))]
            refs = [_copy.deepcopy(cls(**kw).genCoeffs(**o)) for o in opts]
            g = cls(**kw)
            for s in p["seq"]:
                for src in (g.genCoeffs(**opts[s]), genQCoeffs(name, **opts[s], **kw)):
                    for a, b in zip(src, refs[s]):
                        m = m or same(a, b, "%s %s" % (name, opts[s]))
                    for a in src:
                        a[...] = 17.5
            for s in range(len(opts)):
                for a, b in zip(g.genCoeffs(**opts[s]), refs[s]):
                    m = m or same(a, b, "%s %s at the end" % (name, opts[s]))
            return m
        if p["kind"] == "args":
            name = p["name"]
            c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
            nodes, Q = c.nodes.copy(), c.Q.copy()
            w = c.weights.copy()
            kw = dict(nodes=nodes, Q=Q, nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT", tLeft=0)
            base = genQDeltaCoeffs(name, **_copy.deepcopy(kw))
            for form in ("Z2N", "N2N"):
                for kk in (None, 2, 5):
                    r = genQDeltaCoeffs(name, nSweeps=kk, form=form, dTau=True, **kw)
                    for a in r:
                        a[...] = 9
                    r = genQDeltaCoeffs(name, nSweeps=kk, form=form, dTau=True, qGen=c)
                    for a in r:
                        a[...] = 9
            m = first(same(nodes, c.nodes, "nodes argument"), same(Q, c.Q, "Q argument"), same(c.nodes, Collocation(3, "LEGENDRE", "RADAU-RIGHT").nodes, "nodes of qGen"),
                      same(c.Q, Collocation(3, "LEGENDRE", "RADAU-RIGHT").Q, "Q of qGen"), same(c.weights, w, "weights of qGen"),
                      same(genQDeltaCoeffs(name, **kw), base, name + " afterwards"))
            if m:
                return m
            # arguments changed after construction or between calls of one object are not those of a first call: only results count
            g = QDELTA_GENERATORS[name](qGen=c)
            a = g.getQDelta()
            b = _copy.deepcopy(a)
            a[...] = 3
            return first(same(g.getQDelta(), b, name + " after modifying the result"), same(c.Q, Q, "Q of qGen"), same(c.nodes, nodes, "nodes of qGen"))
        # module level functions, shared lists
        lst = ["BE", "FE"]
        c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
        calls = [lambda: genQDeltaCoeffs("BE", qGen=c), lambda: genQDeltaCoeffs(lst, nSweeps=4, qGen=c), lambda: genQDeltaCoeffs(lst, qGen=c),
                 lambda: genQDeltaCoeffs(lst, nSweeps=3, form="N2N", dTau=True, qGen=c), lambda: genQDeltaCoeffs("MIN3", nSweeps=2, qGen=c),
                 lambda: genQCoeffs("RK4", form="N2N"), lambda: genQCoeffs("ESDIRK43", embedded=True, hCoeffs=True),
                 lambda: genQCoeffs("ESDIRK43", padding="BOTH", embedded=True), lambda: genQDeltaCoeffs("FLEX-JUMPER", nSweeps=5, qGen=c),
                 lambda: genQDeltaCoeffs("LU", nSweeps=2, Q=c.Q)]
        if "fn" not in _REF:
            _REF["fn"] = [_copy.deepcopy(f()) for f in calls]
            lst[:] = ["BE", "FE"]
        for s in p["seq"]:
            r = calls[s]()
            w = _REF["fn"][s]
            r2 = list(r) if isinstance(r, (list, tuple)) else [r]
            w2 = list(w) if isinstance(w, (list, tuple)) else [w]
            if len(r2) != len(w2):
                return "outputs of call %d" % s
            for a, b in zip(r2, w2):
                m = m or same(a, b, "call %d after %s" % (s, p["seq"]))
                a[...] = 44
            if lst != ["BE", "FE"]:
                return "list of types modified: %s" % lst
        return m


_FRESH = {}


@oracle("C14")
class Fresh:
    """histories over several generators of different classes, sizes and node types, and module-level functions, each run in a fresh process;
    every result is compared with the same call made first in a fresh process"""
    @staticmethod
    def cases(rng, tier):
        nts, qts = ["LEGENDRE", "EQUID", "CHEBY-1", "CHEBY-3"], ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
        rks = ["RK4", "ESDIRK43", "BE", "HEUN", "CashKarp", "SDIRK2"]
        rks = [n for n in rks if n in Q_GENERATORS]

        def cfg(pool):
            return {"nNodes": int(rng.integers(2, 4)), "nodeType": pool[0][int(rng.integers(len(pool[0])))], "quadType": pool[1][int(rng.integers(len(pool[1])))]}

        def stp(name, pool, multi):
            c = cfg(pool)
            r = rng.random()
            k = [None, 1, 2, 3, 4, 5][int(rng.integers(6))]
            if r < 0.12:
                return ["q", "Collocation", c, {"form": str(rng.choice(["Z2N", "N2N"])), "hCoeffs": bool(rng.random() < 0.5)}]
            if r < 0.22:
                return ["q", str(rng.choice(rks)), {}, {"form": str(rng.choice(["Z2N", "N2N"])), "hCoeffs": bool(rng.random() < 0.5)}]
            o = {"form": str(rng.choice(["Z2N", "N2N"])), "dTau": bool(rng.random() < 0.5)}
            if r < 0.4:
                return ["fn" if r < 0.28 else "fq", name, c, dict(o, nSweeps=k)]
            if r < 0.65:
                return ["qd", name, c, {"m": str(rng.choice(["getQDelta", "getSDelta"])), "k": k}, int(rng.integers(2))]
            return ["qd", name, c, dict(o, k=[int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4)))] if rng.random() < 0.5 else k), int(rng.integers(2))]
        for rep in range(1 if tier == "quick" else 4):
            for name in QD_H:
                # every pair of configurations of one class, late and first sweeps
                two = [nts[0], str(rng.choice(nts[1:]))]
                seq = [["qd", name, {"nNodes": M, "nodeType": nt, "quadType": qt}, {"m": "getQDelta", "k": k}, 0] for M in (2, 3) for nt in two for qt in qts for k in (None, 5)]
                yield {"kind": "all", "seq": [seq[i] for i in rng.permutation(len(seq))]}
        for rep in range(2 if tier == "quick" else 12):
            for name in QD_H:
                # histories of one class over a small pool of configurations (they meet each other), with some of another class
                pool = ([nts[0], str(rng.choice(nts[1:]))], [str(v) for v in rng.choice(qts, 3, replace=False)])
                other = str(rng.choice(QD_H))
                yield {"kind": "fresh", "seq": [stp(name if rng.random() < 0.8 else other, pool, True) for _ in range(10)]}
            pool = (nts, qts)
            for _ in range(6):
                yield {"kind": "fresh", "seq": [stp(str(rng.choice(QD_H)), pool, True) for _ in range(12)]}

    @staticmethod
    def check(p):
        from . import zygote
        st, got = zygote.ask(p["seq"])
        if st != "ok":
            return "the history fails: %s" % got
        for n, s in enumerate(p["seq"]):
            key = repr(s)
            if key not in _FRESH:
                st, w = zygote.ask([s])
                if st != "ok":
                    return "%s fails: %s" % (s, w)
                _FRESH[key] = w[0]
            w, g = _FRESH[key], got[n]
            if isinstance(w, str) or isinstance(g, str):
                if type(w) is not type(g) or w != g:
                    return "%s: %s instead of %s after %s" % (s, g if isinstance(g, str) else "a result", w if isinstance(w, str) else "a result", p["seq"][:n])
                continue
            if len(w) != len(g):
                return "%s: number of outputs" % (s,)
            for a, b in zip(g, w):
                m = same(a, b, "")
                if m and (a.shape != b.shape or not np.allclose(a, b, rtol=1e-11, atol=1e-13, equal_nan=True)):
                    return "%s%s after %s" % (s, m, p["seq"][:n])
        return None


@oracle("C15")
class Sweeps:
    """random names, aliases and lists, sweep counts and forms, against the per-sweep matrices; refusals"""
    @staticmethod
    def cases(rng, tier):
        names = [n for n in QDELTA_GENERATORS if QDELTA_GENERATORS[n].__name__ not in ("MIN",)]
        for rep in range(180 if tier == "quick" else 1000):
            form = str(rng.choice(["Z2N", "N2N"]))
            dt = bool(rng.random() < 0.5)
            M = int(rng.integers(3, 5))
            if rep % 3 == 0:
                yield {"kind": "str", "t": str(rng.choice(names)), "n": [None, 1, 2, 3, 6][int(rng.integers(5))], "form": form, "dt": dt, "M": M}
            else:
                l = [str(s) for s in rng.choice(names, int(rng.integers(1, 5)))]
                n = None if rng.random() < 0.3 else len(l) + int(rng.integers(0, 4))
                yield {"kind": "list", "t": l, "n": n, "form": form, "dt": dt, "M": M}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        c = Collocation(p.get("M", 3), "LEGENDRE", "RADAU-RIGHT")
        if p["kind"] == "reject":
            E = (ValueError, AssertionError)
            out = None
            G = genQDeltaCoeffs
            for n in (0, -1, -3, 2.0, 2.5, "2", [2]):
                out = out or rejects(lambda: G("BE", nSweeps=n, qGen=c), E, "nSweeps=%r" % (n,)) or rejects(lambda: G(["BE"], nSweeps=n, qGen=c), E, "list, nSweeps=%r" % (n,)) or \
                    rejects(lambda: G(["BE", "FE"], nSweeps=n, qGen=c), E, "list of two, nSweeps=%r" % (n,))
            out = out or rejects(lambda: G([], qGen=c), E, "empty list") or rejects(lambda: G([], nSweeps=2, qGen=c), E, "empty list, 2 sweeps")
            out = out or rejects(lambda: G(["BE", "FE", "BE"], nSweeps=2, qGen=c), E, "list longer than the count")
            out = out or rejects(lambda: G(["BE", "FE"], nSweeps=1, qGen=c), E, "list longer than the count")
            for t in ("foo", "be", ""):
                out = out or rejects(lambda: G(t, qGen=c), ValueError, "name %r" % t) or rejects(lambda: G(t, nSweeps=2, qGen=c), ValueError, "name %r, 2 sweeps" % t) or \
                    rejects(lambda: G(["BE", t], qGen=c), ValueError, "list with %r" % t) or rejects(lambda: G([t], qGen=c), ValueError, "list of %r" % t) or \
                    rejects(lambda: G(["BE", t], nSweeps=4, qGen=c), ValueError, "list with %r" % t)
            for t in (3, None, ("BE",), {"BE"}):
                out = out or rejects(lambda: G(t, qGen=c), E, "type %r" % (t,))
            return out
        form, n, t = p["form"], p["n"], p["t"]
        lst = list(t) if p["kind"] == "list" else None
        r = genQDeltaCoeffs(lst if lst is not None else t, nSweeps=n, form=form, dTau=p["dt"], qGen=c)
        if p["dt"]:
            if not (isinstance(r, (list, tuple)) and len(r) == 2):
                return "outputs with dTau"
            r, d = r
        one = lambda name, k: (QDELTA_GENERATORS[name](qGen=c).getQDelta(k) if form == "Z2N" else diffrows(QDELTA_GENERATORS[name](qGen=c).getQDelta(k)))
        if p["kind"] == "str" and n is None:
            e = one(t, None)
            nm = t
        else:
            seq = ([t] * n) if p["kind"] == "str" else (list(t) + [t[-1]] * ((n or len(t)) - len(t)))
            e = np.array([one(nme, k + 1) for k, nme in enumerate(seq)])
            nm = seq[0]
        m = close(r, e, 1e-12 * (1 + np.abs(e).max()), "coefficients")
        if p["dt"]:
            m = m or same(d, QDELTA_GENERATORS[nm](qGen=c).dTau, "dTau")
        if lst is not None and lst != t:
            m = m or "list of types modified"
        return m


def params_of(name, q):
    """parameters that approximation needs, taken from the generator object"""
    cls = QDELTA_GENERATORS[name].__name__
    if cls in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"):
        return {"nodes": np.array(q.nodes, copy=True), "tLeft": getattr(q, "tLeft", 0)}
    if cls in ("MIN_SR_NS", "Jumper", "FlexJumper") or cls.startswith("DNODES"):
        return {"nodes": np.array(q.nodes, copy=True)}
    if cls in ("MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX"):
        return {"nNodes": q.nNodes, "nodeType": q.nodeType, "quadType": q.quadType}
    return {"Q": np.array(q.Q, copy=True)}


@oracle("C16")
class QGen:
    """every approximation, collocation on several intervals and Runge-Kutta generators; overriding, extra and deprecated arguments"""
    @staticmethod
    def cases(rng, tier):
        names = sorted(getClasses(QDELTA_GENERATORS))
        for name in names:
            for rep in range(6 if tier == "quick" else 30):
                tl = [0, -1.5, 2.0, 0.25][rep % 4]
                yield {"kind": "coll", "name": name, "M": int(rng.integers(2, 4 if name == "MIN" else 5)), "nt": "LEGENDRE", "qt": str(rng.choice(QT)), "tl": tl, "tr": tl + [1, 2.5, 0.5][rep % 3]}
            for rk in ("RK4", "TRAP", "ESDIRK43", "GAUSS_LG", "SDIRK2"):
                if name not in ("MIN", "MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX"):
                    yield {"kind": "rk", "name": name, "rk": rk}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            c = Collocation.getInstance()
            out = None
            for name in ("BE", "GS", "MIN_SR_NS", "MIN_SR_S"):
                cls = QDELTA_GENERATORS[name]
                out = out or rejects(lambda: cls(qGen=c, coll=c), AssertionError, "%s with qGen and coll" % name) or rejects(lambda: cls(qGen="foo"), AssertionError, "%s qGen of another type" % name) or \
                    rejects(lambda: genQDeltaCoeffs(name, qGen=c, coll=c), AssertionError, "genQDeltaCoeffs with both") or rejects(lambda: cls(), TypeError, "no parameter")
            return out or rejects(lambda: QDELTA_GENERATORS["MIN_SR_S"](qGen=RK_SCHEMES["RK4"]()), AssertionError, "Runge-Kutta object for a collocation based one")
        name = p["name"]
        cls = QDELTA_GENERATORS[name]
        if p["kind"] == "coll":
            q = Collocation(p["M"], p["nt"], p["qt"], tLeft=p["tl"], tRight=p["tr"])
        else:
            q = RK_SCHEMES[p["rk"]]()
            if name in ("SOE",) and len(set(q.nodes.tolist())) != len(q.nodes):
                return None
        par = params_of(name, q)

        def res(f):
            try:
                g = f()
                return [g.getQDelta(k) for k in ((None, 1, 2, 3) if name != "MIN" else (None,))] + [g.dTau]
            except (NotImplementedError, ZeroDivisionError, ValueError, np.linalg.LinAlgError) as e:
                return type(e).__name__
        import qmat

        def cmp(a, b, what):
            if isinstance(a, str) or isinstance(b, str):
                return None if a == b or (isinstance(a, str) and isinstance(b, str)) else "%s: %s / %s" % (what, a if isinstance(a, str) else "result", b if isinstance(b, str) else "result")
            out = None
            for u, v in zip(a, b):
                if u.shape != v.shape or not np.allclose(u, v, rtol=1e-12, atol=1e-14 * (1 + np.nanmax(np.abs(v), initial=0)), equal_nan=True):
                    out = out or "%s: %s instead of %s" % (what, u.tolist(), v.tolist())
            return out
        A = res(lambda: cls(**par))
        m = cmp(res(lambda: cls(qGen=q)), A, "qGen")
        m = m or cmp(res(lambda: cls(qGen=q, foo=3, form="bar")), A, "qGen with extra parameters") or cmp(res(lambda: cls(foo=3, bar=None, **par)), A, "extra parameters")
        if name != "MIN":
            m = m or cmp(res(lambda: cls(coll=q)), A, "deprecated name") or cmp(res(lambda: cls(*par.values())), A, "positional")
        # overriding one parameter, by name and by position
        alt = dict(par)
        key = list(par)[0]
        if key in ("nodes", "Q"):
            alt[key] = np.array(par[key]) * 0.5 + (0.1 if key == "nodes" else 0)
            if name in ("MIN",):
                return m
            B = res(lambda: cls(**alt))
            m = m or cmp(res(lambda: cls(qGen=q, **{key: alt[key]})), B, "%s overridden by name" % key) or cmp(res(lambda: cls(alt[key], qGen=q)), B, "%s overridden by position" % key)
            if "tLeft" in par:
                alt2 = dict(par, tLeft=par["tLeft"] - 0.75)
                B = res(lambda: cls(**alt2))
                m = m or cmp(res(lambda: cls(qGen=q, tLeft=alt2["tLeft"])), B, "tLeft overridden by name") or cmp(res(lambda: cls(par["nodes"], alt2["tLeft"], qGen=q)), B, "tLeft overridden by position")
                z = res(lambda: cls(**dict(par, tLeft=0)))
                m = m or cmp(res(lambda: cls(qGen=q, tLeft=0)), z, "tLeft=0 overriding")
            if key == "nodes" and "tLeft" not in par:
                pass
        elif key == "nNodes" and p["kind"] == "coll":
            n2 = 2 if q.nNodes != 2 else 3
            B = res(lambda: cls(**dict(par, nNodes=n2)))
            m = m or cmp(res(lambda: cls(qGen=q, nNodes=n2)), B, "nNodes overridden by name") or cmp(res(lambda: cls(n2, qGen=q)), B, "nNodes overridden by position") or \
                cmp(res(lambda: cls(qGen=q, quadType="RADAU-RIGHT")), res(lambda: cls(**dict(par, quadType="RADAU-RIGHT"))), "quadType overridden")
        # through the generation functions
        if name not in ("MIN", "MIN_SR_S") and not isinstance(A, str):
            for a in [name] + list(getattr(cls, "aliases", []))[:1]:
                m = m or cmp(list(genQDeltaCoeffs(a, qGen=q, dTau=True)), list(genQDeltaCoeffs(a, dTau=True, **par)), "genQDeltaCoeffs(%s)" % a)
                m = m or cmp([genQDeltaCoeffs(a, nSweeps=2, qGen=q)], [genQDeltaCoeffs(a, nSweeps=2, **par)], "genQDeltaCoeffs(%s, 2)" % a)
                m = m or cmp([genQDeltaCoeffs([a, "PIC"], nSweeps=3, qGen=q)], [genQDeltaCoeffs([a, "PIC"], nSweeps=3, **dict(par, Q=np.array(q.Q)))], "genQDeltaCoeffs([%s, PIC])" % a)
        return m
