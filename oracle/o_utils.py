"""C18 SDC solver, C19 numerical utilities, C20 registries."""
from .base import *
import copy
import types
from qmat import genQCoeffs, Q_GENERATORS, QDELTA_GENERATORS, genQDeltaCoeffs
from qmat.qcoeff import QGenerator
import qmat.qcoeff as qc
import qmat.qdelta as qd
import qmat.qcoeff.butcher as bt
import qmat.utils as ut
from qmat.qcoeff.collocation import Collocation
from qmat.qcoeff.butcher import RK_SCHEMES, RK
from qmat.qdelta import QDeltaGenerator
from qmat.utils import getClasses, storeClass, storeAlias
from qmat.utils.num import lduFactorization, getExtrapolationMatrix, numericalOrder
from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
from .o_lagrange import NT, QT


def setup(p):
    if "coll" in p:
        c = Collocation(*p["coll"])
        Q, w = np.array(c.Q), np.array(c.weights)
    else:
        Q, w = lay(np.array(p["Q"], dtype=float)), lay(np.array(p["w"], dtype=float))
    return Q, w


def refSDC(lam, u0, tEnd, nSteps, nSweeps, Q, QDs, w):
    """plain definition of the sweeps; returns values and all iterates"""
    M = Q.shape[0]
    z = lam * (tEnd / nSteps)
    u = [complex(u0)]
    its = np.zeros((nSweeps + 1, nSteps, M), dtype=complex)
    Kk = 1.0
    for i in range(nSteps):
        U = np.full(M, u[-1], dtype=complex)
        its[0, i] = U
        for k in range(nSweeps):
            A = np.eye(M) - z * QDs[k]
            Kk = max(Kk, np.linalg.cond(A))
            U = np.linalg.solve(A, u[-1] + z * ((Q - QDs[k]) @ U))
            its[k + 1, i] = U
        u.append(U[-1] if w is None else u[-1] + z * (w @ U))
    return np.array(u), its, Kk


@oracle("C18")
class Sweeps:
    """random Q, QDelta (single and per sweep), lambda, initial values, horizons, 1..6 steps, 0..6 sweeps, all monitor choices; collocation settings"""
    @staticmethod
    def cases(rng, tier):
        n = 150 if tier == "quick" else 1500
        for r in range(n):
            M = int(rng.integers(1, 7))
            K = int(rng.integers(0, 6))
            N = int(rng.integers(1, 7))
            p = {"kind": "sweeps", "K": K, "N": N, "lam": cx(rng.choice([1j, -1.0, 0.5 - 2j, 0.0, rng.normal() + 1j * rng.normal()])),
                 "u0": cx(rng.choice([1.0, 2.5, 1 + 2j, -0.3j])), "T": float(rng.choice([1.0, 0.3, 2 * np.pi, 5.0])),
                 "mode": int(rng.integers(0, 3)), "weights": bool(rng.integers(0, 2))}
            if rng.random() < 0.4:
                nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
                if M < 2:
                    qt = "GAUSS"
                p["coll"] = [M, nt, qt]
                p["qd"] = [str(rng.choice(["BE", "FE", "TRAP", "LU", "MIN-SR-NS", "PIC", "TRAPAR", "BEPAR"])) for _ in range(max(K, 1))]
            else:
                p["Q"] = rng.normal(size=(M, M)) * 0.5
                p["w"] = rng.normal(size=M)
                p["QD"] = rng.normal(size=(max(K, 1), M, M)) * 0.4
            yield p
        for r in range(20):
            M = int(rng.integers(1, 6))
            qt = str(rng.choice(QT)) if M > 1 else "GAUSS"
            yield {"kind": "fixed", "coll": [M, str(rng.choice(NT)), qt], "qd": str(rng.choice(["BE", "FE", "TRAP", "LU", "MIN-SR-NS"])), "lam": cx(rng.normal() + 1j * rng.normal()), "K": int(rng.integers(1, 5))}
        for M in (2, 3, 4):
            yield {"kind": "reject", "M": M}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            M = p["M"]
            Q = np.tri(M) / M
            Z = np.zeros
            call = lambda QD, K=2, **kw: solveDahlquistSDC(1j, 1, 1, 2, K, Q, QD, **kw)
            AE = (AssertionError, ValueError, IndexError)
            out = None
            for QD, w in ((Z((M + 1, M + 1)), "larger QDelta"), (Z((M - 1, M - 1)), "smaller QDelta"), (Z((M, M + 1)), "rectangular QDelta"), (Z((1, M)), "row QDelta"),
                          (Z((M, 1)), "column QDelta"), (Z((M,)), "1D QDelta"),
                          (Z((3, M, M)), "one matrix too many"), (Z((1, M, M)), "one matrix missing"), (Z((2, M, M + 1)), "3D rectangular"), (Z((2, M + 1, M + 1)), "3D larger"), (Z((2, 1, M)), "3D rows"),
                          (Z((2, 1, 1)), "3D scalars"), (Z(()), "scalar QDelta")):
                out = out or rejects(lambda: call(QD), AE, w)
            out = out or rejects(lambda: call(Z((M, M)), monitors=["foo"]), AE, "unknown monitor")
            out = out or rejects(lambda: call(Z((M, M)), monitors=["residuals", "foo"]), AE, "unknown monitor")
            return out
        lam = ucx(p["lam"])
        if lam.imag == 0:
            lam = lam.real
        if p["kind"] == "fixed":
            # the collocation solution of one step is a fixed point of the sweep: start constant, many sweeps for small z
            c = Collocation(*p["coll"])
            Q = c.Q
            M = len(c.nodes)
            z = lam * 0.01
            QD = genQDeltaCoeffs(p["qd"], qGen=c)
            sol = np.linalg.solve(np.eye(M) - z * Q, np.ones(M))
            u, mon = solveDahlquistSDC(lam, 1.0, 0.01, 1, 40, Q, QD, monitors=["residuals", "errors"])
            it = mon["errors"][:, 0, :] + np.exp(lam * 0.01 * Q.sum(axis=1))
            return first(close(it[-1], sol, 1e-12, "limit of the sweeps"), close(mon["residuals"][-1, 0], np.zeros(M), 1e-12, "residual of the limit"), close(u[-1], sol[-1], 1e-12, "last node"))
        Q, w = setup(p)
        M, K, N, T, u0 = Q.shape[0], p["K"], p["N"], p["T"], ucx(p["u0"])
        if u0.imag == 0:
            u0 = u0.real
        if "qd" in p:
            c = Collocation(*p["coll"])
            QDs = np.array([genQDeltaCoeffs(n, qGen=c) for n in p["qd"]])
        else:
            QDs = np.array(p["QD"], dtype=float)
        if p["mode"] == 0:
            arg, QDs = QDs[0], np.array([QDs[0]] * max(K, 1))
        elif p["mode"] == 1:
            QDs = np.array([QDs[0]] * max(K, 1))
            arg = QDs[:K]
        else:
            arg = QDs[:K]
        arg = lay(arg)
        W = w if p["weights"] else None
        args = [Q, arg] + ([W] if W is not None else [])
        snaps = snapshot(*args)
        ref, its, cond = refSDC(lam, u0, T, N, K, Q, QDs, W)
        big = max(np.abs(ref).max(), np.abs(its).max(), 1.0)
        if not np.isfinite(big) or cond > 1e6 or big > 1e8:
            return None
        tol = 1e-11 * cond * big * (K + 1) * N * (1 + abs(lam) * T / N * (1 + np.abs(Q).sum()))
        u = solveDahlquistSDC(lam, u0, T, N, K, Q, arg, weights=W)
        m = first(close(u, ref, tol, "solution"), "initial value" if u[0] != u0 else None)
        u2, mon = solveDahlquistSDC(lam, u0, T, N, K, Q, arg, weights=W, monitors=["residuals", "errors"])
        m = m or same(u2, u, "solution with monitors") or ("monitor keys" if set(mon) != {"residuals", "errors"} else None)
        dt = T / N
        z = lam * dt
        res, err = np.zeros_like(its), np.zeros_like(its)
        for i in range(N):
            for k in range(K + 1):
                res[k, i] = u[i] + z * (Q @ its[k, i]) - its[k, i]
                err[k, i] = its[k, i] - u0 * np.exp(lam * (i * dt + dt * Q.sum(axis=1)))
        tol2 = tol + 1e-11 * np.exp(min(abs(lam) * T * (1 + np.abs(Q).sum()), 200)) * abs(u0)
        m = m or close(mon["residuals"], res, tol * (1 + abs(z) * np.abs(Q).sum()), "residuals") or close(mon["errors"], err, tol2, "errors")
        for key, r, t in (("residuals", res, tol * (1 + abs(z) * np.abs(Q).sum())), ("errors", err, tol2)):
            u3, mo = solveDahlquistSDC(lam, u0, T, N, K, Q, arg, W, [key])
            m = m or same(u3, u, "solution with monitor " + key) or ("monitor keys" if set(mo) != {key} else None) or close(mo[key], r, t, key)
        e = errorDahlquistSDC(lam, u0, T, N, K, Q, arg, weights=W)
        ex = np.abs(ref - u0 * np.exp(lam * np.linspace(0, T, N + 1))).max()
        te = tol + 1e-12 * np.exp(min(abs(np.real(lam)) * T, 300)) * abs(u0)
        m = m or close(e, ex, te, "error")
        fake = u + np.linspace(0, 1, N + 1) * (1 + 1j) * big
        ex = np.abs(fake - u0 * np.exp(lam * np.linspace(0, T, N + 1))).max()
        e = errorDahlquistSDC(lam, u0, T, N, K, Q, arg, weights=W, uNum=fake)
        return m or close(e, ex, te, "error of a given solution") or unchanged(args, snaps, "solveDahlquistSDC")


def exactLDU(A):
    n = len(A)
    A = [[Fr(v) for v in r] for r in A]
    U = [r[:] for r in A]
    L = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        if U[i][i] == 0:
            return None
        for j in range(i + 1, n):
            f = U[j][i] / U[i][i]
            L[j][i] = f
            U[j] = [a - f * b for a, b in zip(U[j], U[i])]
    D = [U[i][i] for i in range(n)]
    return L, D, [[U[i][j] / D[i] for j in range(n)] for i in range(n)]


@oracle("C19")
class LDU:
    """matrices of size 1 to 10 with exactly known factors and non-zero pivots, including zero off-diagonal entries, non-unit scales and integers"""
    @staticmethod
    def cases(rng, tier):
        for r in range(100 if tier == "quick" else 1000):
            n = int(rng.integers(1, 8 if r % 10 else 11))
            L = np.tril(rng.integers(-3, 4, size=(n, n)), -1) + np.eye(n)
            U = np.triu(rng.integers(-3, 4, size=(n, n)), 1) + np.eye(n)
            D = rng.choice([-4.0, -2.0, -1.0, -0.5, 0.25, 1.0, 2.0, 3.0], size=n)
            yield {"kind": "ldu", "A": (L * D) @ U * float(rng.choice([1.0, 1.0, 1024.0, 2.0 ** -20])), "int": bool(rng.random() < 0.2)}
        for r in range(30):
            n = int(rng.integers(1, 8))
            yield {"kind": "ldu", "A": rng.normal(size=(n, n)) + 4 * n * np.eye(n), "int": False}
        for s in ((2, 3), (3, 2), (1, 2), (4, 1)):
            yield {"kind": "reject", "s": list(s)}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            return rejects(lambda: lduFactorization(np.ones(p["s"])), (AssertionError, ValueError), "rectangular matrix %s" % p["s"])
        A = np.array(p["A"], dtype=float)
        if p["int"] and np.all(A == np.round(A)):
            A = A.astype(int)
        A = lay(A)
        ex = exactLDU(A.tolist())
        if ex is None:
            return None
        s = snapshot(A)
        L, D, U = lduFactorization(A)
        n = len(A)
        eL, eD, eU = fl(ex[0]), np.diag([float(v) for v in ex[1]]), fl(ex[2])
        sc = 1e-11 * (1 + np.abs(eL).max()) ** 2 * (1 + np.abs(eU).max()) ** 2 * n
        sd = np.abs(A).max() + np.abs(eD).max()
        iL = np.abs(np.linalg.inv(eL)).max() * np.abs(np.linalg.inv(eU)).max()
        g = sd / max(np.abs(np.diag(eD)).min(), 1e-300)
        return first(same(np.triu(L), np.eye(n), "upper part of L"), same(np.tril(U), np.eye(n), "lower part of U"), same(D, np.diag(np.diag(D)), "off-diagonal part of D"),
                     close(L @ D @ U, A, sc * sd, "L D U"), close(L, eL, sc * iL * g, "L"), close(D, eD, sc * sd * iL, "D"), close(U, eU, sc * iL * g, "U"), unchanged([A], s, "lduFactorization"))


@oracle("C19")
class Extrapolation:
    """1 to 7 distinct nodes in any order, 1 to 5 times (including nodes), every admissible degree and the default: exact rational polynomials and exact least squares"""
    @staticmethod
    def cases(rng, tier):
        for r in range(120 if tier == "quick" else 1000):
            n = int(rng.integers(1, 8))
            x = points(rng, n, scaled=False) * float(rng.choice([1.0, 0.5, 2.0]))
            t = (rng.random(int(rng.integers(1, 6))) * 4 - 2)
            if rng.random() < 0.3:
                t[0] = x[0]
            yield {"kind": "extrap", "x": x, "t": t, "p": None if rng.random() < 0.3 else int(rng.integers(0, n)), "list": bool(rng.integers(0, 2))}

    @staticmethod
    def check(p):
        x, t, d = p["x"], p["t"], p["p"]
        if not p["list"]:
            x, t = lay(x), lay(t)
        sn = snapshot(x, t)
        P = getExtrapolationMatrix(x, t) if d is None else getExtrapolationMatrix(x, t, d)
        n = len(x)
        pp = n - 1 if d is None else d
        if P.shape != (len(t), n):
            return "shape %s" % (P.shape,)
        X = [[Fr(float(v)) ** i for i in range(pp + 1)] for v in x]
        Xf = fl(X)
        cond = np.linalg.cond(Xf) ** 2
        if cond > 1e10:
            return None
        # exact least squares matrix  T (X^T X)^-1 X^T
        G = [[sum(X[k][i] * X[k][j] for k in range(n)) for j in range(pp + 1)] for i in range(pp + 1)]
        R = [[X[k][i] for k in range(n)] for i in range(pp + 1)]
        A = [G[i] + R[i] for i in range(pp + 1)]
        m = pp + 1
        for i in range(m):
            pv = next(r for r in range(i, m) if A[r][i] != 0)
            A[i], A[pv] = A[pv], A[i]
            f = A[i][i]
            A[i] = [v / f for v in A[i]]
            for r in range(m):
                if r != i and A[r][i] != 0:
                    f = A[r][i]
                    A[r] = [a - f * b for a, b in zip(A[r], A[i])]
        C = [r[m:] for r in A]
        ref = fl([[sum(Fr(float(v)) ** i * C[i][k] for i in range(m)) for k in range(n)] for v in t])
        sc = 1e-12 * cond * (1 + np.abs(ref).max()) * n
        return first(close(P, ref, sc, "least-squares extrapolation"), *[
            close(P @ np.array([float(v) ** k for v in x]), np.array([float(v) ** k for v in t]), sc * (1 + max(abs(float(v)) for v in list(x) + list(t)) ** k) * n, "degree %d of %d" % (k, pp)) for k in range(pp + 1)],
            unchanged([x, t], sn, "getExtrapolationMatrix"))


@oracle("C19")
class NumOrder:
    """exact power laws and random positive errors, 2 to 9 step counts, lists, tuples and arrays"""
    @staticmethod
    def cases(rng, tier):
        for r in range(120 if tier == "quick" else 1000):
            m = int(rng.integers(2, 10))
            n = rng.permutation(np.arange(1, 200))[:m]
            if rng.random() < 0.5:
                n = np.sort(n)
            yield {"kind": "order", "n": n, "q": None if rng.random() < 0.5 else float(rng.choice([1, 2, 3, 4.5, 6, -1, 0, 0.5])), "C": float(np.exp(rng.normal() * 3)), "noise": np.exp(rng.normal(size=m)), "as": int(rng.integers(0, 4))}

    @staticmethod
    def check(p):
        n = np.array(p["n"])
        if p["q"] is None:
            e = p["C"] * np.array(p["noise"]) * (1.0 / n)
        else:
            e = p["C"] * (1.0 * n) ** -p["q"]
        if p["as"] == 3:
            n = n * 1.0
        a, b = (lay(n), lay(e)) if p["as"] in (0, 3) else (n.tolist(), e.tolist()) if p["as"] == 1 else (tuple(n.tolist()), e)
        sn = snapshot(a, b)
        beta, rm = numericalOrder(a, b)
        x, y = np.log10(1.0 / n), np.log10(e)
        A = np.stack([x, np.ones_like(x)], axis=1)
        s = np.linalg.lstsq(A, y, rcond=None)[0]
        r = np.sqrt(np.mean((y - A @ s) ** 2))
        cond = np.linalg.cond(A) ** 2 * (1 + np.abs(y).max())
        m = first(close(beta, s[0], 1e-12 * cond, "slope"), close(rm, r, 1e-12 * cond, "residual"))
        if p["q"] is not None:
            m = m or close(beta, p["q"], 1e-12 * cond, "order of an exact power law") or close(rm, 0.0, 1e-12 * cond, "residual of an exact power law")
        return m or unchanged([a, b], sn, "numericalOrder")


# ------------------------------------------------------------------------------ registries
REG = {"Q": Q_GENERATORS, "QD": QDELTA_GENERATORS, "RK": RK_SCHEMES}


def subclasses(c):
    out = []
    for s in c.__subclasses__():
        out.append(s)
        out += subclasses(s)
    return out


@oracle("C20")
class Present:
    """every present name, alias and class of the three registries; listing with and without every submodule"""
    @staticmethod
    def cases(rng, tier):
        for r in REG:
            yield {"kind": "present", "r": r}
            for nme in ("foo", "", "be", " BE", None, 3, "Be"):
                yield {"kind": "unknown", "r": r, "name": nme}

    @staticmethod
    def check(p):
        d = REG[p["r"]]
        if p["kind"] == "unknown":
            n = p["name"]
            if n in d:
                return None
            if p["r"] == "QD":
                nodes, w, Q = genQCoeffs("Collocation", nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
                m = rejects(lambda: genQDeltaCoeffs(n, Q=Q, nodes=nodes), ValueError, "unknown name %r" % (n,))
                if isinstance(n, str):
                    m = m or rejects(lambda: genQDeltaCoeffs([n], Q=Q, nodes=nodes), ValueError, "unknown name [%r]" % (n,)) or \
                        rejects(lambda: genQDeltaCoeffs(["BE", n], Q=Q, nodes=nodes), ValueError, "unknown name ['BE', %r]" % (n,)) or \
                        rejects(lambda: genQDeltaCoeffs(n, 3, Q=Q, nodes=nodes), ValueError, "unknown name %r, 3 sweeps" % (n,))
                return m
            if p["r"] == "Q":
                return rejects(lambda: genQCoeffs(n), ValueError, "unknown name %r" % (n,))
            return None
        base = {"Q": QGenerator, "QD": QDeltaGenerator, "RK": RK}[p["r"]]
        cl = list(dict.fromkeys(d.values()))
        for c in cl:
            if not issubclass(c, base):
                return "%r is not a %s" % (c, base)
            if d.get(c.__name__) is not c:
                return "%s is not reachable by its name" % c.__name__
            for a in (getattr(c, "aliases", None) or []):
                if d.get(a) is not c:
                    return "%s is not reachable by its alias %s" % (c.__name__, a)
        for n, c in d.items():
            if n != c.__name__ and n not in (getattr(c, "aliases", None) or []):
                return "%s is neither the name nor an alias of %s" % (n, c.__name__)
        # all concrete classes defined in the package are registered
        for c in subclasses(base):
            if c.__module__.startswith("qmat.") and c not in cl and c is not RK and not c.__subclasses__() and not c.__name__.startswith("_"):
                f = {"Q": "Q", "RK": "Q", "QD": "computeQDelta"}[p["r"]]
                if getattr(c, f) is not getattr(base, f) and [n for n in c.__dict__ if n in ("aliases", "A", "computeQDelta")]:
                    return "%s is not registered" % c.__name__
        if p["r"] == "RK":
            for n, c in d.items():
                if Q_GENERATORS.get(n) is not c:
                    return "%s resolves differently in Q_GENERATORS" % n
        g = getClasses(d)
        if len(set(g.values())) != len(g) or set(g.values()) != set(cl) or any(d[k] is not c for k, c in g.items()):
            return "getClasses does not list each class once"
        mods = {}
        for c in cl:
            mods.setdefault(c.__module__.split(".")[-1], set()).add(c)
        for mo, cs in mods.items():
            g = getClasses(d, module=mo)
            if len(g) != len(cs) or set(g.values()) != cs or any(d[k] is not c for k, c in g.items()):
                return "getClasses(module=%r)" % mo
        if any(getClasses(d, module=q) for q in ("nosuch", mo[1:], mo[:-1], mo[:3], "qmat", "qcoeff", "qdelta")):
            return "getClasses(unknown module) is not empty"
        return None


def withcopy(f):
    """run f on the registries, restoring their contents afterwards"""
    sv = {k: dict(d) for k, d in REG.items()}
    try:
        return f()
    finally:
        for k, d in REG.items():
            d.clear()
            d.update(sv[k])


def mkQ(name, aliases=None, omit=(), wrongkind=(), constr="default"):
    ns = {}
    M = {"nodes": lambda self: np.array([0.5]), "Q": lambda self: np.array([[0.5]]), "weights": lambda self: np.array([1.0]), "order": lambda self: 2}
    for k, f in M.items():
        if k in omit:
            continue
        ns[k] = f if k in wrongkind else property(f)
    if aliases is not None:
        ns["aliases"] = aliases
    if constr == "noparams":
        ns["__init__"] = lambda self, a: None
    elif constr == "params":
        ns["__init__"] = lambda self, a: None
        ns["DEFAULT_PARAMS"] = {"a": 1}
    elif constr == "bad":
        ns["__init__"] = lambda self, a: None
        ns["DEFAULT_PARAMS"] = {"b": 1}
    return type(name, (QGenerator,), ns)


def mkQD(name, aliases=None, omit=False, sig="plain", kwargs=True):
    ns = {}
    if not omit:
        ns["computeQDelta"] = {"plain": lambda self, k=None: self.zeros, "kdep": lambda self, k=1: self.zeros + k, "nok": lambda self: self.zeros,
                               "wrong": lambda self, j=None: self.zeros, "kwonly": eval("lambda self, *, k=None: self.zeros"), "posonly": eval("lambda self, k=None, /: self.zeros"),
                               "star": lambda self, *k: self.zeros, "dstar": lambda self, **k: self.zeros}[sig]
    if not kwargs:
        def __init__(self, Q):
            QDeltaGenerator.__init__(self, Q)
        ns["__init__"] = __init__
    elif kwargs == "pos":
        def __init__(self, Q, kwargs=None):
            QDeltaGenerator.__init__(self, Q)
        ns["__init__"] = __init__
    if aliases is not None:
        ns["aliases"] = aliases
    return type(name, (QDeltaGenerator,), ns)


def mkRK(name, aliases=None, bad=None):
    ns = {"A": [[0.5]], "b": [1], "c": [0.5], "order": property(lambda self: 2)}
    if bad == "b":
        ns["b"] = [0.5, 0.5]
    elif bad == "A":
        ns["A"] = [[0.5, 0], [0, 0.5]]
    elif bad == "Arect":
        ns["A"] = [[0.5, 0.0]]
    elif bad == "c":
        ns["c"] = [0.5, 1]
    elif bad == "order":
        del ns["order"]
    if aliases is not None:
        ns["aliases"] = aliases
    return type(name, (RK,), ns)


@oracle("C20")
class Register:
    """random sequences of valid and invalid registrations (taken names and aliases, duplicated aliases, missing overrides, wrong signatures, wrong tables), with all earlier names looked up after each"""
    @staticmethod
    def cases(rng, tier):
        for r in range(150 if tier == "quick" else 1500):
            ops = []
            for _ in range(int(rng.integers(1, 6))):
                reg = str(rng.choice(["Q", "QD", "RK"]))
                good = rng.random() < 0.4
                op = {"reg": reg, "name": str(rng.choice(["A1", "B1", "C1", "D1"])), "aliases": [str(a) for a in rng.choice(["a1", "b1", "c1", "d1", "e1"], size=int(rng.integers(0, 3)), replace=False)]}
                if not good:
                    flaw = {"Q": ["omit:nodes", "omit:Q", "omit:weights", "omit:order", "kind:nodes", "kind:Q", "kind:weights", "kind:order", "noparams", "bad", "taken", "takenalias"],
                            "QD": ["omit", "nok", "wrong", "kwonly", "posonly", "star", "dstar", "nokwargs", "kwargspos", "taken", "takenalias"],
                            "RK": ["b", "A", "Arect", "c", "order", "taken", "takenQ", "takenalias"]}[reg]
                    op["flaw"] = str(rng.choice(flaw))
                elif reg == "Q" and rng.random() < 0.3:
                    op["ok"] = "params"
                elif reg == "QD" and rng.random() < 0.3:
                    op["ok"] = "kdep"
                ops.append(op)
            yield {"kind": "register", "ops": ops}

    @staticmethod
    def check(p):
        return withcopy(lambda: Register.run(p["ops"]))

    @staticmethod
    def run(ops):
        for op in ops:
            reg, name, al, flaw = op["reg"], op["name"], list(op["aliases"]), op.get("flaw")
            d = REG[reg]
            if flaw == "takenQ":
                name = "Collocation"
            elif flaw == "taken":
                name = {"Q": "Collocation", "QD": "LU", "RK": "RK4"}[reg]
            elif flaw == "takenalias":
                al = al + [{"Q": "coll", "QD": "IE", "RK": "RK4"}[reg]]
                if al[-1] not in d:
                    al[-1] = next(iter(d))
            if reg == "Q":
                kw = {}
                if flaw and flaw.startswith("omit:"):
                    kw["omit"] = (flaw[5:],)
                elif flaw and flaw.startswith("kind:"):
                    kw["wrongkind"] = (flaw[5:],)
                elif flaw in ("noparams", "bad"):
                    kw["constr"] = flaw
                if op.get("ok"):
                    kw["constr"] = op["ok"]
                c = mkQ(name, al or None, **kw)
                f = qc.register
            elif reg == "QD":
                kw = {}
                if flaw == "omit":
                    kw["omit"] = True
                elif flaw == "nokwargs":
                    kw["kwargs"] = False
                elif flaw == "kwargspos":
                    kw["kwargs"] = "pos"
                elif flaw and flaw not in ("taken", "takenalias"):
                    kw["sig"] = flaw
                if op.get("ok"):
                    kw["sig"] = op["ok"]
                c = mkQD(name, al or None, **kw)
                f = qd.register
            else:
                c = mkRK(name, al or None, flaw if flaw not in ("taken", "takenQ", "takenalias") else None)
                f = bt.registerRK
            before = {k: dict(v) for k, v in REG.items()}
            names = [name] + al
            tables = [d] + ([Q_GENERATORS] if reg == "RK" else [])
            clash = any(n in t for t in tables for n in names) or len(set(names)) < len(names)
            ok = flaw is None and not clash
            try:
                out = f(c)
                done = True
            except Exception as e:
                done = False
            if done != ok:
                return "registration of %s (%s) %s" % (name, op, "accepted" if done else "rejected")
            for k, v in before.items():
                for n, cc in v.items():
                    if REG[k].get(n) is not cc:
                        return "%s redirected after registering %s" % (n, op)
            if not ok:
                for k, v in before.items():
                    if set(REG[k]) != set(v):
                        return "a rejected registration (%s) leaves %s in %s" % (op, sorted(set(REG[k]) - set(v)), k)
            if ok:
                if out is not c:
                    return "register does not return the class"
                for t in tables:
                    for n in names:
                        if t.get(n) is not c:
                            return "%s does not resolve to the registered class" % n
                    if c not in getClasses(t).values():
                        return "getClasses misses the registered class"
                for k in REG:
                    extra = set(REG[k]) - set(before[k])
                    if extra != (set(names) if REG[k] in tables else set()):
                        return "names added to %s: %s" % (k, sorted(extra))
                if reg == "QD":
                    if bool(c._K_DEPENDENT) != (op.get("ok") == "kdep"):
                        return "iteration dependence recorded as %r" % c._K_DEPENDENT
                    g = genQDeltaCoeffs(names[-1], 2, Q=np.eye(2), foo=3)
                    if g.shape != (2, 2, 2):
                        return "registered class not usable"
        return None
