"""C01-C06: Lagrange approximation, nodes."""
from .base import *
from qmat.lagrange import LagrangeApproximation, getSparseInterpolationMatrix, computeFejerRule
from qmat.nodes import NodesGenerator, NODE_TYPES, QUAD_TYPES

WC = ["AUTO", "FAST", "STABLE", "CHEBFUN"]


def opts(rng, n=None):
    return {"weightComputation": str(rng.choice(WC)), "scaleWeights": bool(rng.random() < 0.4), "scaleRef": str(rng.choice(["ZERO", "MAX"]))}


def lam_(rows):
    return np.abs(rows).sum(axis=1)[:, None]


def times_for(rng, x, m):
    lo, hi = min(x), max(x)
    w = (hi - lo) or 1.0
    out = []
    for _ in range(m):
        r = rng.random()
        if r < 0.35:
            out.append(float(rng.choice(x)))
        elif r < 0.85:
            out.append(float(lo + w * rng.random()))
        elif r < 0.95:
            out.append(float(lo - 0.3 * w + 1.6 * w * rng.random()))
        else:
            out.append(float(np.nextafter(rng.choice(x), np.inf)))
    return out


@oracle("C01")
class Interp:
    """random distinct points (sorted, unsorted, scaled, shifted, integers, clustered), all weight computations, scalings and
    references; times inside, outside and on points; compared with the exact rational Lagrange basis"""
    @staticmethod
    def cases(rng, tier):
        for n in range(1, 14):
            for wc in WC:
                for rep in range(8 if tier == "quick" else 40):
                    x = points(rng, n)
                    o = opts(rng)
                    o["weightComputation"] = wc
                    t = times_for(rng, x, int(rng.integers(1, 7)))
                    if rep == 0:
                        t = [x[k % n] for k in range(3)]      # only coinciding times
                    if rep == 1:
                        t = [float(x[-1]), float(x[0]), float((x[0] + x[-1]) / 2)]
                    yield {"kind": "row", "x": x, "t": t, "o": o, "aslist": bool(rng.random() < 0.5)}
        for s in [1e-60, 1e-30, 1e30, 1e60, 1e-150, 1e150]:
            for n in (1, 2, 5, 9):
                x = points(rng, n, scaled=False) * s
                t = times_for(rng, x, 4)
                for wc in ("AUTO", "STABLE"):
                    yield {"kind": "row", "x": x, "t": t, "o": {"weightComputation": wc}, "aslist": False}
        for s in (1.0, -1.0):
            for d in (1e-310, 5e-324, 3e-309):
                for wc in WC:
                    yield {"kind": "row", "x": [-1.0, 0.0, 0.5, 2.0], "t": [s * d, 0.25, -s * d], "o": {"weightComputation": wc}, "aslist": False}
        for n, s in ((2, 1e-200), (3, 1e-150), (4, 1e-100), (3, 1e-120), (2, 1e200), (3, 1e140)):
            x = points(rng, n, scaled=False) * s
            for wc in WC:
                yield {"kind": "row", "x": x, "t": times_for(rng, x, 4), "o": {"weightComputation": wc}, "aslist": False}
        for n, s in ((100, 1e6), (520, 1.0), (1300, 1.0), (1300, 1e-3), (1300, 1e3)):
            for g in ("equid", "cheb"):
                for wc in ("AUTO", "STABLE"):
                    for ref in ("MAX", "ZERO"):
                        yield {"kind": "many", "n": n, "s": s, "g": g, "o": {"weightComputation": wc, "scaleRef": ref}}
        for n in (30, 64, 150):
            x = points(rng, n, "cheb", scaled=False)
            yield {"kind": "row", "x": x * rng.choice([1, 40, 1e-2]), "t": [float(x[3]), 0.123, float(x[-1])], "o": opts(rng), "aslist": False} if n < 65 else \
                {"kind": "row", "x": x, "t": [float(x[3]), 0.123, float(x[-1])], "o": {"weightComputation": "STABLE"}, "aslist": False}
        for rep in range(60 if tier == "quick" else 200):
            n = int(rng.integers(1, 9))
            x = points(rng, n)
            shape = [(), (1,), (3,), (2, 2), (2, 1, 3)][rep % 5]
            t = np.array(times_for(rng, x, int(np.prod(shape, dtype=int)))).reshape(shape)
            f = rng.integers(-8, 9, n).astype(float)
            g = rng.integers(-8, 9, n).astype(float) if rng.random() < 0.5 else None
            yield {"kind": "call", "x": x, "t": t, "f": f, "g": g, "o": opts(rng)}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            L = LagrangeApproximation
            return first(
                rejects(lambda: L([0, 1.], weightComputation="foo"), NotImplementedError, "unknown weightComputation"),
                rejects(lambda: L([0, 1.], weightComputation="STABLE", scaleRef="foo"), NotImplementedError, "unknown scaleRef"),
                rejects(lambda: L([0, 1.], fValues=[1, 2, 3]), ValueError, "inconsistent fValues"),
                rejects(lambda: L([0, 1.])(0.5), AssertionError, "call without values"),
                rejects(lambda: L([0, 1.]).getInterpolationMatrix([[0.5]]), AssertionError, "2D times"))
        if p["kind"] == "many":
            # very many points: rows of points, and the first powers in the middle
            n = p["n"]
            x = (np.linspace(-1, 1, n) if p["g"] == "equid" else -np.cos(np.pi * np.arange(n) / (n - 1))) * p["s"]
            k = [n // 2, n // 2 - 1, n // 3, 0, n - 1]
            m = n // 2
            t = np.array([x[i] for i in k] + [x[m] + f * (x[m + 1] - x[m]) for f in (0.3, -0.45, 0.5)])
            P = LagrangeApproximation(x, **p["o"]).getInterpolationMatrix(t)
            I = np.zeros((len(k), n))
            I[np.arange(len(k)), k] = 1
            msg = close(P[:len(k)], I, 1e-14, "%d points: row of a time equal to a point" % n)
            if p["g"] == "equid" and p["n"] > 1000 and p["o"]["scaleRef"] == "MAX" or p["g"] == "cheb" or p["n"] == 100:
                for e in range(4):
                    msg = msg or close(P @ (x / p["s"]) ** e, (t / p["s"]) ** e, 1e-3 * (p["g"] == "equid") + 1e-8, "%d points: power %d" % (n, e))
            return msg
        x = p["x"]
        L = Lag(x)
        if p["kind"] == "row":
            pts = list(x) if p["aslist"] else lay(x)
            t = list(p["t"]) if p["aslist"] else lay(p["t"])
            sn = snapshot(pts, t)
            a = LagrangeApproximation(pts, **p["o"])
            P = a.getInterpolationMatrix(t)
            R = fl([L.row(s) for s in p["t"]])
            lam = lam_(R)
            msg = close(P, R, 2e-14 * (len(x) + 2) ** 2 * lam * (1 + lam), "P (t=%s)" % p["t"])
            if not msg:
                for i, s in enumerate(p["t"]):
                    if s in x:
                        msg = msg or close(P[i], R[i], 1e-14, "row of a time equal to a point")
            P2 = a.getInterpolationMatrix(t)
            return first(msg, same(P, P2, "second request"), unchanged((pts, t), sn, "interpolation"))
        # call
        t = lay(p["t"])
        o = dict(p["o"])
        f = lay(p["f"])
        g = None if p["g"] is None else np.array(p["g"])
        a = LagrangeApproximation(lay(x), fValues=f, **o)
        v = a(t) if g is None else a(t, g)
        if np.shape(v) != t.shape:
            return "call: shape %s instead of %s" % (np.shape(v), t.shape)
        R = fl([L.row(s) for s in t.ravel()])
        lam = np.abs(R).sum(axis=1)
        h = f if g is None else g
        m = close(np.asarray(v).ravel(), R @ h, 2e-14 * (len(x) + 2) ** 2 * lam * (1 + lam) * (1 + np.abs(h).max()), "call")
        if not m and g is None:
            b = LagrangeApproximation(np.array(x), **o)
            m = same(np.asarray(b(t, fValues=f)), np.asarray(v), "values given at the call")
        return m


@oracle("C02")
class Integ:
    """random points and intervals (forward, backward, empty, outside), all rules, against exact rational integrals"""
    @staticmethod
    def cases(rng, tier):
        for n in range(1, 13):
            for q in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
                for rep in range(6 if tier == "quick" else 30):
                    x = points(rng, n)
                    lo, hi = min(x), max(x)
                    w = (hi - lo) or 1.0
                    iv = []
                    for _ in range(int(rng.integers(1, 5))):
                        r = rng.random()
                        a, b = lo + w * rng.random(), lo + w * rng.random()
                        if r < 0.15:
                            b = a
                        elif r < 0.3:
                            a, b = lo - 0.2 * w, hi + 0.2 * w
                        elif r < 0.4:
                            a, b = float(rng.choice(x)), float(rng.choice(x))
                        elif r < 0.5:
                            a, b = hi + 0.05 * w, hi + 0.3 * w
                        elif r < 0.6:
                            a, b = max(a, b), min(a, b)
                        iv.append([float(a), float(b)])
                    yield {"kind": "integ", "x": x, "iv": iv, "q": q, "o": opts(rng), "form": int(rng.integers(3))}
        for s in (1e-100, 1e-60, 1e60, 1e100, 1e-150):
            for n in (2, 3, 5):
                for wc in ("AUTO", "STABLE", "CHEBFUN"):
                    x = points(rng, n, scaled=False) * s
                    yield {"kind": "integ", "x": x, "iv": [[float(x[0]), float(x[-1])], [0.0, s / 3], [s, -s]], "q": "FEJER", "o": {"weightComputation": wc}, "form": 0}
        for n in list(range(1, 70)) + [100, 101, 128, 255, 256, 500, 1000]:
            yield {"kind": "fejer", "n": n}
        yield {"kind": "int"}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            a = LagrangeApproximation([0., 1.])
            return first(rejects(lambda: a.getIntegrationMatrix([(0, 1)], numQuad="foo"), NotImplementedError, "unknown rule"),
                         rejects(lambda: a.getIntegrationMatrix([0, 1]), AssertionError, "1D intervals"),
                         rejects(lambda: a.getIntegrationMatrix([(0, 1, 2)]), AssertionError, "triples"))
        if p["kind"] == "int":
            a = LagrangeApproximation([0, 1, 3, 4])
            L = Lag([0, 1, 3, 4])
            return close(a.getIntegrationMatrix([(0, 4), (4, 1), (2, 2)]), fl([L.integral(0, 4), L.integral(4, 1), L.integral(2, 2)]), 1e-12, "integer data")
        if p["kind"] == "fejer":
            n = p["n"]
            t, w = computeFejerRule(n)
            if t.shape != (n,) or w.shape != (n,):
                return "shape"
            th = np.arccos(np.clip(t, -1, 1))
            m = close(t, np.cos((2 * np.arange(n, 0, -1) - 1) * np.pi / (2 * n)), 1e-14, "fejer nodes")
            ks = range(n) if n < 80 else list(range(20)) + list(range(n - 20, n))
            for k in ks:
                ex = 0.0 if k % 2 else 2 / (1 - k * k)
                v = (w * np.cos(k * th)).sum()
                if not abs(v - ex) < 1e-12:
                    m = m or "fejer n=%d: integral of T_%d is %r instead of %r" % (n, k, v, ex)
            return m
        x = p["x"]
        L = Lag(x)
        iv = p["iv"]
        arg = [tuple(i) for i in iv] if p["form"] == 0 else (lay(iv) if p["form"] == 1 else [list(i) for i in iv])
        pts = lay(x)
        sn = snapshot(pts, arg)
        a = LagrangeApproximation(pts, **p["o"])
        Q = a.getIntegrationMatrix(arg, numQuad=p["q"])
        R = fl([L.integral(u, v) for u, v in iv])
        tol = []
        n = len(x)
        for u, v in iv:
            lam = max(np.abs(fl([L.row(s)])).sum() for s in np.linspace(u, v, 2 * n + 1))
            tol.append(4e-14 * (n + 2) ** 2 * lam * (1 + lam) * (abs(v - u)) + 1e-300)
        return first(close(Q, R, np.array(tol)[:, None], "integral over %s" % iv), unchanged((pts, arg), sn, "integration"))


@oracle("C03")
class Deriv:
    """random distinct points, all weight computations and scalings, against exact rational derivatives of the basis"""
    @staticmethod
    def cases(rng, tier):
        for n in range(1, 13):
            for wc in WC:
                for rep in range(5 if tier == "quick" else 25):
                    o = opts(rng)
                    o["weightComputation"] = wc
                    yield {"kind": "D", "x": points(rng, n), "o": o}
        for s in (1e-100, 1e-60, 1e60, 1e100):
            for n in (2, 3, 5):
                for wc in ("AUTO", "STABLE", "CHEBFUN"):
                    yield {"kind": "D", "x": points(rng, n, scaled=False) * s, "o": {"weightComputation": wc}}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            a = LagrangeApproximation([0., 1.])
            return first(*[rejects(lambda o=o: a.getDerivativeMatrix(order=o), NotImplementedError, "order=%r" % (o,)) for o in (0, 3, "BOTH", -1)])
        x = lay(p["x"])
        L = Lag(x)
        sn = snapshot(x)
        a = LagrangeApproximation(x, **p["o"])
        w0 = a.weights.copy()
        D1, D2 = a.getDerivativeMatrix(order=1), a.getDerivativeMatrix(order=2)
        A1, A2 = a.getDerivativeMatrix(order="ALL")
        D0 = a.getDerivativeMatrix()
        E1 = fl([L.deriv(t, 1) for t in L.x])
        E2 = fl([L.deriv(t, 2) for t in L.x])
        n = len(x)
        s1 = np.abs(E1).sum(axis=1)[:, None] + 1e-300
        with np.errstate(divide="ignore"):
            i = 1 / (x[:, None] - x[None, :])
        i[np.isinf(i)] = 0
        off = np.abs(E1 - np.diag(np.diag(E1)))
        s2 = (2 * off * (np.abs(i).max(axis=1)[:, None] + off.sum(axis=1)[:, None])).sum(axis=1)[:, None] + 1e-300
        # rounding of the nodes differences
        c = 1e-13 * (n + 2) ** 2
        return first(close(D1, E1, c * s1, "D1"), close(D2, E2, c * s2, "D2"), same(A1, D1, "ALL[0]"), same(A2, D2, "ALL[1]"),
                     same(D0, D1, "default order"), same(a.getDerivationMatrix(), D1, "getDerivationMatrix"),
                     same(a.getDerivationMatrix(order=2), D2, "getDerivationMatrix(2)"),
                     same(a.weights, w0, "weights after use"), unchanged((x,), sn, "derivative"))


@oracle("C04")
class Dup:
    """points repeated in random order and multiplicity, both strategies, against the matrices of the distinct points"""
    @staticmethod
    def cases(rng, tier):
        for rep in range(260 if tier == "quick" else 1500):
            n = int(rng.integers(1, 7))
            u = points(rng, n)
            k = int(rng.integers(1, 6))
            x = np.concatenate([u, rng.choice(u, k)])
            how = rep % 3
            if how == 0:
                x = rng.permutation(x)
            elif how == 1:
                x = np.sort(x)
            w = (max(u) - min(u)) or 1.0
            yield {"kind": "dup", "x": x, "t": times_for(rng, u, 4), "iv": [[min(u), float(min(u) + w * rng.random())], [max(u), float(rng.choice(u))]],
                   "s": [None, "USE_LEFT", "USE_RIGHT"][int(rng.integers(3))], "o": opts(rng)}
        yield {"kind": "zero"}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            return rejects(lambda: LagrangeApproximation([0, 1, 1.], duplicates="foo"), NotImplementedError, "unknown strategy")
        if p["kind"] == "zero":
            a = LagrangeApproximation([0.0, 1.0, -0.0])
            return close(a.getInterpolationMatrix([0.25]), [[0.75, 0.25, 0.0]], 1e-14, "0.0 and -0.0")
        x = p["x"]
        kw = dict(p["o"])
        if p["s"]:
            kw["duplicates"] = p["s"]
        a = LagrangeApproximation(lay(x), **kw)
        u = sorted(set(x))
        b = LagrangeApproximation(np.array(u), **p["o"])
        pos = [(len(x) - 1 - x[::-1].index(v)) if p["s"] == "USE_RIGHT" else x.index(v) for v in u]

        def place(m):
            out = np.zeros((m.shape[0], len(x)))
            out[:, pos] = m
            return out
        out = None
        pairs = [("interpolation", lambda l, d: l.getInterpolationMatrix(p["t"], **d)),
                 ("derivative 1", lambda l, d: l.getDerivativeMatrix(**d)),
                 ("derivative 2", lambda l, d: l.getDerivativeMatrix(order=2, **d)),
                 ("derivative ALL[0]", lambda l, d: l.getDerivativeMatrix(order="ALL", **d)[0]),
                 ("derivative ALL[1]", lambda l, d: l.getDerivativeMatrix(order="ALL", **d)[1])] + \
                [("integration " + q, lambda l, d, q=q: l.getIntegrationMatrix(p["iv"], numQuad=q, **d))
                 for q in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY")]
        for nme, f in pairs:
            M0 = f(b, {})
            # the sizes of the quadrature rules may differ: compare up to rounding
            lamb = np.abs(M0).sum(axis=1)[:, None]
            R0 = lamb * (1 + np.abs(M0).max() / 1e3)
            tol = 1e-9 * R0 + 1e-13 * R0.max()
            A = f(a, {})
            out = out or close(A, place(M0), tol, nme)
            if A.shape[1] == len(x) and not out:
                zer = [j for j in range(len(x)) if j not in pos]
                if A[:, zer].any():
                    out = "%s: non-zero coefficient at a repeated occurrence" % nme
            out = out or same(f(a, {"duplicates": True}), A, nme + " duplicates=True")
            out = out or close(f(a, {"duplicates": False}), M0, tol, nme + " duplicates=False")
        fv = {v: float(i * i - 3 * i + 1) for i, v in enumerate(u)}
        out = out or close(a(np.array(p["t"]), np.array([fv[v] for v in x])), b(np.array(p["t"]), np.array([fv[v] for v in u])),
                           1e-9 * (1 + np.abs(b.getInterpolationMatrix(p["t"])).sum(axis=1)) * 40, "call")
        if a.nUniquePoints != len(u) or a.nPoints != len(x) or not a.hasDuplicates:
            out = out or "counts"
        return out


@oracle("C05")
class Sparse:
    """random grids (uniform or not, many scales), targets on and off the grid, repeated and sorted targets, every order;
    periodic grids with targets moved by whole periods (dyadic data, so that the shifts are exact)"""
    @staticmethod
    def cases(rng, tier):
        for rep in range(220 if tier == "quick" else 1200):
            n = int(rng.integers(1, 14))
            x = points(rng, n, scaled=True)
            if rep % 2:
                x = np.sort(x)
            x = x * rng.choice([1, 1, 1e-6, 1e-9, 1e5, 1e8])
            lo, hi = x.min(), x.max()
            w = (hi - lo) or 1.0
            m = int(rng.integers(1, 9))
            mode = rep % 4
            if mode == 0:
                t = np.linspace(lo, hi, m)
            elif mode == 1:
                t = lo + w * rng.random(m)
            elif mode == 2:
                t = rng.choice(x, m)
            else:
                t = np.repeat(lo + w * rng.random(m), 2)
            p = int(rng.integers(1, min(n, 8) + 1))
            yield {"kind": "plain", "x": x, "t": t, "p": p}
        for rep in range(40):
            n = int(rng.integers(5, 25))
            h = float(rng.choice([1, 0.125, 2.0 ** -20, 3.0]))
            yield {"kind": "plain", "x": np.arange(n) * h, "t": (np.arange(2 * n - 1) * h / 2) + rng.choice([0, h / 8]) * (np.arange(2 * n - 1) < 2 * n - 2), "p": int(rng.integers(1, min(n, 7)))}
        for rep in range(120 if tier == "quick" else 600):
            n = int(rng.integers(2, 12))
            P = float(rng.choice([1.0, 2.0, 0.5, 16.0, 2.0 ** -12]))
            k = np.sort(rng.permutation(64)[:n]) if rep % 2 else np.arange(n) * (64 // n)
            x = (k / 64 + (int(rng.integers(-80, 80)) / 16 if rep % 3 == 2 else 0)) * P
            t = rng.integers(0, 256, int(rng.integers(1, 7))) / 256 * P
            yield {"kind": "per", "x": x, "t": t, "p": int(rng.integers(1, n + 1)), "P": P, "k": rng.integers(-3, 4, len(t))}
        for n in (11, 51):
            yield {"kind": "sin", "n": n}
        yield {"kind": "reject"}

    @staticmethod
    def check(p):
        if p["kind"] == "reject":
            return rejects(lambda: getSparseInterpolationMatrix(np.arange(3.), np.arange(2.), 4), AssertionError, "order above grid size")
        if p["kind"] == "sin":
            n = p["n"]
            x = np.linspace(0, 1, n)
            t = np.linspace(0, 1, 3 * n)
            out = None
            for o in (4, 6):
                A = getSparseInterpolationMatrix(x, t, o)
                e = np.abs(A @ np.sin(x) - np.sin(t)).max()
                if e > 20 * (1 / (n - 1)) ** o + 1e-12:
                    out = "interpolation error %g" % e
            return out
        x, t, o = lay(p["x"]), lay(p["t"]), p["p"]
        sn = snapshot(x, t)
        kw = {"gridPeriod": p["P"]} if p["kind"] == "per" else {}
        A = getSparseInterpolationMatrix(x, t, o, **kw)
        if A.shape != (len(t), len(x)):
            return "shape %s" % (A.shape,)
        D = A.toarray()
        m = unchanged((x, t), sn, "sparse interpolation")
        for i in range(len(t)):
            nz = np.nonzero(D[i])[0]
            if len(nz) > o:
                return "row %d has %d entries (order %d)" % (i, len(nz), o)
        if p["kind"] == "plain":
            for i in range(len(t)):
                d = np.abs(x - t[i])
                sel = [j for j in range(len(x)) if D[i, j] != 0]
                cut = np.sort(d)[o - 1]
                if any(d[j] > cut * (1 + 1e-12) for j in sel):
                    return "row %d uses a point which is not among the %d closest" % (i, o)
                # any admissible stencil: exactness of monomials in the local variable
                sc = max(np.abs(x[sel] - t[i]).max(), 1e-300)
                lam = np.abs(D[i]).sum()
                if not np.isfinite(lam):
                    return "row %d is not finite" % i
                # size of an honest row
                for q in range(o):
                    v = (D[i] * ((x - t[i]) / sc) ** q)[sel].sum()
                    if not abs(v - (1 if q == 0 else 0)) < 1e-9 * (1 + lam) ** 2:
                        return "row %d: degree %d moment %r" % (i, q, v)
                if lam > 1e5:
                    st = np.sort(np.argsort(d)[:o])
                    L = np.abs(fl([Lag(x[st]).row(t[i])])).sum()
                    if lam > 10 * L:
                        return "row %d has size %g" % (i, lam)
            return m
        P = p["P"]
        s = D.sum(axis=1)
        if not np.abs(s - 1).max() < 1e-9 * np.abs(D).sum(axis=1).max() ** 2:
            return "constants: row sums %s" % s
        B = getSparseInterpolationMatrix(x, t + np.array(p["k"]) * P, o, gridPeriod=P).toarray()
        m = m or close(B, D, 1e-10 * (1 + np.abs(D).max()), "targets moved by whole periods")
        # locality and exactness on the images
        for i in range(len(t)):
            tt = x.min() + (t[i] - x.min()) % P
            img = np.concatenate([x - P, x, x + P])
            idx = np.tile(np.arange(len(x)), 3)
            d = np.abs(img - tt)
            cut = np.sort(d)[o - 1]
            best = np.array([d[idx == j].min() for j in range(len(x))])
            sel = np.nonzero(D[i])[0]
            if any(best[j] > cut * (1 + 1e-12) for j in sel):
                return "periodic row %d uses a far point" % i
            tie = np.sum(np.abs(d - cut) <= 1e-12 * P) > 1 and False
            # unambiguous nearest images
            im = []
            amb = False
            for j in sel:
                c = [img[k] for k in range(len(img)) if idx[k] == j and abs(d[k] - best[j]) <= 1e-12 * P]
                amb = amb or len(c) > 1
                im.append(c[0])
            if not amb and len(sel):
                sc = max(np.abs(np.array(im) - tt).max(), 1e-300)
                for q in range(o):
                    v = (D[i, sel] * ((np.array(im) - tt) / sc) ** q).sum()
                    if not abs(v - (q == 0)) < 1e-8 * (1 + np.abs(D[i]).sum()) ** 2:
                        return "periodic row %d: degree %d moment %r" % (i, q, v)
        return m


# ------------------------------------------------------------------------------ nodes
def monic(kind, k, x):
    """monic orthogonal polynomial of degree k"""
    x = np.asarray(x, dtype=float)
    if k == 0:
        return np.ones_like(x)
    c = np.zeros(k + 1)
    c[k] = 1
    if kind == "LEGENDRE":
        v = np.polynomial.legendre.legval(x, c)
        return v * (2.0 ** k * math.factorial(k) ** 2 / math.factorial(2 * k))
    # first kind recurrence with the right start, 2x p_k - p_{k-1}
    p0, p1 = np.ones_like(x), {"CHEBY-1": x, "CHEBY-2": 2 * x, "CHEBY-3": 2 * x - 1, "CHEBY-4": 2 * x + 1}[kind]
    for _ in range(k - 1):
        p0, p1 = p1, 2 * x * p1 - p0
    return p1 / (2.0 ** (k - 1) if kind == "CHEBY-1" else 2.0 ** k)


@oracle("C06")
class Nodes:
    """every node type, quadrature type and count up to 32: defining polynomial, end points, order; recurrence coefficients and
    polynomial evaluation against closed forms; refusals"""
    @staticmethod
    def cases(rng, tier):
        yield {"kind": "reject"}
        for M in list(range(1, 26)) + [32, 40, 64]:
            for nt in NT:
                for qt in QT:
                    if M == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                        continue
                    yield {"kind": "nodes", "nt": nt, "qt": qt, "M": M}
        for M in [100, 250, 1100] + ([501, 1000, 1500] if tier != "quick" else []):
            for nt in NT:
                for qt in QT:
                    # with more than 1074 nodes the values of the monic polynomials are below the smallest number
                    if M < 1074 or tier != "quick" or qt != "GAUSS" and nt in ("LEGENDRE", "CHEBY-1", "CHEBY-4"):
                        yield {"kind": "big", "nt": nt, "qt": qt, "M": M}
        for nt in NT[1:]:
            for n in (1, 2, 3, 7, 30):
                yield {"kind": "rec", "nt": nt, "n": n}
                yield {"kind": "eval", "nt": nt, "n": n, "t": (rng.random(5) * 2 - 1)}
        for rep in range(30):
            n = int(rng.integers(0, 7))
            yield {"kind": "gen", "a": rng.integers(-4, 5, n) / 4, "b": rng.integers(1, 9, n) / 8, "t": rng.integers(-4, 5, int(rng.integers(1, 4))) / 4}
        yield {"kind": "hist"}

    @staticmethod
    def check(p):
        k = p["kind"]
        if k == "reject":
            out = first(rejects(lambda: NodesGenerator("foo", "GAUSS"), ValueError, "node type"),
                        rejects(lambda: NodesGenerator("LEGENDRE", "foo"), ValueError, "quadrature type"))
            for nt in NT:
                for qt in QT:
                    for n in (0, -1) + ((1,) if qt in ("LOBATTO", "RADAU-LEFT") else ()):
                        out = out or rejects(lambda: NodesGenerator(nt, qt).getNodes(n), ValueError, "%d %s %s nodes" % (n, nt, qt))
            if sorted(NODE_TYPES) != sorted(NT) or sorted(QUAD_TYPES) != sorted(QT):
                out = out or "available types changed"
            d = NodesGenerator()
            if (d.nodeType, d.quadType) != ("LEGENDRE", "LOBATTO"):
                out = out or "defaults"
            return out
        if k == "hist":
            g = NodesGenerator("CHEBY-2", "RADAU-LEFT")
            a = g.getNodes(5)
            b = a.copy()
            a[:] = 7
            g.getNodes(3)
            return same(g.getNodes(5), b, "nodes after in-place modification")
        if k == "rec":
            n, nt = p["n"], p["nt"]
            a, b = NodesGenerator(nt, "GAUSS").getOrthogPolyCoefficients(n)
            ea, eb = np.zeros(n), np.full(n, 0.25)
            eb[0] = {"LEGENDRE": 2, "CHEBY-2": np.pi / 2}.get(nt, np.pi)
            if nt == "LEGENDRE":
                for j in range(1, n):
                    eb[j] = j * j / (4.0 * j * j - 1)
            if nt == "CHEBY-1" and n > 1:
                eb[1] = 0.5
            if nt in ("CHEBY-3", "CHEBY-4"):
                ea[0] = 0.5 if nt == "CHEBY-3" else -0.5
            return first(close(a, ea, 1e-14, "alpha"), close(b, eb, 1e-13, "beta"))
        if k == "eval":
            n, nt = p["n"], p["nt"]
            g = NodesGenerator(nt, "GAUSS")
            a, b = g.getOrthogPolyCoefficients(n)
            out = None
            for t in [np.array(p["t"]), p["t"][0], 1.0, -1.0, 1]:
                v = g.evalOrthogPoly(t, a, b)
                out = out or close(v[1], monic(nt, n, t), 1e-12 * (1 + np.abs(monic(nt, n, t)).max()), "p_n") or \
                    (close(v[0], monic(nt, n - 1, t), 1e-12 * (1 + np.abs(monic(nt, n - 1, t)).max()), "p_(n-1)") if n > 0 else None)
            return out
        if k == "gen":
            g = NodesGenerator()
            t = np.array(p["t"])
            p0, p1 = np.zeros_like(t), np.ones_like(t)
            first_ = True
            for a, b in zip(p["a"], p["b"]):
                p0, p1 = p1, (t - a) * p1 - b * p0
            if not p["a"]:
                return None
            A, B = np.array(p["a"]), np.array(p["b"])
            sn = snapshot(A, B, t)
            v = g.evalOrthogPoly(t, A, B)
            return first(close(v[0], p0, 1e-12, "p_(n-1)"), close(v[1], p1, 1e-12, "p_n"), unchanged((A, B, t), sn, "evalOrthogPoly"))
        nt, qt, M = p["nt"], p["qt"], p["M"]
        x = NodesGenerator(nt, qt).getNodes(M)
        if x.shape != (M,):
            return "shape %s" % (x.shape,)
        if not (np.diff(x) > 0).all():
            return "not strictly increasing: %s" % x
        if x[0] < -1 or x[-1] > 1:
            return "outside of [-1,1]"
        L, R = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
        if (x[0] == -1) != L or (x[-1] == 1) != R:
            return "end points: %r %r" % (x[0], x[-1])
        if nt == "EQUID":
            e = np.linspace(-1, 1, M + (not L) + (not R))
            e = e[(0 if L else 1):(len(e) if R else -1)]
            return close(x, e, 1e-13, "equidistant nodes")
        if k == "big":
            d = -np.diff(np.arccos(np.clip(x, -1, 1))) * M / np.pi
            return None if 0.8 < d.min() and d.max() < 1.6 else "spacing of the angles between %g and %g times pi/M" % (d.min(), d.max())
        pm = lambda j, t: monic(nt, j, t)
        if qt == "GAUSS":
            q = lambda t: pm(M, t)
        elif qt == "LOBATTO":
            m1, m2 = M - 1, M - 2
            # (t - a) p_(M-1) - b p_(M-2) vanishing at both ends
            A = np.array([[pm(m1, 1.0), pm(m2, 1.0)], [pm(m1, -1.0), pm(m2, -1.0)]], dtype=float)
            a, b = np.linalg.solve(A, [pm(m1, 1.0), -pm(m1, -1.0)])
            q = lambda t: (t - a) * pm(m1, t) - b * pm(m2, t)
        else:
            e = -1.0 if L else 1.0
            c = pm(M, e) / pm(M - 1, e)
            q = lambda t: pm(M, t) - c * pm(M - 1, t)
        d = np.array([np.prod([x[i] - x[j] for j in range(M) if j != i]) for i in range(M)])
        return close(q(x) / d, np.zeros(M), 1e-10, "Newton correction at the nodes")


NT = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QT = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']
