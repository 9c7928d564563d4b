"""Common helpers: exact rational Lagrange interpolation, case registry."""
import math
import os
import sys
import warnings
from fractions import Fraction as Fr
import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

ORACLES = {}


def oracle(pid):
    def deco(cls):
        ORACLES.setdefault(pid, []).append(cls)
        cls.pid = pid
        return cls
    return deco


EPS = 2.0 ** -52


class Lag:
    """exact Lagrange basis on distinct points (rationals)"""

    def __init__(self, pts):
        self.x = [Fr(float(p)) for p in pts]
        n = len(self.x)
        self.w = []
        for j in range(n):
            d = Fr(1)
            for k in range(n):
                if k != j:
                    d *= self.x[j] - self.x[k]
            self.w.append(1 / d)
        self._coef = None

    def row(self, t):
        t = Fr(float(t)) if not isinstance(t, Fr) else t
        x = self.x
        if t in x:
            i = x.index(t)
            return [Fr(int(j == i)) for j in range(len(x))]
        l = Fr(1)
        for p in x:
            l *= t - p
        return [l * w / (t - p) for w, p in zip(self.w, x)]

    @property
    def coef(self):
        """coefficients (increasing powers) of each basis polynomial"""
        if self._coef is None:
            out = []
            for j, p in enumerate(self.x):
                c = [self.w[j]]
                for k, q in enumerate(self.x):
                    if k != j:
                        c = [(c[i - 1] if i > 0 else 0) - q * (c[i] if i < len(c) else 0) for i in range(len(c) + 1)]
                out.append(c)
            self._coef = out
        return self._coef

    def integral(self, a, b):
        a, b = Fr(float(a)), Fr(float(b))
        # shift for moderate sizes
        out = []
        for c in self.coef:
            s = Fr(0)
            for i, v in enumerate(c):
                s += v * (b ** (i + 1) - a ** (i + 1)) / (i + 1)
            out.append(s)
        return out

    def deriv(self, t, order):
        t = Fr(t)
        out = []
        for c in self.coef:
            d = list(c)
            for _ in range(order):
                d = [i * v for i, v in enumerate(d)][1:]
            out.append(sum((v * t ** i for i, v in enumerate(d)), Fr(0)))
        return out


def fl(rows):
    return np.array([[float(v) for v in r] for r in rows], dtype=float)


def maxdev(A, B):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return "shape %s instead of %s" % (A.shape, B.shape)
    return None


def close(A, B, tol, what="value"):
    """None or message; tol scalar or array (absolute)"""
    A = np.asarray(A)
    B = np.asarray(B)
    if A.shape != B.shape:
        return "%s: shape %s instead of %s" % (what, A.shape, B.shape)
    if A.size == 0:
        return None
    D = np.abs(A - B)
    bad = ~(D <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(D), np.inf, D - tol) * bad if not np.isnan(D).any() else np.isnan(D)), D.shape)
        return "%s: entry %s is %r instead of %r" % (what, tuple(int(k) for k in i), complex(A[i]) if np.iscomplexobj(A) else float(A[i]),
                                                     complex(B[i]) if np.iscomplexobj(B) else float(B[i]))
    return None


def same(A, B, what="value"):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return "%s: shape %s instead of %s" % (what, A.shape, B.shape)
    if not np.array_equal(A, B, equal_nan=False):
        i = np.unravel_index(np.argmax(A != B), A.shape)
        return "%s: entry %s is %r instead of %r" % (what, tuple(int(k) for k in i), A[i].item(), B[i].item())
    return None


def rejects(f, excs, what):
    """f() must raise one of the exceptions"""
    try:
        f()
    except excs:
        return None
    except Exception as e:
        return "%s: raised %s instead of %s" % (what, type(e).__name__, getattr(excs, "__name__", excs))
    return "%s: accepted" % what


def first(*msgs):
    for m in msgs:
        if m:
            return m
    return None


def cx(z):
    return {"re": float(np.real(z)), "im": float(np.imag(z))}


def ucx(d):
    if isinstance(d, dict):
        return complex(d["re"], d["im"])
    return d


def points(rng, n, kind=None, scaled=True):
    """distinct, well separated points"""
    kind = kind or rng.choice(["unif", "sorted", "random", "cheb", "desc", "clustered", "int"])
    if kind == "unif":
        x = np.linspace(-1, 1, n) if n > 1 else np.array([0.3])
    elif kind == "cheb":
        x = np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))
        if rng.random() < 0.5:
            x = x[::-1]
    elif kind == "int":
        x = rng.permutation(np.arange(-n, n))[:n].astype(float)
        return x
    else:
        # jittered grid
        x = np.linspace(-1, 1, n) + (rng.random(n) - 0.5) * (1.2 / max(n, 1))
        if kind == "sorted":
            pass
        elif kind == "desc":
            x = x[::-1]
        elif kind == "clustered":
            x = np.sign(x) * np.abs(x) ** 1.5
            x = rng.permutation(x)
        else:
            x = rng.permutation(x)
    if scaled:
        s = rng.choice([1.0, 1.0, 0.5, 3.0, 10.0, 1e-3, 1e3, 1e-12, 1e12])
        o = rng.choice([0.0, 0.0, 1.0, -2.0, 0.7])
        x = (x + o) * s
    if len(set(x.tolist())) != n:
        return points(rng, n, "sorted", scaled)
    return np.array(x)


def lay(a):
    """the same array in one of several memory layouts (contiguous by rows or by columns, strided, reversed), chosen by its content"""
    import zlib
    a = np.array(a)
    if a.ndim == 0:
        return a
    k = zlib.crc32(np.ascontiguousarray(a).tobytes()) % 4
    if k == 0:
        return a
    if k == 1:
        return np.array(a, order="F") if a.ndim > 1 else np.repeat(a, 3)[1::3]
    if k == 2:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return np.ascontiguousarray(a[..., ::-1])[..., ::-1]


def snapshot(*arrs):
    return [np.array(a, copy=True) for a in arrs]


def unchanged(arrs, snaps, what):
    for k, (a, s) in enumerate(zip(arrs, snaps)):
        if not (np.shape(a) == s.shape and np.array_equal(np.asarray(a), s)):
            return "%s: argument %d was modified" % (what, k)
    return None
