"""callee contracts shared by C14 - C16: arbitrary names, an arbitrary registry, an arbitrary QDelta generator"""
from .base import *

M = var("M", "I")


class Name(Str):
    """arbitrary string, identified by a term (so that it can depend on an index)"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Name):
            return wrap(eq(self.t, o.t))
        if isinstance(o, str):
            return wrap(app("isname%r" % o, (self.t,), "B"))
        return False

    __hash__ = object.__hash__

    def __repr__(self):
        return "<any name>"

    def _vp_subst(self, m):
        return Name(subst(self.t, m))

    def _vp_merge(self, c, o):
        return Name(ite(c, self.t, o.t))


def known(t):
    """the name t is registered"""
    return app("registered", (t,), "B")


class Registry(dict):
    """contract of a registry (C20): a registered name gives one class, any other raises KeyError"""

    def __init__(self, log):
        self.log = log

    def __getitem__(self, k):
        if not isinstance(k, Name):
            raise KeyError(k)
        if not sym.S.decide(known(k.t)):
            raise KeyError("unknown name")
        return Class(k.t, self.log)

    def __contains__(self, k):
        return isinstance(k, Name) and sym.S.decide(known(k.t))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def _no(self, *a, **k):
        raise Unsupported("registry access")
    keys = values = items = pop = update = setdefault = __iter__ = __len__ = _no


class Class:
    def __init__(self, t, log):
        self.t, self.log = t, log

    def __call__(self, *a, **kw):
        if a:
            raise Unsupported("generator created with positional arguments")
        self.log.append(dict(kw))
        return AnyGen(self.t)

    def _vp_subst(self, m):
        return Class(subst(self.t, m), self.log)

    def _vp_merge(self, c, o):
        return Class(ite(c, self.t, o.t), self.log)


NONE = ic(-1)


def QD(t, k, form):
    """entry i, j of the matrix that approximation t gives for sweep k in a form"""
    f = ic(1 if form == "N2N" else 0)
    return lambda i, j: app("QD", (t, k, f, i, j), "R")


class AnyGen:
    """contract of a QDelta generator (C08, C12 - C14): its coefficients are functions of the sweep number and the form"""

    def __init__(self, t):
        self.t = t

    def _vp_subst(self, m):
        return AnyGen(subst(self.t, m))

    def _vp_merge(self, c, o):
        return AnyGen(ite(c, self.t, o.t))

    def mat(self, k, form):
        q = QD(self.t, NONE if k is None else term(k), form)
        return SArr.new((M, M), q, "f")

    @property
    def dTau(self):
        return SArr.new((M,), lambda i: app("DT", (self.t, i), "R"), "f")

    @property
    def size(self):
        return wrap(M)

    def getQDelta(self, k=None, copy=True):
        return self.mat(k, "Z2N")

    def getSDelta(self, k=None):
        return self.mat(k, "N2N")

    def genCoeffs(self, k=None, form="Z2N", dTau=False):
        if not isinstance(form, str):
            raise Unsupported("form")
        if form not in ("Z2N", "N2N"):
            raise ValueError("form")
        if isinstance(k, (list, tuple, range, SList, SArr, SRange)):
            ks = sym.darr(list(k) if isinstance(k, (tuple, range)) else k if not isinstance(k, SRange) else loops.tolist(k))
            n, g = ks.vshape[0], ks.snap()
            f = ic(1 if form == "N2N" else 0)
            out = SArr.new((n, M, M), lambda s, i, j: app("QD", (self.t, tm.toI(g(s)), f, i, j), "R"), "f")
        else:
            out = self.mat(k, form)
        sym.S.note("QDeltaGenerator.genCoeffs: per-sweep matrices in the form, in the order of the sweeps (contract of genCoeffs, proved here and under C08)")
        return [out, self.dTau] if dTau else out
