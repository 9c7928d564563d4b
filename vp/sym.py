"""Symbolic values: numbers, arrays with numpy view semantics, lists of symbolic
length, and the session (path exploration by re-execution)."""
import math
import operator
import time
from fractions import Fraction
import numpy as _np
from .terms import *
from . import terms as tm
from .ctx import Ctx


class Unsupported(Exception):
    """construct outside of the verified subset"""


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    """the current path is contradictory"""


PI = var("pi", "R")
IMAG = var("imag", "R")


# --------------------------------------------------------------------------- session
class Explorer:
    def __init__(self, prefix):
        self.dec = list(prefix)
        self.pos = 0
        self.forks = []          # positions where the alternative is feasible
        self.conds = []


PROVED = set()         # loop obligations already discharged in this process


class Session:
    def __init__(self, ctx=None):
        self.ctx = ctx or Ctx()
        self.stack = []
        self.writelog = None
        self.assumed = {}        # description -> count : assumed contracts used
        self.maxpaths = 200
        self.nonzero = None      # text of a precondition that excludes zero divisors
        self.ghosts = {}         # name -> definition
        self.notes = []
        self.errstate = [{}]
        self.deadline = None
        self.side = []           # side obligations (name, ctx, goal)
        self.loops = 0
        self.recursive = []
        self.generic = []        # generic indices of enclosing loop bodies
        self.obls = []           # proved obligations of loops
        self.looprule = None     # loop rule chosen by a contract
        self.memo_carried = set()

    def obligation(self, name, ctx, goal, hints):
        from . import prover
        t0 = time.time()
        key = self.alpha(goal, ctx)
        if key not in PROVED:
            try:
                prover.prove(goal, ctx, hints)
            except (prover.ProofFail, prover.Undefined, prover.Budget) as e:
                raise Unsupported("%s: not proved: %s" % (name, str(e)[:300]))
            PROVED.add(key)
        self.obls.append((name, time.time() - t0))

    def alpha(self, goal, ctx):
        """the sequent up to the names of fresh variables and of undefined loop functions"""
        from .loops import mapapps
        vs, fs, seen = {}, {}, set()
        sorts = {}
        seq = (goal,) + ctx.asm
        for t in seq:
            st = [t]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "var" and "!" in x.args[0]:
                    vs[x] = var("$v%d" % len(vs), x.sort)
                elif x.op == "app" and "#" in x.args[0] and x.args[0] not in self.ghosts and x.args[0] not in fs:
                    fs[x.args[0]] = "$f%d" % len(fs)
                    sorts[x.args[0]] = x.sort
                st += [a for a in reversed(x.args) if isinstance(a, T)]
        fns = {f: (lambda a, g=g, f=f: app(g, a, sorts[f])) for f, g in fs.items()}
        return (ctx.lemmas, self.nonzero) + tuple(subst(mapapps(t, fns) if fns else t, vs) for t in seq)

    def note(self, what):
        self.assumed[what] = self.assumed.get(what, 0) + 1

    def assume(self, *cs):
        self.ctx = self.ctx.extend(*cs)
        if FALSE in self.ctx.set:
            raise Infeasible()

    def decide(self, c):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time limit while exploring paths")
        if c.op == "const":
            return cval(c)
        if c.op == "undef":
            raise Unsupported("branch on an undefined value")
        if not self.stack:
            d = self.ctx.decide(c)
            if d is None:
                raise Unsupported("undecided condition outside of exploration: %s" % show(c)[:200])
            return d
        ex = self.stack[-1]
        if ex.pos < len(ex.dec):
            d = ex.dec[ex.pos]
            ex.pos += 1
            self.ctx = self.ctx.extend(c if d else not_(c))
            ex.conds.append(c if d else not_(c))
            return d
        d = self.ctx.decide(c)
        if d is not None:
            # forced: still recorded, so that replayed prefixes stay aligned
            ex.dec.append(d)
            ex.pos += 1
            ex.conds.append(TRUE)
            return d
        ex.dec.append(True)
        ex.forks.append(ex.pos)
        ex.pos += 1
        ex.conds.append(c)
        self.ctx = self.ctx.extend(c)
        if not self.ctx.feasible():
            raise Infeasible()
        return True

    def explore(self, f, restore=None, catch=True):
        """run f on every feasible path: list of (ctx, conds, kind, value)"""
        base = self.ctx
        work = [[]]
        out = []
        while work:
            if len(out) > self.maxpaths:
                raise PathLimit("more than %d paths" % self.maxpaths)
            pre = work.pop()
            self.ctx = base
            ex = Explorer(pre)
            self.stack.append(ex)
            if restore:
                restore()
            try:
                try:
                    v = f()
                    kind = "ret"
                except Infeasible:
                    kind, v = "inf", None
                except (Unsupported, KeyboardInterrupt, MemoryError, RecursionError):
                    raise
                except Exception as e:
                    if not catch:
                        raise
                    kind, v = "exc", e
                    if type(e).__name__ in ("SymbolicMisuse",):
                        raise Unsupported(str(e))
            finally:
                self.stack.pop()
            for p in ex.forks:
                if p >= len(pre):
                    work.append(ex.dec[:p] + [False])
            if kind != "inf" and self.ctx.feasible():
                out.append((self.ctx, and_(*ex.conds), kind, v))
        self.ctx = base
        return out


S = Session()


def session():
    return S


def set_session(s):
    global S
    S = s
    BIRTH.clear()
    return s


# --------------------------------------------------------------------------- scalars
def rat(x):
    """the simplest rational that a float literal stands for"""
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(100000)
    if float(g) == x:
        return g
    return f


def term(x):
    """Python / numpy / symbolic scalar -> term"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return bc(bool(x))
    if isinstance(x, (int, _np.integer)):
        return ic(int(x))
    if isinstance(x, Fraction):
        return rc(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return UNDEF
        if x == math.inf:
            return inf(1)
        if x == -math.inf:
            return inf(-1)
        r = x / math.pi
        if x != 0:
            g = Fraction(r).limit_denominator(64)
            if g != 0 and float(g) * math.pi == x and rat(x).denominator > 10 ** 5:
                return scale(g, PI)
        return rc(rat(x))
    if isinstance(x, (complex, _np.complexfloating)):
        x = complex(x)
        return add(term(x.real), mul(term(x.imag), IMAG))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return term(x.item())
    if isinstance(x, SArr) and x.ndim == 0:
        return x.at()
    raise TypeError("not a number: %r" % type(x))


def isnum(x):
    return isinstance(x, (Sym, bool, int, float, complex, Fraction, _np.number, _np.bool_)) or \
        (isinstance(x, _np.ndarray) and x.ndim == 0)


def wrap(t, np_=False):
    if t.sort == "I":
        if isconst(t):
            return int(cval(t))
        return SInt(t)
    if t.sort == "B":
        if isconst(t):
            return bool(cval(t))
        return SBool(t)
    return SReal(t)


class Sym:
    __slots__ = ("t",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s>" % show(self.t)[:200]

    def _bin(self, o, f, swap=False):
        if isinstance(o, (SArr, _np.ndarray, SList)) and not (isinstance(o, _np.ndarray) and o.ndim == 0):
            return NotImplemented if not isinstance(o, _np.ndarray) else \
                (f2arr(f, o, self) if swap else f2arr(f, self, o))
        try:
            b = term(o)
        except TypeError:
            return NotImplemented
        a = self.t
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o):
        if isinstance(o, list):
            return SList.repeat(o, self)
        return self._bin(o, mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, tdiv_scalar)
    def __rtruediv__(self, o): return self._bin(o, tdiv_scalar, True)
    def __floordiv__(self, o): return self._bin(o, ifloordiv)
    def __rfloordiv__(self, o): return self._bin(o, ifloordiv, True)
    def __mod__(self, o): return self._bin(o, ffmod)
    def __rmod__(self, o): return self._bin(o, ffmod, True)
    def __pow__(self, o): return self._bin(o, tpow)
    def __rpow__(self, o): return self._bin(o, tpow, True)
    def __neg__(self): return wrap(neg(tm.toI(self.t) if self.t.sort == "B" else self.t))
    def __pos__(self): return self
    def __abs__(self): return wrap(tabs(self.t))
    def __lt__(self, o): return self._bin(o, lt)
    def __le__(self, o): return self._bin(o, le)
    def __gt__(self, o): return self._bin(o, gt)
    def __ge__(self, o): return self._bin(o, ge)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, eq)
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, ne)
    __hash__ = object.__hash__

    def __bool__(self):
        t = self.t
        if t.sort != "B":
            t = ne(t, I0 if t.sort == "I" else R0)
        return S.decide(t)

    def __float__(self):
        if isconst(self.t) and self.t.sort != "B":
            return float(cval(self.t))
        raise Unsupported("symbolic number used as a machine float")

    # numpy scalar interface
    shape = ()
    ndim = 0
    size = 1
    @property
    def T(self): return self
    def copy(self): return self
    def ravel(self): return SArr.full((ic(1),), self.t)
    def item(self): return self
    def conjugate(self): return wrap(conj(self.t))
    conj = conjugate
    @property
    def real(self): return wrap(fn("re", self.t))
    @property
    def imag(self): return wrap(fn("im", self.t))


class SInt(Sym):
    __slots__ = ()

    def __index__(self):
        if isconst(self.t):
            return int(cval(self.t))
        raise Unsupported("symbolic integer used as a machine integer")

    __int__ = __index__


class SReal(Sym):
    __slots__ = ()

    def __int__(self):
        raise Unsupported("int() of a symbolic real")


class SBool(Sym):
    __slots__ = ()

    def __and__(self, o): return wrap(and_(self.t, term(o)))
    __rand__ = __and__
    def __or__(self, o): return wrap(or_(self.t, term(o)))
    __ror__ = __or__
    def __invert__(self): return wrap(not_(self.t))
    def __xor__(self, o): return wrap(not_(eq(self.t, term(o))))


# --------------------------------------------------------------------------- scalar operations on terms
def tabs(t):
    if t.sort == "I":
        return ite(le(I0, t), t, neg(t))
    return fn("abs", t)


def conj(t):
    if IMAG in t.fv:
        return subst(t, {IMAG: neg(IMAG)})
    return t


def tdiv_scalar(a, b):
    """Python / numpy scalar division: raises or is inf/nan at 0 -> undefined"""
    return tdiv(a, b)


def tdiv(a, b):
    es = S.errstate[-1]
    a, b = toR(a), toR(b)
    r = div(a, b)
    if r.bad and a.op not in ("undef", "inf") and b.op not in ("undef", "inf") and not a.bad and not b.bad and S.ctx.valid(ne(b, R0)):
        return mul(a, recip(b))
    if r.bad and S.nonzero is not None and not (a.bad or b.bad) and b.op not in ("undef", "inf"):
        S.note(S.nonzero)
        S.assume(ne(b, R0))
        return mul(a, recip(b))
    if es.get("divide") == "raise" or es.get("all") == "raise":
        # a division by zero raises; in machine arithmetic a product may also underflow to zero
        flt = fresh("underflow", "B")
        if S.decide(or_(eq(b, R0), flt) if eq(b, R0) is not FALSE else flt):
            raise FloatingPointError("divide")
    return r


def ifloordiv(a, b):
    if a.sort == "R" or b.sort == "R":
        return fn("floordiv", a, b)
    return idiv(tm.toI(a), tm.toI(b))


def ffmod(a, b):
    if a.sort == "R" or b.sort == "R":
        return fn("mod", a, b)
    return imod(tm.toI(a), tm.toI(b))


def tpow(a, b):
    if isconst(b) and b.sort != "B":
        c = cval(b)
        if c.denominator == 1:
            n = int(c)
            if n >= 0:
                return powi(a if a.sort != "B" else tm.toI(a), n)
            return tdiv(R1, powi(toR(a), -n))
        if c == Fraction(1, 2):
            return fn("sqrt", toR(a))
        if c == Fraction(-1, 2):
            return tdiv(R1, fn("sqrt", toR(a)))
    if b.sort == "I":
        return powt(toR(a), b)
    return fn("rpow", toR(a), toR(b))


def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(b, a), a, b)


# --------------------------------------------------------------------------- dimensions
# a dimension is an integer term, or a tuple of dimensions (flattened product)
def dimsize(d):
    if isinstance(d, tuple):
        r = I1
        for x in d:
            r = mul(r, dimsize(x))
        return r
    return d


def dimeq(a, b):
    """structural equality, else decided (forks)"""
    if a is b or a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b) and all(not isinstance(x, tuple) and not isinstance(y, tuple) for x, y in zip(a, b)):
            if S.ctx.valid(and_(*[eq(x, y) for x, y in zip(a, b)])):
                return True
        return S.decide(eq(dimsize(a), dimsize(b)))
    if isinstance(a, tuple) or isinstance(b, tuple):
        if S.ctx.valid(eq(dimsize(a), dimsize(b))):
            raise Unsupported("flattened and plain dimension of the same size")
        return S.decide(eq(dimsize(a), dimsize(b)))
    return S.decide(eq(a, b))


def is1(d):
    return not isinstance(d, tuple) and isconst(d) and cval(d) == 1


def dim(x):
    if isinstance(x, (tuple, list)):
        return tuple(dim(y) for y in x)
    return tm.toI(term(x))


def freshidx(d, base="i"):
    if isinstance(d, tuple):
        return tuple(freshidx(x, base) for x in d)
    return fresh(base, "I")


def inrange(i, d):
    if isinstance(d, tuple):
        return and_(*[inrange(x, y) for x, y in zip(i, d)])
    return and_(le(I0, i), lt(i, d))


def zeroidx(d):
    return tuple(zeroidx(x) for x in d) if isinstance(d, tuple) else I0


def flatvars(i):
    if isinstance(i, tuple):
        return [v for x in i for v in flatvars(x)]
    return [i]


def idxeq(a, b):
    if isinstance(a, tuple):
        return and_(*[idxeq(x, y) for x, y in zip(a, b)])
    return eq(a, b)


def sumdim(d, f, op=None):
    """reduce over a dimension; f: index -> term"""
    op = op or Sum
    if isinstance(d, tuple):
        if len(d) == 1:
            return sumdim(d[0], lambda i: f((i,)), op)
        return sumdim(d[0], lambda i: sumdim(d[1:], lambda j: f((i,) + j), op), op)
    return op(I0, d, f)


# --------------------------------------------------------------------------- arrays
class Buf:
    _n = 0

    def __init__(self, shape, elem, dtype="f", tag=None):
        Buf._n += 1
        self.id = Buf._n
        self.shape = tuple(shape)
        self.elem = memo(elem)
        self.dtype = dtype
        self.tag = tag
        self.version = 0
        self.extra = {}
        self.layout = None      # memory layout 'C' or 'F' where a contract states it

    def write(self, elem):
        if S.writelog is not None:
            S.writelog.append((self, self.elem, self.version))
        self.elem = memo(elem)
        self.version += 1


def memo(f):
    cache = {}

    def g(*idx):
        r = cache.get(idx)
        if r is None:
            r = f(*idx)
            if isinstance(r, Sym):
                r = r.t
            cache[idx] = r
        return r
    return g


DT = {"f": float, "i": int, "b": bool, "c": complex}


def joindt(*ds):
    for k in "Ocfib":
        if k in ds:
            return k
    return "f"


def todt(t, d):
    """convert an element term to a dtype"""
    if d in "fc":
        return toR(t)
    if d == "i":
        if t.sort == "R":
            if isconst(t) and cval(t).denominator == 1:
                return ic(cval(t))
            if t.op == "toR":
                return t.args[0]
            if t.op == "ite":
                return ite(t.args[0], todt(t.args[1], d), todt(t.args[2], d))
            return app("trunc", (t,), "I")
        return tm.toI(t)
    if d == "b":
        if t.sort == "B":
            return t
        return ne(t, I0 if t.sort == "I" else R0)
    return t


def dtof(dtype):
    if dtype is None:
        return None
    if dtype in (float, "float", "f", "d", _np.float64) or dtype is _np.double:
        return "f"
    if dtype in (int, "int", "i", _np.int64, _np.intp):
        return "i"
    if dtype in (bool, "bool", _np.bool_, "b"):
        return "b"
    if dtype in (complex, "complex", _np.complex128, "c"):
        return "c"
    if isinstance(dtype, DType):
        return dtype.k
    try:
        k = _np.dtype(dtype).kind
    except TypeError:
        raise Unsupported("dtype %r" % (dtype,))
    if k in "iu":
        return "i"
    if k in "fbc":
        return k
    raise Unsupported("dtype %r" % (dtype,))


class DType:
    def __init__(self, k):
        self.k = k

    @property
    def kind(self):
        return self.k

    def __eq__(self, o):
        try:
            return dtof(o) == self.k
        except Exception:
            return False

    def __hash__(self):
        return hash(self.k)


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf, axes=None, vshape=None):
        self.buf = buf
        if axes is None:
            axes = tuple(("v", n, I0, 1) for n in range(len(buf.shape)))
            vshape = buf.shape
        self.axes = tuple(axes)
        self.vshape = tuple(vshape)

    # ---- construction
    @staticmethod
    def new(shape, elem, dtype="f", tag=None):
        return SArr(Buf(shape, elem, dtype, tag))

    @staticmethod
    def full(shape, t, dtype="f"):
        return SArr.new(shape, lambda *i: t, dtype)

    @property
    def dtype(self):
        return DType(self.buf.dtype)

    @property
    def dt(self):
        return self.buf.dtype

    # ---- reading
    def bidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "f":
                out.append(a[1])
            else:
                _, v, start, step = a
                i = idx[v]
                if isinstance(i, tuple):
                    out.append(i)
                elif step == 1 and start is I0:
                    out.append(i)
                else:
                    out.append(add(start, scale(step, i)))
        return tuple(out)

    def at(self, *idx):
        return self.buf.elem(*self.bidx(idx))

    def snap(self):
        """element function of the present contents"""
        e, bidx = self.buf.elem, self.bidx
        return lambda *idx: e(*bidx(idx))

    # ---- attributes
    @property
    def shape(self):
        return tuple(wrap(dimsize(d)) if not isinstance(d, tuple) else CDim(d) for d in self.vshape)

    @shape.setter
    def shape(self, s):
        r = reshape(SArr(self.buf, self.axes, self.vshape), s)
        self.buf, self.axes, self.vshape = r.buf, r.axes, r.vshape

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def size(self):
        return wrap(dimsize(self.vshape))

    @property
    def T(self):
        n = self.ndim
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        perm = tuple(axes) if axes else tuple(reversed(range(n)))
        perm = tuple(p % n for p in perm)
        invp = {p: k for k, p in enumerate(perm)}
        ax = tuple(a if a[0] == "f" else ("v", invp[a[1]], a[2], a[3]) for a in self.axes)
        return SArr(self.buf, ax, tuple(self.vshape[p] for p in perm))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return None if self.axes == SArr(self.buf).axes else self.buf

    def __len__(self):
        if not self.vshape:
            raise TypeError("len() of unsized object")
        d = dimsize(self.vshape[0])
        if isconst(d):
            return int(cval(d))
        raise Unsupported("len() of an array of symbolic length outside of instrumented code")

    def __iter__(self):
        d = dimsize(self.vshape[0])
        if isconst(d):
            return iter([self[k] for k in range(int(cval(d)))])
        raise Unsupported("iteration over an array of symbolic length")

    def __bool__(self):
        if not self.vshape:
            return S.decide(todt(self.at(), "b"))
        if all(is1(d) for d in self.vshape):
            return S.decide(todt(self.at(*[I0] * self.ndim), "b"))
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        raise Unsupported("symbolic array used as a machine float")

    def __repr__(self):
        idx = tuple(freshidx(d) for d in self.vshape)
        return "SArr%s[%s]" % ([show(dimsize(d)) for d in self.vshape], show(self.at(*idx))[:300])

    # ---- views and indexing
    def getkey(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (SArr, _np.ndarray)) and darr(k).dt == "b" and darr(k).ndim > 1 for k in key):
            return None, key
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - nreal)
                seen = True
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (self.ndim - nreal)
        if sum(1 for k in out if k is not None) != self.ndim:
            raise IndexError("too many indices for array")
        return out, None

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], tuple):
            key = key[0]
        ks, mask = self.getkey(key)
        if ks is None:
            return self.maskget(mask)
        if any(isinstance(k, (SArr, _np.ndarray, list, SList, tuple)) for k in ks):
            return self.fancyget(ks)
        v = self.basicview(ks)
        if not v.vshape:
            return wrap(v.at())
        return v

    def basicview(self, ks):
        vshape = []
        amap = {}        # old view axis -> ('f', e) or ('v', newaxis, start, step)
        old = 0
        for k in ks:
            if k is None:
                vshape.append(I1)
                continue
            d = self.vshape[old]
            if isinstance(k, slice):
                if isinstance(d, tuple):
                    if k != slice(None):
                        raise Unsupported("slice of a flattened dimension")
                    amap[old] = ("v", len(vshape), I0, 1)
                    vshape.append(d)
                else:
                    st, n, step = slicebounds(k, d)
                    amap[old] = ("v", len(vshape), st, step)
                    vshape.append(n)
            elif isnum(k):
                if isinstance(d, tuple):
                    t = term(k)
                    if isconst(t) and cval(t) == 0:
                        amap[old] = ("f", zeroidx(d))
                    else:
                        raise Unsupported("index into a flattened dimension")
                else:
                    amap[old] = ("f", intindex(k, d))
            else:
                raise Unsupported("index %r" % (k,))
            old += 1
        axes = []
        for a in self.axes:
            if a[0] == "f":
                axes.append(a)
            else:
                _, v, start, step = a
                m = amap[v]
                if m[0] == "f":
                    axes.append(("f", m[1] if isinstance(m[1], tuple) else add(start, scale(step, m[1]))))
                else:
                    _, nv, s2, st2 = m
                    axes.append(("v", nv, add(start, scale(step, s2)), step * st2))
        # view axes of self that are broadcast (not in the buffer) vanish harmlessly
        return SArr(self.buf, axes, vshape)

    def fancyget(self, ks):
        fancy = [n for n, k in enumerate(ks) if isinstance(k, (SArr, _np.ndarray, list, SList, tuple))]
        idxs = [darr(ks[n]) for n in fancy]
        if any(i.dt == "b" for i in idxs):
            if len(idxs) == 1 and idxs[0].ndim == 1:
                w = where(idxs[0])[0]
                full = all(isinstance(k, slice) and k == slice(None) or n in fancy for n, k in enumerate(ks))
                ks = list(ks)
                ks[fancy[0]] = w
                r = self.fancyget(ks)
                if full and not any(isinstance(d, tuple) for d in self.vshape):
                    r.buf.extra["masked"] = (idxs[0].snap(), fancy[0], self.snap(), self.vshape)
                return r
            raise Unsupported("boolean index")
        if any(k is None for k in ks):
            raise Unsupported("newaxis mixed with fancy index")
        if any(i.dt != "i" for i in idxs):
            raise IndexError("arrays used as indices must be of integer type")
        fshape = bshape([i.vshape for i in idxs])
        idxs = [bcast(i, fshape) for i in idxs]
        # ints are fancy too when mixed; basic slices first
        basic = [slice(None) if n in fancy else k for n, k in enumerate(ks)]
        contiguous = fancy == list(range(fancy[0], fancy[0] + len(fancy)))
        ints = [n for n, k in enumerate(ks) if n not in fancy and isnum(k)]
        if ints:
            # treat integers as broadcast index arrays
            ks = list(ks)
            for n in ints:
                ks[n] = SArr.full((I1,), intindex(ks[n], self.vshape[n]), "i")
            return self.fancyget(ks)
        v = self.basicview(basic)
        pos = fancy[0] if contiguous else 0
        rest = [n for n in range(v.ndim) if n not in fancy]
        shape = list(v.vshape[n] for n in rest)
        shape[pos:pos] = list(fshape)
        nf = len(fshape)
        snaps = [i.snap() for i in idxs]
        base = v.snap()
        dims = v.vshape

        def conv(t, d):
            if isinstance(d, tuple):
                raise Unsupported("fancy index into a flattened dimension")
            if S.ctx.valid(le(I0, t)):
                return t
            if isconst(t):
                return add(d, t) if cval(t) < 0 else t
            return t

        # negative index values: only constants are wrapped; others must be in range
        def elem(*idx):
            fi = idx[pos:pos + nf]
            ri = idx[:pos] + idx[pos + nf:]
            full = [None] * v.ndim
            for n, s in zip(fancy, snaps):
                full[n] = conv(s(*fi), dims[n])
            for n, i in zip(rest, ri):
                full[n] = i
            return base(*full)
        for n, i in zip(fancy, idxs):
            obligate_index(i, dims[n])
        r = SArr.new(shape, elem, self.dt)
        r.buf.extra["gather"] = (idxs, pos)
        return r

    def maskget(self, key):
        raise Unsupported("boolean mask read")

    def __setitem__(self, key, val):
        if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], tuple):
            key = key[0]
        ks, mask = self.getkey(key)
        if ks is None:
            return self.maskset(mask, val)
        if any(isinstance(k, (SArr, _np.ndarray, list, SList, tuple)) for k in ks):
            return self.fancyset(ks, val)
        self.basicview(ks).assign(val)

    def assign(self, val):
        """self[...] = val (numpy broadcasting of val to self's shape)"""
        val = bcast_to(darr(val), self.vshape)
        get = val.snap()
        buf = self.buf
        old = buf.elem
        dt = buf.dtype
        axes, vshape = self.axes, self.vshape
        used = {a[1] for a in axes if a[0] == "v"}
        for v, d in enumerate(vshape):
            if v not in used and not is1(d):
                raise Unsupported("assignment to a broadcast view")

        def elem(*b):
            conds = []
            idx = [I0] * len(vshape)
            for a, bi in zip(axes, b):
                if a[0] == "f":
                    conds.append(idxeq(bi, a[1]))
                else:
                    _, v, start, step = a
                    if isinstance(bi, tuple):
                        idx[v] = bi
                        continue
                    if step == 1:
                        i = sub(bi, start)
                    elif step == -1:
                        i = sub(start, bi)
                    else:
                        dd = sub(bi, start) if step > 0 else sub(start, bi)
                        conds.append(eq(imod(dd, ic(abs(step))), I0))
                        i = idiv(dd, ic(abs(step)))
                    if not (step == 1 and start is I0 and vshape[v] is buf.shape[axes.index(a)]):
                        conds.append(le(I0, i))
                        conds.append(lt(i, vshape[v]))
                    idx[v] = i
            c = and_(*conds)
            if c is FALSE:
                return old(*b)
            new = todt(get(*idx), dt)
            if c is TRUE:
                return new
            return ite(c, new, old(*b))
        buf.write(elem)

    def fancyset(self, ks, val):
        fancy = [n for n, k in enumerate(ks) if isinstance(k, (SArr, _np.ndarray, list, SList, tuple))]
        idxs = [darr(ks[n]) for n in fancy]
        if any(i.dt == "b" for i in idxs):
            if len(idxs) == 1 and idxs[0].ndim == 1 and all(isinstance(k, slice) and k == slice(None) or n in fancy for n, k in enumerate(ks)):
                n0 = fancy[0]
                m = idxs[0].snap()
                val = darr(val)
                if val.ndim == 0 or all(is1(d) for d in val.vshape):
                    t = val.at(*[I0] * val.ndim)
                    v = self
                    old = v.snap()
                    v.assign(SArr.new(v.vshape, lambda *i: ite(m(i[n0]), todt(t, self.dt), old(*i)), self.dt))
                    return
                mk_ = val.buf.extra.get("masked") if val.buf.version == 0 else None
                if mk_ and mk_[1] == n0 and val.ndim == self.ndim and len(mk_[3]) == self.ndim and all(dimeq(x, y) for x, y in zip(mk_[3], self.vshape)):
                    r = freshidx(self.vshape[n0], "r")
                    if m(r) is mk_[0](r):
                        old, src, dt = self.snap(), mk_[2], self.dt
                        self.assign(SArr.new(self.vshape, lambda *i: ite(m(i[n0]), todt(src(*i), dt), old(*i)), dt))
                        return
            raise Unsupported("boolean assignment")
        fshape = bshape([i.vshape for i in idxs])
        if len(fshape) != 1:
            if all(is1(d) for d in fshape[:-1]):
                pass
            raise Unsupported("multi-dimensional fancy assignment")
        idxs = [bcast(i, fshape) for i in idxs]
        basic = [slice(None) if n in fancy else k for n, k in enumerate(ks)]
        for n, i in zip(fancy, idxs):
            obligate_index(i, self.vshape[n])
        v = self.basicview(basic)
        # positions of the fancy axes inside of v (integer axes are dropped)
        dropped = [n for n, k in enumerate(basic) if isnum(k)]
        fpos = [n - sum(1 for x in dropped if x < n) for n in fancy]
        contiguous = fancy == list(range(fancy[0], fancy[0] + len(fancy))) and not dropped
        pos = fpos[0] if contiguous else 0
        rest = [n for n in range(v.ndim) if n not in fpos]
        shape = [v.vshape[n] for n in rest]
        shape[pos:pos] = list(fshape)
        val = darr(val)
        gatherset = val.buf.extra.get("gather") if val.buf.version == 0 else None
        val = bcast_to(val, tuple(shape))
        get = val.snap()
        old = v.snap()
        n = fshape[0]
        m = freshidx(n, "m")
        if isinstance(m, tuple):
            raise Unsupported("fancy assignment over a flattened dimension")
        its = [i.at(m) for i in idxs]
        dt = self.dt
        # affine index?
        sol = None
        for k, t in enumerate(its):
            acc, c = lin(t)
            if abs(acc.get(m, 0)) == 1:
                others = sub(t, scale(acc[m], m))
                if m not in others.fv:
                    sol = (k, acc[m], others)
                    break
        if sol is not None:
            k, c, others = sol

            def elem(*idx):
                mm = scale(1 / c, sub(idx[fpos[k]], others))
                conds = [le(I0, mm), lt(mm, n)]
                for kk, t in enumerate(its):
                    if kk != k:
                        conds.append(eq(idx[fpos[kk]], subst(t, {m: mm})))
                cond = and_(*conds)
                if cond is FALSE:
                    return old(*idx)
                ri = [idx[x] for x in rest]
                full = ri[:pos] + [mm] + ri[pos:]
                return ite(cond, todt(get(*full), dt), old(*idx))
        else:
            members = [i.buf.extra.get("member") for i in idxs]
            if len(idxs) == 1 and not any(isinstance(x, tuple) for x in v.vshape):
                I = idxs[0]
                mem = members[0] or (lambda r: Exists(I0, n, lambda q: eq(I.at(q), r)))
                dummy = [fresh("q", "I") for _ in rest]
                tv = get(*(dummy[:pos] + [m] + dummy[pos:]))
                # the value written for index value r
                r0 = fresh("r", "I")
                tv2 = replace(tv, {its[0]: r0})
                if m in tv2.fv:
                    # a position that writes to r (one of them: which one is left open)
                    lI = close(m, its[0])
                    if any(d in its[0].fv for d in dummy):
                        raise Unsupported("scatter of values that depend on the position")
                    inv = lambda r: app("SCATTERPOS", (n, lI, r), "I")
                    S.assume(Forall(I0, v.vshape[fpos[0]], lambda r: implies(mem(r), and_(le(I0, inv(r)), lt(inv(r), n), eq(I.at(inv(r)), r)))))
                    tv2 = subst(tv, {m: inv(r0)})

                def elem(*idx):
                    r = idx[fpos[0]]
                    sm = {r0: r}
                    for d, x in zip(dummy, rest):
                        sm[d] = idx[x]
                    return ite(mem(r), todt(subst(tv2, sm), dt), old(*idx))
            else:
                raise Unsupported("general scatter")
        v.assign(SArr.new(v.vshape, elem, dt))

    def maskset(self, key, val):
        if len(key) != 1:
            raise Unsupported("mask assignment")
        m = darr(key[0])
        if m.ndim != self.ndim:
            raise Unsupported("mask assignment of lower dimension")
        mg = bcast_to(m, self.vshape).snap()
        val = darr(val)
        if val.ndim and not all(is1(d) for d in val.vshape):
            raise Unsupported("mask assignment of an array")
        t = val.at(*[I0] * val.ndim)
        old = self.snap()
        dt = self.dt
        self.assign(SArr.new(self.vshape, lambda *i: ite(mg(*i), todt(t, dt), old(*i)), dt))

    # ---- arithmetic
    def __add__(self, o): return ufunc2("add", self, o)
    def __radd__(self, o): return ufunc2("add", o, self)
    def __sub__(self, o): return ufunc2("subtract", self, o)
    def __rsub__(self, o): return ufunc2("subtract", o, self)
    def __mul__(self, o): return ufunc2("multiply", self, o)
    def __rmul__(self, o): return ufunc2("multiply", o, self)
    def __truediv__(self, o): return ufunc2("divide", self, o)
    def __rtruediv__(self, o): return ufunc2("divide", o, self)
    def __floordiv__(self, o): return ufunc2("floor_divide", self, o)
    def __mod__(self, o): return ufunc2("mod", self, o)
    def __pow__(self, o): return ufunc2("power", self, o)
    def __rpow__(self, o): return ufunc2("power", o, self)
    def __lt__(self, o): return ufunc2("less", self, o)
    def __le__(self, o): return ufunc2("less_equal", self, o)
    def __gt__(self, o): return ufunc2("greater", self, o)
    def __ge__(self, o): return ufunc2("greater_equal", self, o)
    def __eq__(self, o): return ufunc2("equal", self, o)
    def __ne__(self, o): return ufunc2("not_equal", self, o)
    __hash__ = object.__hash__
    def __and__(self, o): return ufunc2("logical_and", self, o)
    __rand__ = __and__
    def __or__(self, o): return ufunc2("logical_or", self, o)
    __ror__ = __or__
    def __invert__(self): return ufunc1("logical_not", self)
    def __neg__(self): return ufunc1("negative", self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ufunc1("absolute", self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _iop(self, name, o):
        r = ufunc2(name, self, o)
        if not isinstance(r, SArr):
            r = darr(r)
        if r.ndim != self.ndim or not all(dimeq(a, b) for a, b in zip(r.vshape, self.vshape)):
            raise ValueError("non-broadcastable output operand")
        if "bifc".index(r.dt) > "bifc".index(self.dt):
            raise TypeError("Cannot cast ufunc output to the array's type")
        self.assign(r)
        return self

    def __iadd__(self, o): return self._iop("add", o)
    def __isub__(self, o): return self._iop("subtract", o)
    def __imul__(self, o): return self._iop("multiply", o)
    def __itruediv__(self, o): return self._iop("divide", o)
    def __ipow__(self, o): return self._iop("power", o)
    def __iand__(self, o): return self._iop("logical_and", o)
    def __ior__(self, o): return self._iop("logical_or", o)

    # ---- methods
    def copy(self, order=None):
        return SArr.new(self.vshape, self.snap(), self.dt)

    def view(self, *a):
        if a:
            raise Unsupported("view with another type")
        return self[(slice(None),) * self.ndim] if self.ndim else self

    def take(self, indices, axis=None, **k):
        from . import shim
        return shim.take(self, indices, axis, **k)

    def ptp(self, axis=None):
        return reduce_("max", self, axis) - reduce_("min", self, axis)

    def clip(self, lo=None, hi=None, **k):
        from . import shim
        return shim.clip(self, lo, hi, **k)

    def astype(self, dtype, copy=True):
        d = dtof(dtype)
        g = self.snap()
        return SArr.new(self.vshape, lambda *i: todt(g(*i), d), d)

    def memory_order(self, order):
        """'C' or 'F' for a requested order; 'K' and 'A' follow the memory layout, known for arrays whose contract states it"""
        if order in ("C", "F"):
            return order
        if order in ("K", "A"):
            if self.ndim == 1:
                return "C"
            lay = self.buf.layout
            n = len(self.buf.shape)
            if lay and len(self.axes) == n == self.ndim and all(a[0] == "v" and a[2] is I0 and a[3] == 1 for a in self.axes):
                perm = [a[1] for a in self.axes]
                if perm == list(range(n)):
                    return lay
                if perm == list(reversed(range(n))):
                    return {"C": "F", "F": "C"}[lay]
        raise Unsupported("memory order %r" % (order,))

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self
        if self.memory_order(order) == "F":
            return flatten(self.T)
        return flatten(self)

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order == "A":
            order = self.memory_order(order)
        if order == "F":
            return reshape(self.T, tuple(reversed(shape))).T
        if order != "C":
            raise Unsupported("reshape order %r" % (order,))
        return reshape(self, shape)

    def squeeze(self, axis=None):
        keep = [n for n, d in enumerate(self.vshape) if not is1(d)]
        return self[tuple(slice(None) if n in keep else 0 for n in range(self.ndim))]

    def sum(self, axis=None, **kw): return reduce_("sum", self, axis, **kw)
    def prod(self, axis=None, **kw): return reduce_("prod", self, axis, **kw)
    def mean(self, axis=None, **kw): return reduce_("mean", self, axis, **kw)
    def max(self, axis=None, **kw): return reduce_("max", self, axis, **kw)
    def min(self, axis=None, **kw): return reduce_("min", self, axis, **kw)
    def any(self, axis=None, **kw): return reduce_("any", self, axis, **kw)
    def all(self, axis=None, **kw): return reduce_("all", self, axis, **kw)
    def argmin(self, axis=None): return argext("argmin", self, axis)
    def argmax(self, axis=None): return argext("argmax", self, axis)
    def cumsum(self, axis=None): return cumulate("sum", self, axis)
    def cumprod(self, axis=None): return cumulate("prod", self, axis)
    def dot(self, o): return dot(self, o)
    def conj(self): return ufunc1("conjugate", self)
    conjugate = conj
    @property
    def real(self): return ufunc1("real", self)
    @property
    def imag(self): return ufunc1("imag", self)

    def trace(self):
        n = self.vshape[0]
        return wrap(Sum(I0, n, lambda k: toR(self.at(k, k))))

    def diagonal(self, offset=0):
        return diagonal(self, offset)

    def fill(self, v):
        self.assign(v)

    def item(self, *a):
        if not a:
            return wrap(self.at(*[zeroidx(d) for d in self.vshape]))
        return self[a[0] if len(a) == 1 else a]

    def repeat(self, n, axis=None): return repeat(self, n, axis)

    def tolist(self):
        if self.ndim == 0:
            return wrap(self.at())
        g = self.snap()
        rest = self.vshape[1:]
        dt = self.dt

        def get(k):
            if not rest:
                return wrap(g(k))
            return SArr.new(rest, lambda *i: g(k, *i), dt).tolist()
        return mklist(self.vshape[0], get)

    def sort(self, axis=-1, kind=None):
        self.assign(sort(self, axis))

    def argsort(self, axis=-1, kind=None): return argsort(self)


class CDim(Sym):
    """size of a flattened dimension (remembers its factors)"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d
        self.t = dimsize(d)

    __hash__ = object.__hash__

    def __index__(self):
        if isconst(self.t):
            return int(cval(self.t))
        raise Unsupported("symbolic integer used as a machine integer")


def shapedim(x):
    if isinstance(x, CDim):
        return x.d
    t = tm.toI(term(x))
    return t


# --------------------------------------------------------------------------- lists of symbolic length
class SList:
    """immutable list-like of symbolic length (or copied on write)"""

    def __init__(self, n, get):
        self.n = n
        self.get = get

    @staticmethod
    def repeat(l, k):
        k = tm.toI(term(k))
        if len(l) != 1:
            raise Unsupported("repetition of a longer list")
        k = ite(le(I0, k), k, I0) if not S.ctx.valid(le(I0, k)) else k
        return mklist(k, lambda i: l[0])

    def __len__(self):
        if isconst(self.n):
            return int(cval(self.n))
        raise Unsupported("len() of a symbolic list outside of instrumented code")

    def __iter__(self):
        if isconst(self.n):
            return iter([self.get(ic(k)) for k in range(int(cval(self.n)))])
        raise Unsupported("iteration over a list of symbolic length")

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, n, step = slicebounds(k, self.n)
            return mklist(n, lambda i: self.get(add(st, scale(step, i))))
        return self.get(intindex(k, self.n))

    def __add__(self, o):
        a, b = self, aslist(o)
        return mklist(add(a.n, b.n), lambda i: vite(lt(i, a.n), lambda: a.get(i), lambda: b.get(sub(i, a.n))))

    def __radd__(self, o):
        return aslist(o) + self

    def __bool__(self):
        return S.decide(lt(I0, self.n))

    def copy(self):
        return SList(self.n, self.get)

    def append(self, v):
        n, g = self.n, self.get
        if S.writelog is not None:
            S.writelog.append((self, n, g))
        self.get = lambda i: vite(lt(i, n), lambda: g(i), lambda: v)
        self.n = add(n, I1)


def mklist(n, get):
    if isconst(n):
        return [get(ic(k)) for k in range(max(0, int(cval(n))))]
    return SList(n, get)


def aslist(o):
    if isinstance(o, SList):
        return o
    if isinstance(o, (list, tuple)):
        l = list(o)

        def get(i):
            if isconst(i):
                k = int(cval(i))
                if 0 <= k < len(l):
                    return l[k]
                raise Unsupported("list index out of range")
            r = None
            if not l:
                return SReal(UNDEF)
            r = l[-1]
            for k in range(len(l) - 2, -1, -1):
                r = vite(eq(i, ic(k)), (lambda k=k: l[k]), (lambda r=r: r))
            return r
        return SList(ic(len(l)), get)
    if isinstance(o, SArr):
        return aslist(o.tolist())
    if isinstance(o, _np.ndarray):
        return aslist(list(o))
    raise Unsupported("list operation with %s" % type(o))


def vite(c, fa, fb):
    """if-then-else on values (lazy)"""
    d = S.ctx.decide(c)
    if d is True:
        return fa()
    if d is False:
        return fb()
    return vmerge(c, fa(), fb())


def vmerge(c, a, b):
    if a is b:
        return a
    if isnum(a) and isnum(b):
        x, y = term(a), term(b)
        return wrap(ite(c, x, y))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SArr, _np.ndarray)) and isinstance(b, (SArr, _np.ndarray)):
        a, b = darr(a), darr(b)
        if a.ndim == b.ndim and all(x is y or x == y or (not isinstance(x, tuple) and S.ctx.valid(eq(x, y)))
                                    for x, y in zip(a.vshape, b.vshape)):
            ga, gb = a.snap(), b.snap()
            return SArr.new(a.vshape, lambda *i: ite(c, ga(*i), gb(*i)), joindt(a.dt, b.dt))
        if a.ndim == b.ndim and not any(isinstance(x, tuple) for x in a.vshape + b.vshape):
            ga, gb = a.snap(), b.snap()
            return SArr.new([ite(c, x, y) for x, y in zip(a.vshape, b.vshape)],
                            lambda *i: ite(c, ga(*i), gb(*i)), joindt(a.dt, b.dt))
    if isinstance(a, SList) or isinstance(b, SList):
        a, b = aslist(a), aslist(b)
        return SList(ite(c, a.n, b.n), lambda i: vmerge(c, a.get(i), b.get(i)))
    if a is None and b is None:
        return None
    if type(a) is type(b) and hasattr(a, "_vp_merge"):
        return a._vp_merge(c, b)
    if type(a) is type(b) and not isinstance(a, (Sym, SArr)) :
        try:
            if a == b:
                return a
        except Exception:
            pass
    return Choice(c, a, b)


BIRTH = {}       # id(object) -> (object, birth number)


class Touch:
    """entry of the write log: an attribute or item of a Python object was assigned"""

    def __init__(self, obj):
        self.obj = obj
        b = BIRTH.get(id(obj))
        self.id = b[1] if b and b[0] is obj else 0


def touch(obj, init=False):
    """called by the instrumented code after a store into obj"""
    if S is None or S.writelog is None or isinstance(obj, (SArr, SList)):
        return
    if init and id(obj) not in BIRTH:
        Buf._n += 1
        BIRTH[id(obj)] = obj, Buf._n
    S.writelog.append((Touch(obj), None))


def born(obj):
    """a new list, created by the body of a loop"""
    if S is not None and S.writelog is not None:
        Buf._n += 1
        BIRTH[id(obj)] = obj, Buf._n
    return obj


class Choice:
    """value that differs in kind on two paths (e.g. None or an array); resolved by forking on use"""

    def __init__(self, c, a, b):
        object.__setattr__(self, "_c", c)
        object.__setattr__(self, "_a", a)
        object.__setattr__(self, "_b", b)

    def resolve(self):
        v = self._a if S.decide(self._c) else self._b
        return v.resolve() if isinstance(v, Choice) else v


def vsubst(v, m):
    """substitute in a value"""
    if isinstance(v, Sym):
        return wrap(subst(v.t, m))
    if isinstance(v, SArr):
        g = v.snap()
        ds = lambda d: tuple(ds(x) for x in d) if isinstance(d, tuple) else subst(d, m)
        keys = list(m)

        def elem(*idx):
            # protect the index terms from the substitution
            prot = [freshlike(i) for i in idx]
            back = {}
            for p, i in zip(prot, idx):
                for a, b in zip(flatvars(p), flatvars(i)):
                    back[a] = b
            return subst(subst(g(*prot), m), back)
        return SArr.new([ds(d) for d in v.vshape], elem, v.dt)
    if isinstance(v, (tuple, list)):
        return type(v)(vsubst(x, m) for x in v)
    if isinstance(v, SList):
        def get(i):
            p = fresh("p", "I")
            return vsubst(vsubst(v.get(p), m), {p: i})
        return SList(subst(v.n, m), get)
    if isinstance(v, Choice):
        return vmerge(subst(v._c, m), vsubst(v._a, m), vsubst(v._b, m))
    if hasattr(v, "_vp_subst"):
        return v._vp_subst(m)
    if v is None or isinstance(v, (str, int, float, complex, bool, Fraction, _np.number, type, _np.ndarray)) or callable(v):
        return v
    raise Unsupported("value of type %s depends on a loop index" % type(v).__name__)


def freshlike(i):
    if isinstance(i, tuple):
        return tuple(freshlike(x) for x in i)
    return fresh("p", i.sort)


# --------------------------------------------------------------------------- helpers
def intindex(k, d):
    t = tm.toI(term(k)) if term(k).sort != "R" else None
    if t is None:
        raise IndexError("only integers are valid indices")
    if isconst(t):
        if cval(t) < 0:
            t2 = add(d, t)
            if not S.decide(le(I0, t2)):
                raise IndexError("index out of bounds")
            return t2
        if not S.decide(lt(t, d)):
            raise IndexError("index out of bounds")
        return t
    if S.decide(and_(le(I0, t), lt(t, d))):
        return t
    if S.decide(and_(lt(t, I0), le(I0, add(d, t)))):
        return add(d, t)
    raise IndexError("index out of bounds")


def slicebounds(k, n):
    step = 1 if k.step is None else k.step
    step = step if isinstance(step, int) else int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def clip(x, lo, hi):
        if not S.decide(le(lo, x)):
            return lo
        if not S.decide(le(x, hi)):
            return hi
        return x

    def norm(x):
        t = tm.toI(term(x))
        if isconst(t):
            return add(n, t) if cval(t) < 0 else t
        if S.decide(le(I0, t)):
            return t
        return add(n, t)
    if step > 0:
        st = I0 if k.start is None else clip(norm(k.start), I0, n)
        sp = n if k.stop is None else clip(norm(k.stop), I0, n)
        ln = sub(sp, st)
    else:
        st = sub(n, I1) if k.start is None else clip(norm(k.start), ic(-1), sub(n, I1))
        sp = ic(-1) if k.stop is None else clip(norm(k.stop), ic(-1), sub(n, I1))
        ln = sub(st, sp)
    if abs(step) != 1:
        a = abs(step)
        ln = idiv(add(ln, ic(a - 1)), ic(a))
    if not S.decide(le(I0, ln)):
        ln = I0
    return st, ln, step


def obligate_index(i, d):
    """fancy index values must be in bounds (otherwise IndexError)"""
    if isinstance(d, tuple):
        return
    m = [freshidx(x, "m") for x in i.vshape]
    t = i.at(*m)
    rng = and_(*[inrange(a, b) for a, b in zip(m, i.vshape)])
    c = S.ctx.extend(rng)
    if c.valid(and_(le(neg(d), t), lt(t, d))):
        return
    if not c.feasible():
        return
    bad = i.buf.extra.get("inbounds")
    if bad is not None:
        return
    raise Unsupported("fancy index not shown to be in bounds: %s of %s" % (show(t)[:100], show(d)))


def darr(x, dtype=None):
    """anything array-like -> SArr (no copy if already one)"""
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, SArr):
        return x
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return darr(x.tolist())
        d = dtof(x.dtype)
        if x.ndim == 0:
            return SArr.new((), lambda: term(x.item()), d)
        a = x.copy()

        def elem(*idx):
            return lookup(a, idx)
        r = SArr.new(tuple(ic(n) for n in a.shape), elem, d)
        r.buf.extra["const"] = x
        return r
    if isnum(x):
        t = term(x)
        d = {"I": "i", "B": "b", "R": "f"}[t.sort]
        if isinstance(x, (complex, _np.complexfloating)):
            d = "c"
        return SArr.new((), lambda: t, d)
    if isinstance(x, (list, tuple)):
        l = [y.resolve() if isinstance(y, Choice) else y for y in x]
        if not l:
            return SArr.new((I0,), lambda i: UNDEF, "f")
        if all(isnum(y) for y in l):
            ts = [term(y) for y in l]
            d = joindt(*[{"I": "i", "B": "b", "R": "f"}[t.sort] for t in ts])
            if d != "b":
                ts = [todt(t, d) for t in ts]
            return SArr.new((ic(len(l)),), lambda i: sel(i, ts), d)
        arrs = [darr(y) for y in l]
        sh = arrs[0].vshape
        for a in arrs[1:]:
            if a.ndim != len(sh) or not all(dimeq(u, v) for u, v in zip(a.vshape, sh)):
                raise ValueError("inhomogeneous shape")
        d = joindt(*[a.dt for a in arrs])
        gs = [a.snap() for a in arrs]
        return SArr.new((ic(len(l)),) + tuple(sh), lambda i, *r: sel(i, [lambda g=g: todt(g(*r), d) for g in gs]), d)
    if isinstance(x, SList):
        if getattr(x, "index", None) is not None:
            r = x.index.copy()
            r.buf.extra.update(x.index.buf.extra)
            return r
        p = fresh("p", "I")
        with under(inrange(p, x.n)):
            v = x.get(p)
        if isnum(v):
            t = term(v)
            d = {"I": "i", "B": "b", "R": "f"}[t.sort]
            return SArr.new((x.n,), lambda i: subst(t, {p: i}), d)
        if isinstance(v, (tuple, list, SList, SArr, _np.ndarray)):
            a = darr(v)
            for dd in a.vshape:
                if any(p in u.fv for u in flatvars(dd)):
                    raise ValueError("inhomogeneous shape")
            g = a.snap()

            def elem(i, *r):
                prot = [freshlike(y) for y in r]
                back = {p: i}
                for u, w in zip(prot, r):
                    for s1, s2 in zip(flatvars(u), flatvars(w)):
                        back[s1] = s2
                return subst(g(*prot), back)
            return SArr.new((x.n,) + tuple(a.vshape), elem, a.dt)
        raise Unsupported("array of %s" % type(v))
    if isinstance(x, SRange):
        return x.array()
    if isinstance(x, range):
        return darr(list(x))
    raise Unsupported("array from %s" % type(x).__name__)


def sel(i, ts):
    f = lambda t: t() if callable(t) and not isinstance(t, T) else t
    if isconst(i):
        k = int(cval(i))
        if 0 <= k < len(ts):
            return f(ts[k])
        return UNDEF
    r = f(ts[-1])
    for k in range(len(ts) - 2, -1, -1):
        r = ite(eq(i, ic(k)), f(ts[k]), r)
    return r


def lookup(a, idx):
    if a.ndim == 0:
        return todt(term(a.item()), dtof(a.dtype))
    i = idx[0]
    if isconst(i):
        k = int(cval(i))
        return lookup(a[k] if a.ndim > 1 else _np.asarray(a[k]), idx[1:])
    return sel(i, [lambda k=k: lookup(a[k] if a.ndim > 1 else _np.asarray(a[k]), idx[1:]) for k in range(a.shape[0])])


class under:
    """evaluate below additional assumptions"""

    def __init__(self, *cs):
        self.cs = cs

    def __enter__(self):
        self.old = S.ctx
        S.ctx = S.ctx.extend(*self.cs)

    def __exit__(self, *a):
        S.ctx = self.old


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or is1(d):
                d = x
            elif is1(x):
                pass
            elif x is d or x == d:
                pass
            elif dimeq(x, d):
                if isinstance(x, tuple) and not isinstance(d, tuple):
                    raise Unsupported("broadcast of flattened dimension")
            else:
                # different sizes: legal only if one of them is 1
                if not isinstance(x, tuple) and S.decide(eq(x, I1)):
                    pass
                elif not isinstance(d, tuple) and S.decide(eq(d, I1)):
                    d = x
                else:
                    raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bcast(a, shape):
    """broadcast an array to a (compatible) shape"""
    if len(a.vshape) == len(shape) and all(x is y or x == y for x, y in zip(a.vshape, shape)):
        return a
    off = len(shape) - a.ndim
    g = a.snap()
    one = [is1(d) and not (is1(shape[off + k])) or (not isinstance(d, tuple) and not is1(d) and
           not (d is shape[off + k] or d == shape[off + k]) and not isinstance(shape[off + k], tuple)
           and S.ctx.valid(eq(d, I1)) and not S.ctx.valid(eq(shape[off + k], I1)))
           for k, d in enumerate(a.vshape)]

    def elem(*idx):
        return g(*[I0 if o else i for o, i in zip(one, idx[off:])])
    return SArr.new(shape, elem, a.dt)


def bcast_to(a, shape):
    if a.ndim > len(shape):
        extra = a.vshape[:a.ndim - len(shape)]
        if all(is1(d) for d in extra):
            a = a[tuple([0] * len(extra)) + (Ellipsis,)] if a.ndim > len(extra) else darr(wrap(a.at(*[I0] * a.ndim)))
            a = darr(a)
        else:
            raise ValueError("could not broadcast input array")
    off = len(shape) - a.ndim
    for k, d in enumerate(a.vshape):
        t = shape[off + k]
        if is1(d) or d is t or d == t:
            continue
        if not dimeq(d, t):
            if not isinstance(d, tuple) and S.decide(eq(d, I1)):
                continue
            raise ValueError("could not broadcast input array into shape")
    return bcast(a, tuple(shape))


# --------------------------------------------------------------------------- ufuncs
def _cmp(f):
    return lambda a, b: f(a, b)


U2 = {
    "add": add, "subtract": sub, "multiply": mul, "divide": tdiv, "true_divide": tdiv,
    "power": tpow, "less": lt, "less_equal": le, "greater": gt, "greater_equal": ge,
    "equal": eq, "not_equal": ne, "logical_and": lambda a, b: and_(todt(a, "b"), todt(b, "b")),
    "logical_or": lambda a, b: or_(todt(a, "b"), todt(b, "b")),
    "bitwise_and": lambda a, b: and_(todt(a, "b"), todt(b, "b")),
    "bitwise_or": lambda a, b: or_(todt(a, "b"), todt(b, "b")),
    "maximum": tmax, "minimum": tmin, "mod": ffmod, "remainder": ffmod, "floor_divide": ifloordiv,
    "ldexp": lambda a, b: mul(toR(a), powt(rc(2), tm.toI(b))),
}
BOOLU = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
         "bitwise_and", "bitwise_or"}


def U1():
    return {
        "negative": lambda t: neg(t if t.sort != "B" else tm.toI(t)), "absolute": tabs, "abs": tabs, "fabs": tabs,
        "sign": lambda t: fn("sign", t), "exp": lambda t: fn("exp", t), "log": lambda t: fn("log", t),
        "log10": lambda t: fn("log10", t), "log2": lambda t: fn("log2", t), "sqrt": lambda t: fn("sqrt", t), "cos": lambda t: fn("cos", t),
        "sin": lambda t: fn("sin", t), "conjugate": conj, "conj": conj,
        "logical_not": lambda t: not_(todt(t, "b")), "invert": lambda t: not_(todt(t, "b")),
        "square": lambda t: powi(t, 2), "reciprocal": lambda t: tdiv(R1, t),
        "real": lambda t: fn("re", t), "imag": lambda t: fn("im", t),
        "isinf": lambda t: or_(eq(t, inf(1)), eq(t, inf(-1))) if t.sort == "R" else FALSE,
        "isfinite": lambda t: not_(or_(eq(t, inf(1)), eq(t, inf(-1)))) if t.sort == "R" else TRUE,
        "isnan": lambda t: FALSE if not t.bad else mk("undef", (), "B"),
        "positive": lambda t: t,
    }


U1 = U1()


def errraise():
    es = S.errstate[-1]
    return es.get("divide") == "raise" or es.get("all") == "raise" or es.get("over") == "raise"


def ufunc2(name, a, b, out=None, where=True):
    if where is not True:
        raise Unsupported("where=")
    if isinstance(a, Choice):
        a = a.resolve()
    if isinstance(b, Choice):
        b = b.resolve()
    if name in ("equal", "not_equal") and (isinstance(a, str) or isinstance(b, str) or a is None or b is None):
        return name == "not_equal"
    f = U2[name]
    if isnum(a) and isnum(b) and out is None:
        return wrap(f(term(a), term(b)))
    A, B = darr(a), darr(b)
    shape = bshape([A.vshape, B.vshape])
    ga, gb = bcast(A, shape).snap(), bcast(B, shape).snap()
    if name in BOOLU:
        dt = "b"
    elif name in ("divide", "true_divide", "ldexp"):
        dt = joindt("f", A.dt, B.dt)
    elif name == "power":
        dt = joindt(A.dt, B.dt)
        if dt == "i" and B.ndim == 0 and isconst(B.at()) and cval(B.at()) < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
    else:
        dt = joindt(A.dt, B.dt)
        if dt == "b":
            dt = "i"
    if name in ("divide", "true_divide", "power") and errraise():
        flt = fresh("fpe", "B")
        S.note("np.errstate(...='raise'): an operation below it may raise FloatingPointError at any input")
        if S.decide(flt):
            raise FloatingPointError("floating point error")
    if name in ("divide", "true_divide"):
        f = div
        ff = arrdiv(B)
    elif name == "power":
        def ff(x, y):
            r = tpowu(x, y)
            return todt(r, dt) if dt in "fc" else r
    else:
        ff = f

    def elem(*i):
        return ff(ga(*i), gb(*i))
    if not shape and out is None:
        return wrap(elem())
    if out is not None:
        out.assign(SArr.new(shape, elem, dt))
        return out
    return SArr.new(shape, elem, dt)


def arrdiv(B):
    """division by the elements of B: total where they are known not to vanish"""
    ix = [freshidx(d) for d in B.vshape]
    d = toR(B.at(*ix))
    if d.op == "const":
        return lambda x, y: div(toR(x), toR(y))
    if not d.bad and d.op not in ("undef", "inf"):
        if S.ctx.extend(*[inrange(i, n) for i, n in zip(ix, B.vshape)]).valid(ne(d, R0)):
            return lambda x, y: mul(toR(x), recip(toR(y)))
        if S.nonzero is not None and not B.vshape:
            S.note(S.nonzero)
            S.assume(ne(d, R0))
            return lambda x, y: mul(toR(x), recip(toR(y)))
    return lambda x, y: div(toR(x), toR(y))


def tpowu(a, b):
    """power inside of an array operation (no exceptions)"""
    if isconst(b) and b.sort != "B":
        c = cval(b)
        if c.denominator == 1 and c < 0:
            return div(R1, powi(toR(a), -int(c)))
        if c == Fraction(-1, 2):
            return div(R1, fn("sqrt", toR(a)))
    return tpow(a, b)


def f2arr(f, a, b):
    A, B = darr(a), darr(b)
    shape = bshape([A.vshape, B.vshape])
    ga, gb = bcast(A, shape).snap(), bcast(B, shape).snap()
    if f is tdiv_scalar:
        f = arrdiv(B)
    s = f(fresh("x", "R"), fresh("y", "R")).sort
    dt = "b" if s == "B" else joindt(A.dt, B.dt) if f not in (tdiv, tdiv_scalar) else joindt("f", A.dt, B.dt)
    return SArr.new(shape, lambda *i: f(ga(*i), gb(*i)), dt)


FLOATU = {"exp", "log", "log10", "log2", "sqrt", "cos", "sin", "reciprocal", "sign"}


def ufunc1(name, a, out=None, where=True):
    if where is not True:
        raise Unsupported("where=")
    if isinstance(a, Choice):
        a = a.resolve()
    f = U1[name]
    if isnum(a) and out is None:
        return wrap(f(term(a)))
    A = darr(a)
    g = A.snap()
    dt = A.dt
    if name in FLOATU and dt in "ib":
        dt = "f" if name != "sign" else dt
    if name in ("logical_not", "isinf", "isnan", "isfinite", "invert"):
        dt = "b"
    if name in ("real", "imag", "abs", "absolute", "fabs") and dt == "c":
        dt = "f"
    if name in FLOATU:
        ff = lambda *i: f(toR(g(*i)))
    else:
        ff = lambda *i: f(g(*i))
    if name == "reciprocal":
        ff = lambda *i: div(R1, g(*i))
    if out is not None:
        out.assign(SArr.new(A.vshape, ff, dt))
        return out
    return SArr.new(A.vshape, ff, dt)


# --------------------------------------------------------------------------- shapes
def flatten(a):
    ds = tuple(d for d in a.vshape)
    g = a.snap()
    nt = [n for n, d in enumerate(ds) if not is1(d)]
    flat = []
    for n in nt:
        flat += list(ds[n]) if isinstance(ds[n], tuple) else [ds[n]]
    if not nt:
        return SArr.new((I1,), lambda i: g(*[I0 for d in ds]), a.dt)
    if all(not isinstance(d, tuple) and isconst(d) for d in flat) and len(flat) > 1:
        total = 1
        for d in flat:
            total *= int(cval(d))

        def elem(i):
            idx = []
            r = i
            for d in reversed(flat):
                idx.append(imod(r, d))
                r = idiv(r, d)
            idx = list(reversed(idx))
            return g(*unflat(ds, nt, idx))
        return SArr.new((ic(total),), elem, a.dt)

    def elem(i):
        idx = list(i) if isinstance(i, tuple) else [i]
        return g(*unflat(ds, nt, idx))
    return SArr.new((tuple(flat) if len(flat) > 1 else flat[0],), elem, a.dt)


def unflat(ds, nt, idx):
    out = []
    k = 0
    for n, d in enumerate(ds):
        if n not in nt:
            out.append(I0)
        elif isinstance(d, tuple):
            out.append(tuple(idx[k:k + len(d)]))
            k += len(d)
        else:
            out.append(idx[k])
            k += 1
    return out


def reshape(a, shape):
    if isnum(shape) or isinstance(shape, SInt):
        shape = (shape,)
    shape = tuple(shape)
    atoms = []           # atomic old dims with getter positions
    for d in a.vshape:
        atoms += list(d) if isinstance(d, tuple) else [d]
    atoms_nt = [d for d in atoms if not is1(d)]
    want = [None if (isinstance(s, int) and s == -1) else shapedim(s) for s in shape]
    # greedy matching from both ends around the -1
    if None in want:
        k = want.index(None)
        left, right = want[:k], want[k + 1:]
    else:
        k, left, right = len(want), want, []

    def take(dims, src):
        out = []
        for d in dims:
            if is1(d):
                out.append([])
                continue
            if isinstance(d, tuple):
                got = src[:len(d)]
                if len(got) != len(d) or not all(dimeq(x, y) for x, y in zip(got, d)):
                    raise Unsupported("reshape")
                out.append(got)
                del src[:len(d)]
                continue
            if not src:
                raise Unsupported("reshape")
            if src[0] is d or dimeq(src[0], d):
                out.append([src.pop(0)])
            else:
                # product of several
                got = [src.pop(0)]
                while src and not S.ctx.valid(eq(dimsize(tuple(got)), d)):
                    got.append(src.pop(0))
                if not S.ctx.valid(eq(dimsize(tuple(got)), d)):
                    raise Unsupported("reshape")
                out.append(got)
        return out
    src = list(atoms_nt)
    gl = take(left, src)
    src.reverse()
    gr = [list(reversed(g)) for g in take(list(reversed(right)), src)]
    gr.reverse()
    src.reverse()
    groups = list(gl)
    if k < len(want):
        groups.append(list(src))
        groups += gr
    elif src:
        raise ValueError("cannot reshape array")
    g = a.snap()
    old = a.vshape
    newshape = tuple(I1 if not x else (x[0] if len(x) == 1 else tuple(x)) for x in groups)

    def elem(*idx):
        flat = []
        for i, x in zip(idx, groups):
            if not x:
                continue
            flat += list(i) if isinstance(i, tuple) else [i]
        out = []
        p = 0
        for d in old:
            if isinstance(d, tuple):
                sub_ = []
                for y in d:
                    if is1(y):
                        sub_.append(I0)
                    else:
                        sub_.append(flat[p])
                        p += 1
                out.append(tuple(sub_))
            elif is1(d):
                out.append(I0)
            else:
                out.append(flat[p])
                p += 1
        return g(*out)
    return SArr.new(newshape, elem, a.dt)


# --------------------------------------------------------------------------- reductions
def normaxis(axis, n):
    if isinstance(axis, (tuple, list)):
        return tuple(a % n for a in axis)
    if axis is None:
        return tuple(range(n))
    a = int(axis)
    if not -n <= a < n:
        raise IndexError("axis out of bounds")
    return (a % n,)


def reduce_(kind, a, axis=None, keepdims=False, dtype=None, initial=None, out=None, where=None):
    if initial is not None or where is not None or out is not None:
        raise Unsupported("reduction options")
    a = darr(a)
    ax = normaxis(axis, a.ndim)
    g = a.snap()
    shape = [d for n, d in enumerate(a.vshape) if n not in ax]
    red = [a.vshape[n] for n in ax]
    dt = a.dt

    def build(idx, red_, ax_):
        def full(ri):
            out_ = []
            it = iter(idx)
            rm = dict(zip(ax_, ri))
            for n in range(a.ndim):
                out_.append(rm[n] if n in rm else next(it))
            return g(*out_)
        if kind in ("sum", "mean"):
            def rec(k, ri):
                if k == len(red_):
                    return toR(full(ri))
                return sumdim(red_[k], lambda i: rec(k + 1, ri + [i]))
            r = rec(0, [])
            if kind == "mean":
                k_ = toR(dimsize(tuple(red_)))
                r = mul(r, recip(k_)) if not isconst(k_) and S.ctx.valid(ne(k_, R0)) else div(r, k_)
            return r
        if kind == "prod":
            def rec(k, ri):
                if k == len(red_):
                    return toR(full(ri))
                return sumdim(red_[k], lambda i: rec(k + 1, ri + [i]), Prod)
            return rec(0, [])
        if kind in ("any", "all"):
            def rec(k, ri):
                if k == len(red_):
                    b = todt(full(ri), "b")
                    return not_(b) if kind == "all" else b
                return sumdim(red_[k], lambda i: rec(k + 1, ri + [i]), Exists)
            r = rec(0, [])
            return not_(r) if kind == "all" else r
        # max / min : opaque, with defining facts
        l = None

        def lamrec(k, ri):
            if k == len(red_):
                return toR(full(ri))
            d = red_[k]
            if isinstance(d, tuple):
                raise Unsupported("max over a flattened dimension")
            return lam("I", lambda i: lamrec(k + 1, ri + [i]))
        if len(red_) == 1 and not isinstance(red_[0], tuple) and isconst(red_[0]):
            n = int(cval(red_[0]))
            vals = [full([ic(q)]) for q in range(n)]
            r = vals[0]
            for v in vals[1:]:
                r = tmax(r, v) if kind == "max" else tmin(r, v)
            return r
        l = lamrec(0, [])
        if len(red_) == 1 and dt == "i":
            # extreme element of an index list of np.where
            k = fresh("k", "I")
            e = full([k])
            if e.op == "app" and e.args[0] == "WHERE" and len(e.args) == 6 and e.args[5] is k and red_[0] is app("WHEREN", e.args[3:5], "I"):
                return whereend("LASTW" if kind == "max" else "FIRSTW", *e.args[3:5])
        t = app(kind.upper(), tuple(red_) + (l,), "R")
        free = not any(v.args[0].startswith("@") for v in t.fv)
        if free:
            extfacts(kind, t, red_, l)
        if dt != "i":
            return t
        ti = app("asint", (t,), "I")
        if free:
            S.assume(implies(and_(*[lt(I0, dimsize(d)) for d in red_]), eq(toR(ti), t)))
        return ti
    if kind in ("max", "min"):
        if any(is1(d) for d in red) and not all(is1(d) for d in red) and not keepdims:
            key = tuple(0 if (n in ax and is1(d)) else slice(None) for n, d in enumerate(a.vshape))
            left = [n for n, d in enumerate(a.vshape) if not (n in ax and is1(d))]
            return reduce_(kind, a[key], tuple(k for k, n in enumerate(left) if n in ax))
        for d in red:
            if not S.decide(lt(I0, dimsize(d))):
                raise ValueError("zero-size array to reduction operation")
    idt = {"sum": "f" if dt == "f" else ("i" if dt in "ib" else dt), "prod": dt if dt != "b" else "i", "mean": dt if dt == "c" else "f",
           "any": "b", "all": "b", "max": dt, "min": dt}[kind]
    if errraise() and kind in ("prod", "sum"):
        flt = fresh("fpe", "B")
        S.note("np.errstate(...='raise'): an operation below it may raise FloatingPointError at any input")
        if S.decide(flt):
            raise FloatingPointError("floating point error")
    if not shape and not keepdims:
        t = build((), red, ax)
        if idt == "i" and t.sort == "R":
            t = R2I(t)
        return wrap(t)
    if idt == "i" and kind in ("sum", "prod"):
        bb = build
        build = lambda idx, r_, a_: R2I(bb(idx, r_, a_))
    if keepdims:
        kshape = [I1 if n in ax else d for n, d in enumerate(a.vshape)]
        return SArr.new(kshape, lambda *i: build([x for n, x in enumerate(i) if n not in ax], red, ax), idt)
    return SArr.new(shape, lambda *i: build(i, red, ax), idt)


def R2I(t):
    """integer-valued sum back to an integer term"""
    try:
        return todt(t, "i")
    except Exception:
        return app("trunc", (t,), "I")


def extfacts(kind, t, red, l):
    """facts on max / min: a bound, attained"""
    if len(red) != 1:
        return
    n = red[0]
    cmp_ = (lambda x: le(x, t)) if kind == "max" else (lambda x: le(t, x))
    S.assume(Forall(I0, n, lambda i: cmp_(open_(l, i))))
    w = app("ARG" + kind.upper(), (n, l), "I")
    S.assume(implies(lt(I0, n), and_(le(I0, w), lt(w, n), eq(open_(l, w), t))))


def argext(kind, a, axis=None):
    a = darr(a)
    if a.ndim != 1 or isinstance(a.vshape[0], tuple):
        raise Unsupported(kind)
    n = a.vshape[0]
    if not S.decide(lt(I0, n)):
        raise ValueError("attempt to get %s of an empty sequence" % kind)
    l = lam("I", lambda i: toR(a.at(i)))
    w = app("ARG" + kind[3:].upper(), (n, l), "I")
    S.assume(le(I0, w), lt(w, n))
    cmp_ = le if kind == "argmin" else ge
    S.assume(Forall(I0, n, lambda i: cmp_(open_(l, w), open_(l, i))))
    return wrap(w)


def cumulate(kind, a, axis=None):
    a = darr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported("cumsum of a flattened array")
    ax = 0 if axis is None else axis % a.ndim
    g = a.snap()
    op = Sum if kind == "sum" else Prod

    def elem(*i):
        return op(I0, add(i[ax], I1), lambda k: toR(g(*(i[:ax] + (k,) + i[ax + 1:]))))
    return SArr.new(a.vshape, elem, a.dt if a.dt != "b" else "i")


# --------------------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = darr(a), darr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    return _mm(a, b)


def _mm(a, b):
    ga, gb = a.snap(), b.snap()
    dt = joindt(a.dt, b.dt)
    if dt == "b":
        dt = "i"

    def con(x, y):
        if not dimeq(x, y):
            raise ValueError("matmul: shape mismatch")
        return x
    if a.ndim == 1 and b.ndim == 1:
        n = con(a.vshape[0], b.vshape[0])
        return wrap(sumdim(n, lambda k: mul(toR(ga(k)), toR(gb(k)))))
    if a.ndim == 2 and b.ndim == 1:
        n = con(a.vshape[1], b.vshape[0])
        return SArr.new((a.vshape[0],), lambda i: sumdim(n, lambda k: mul(toR(ga(i, k)), toR(gb(k)))), dt)
    if a.ndim == 1 and b.ndim == 2:
        n = con(a.vshape[0], b.vshape[0])
        return SArr.new((b.vshape[1],), lambda j: sumdim(n, lambda k: mul(toR(ga(k)), toR(gb(k, j)))), dt)
    if a.ndim == 2 and b.ndim == 2:
        n = con(a.vshape[1], b.vshape[0])
        return SArr.new((a.vshape[0], b.vshape[1]), lambda i, j: sumdim(n, lambda k: mul(toR(ga(i, k)), toR(gb(k, j)))), dt)
    if a.ndim == 2 and b.ndim == 3:
        n = con(a.vshape[1], b.vshape[1])
        return SArr.new((b.vshape[0], a.vshape[0], b.vshape[2]),
                        lambda s, i, j: sumdim(n, lambda k: mul(toR(ga(i, k)), toR(gb(s, k, j)))), dt)
    if a.ndim == 3 and b.ndim in (1, 2):
        n = con(a.vshape[2], b.vshape[0])
        if b.ndim == 1:
            return SArr.new(a.vshape[:2], lambda s, i: sumdim(n, lambda k: mul(toR(ga(s, i, k)), toR(gb(k)))), dt)
        return SArr.new(a.vshape[:2] + (b.vshape[1],),
                        lambda s, i, j: sumdim(n, lambda k: mul(toR(ga(s, i, k)), toR(gb(k, j)))), dt)
    if a.ndim == 3 and b.ndim == 3:
        n = con(a.vshape[2], b.vshape[1])
        if not (dimeq(a.vshape[0], b.vshape[0])):
            raise Unsupported("stacked matmul")
        return SArr.new((a.vshape[0], a.vshape[1], b.vshape[2]),
                        lambda s, i, j: sumdim(n, lambda k: mul(toR(ga(s, i, k)), toR(gb(s, k, j)))), dt)
    raise Unsupported("matmul of these dimensions")


def dot(a, b):
    a, b = darr(a), darr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return _mm(a, b)
    if b.ndim == 1:
        return _mm(a, b)
    raise Unsupported("dot of these dimensions")


def diagonal(a, offset=0):
    a = darr(a)
    if offset != 0 or a.ndim != 2:
        raise Unsupported("diagonal")
    n, m = a.vshape
    if n is not m:
        if S.decide(le(m, n)):
            n = m
    g = a.snap()
    return SArr.new((n,), lambda i: g(i, i), a.dt)


def repeat(a, n, axis=None):
    a = darr(a)
    if axis is None:
        raise Unsupported("repeat without axis")
    axis %= a.ndim
    g = a.snap()
    n = tm.toI(term(n))
    if not is1(a.vshape[axis]):
        raise Unsupported("repeat of a longer axis")
    if not S.decide(le(I0, n)):
        raise ValueError("repeats may not contain negative values.")
    sh = list(a.vshape)
    sh[axis] = n
    return SArr.new(sh, lambda *i: g(*(i[:axis] + (I0,) + i[axis + 1:])), a.dt)


_wherec = {}


def whereend(what, n, l):
    """first / last index at which the mask holds (only used if there is one)"""
    t = app(what, (n, l), "I")
    if not any(v.args[0].startswith("@") for v in t.fv):
        g = lambda i: open_(l, i)
        S.assume(Forall(I0, n, lambda r: or_(not_(g(r)), and_(le(I0, t), lt(t, n), g(t), le(t, r) if what == "FIRSTW" else le(r, t)))))
    return t


def where(c, x=None, y=None):
    if x is not None:
        c, x, y = darr(c), darr(x), darr(y)
        shape = bshape([c.vshape, x.vshape, y.vshape])
        gc, gx, gy = bcast(c, shape).snap(), bcast(x, shape).snap(), bcast(y, shape).snap()
        dt = joindt(x.dt, y.dt)
        f = lambda *i: ite(todt(gc(*i), "b"), todt(gx(*i), dt), todt(gy(*i), dt))
        if not shape:
            return wrap(f())
        return SArr.new(shape, f, dt)
    c = darr(c)
    g = c.snap()
    if any(isinstance(d, tuple) for d in c.vshape[1:]):
        raise Unsupported("np.where on a flattened dimension")
    # number of true entries and their coordinates: functions of the mask
    flatdims = []
    for d in c.vshape:
        flatdims += list(d) if isinstance(d, tuple) else [d]
    vs = [freshidx(d, "w") for d in c.vshape]
    body = todt(g(*vs), "b")
    l = body
    for v in reversed([u for x in vs for u in flatvars(x)]):
        l = close(v, l)
    K = app("WHEREN", tuple(flatdims) + (l,), "I")
    S.assume(le(I0, K))
    S.note("np.where(mask): returns exactly the index tuples of the true entries")
    out = []

    oned = c.ndim == 1 and len(flatdims) == 1

    def coordapp(ax, sub_, m):
        if oned and m is I0:
            return whereend("FIRSTW", flatdims[0], l)
        if oned and m is add(K, ic(-1)):
            return whereend("LASTW", flatdims[0], l)
        return app("WHERE", (ic(ax), ic(sub_)) + tuple(flatdims) + (l, m), "I")

    def coords(m):
        r = []
        for ax, d in enumerate(c.vshape):
            if isinstance(d, tuple):
                r.append(tuple(coordapp(ax, s, m) for s in range(len(d))))
            else:
                r.append(coordapp(ax, 0, m))
        return r
    S.assume(Forall(I0, K, lambda m: and_(*[inrange(x, d) for x, d in zip(coords(m), c.vshape)], todt(g(*coords(m)), "b"))))

    if c.ndim and len(flatdims) == c.ndim:
        # the list is not empty if there is a true entry
        def some(k, idx):
            if k == c.ndim:
                return or_(not_(todt(g(*idx), "b")), lt(I0, K))
            return Forall(I0, flatdims[k], lambda r: some(k + 1, idx + [r]))
        S.assume(some(0, []))

    if c.ndim == 1 and len(flatdims) == 1:
        # every true entry is listed
        back = lambda r: app("WHEREV", tuple(flatdims) + (l, r), "I")
        S.assume(Forall(I0, flatdims[0], lambda r: or_(not_(todt(g(r), "b")), and_(le(I0, back(r)), lt(back(r), K), eq(coords(back(r))[0], r)))))

    def member(ax):
        def f(r):
            def rec(k, idx):
                if k == len(c.vshape):
                    return todt(g(*idx), "b")
                if k == ax:
                    return rec(k + 1, idx + [r])
                return sumdim(c.vshape[k], lambda i: rec(k + 1, idx + [i]), Exists)
            return rec(0, [])
        return f
    for ax, d in enumerate(c.vshape):
        a = SArr.new((K,), (lambda ax: lambda m: coords(m)[ax])(ax), "i")
        a.buf.extra["member"] = member(ax)
        a.buf.extra["inbounds"] = True
        out.append(a)
    return tuple(out)


def sort(a, axis=-1):
    a = darr(a)
    if a.ndim != 1 or isinstance(a.vshape[0], tuple):
        raise Unsupported("sort")
    n = a.vshape[0]
    if a.buf.extra.get("ascending") is not None and a.buf.extra["ascending"] is a.buf.elem:
        k = fresh("k", "I")
        if a.at(k) is a.buf.elem(k) and a.buf.shape[0] is n:
            return a.copy()      # already in ascending order
    l = lam("I", lambda i: a.at(i))
    s = "I" if a.dt == "i" else "R"
    f = lambda i: app("SORT", (n, l, i), s)
    S.note("np.sort: returns the same multiset in non-decreasing order")
    S.assume(Forall(I0, n, lambda i: Forall(I0, n, lambda j: implies(le(i, j), le(f(i), f(j))))))
    # every sorted entry is an entry of the array and conversely
    p = lambda i: app("SORTP", (n, l, i), "I")
    q = lambda i: app("SORTQ", (n, l, i), "I")
    S.assume(Forall(I0, n, lambda i: and_(le(I0, p(i)), lt(p(i), n), eq(f(i), open_(l, p(i))), eq(q(p(i)), i))))
    S.assume(Forall(I0, n, lambda i: and_(le(I0, q(i)), lt(q(i), n), eq(p(q(i)), i))))
    r = SArr.new((n,), f, a.dt)
    if a.buf.extra.get("inbounds"):
        r.buf.extra["inbounds"] = True
    return r


def argsort(a):
    a = darr(a)
    if a.ndim != 1 or isinstance(a.vshape[0], tuple):
        raise Unsupported("argsort")
    n = a.vshape[0]
    l = lam("I", lambda i: toR(a.at(i)))
    p = lambda i: app("ARGSORT", (n, l, i), "I")
    q = lambda i: app("ARGSORTINV", (n, l, i), "I")
    S.note("np.argsort: returns a permutation of the indices along which the values do not decrease")
    S.assume(Forall(I0, n, lambda i: and_(le(I0, p(i)), lt(p(i), n), eq(q(p(i)), i))))
    S.assume(Forall(I0, n, lambda i: and_(le(I0, q(i)), lt(q(i), n), eq(p(q(i)), i))))
    S.assume(Forall(I0, n, lambda i: Forall(I0, n, lambda j: implies(le(i, j), le(open_(l, p(i)), open_(l, p(j)))))))
    r = SArr.new((n,), p, "i")
    r.buf.extra["inbounds"] = True
    return r


# --------------------------------------------------------------------------- ranges
class SRange:
    def __init__(self, *a):
        a = [tm.toI(term(x)) for x in a]
        self.start, self.stop, self.step = (I0, a[0], I1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else I1)
        if not isconst(self.step) or cval(self.step) == 0:
            raise Unsupported("range with symbolic step")

    def length(self):
        st = int(cval(self.step))
        d = sub(self.stop, self.start) if st > 0 else sub(self.start, self.stop)
        if abs(st) != 1:
            d = idiv(add(d, ic(abs(st) - 1)), ic(abs(st)))
        if S.ctx.valid(le(I0, d)):
            return d
        if S.ctx.valid(le(d, I0)):
            return I0
        return ite(le(I0, d), d, I0)

    def get(self, k):
        return wrap(add(self.start, mul(self.step, k)))

    def array(self):
        st, step = self.start, self.step
        return SArr.new((self.length(),), lambda i: add(st, mul(step, i)), "i")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside of instrumented code")
