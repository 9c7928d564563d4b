"""numpy / scipy as seen by the verified code: the assumed contracts of the
library functions, over symbolic arrays.  Outside of symbolic mode (module
import, concrete validation runs) every call goes to the real library."""
import types
import importlib
import numpy as _np
from .terms import *
from . import terms as tm
from . import sym
from .sym import *
from .sym import S as _S0

SYMBOLIC = [0]


def issym(x):
    if isinstance(x, (Sym, SArr, SList, SRange, Choice, CDim)):
        return True
    if isinstance(x, (tuple, list)):
        return any(issym(y) for y in x)
    if isinstance(x, dict):
        return any(issym(y) for y in x.values())
    return False


def S():
    return sym.S


def shp(s):
    s = s.resolve() if isinstance(s, Choice) else s
    if isinstance(s, (tuple, list)):
        out = [shapedim(x) for x in s]
    else:
        out = [shapedim(s)]
    for d in out:
        if not isinstance(d, tuple) and not S().decide(le(I0, d)):
            raise ValueError("negative dimensions are not allowed")
    return tuple(out)


F = {}


def shim(*names):
    def deco(f):
        for n in names or (f.__name__,):
            F[n] = f
        return f
    return deco


# ---- creation
@shim()
def zeros(shape, dtype=float, order="C", **k):
    d = dtof(dtype) or "f"
    return SArr.full(shp(shape), todt(I0, d), d)


@shim()
def ones(shape, dtype=float, order="C", **k):
    d = dtof(dtype) or "f"
    return SArr.full(shp(shape), todt(I1, d), d)


@shim()
def empty(shape, dtype=float, order="C", **k):
    d = dtof(dtype) or "f"
    return SArr.full(shp(shape), UNDEF if d in "fc" else mk("undef", (), "I" if d == "i" else "B"), d)


@shim()
def full(shape, fill_value, dtype=None, **k):
    v = darr(fill_value)
    d = dtof(dtype) or v.dt
    r = SArr.full(shp(shape), todt(I0, d), d)
    r.assign(v)
    return r


def _like(f):
    def g(a, *args, dtype=None, **k):
        a = darr(a)
        return f(tuple(CDim(d) if isinstance(d, tuple) else wrap(d) for d in a.vshape), *args,
                 dtype=dtype if dtype is not None else DType(a.dt))
    return g


F["zeros_like"], F["ones_like"], F["empty_like"], F["full_like"] = _like(zeros), _like(ones), _like(empty), _like(full)


@shim("eye")
def eye(N, M=None, k=0, dtype=float, **kw):
    n = shp(N)[0]
    m = n if M is None else shp(M)[0]
    d = dtof(dtype)
    kk = tm.toI(term(k))
    return SArr.new((n, m), lambda i, j: ite(eq(add(i, kk), j), todt(I1, d), todt(I0, d)), d)


F["identity"] = lambda n, dtype=float, **k: eye(n, dtype=dtype)


@shim()
def tri(N, M=None, k=0, dtype=float, **kw):
    n = shp(N)[0]
    m = n if M is None else shp(M)[0]
    d = dtof(dtype)
    kk = tm.toI(term(k))
    return SArr.new((n, m), lambda i, j: ite(le(j, add(i, kk)), todt(I1, d), todt(I0, d)), d)


@shim()
def arange(*a, dtype=None, **kw):
    ts = [term(x) for x in a]
    if any(t.sort == "R" for t in ts):
        if all(isconst(t) and cval(t).denominator == 1 for t in ts):
            ts = [ic(cval(t)) for t in ts]
            dtype = dtype or float
        else:
            raise Unsupported("arange with real arguments")
    r = SRange(*[wrap(t) for t in ts]).array()
    d = dtof(dtype) or "i"
    return r if d == "i" else r.astype(dtype)


@shim()
def linspace(start, stop, num=50, endpoint=True, dtype=None, **kw):
    n = shp(num)[0]
    a, b = toR(term(start)), toR(term(stop))
    den = sub(n, I1) if endpoint else n
    d = "c" if isinstance(start, complex) or isinstance(stop, complex) else "f"
    if not isconst(den) and sym.S.decide(eq(den, I0)):
        den = I0

    def elem(i):
        step = mul(sub(b, a), toR(i), recip(toR(den))) if not isconst(den) else \
            (R0 if cval(den) == 0 else scale(1 / cval(den), mul(sub(b, a), toR(i))))
        return add(a, step)
    return SArr.new((n,), elem, d)


@shim()
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    a = darr(x)
    if dtype is not None:
        r = a.astype(dtype, copy=True)
    else:
        r = a.copy()
    return r


@shim("asarray", "asanyarray", "ascontiguousarray")
def asarray(x, dtype=None, **kw):
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, SArr):
        if dtype is None or dtof(dtype) == x.dt:
            return x
        return x.astype(dtype)
    a = darr(x)
    a = a if isinstance(x, SArr) else a.copy()
    if dtype is not None and dtof(dtype) != a.dt:
        return a.astype(dtype)
    return a


F["copy"] = lambda a, **k: darr(a).copy()


@shim()
def atleast_1d(a):
    a = darr(a)
    return a if a.ndim else a.reshape(1)


@shim()
def atleast_2d(a):
    a = darr(a)
    return a if a.ndim >= 2 else (a[None, :] if a.ndim == 1 else a.reshape(1, 1))


# ---- structure
@shim()
def diag(v, k=0):
    v = darr(v)
    kk = tm.toI(term(k))
    if v.ndim == 1:
        g = v.snap()
        n = v.vshape[0]
        z = todt(I0, v.dt)
        if isconst(kk):
            c = int(cval(kk))
            m = add(n, ic(abs(c)))
            return SArr.new((m, m), lambda i, j: ite(eq(add(i, kk), j), g(i if c >= 0 else j), z), v.dt)
        if S().decide(le(I0, kk)):
            m = add(n, kk)
            return SArr.new((m, m), lambda i, j: ite(eq(add(i, kk), j), g(i), z), v.dt)
        m = sub(n, kk)
        return SArr.new((m, m), lambda i, j: ite(eq(add(i, kk), j), g(j), z), v.dt)
    if v.ndim == 2:
        if kk is I0:
            return diagonal(v)
        g = v.snap()
        n, m = v.vshape
        if S().decide(le(I0, kk)):
            ln = tmin(sub(m, kk), n) if not S().ctx.valid(le(sub(m, kk), n)) else sub(m, kk)
            if not S().decide(le(I0, ln)):
                ln = I0
            return SArr.new((ln,), lambda i: g(i, add(i, kk)), v.dt)
        ln = tmin(add(n, kk), m) if not S().ctx.valid(le(add(n, kk), m)) else add(n, kk)
        if not S().decide(le(I0, ln)):
            ln = I0
        return SArr.new((ln,), lambda i: g(sub(i, kk), i), v.dt)
    raise ValueError("Input must be 1- or 2-d.")


F["diagonal"] = lambda a, offset=0, **k: diag(a, offset) if darr(a).ndim == 2 else diagonal(a, offset)
F["diagflat"] = lambda v, k=0: diag(darr(v).ravel(), k)
F["trace"] = lambda a: darr(a).trace()


@shim()
def fill_diagonal(a, val, wrap=False):
    if not isinstance(a, SArr):
        raise Unsupported("fill_diagonal")
    v = darr(val)
    g = v.snap()
    old = a.snap()
    n, m = a.vshape
    if v.ndim == 1 and not is1(v.vshape[0]):
        if not dimeq(v.vshape[0], n) and not S().decide(le(n, v.vshape[0])):
            raise Unsupported("fill_diagonal with fewer values")
    if v.ndim > 1:
        raise Unsupported("fill_diagonal")

    def elem(i, j):
        x = g() if v.ndim == 0 else g(I0 if is1(v.vshape[0]) else i)
        return ite(eq(i, j), todt(x, a.dt), old(i, j))
    a.assign(SArr.new(a.vshape, elem, a.dt))


@shim()
def diag_indices(n, ndim=2):
    r = arange(n)
    return (r,) * ndim


@shim()
def diag_indices_from(a):
    a = darr(a)
    if a.ndim != 2 or not dimeq(*a.vshape):
        raise ValueError("All dimensions of input must be of equal length")
    return diag_indices(wrap(a.vshape[0]))


def _tri(lower):
    def f(m, k=0):
        m = darr(m)
        g = m.snap()
        kk = tm.toI(term(k))
        z = todt(I0, m.dt)
        if m.ndim == 2:
            return SArr.new(m.vshape, lambda i, j: ite(le(j, add(i, kk)) if lower else ge(j, add(i, kk)), g(i, j), z), m.dt)
        if m.ndim == 3:
            return SArr.new(m.vshape, lambda s, i, j: ite(le(j, add(i, kk)) if lower else ge(j, add(i, kk)), g(s, i, j), z), m.dt)
        raise Unsupported("tril of this dimension")
    return f


F["tril"], F["triu"] = _tri(True), _tri(False)


@shim()
def ediff1d(a, **k):
    if k:
        raise Unsupported("ediff1d options")
    a = darr(a)
    if a.ndim != 1:
        a = a.ravel()
    g = a.snap()
    n = a.vshape[0]
    ln = sub(n, I1)
    if not S().decide(le(I0, ln)):
        ln = I0
    return SArr.new((ln,), lambda i: sub(g(add(i, I1)), g(i)), a.dt)


@shim()
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = darr(a)
    if n != 1:
        raise Unsupported("diff of higher order")
    ax = axis % a.ndim
    if prepend is not None or append is not None:
        l = [x for x in (prepend, a, append) if x is not None]
        l = [darr(x) for x in l]
        sh1 = tuple(I1 if k == ax else d for k, d in enumerate(a.vshape))
        a = concatenate([bcast_to(x, sh1) if x.ndim == 0 else x for x in l], ax)
    g = a.snap()
    sh = list(a.vshape)
    ln = sub(sh[ax], I1)
    if not S().decide(le(I0, ln)):
        ln = I0
    sh[ax] = ln

    def elem(*i):
        j = i[:ax] + (add(i[ax], I1),) + i[ax + 1:]
        return sub(g(*j), g(*i))
    return SArr.new(sh, elem, a.dt)


@shim()
def concatenate(arrs, axis=0, **k):
    l = [darr(a) for a in (arrs if not isinstance(arrs, SList) else list(arrs))]
    if len(l) == 1:
        return l[0].copy()
    ax = axis % l[0].ndim
    for a in l:
        if a.ndim != l[0].ndim:
            raise ValueError("all the input array dimensions must match")
        for n, (x, y) in enumerate(zip(a.vshape, l[0].vshape)):
            if n != ax and not dimeq(x, y):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    d = joindt(*[a.dt for a in l])
    gs = [a.snap() for a in l]
    offs = [I0]
    for a in l:
        if isinstance(a.vshape[ax], tuple):
            raise Unsupported("concatenate a flattened dimension")
        offs.append(add(offs[-1], a.vshape[ax]))
    sh = list(l[0].vshape)
    sh[ax] = offs[-1]

    def elem(*i):
        r = None
        for k_ in range(len(l) - 1, -1, -1):
            j = i[:ax] + (sub(i[ax], offs[k_]),) + i[ax + 1:]
            # only evaluate if reachable
            if r is None:
                r = todt(gs[k_](*j), d)
            else:
                c = lt(i[ax], offs[k_ + 1])
                if c is FALSE:
                    continue
                v = todt(gs[k_](*j), d)
                r = v if c is TRUE else ite(c, v, r)
        return r
    return SArr.new(sh, elem, d)


@shim()
def append(a, b, axis=None):
    a, b = darr(a), darr(b)
    if axis is None:
        return concatenate([a.ravel() if a.ndim != 1 else a, b.ravel() if b.ndim != 1 else b])
    return concatenate([a, b], axis)


def _al(a, n):
    a = darr(a)
    if n == 2 and a.ndim == 1:
        return a[None, :]
    return atleast_1d(a)


F["vstack"] = lambda l, **k: concatenate([_al(a, 2) for a in l], 0)
F["hstack"] = lambda l, **k: concatenate([_al(a, 1) for a in l], 0 if darr(l[0]).ndim <= 1 else 1)
F["column_stack"] = lambda l, **k: concatenate([darr(a)[:, None] if darr(a).ndim == 1 else darr(a) for a in l], 1)


@shim()
def stack(l, axis=0, **k):
    if axis == 0:
        return array(l if isinstance(l, SList) else list(l))
    a = [darr(x) for x in l]
    ax = axis % (a[0].ndim + 1)
    key = tuple([slice(None)] * ax + [None])
    return concatenate([x[key + (Ellipsis,)] if ax < x.ndim else x[key] for x in a], ax)


@shim()
def vander(x, N=None, increasing=False):
    x = darr(x)
    n = x.vshape[0]
    N = n if N is None else shp(N)[0]
    g = x.snap()
    if increasing:
        e = lambda i, j: powt(toR(g(i)), j)
    else:
        e = lambda i, j: powt(toR(g(i)), sub(sub(N, I1), j))
    return SArr.new((n, N), e, "f")


@shim()
def outer(a, b):
    a, b = darr(a), darr(b)
    return a.ravel()[:, None] * b.ravel()[None, :]


F["subtract_outer"] = lambda a, b: darr(a)[:, None] - darr(b)[None, :]


@shim()
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True):
    a = darr(ar)
    if return_counts or axis is not None:
        raise Unsupported("np.unique options")
    a = a.ravel() if a.ndim != 1 else a
    n = a.vshape[0]
    if isinstance(n, tuple):
        raise Unsupported("unique of flattened")
    l = lam("I", lambda i: toR(a.at(i)))
    x = lambda i: open_(l, i)
    s = S()
    back = lam("I", lambda i: x(sub(add(n, ic(-1)), i)))
    seen = s.__dict__.setdefault("uniq", set())
    rev = (n, back) in seen and (n, l) not in seen
    if rev:
        # the reversed list of one that was seen: same distinct values
        l = back
    seen.add((n, l))
    K = app("UNIQN", (n, l), "I")
    u = lambda k: app("UNIQ", (n, l, k), "R")
    fi = lambda k: app("UNIQI", (n, l, k), "I")
    inv = lambda j: app("UNIQV", (n, l, j), "I")
    s.note("np.unique: sorted distinct values, first occurrence and inverse index")
    s.assume(le(I0, K), le(K, n), implies(lt(I0, n), lt(I0, K)))
    s.assume(Forall(I0, K, lambda i: Forall(I0, K, lambda j: implies(lt(i, j), lt(u(i), u(j))))))
    s.assume(Forall(I0, K, lambda k: and_(le(I0, fi(k)), lt(fi(k), n), eq(x(fi(k)), u(k)), eq(inv(fi(k)), k))))
    s.assume(Forall(I0, n, lambda j: and_(le(I0, inv(j)), lt(inv(j), K), eq(u(inv(j)), x(j)), le(fi(inv(j)), j))))
    # position of a value (the values are distinct)
    pos = lambda v: app("UNIQK", (n, l, v), "I")
    s.assume(Forall(I0, K, lambda k: eq(pos(u(k)), k)))
    s.assume(Forall(I0, n, lambda j: eq(pos(x(j)), inv(j))))
    # as many distinct values as entries: no entry is repeated
    s.assume(Forall(I0, n, lambda i: Forall(I0, n, lambda j: implies(lt(i, j), or_(ne(x(i), x(j)), lt(K, n))))))
    s.assume(or_(eq(K, n), Exists(I0, n, lambda i: Exists(I0, n, lambda j: and_(lt(i, j), eq(x(i), x(j)))))))
    i0, j0 = fresh("i", "I"), fresh("j", "I")
    dis = s.ctx.extend(le(I0, i0), lt(i0, n), le(I0, j0), lt(j0, n), lt(i0, j0)).valid(ne(x(i0), x(j0)))
    if dis:
        s.assume(eq(K, n))
        s.assume(Forall(I0, n, lambda j: eq(fi(inv(j)), j)))
    if rev:
        la = lambda k: app("UNIQL", (n, l, k), "I")
        s.assume(Forall(I0, K, lambda k: and_(le(I0, la(k)), lt(la(k), n), eq(x(la(k)), u(k)), eq(inv(la(k)), k))))
        s.assume(Forall(I0, n, lambda j: le(j, la(inv(j)))))
        inv0 = inv
        flip = lambda i: sub(add(n, ic(-1)), i)
        fi, inv = (lambda k: flip(la(k))), (lambda j: inv0(flip(j)))
    r = SArr.new((K,), u, a.dt if a.dt != "i" else "f")
    out = [r]
    if return_index:
        o = SArr.new((K,), fi, "i")
        o.buf.extra["inbounds"] = True
        o.buf.extra["member"] = lambda r: and_(le(I0, r), lt(r, n), eq(fi(inv(r)), r))
        out.append(o)
    if return_inverse:
        o = SArr.new((n,), inv, "i")
        o.buf.extra["inbounds"] = True
        out.append(o)
    return tuple(out) if len(out) > 1 else r


@shim()
def setdiff1d(a, b, assume_unique=False):
    a, b = darr(a), darr(b)
    if a.dt != "i" or b.dt != "i" or a.ndim != 1 or b.ndim != 1:
        raise Unsupported("setdiff1d")
    n, m = a.vshape[0], b.vshape[0]
    ga, gb = a.snap(), b.snap()
    la, lb = lam("I", lambda i: ga(i)), lam("I", lambda i: gb(i))
    K = app("SDIFFN", (n, la, m, lb), "I")
    f = lambda k: app("SDIFF", (n, la, m, lb, k), "I")
    memb = b.buf.extra.get("member") or (lambda r: Exists(I0, m, lambda q: eq(gb(q), r)))
    s = S()
    s.note("np.setdiff1d: exactly the values of the first that are not in the second")
    # recognise arange
    q = fresh("q", "I")
    isar = s.ctx.extend(le(I0, q), lt(q, n)).valid(eq(ga(q), q))
    if isar:
        ina = lambda r: and_(le(I0, r), lt(r, n))
    else:
        ina = lambda r: Exists(I0, n, lambda p: eq(ga(p), r))
    s.assume(le(I0, K))
    s.assume(Forall(I0, K, lambda k: and_(ina(f(k)), not_(memb(f(k))))))
    r = SArr.new((K,), f, "i")
    r.buf.extra["member"] = lambda r_: and_(ina(r_), not_(memb(r_)))
    if isar:
        r.buf.extra["inbounds"] = True
    return r


def _flip(a, *axes):
    a = darr(a)
    return a[tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(a.ndim))]


@shim()
def flip(a, axis=None):
    a = darr(a)
    ax = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    return _flip(a, *ax)


F["flipud"] = lambda a: _flip(a, 0)
F["fliplr"] = lambda a: _flip(a, 1)


@shim()
def roll(a, shift, axis=None):
    a = darr(a)
    if axis is None and a.ndim != 1 or isinstance(shift, tuple):
        raise Unsupported("roll")
    ax = 0 if axis is None else axis % a.ndim
    g, n, c = a.snap(), a.vshape[ax], tm.toI(term(shift))
    if isinstance(n, tuple):
        raise Unsupported("roll of a flattened dimension")
    if not S().ctx.valid(and_(le(neg(n), c), le(c, n))):
        raise Unsupported("roll by more than the length")

    def elem(*i):
        j = sub(i[ax], c)
        j = ite(lt(j, I0), add(j, n), ite(le(n, j), sub(j, n), j))
        return g(*(i[:ax] + (j,) + i[ax + 1:]))
    return SArr.new(a.vshape, elem, a.dt)


@shim()
def tile(a, reps):
    a = darr(a)
    r = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while len(r) < a.ndim:
        r.insert(0, 1)
    while a.ndim < len(r):
        a = a[None]
    for ax, k in enumerate(r):
        if isinstance(k, int) and k == 1:
            continue
        if isinstance(k, int) and 1 < k <= 6 and not is1(a.vshape[ax]):
            a = concatenate([a] * k, ax)
        else:
            a = repeat(a, k, ax)
    return a.copy()


@shim()
def pad(a, width, mode="constant", constant_values=0, **k):
    a = darr(a)
    if mode != "constant" or k:
        raise Unsupported("pad mode")

    def pairs(w):
        if isinstance(w, (int, Sym)):
            return [(w, w)] * a.ndim
        w = list(w)
        if all(isinstance(x, (int, Sym)) for x in w):
            if len(w) == 1:
                return [(w[0], w[0])] * a.ndim
            if len(w) == 2:
                return [tuple(w)] * a.ndim
        w = [tuple(x) if len(tuple(x)) == 2 else tuple(x) * 2 for x in w]
        return w * a.ndim if len(w) == 1 else w
    w, v = pairs(width), constant_values
    v = [(v, v)] * a.ndim if isnum(v) else pairs(v)
    for ax, ((lo, hi), (vl, vh)) in enumerate(zip(w, v)):
        l = [a]
        for n, val, left in ((lo, vl, True), (hi, vh, False)):
            if isinstance(n, int) and n == 0:
                continue
            sh = list(a.vshape)
            sh[ax] = tm.toI(term(n))
            b = SArr.full(sh, todt(term(val), a.dt), a.dt)
            l = [b] + l if left else l + [b]
        a = concatenate(l, ax)
    return a.copy()


@shim()
def insert(a, obj, values, axis=None):
    a = darr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
    if not isinstance(obj, (int, Sym)):
        raise Unsupported("insert at several positions")
    ax = 0 if axis is None else axis % a.ndim
    n = a.vshape[ax]
    at = slicebounds_(obj, n)
    v = darr(values)
    if a.ndim == 1:
        v = v.reshape(1) if v.ndim == 0 else v
    else:
        sh = list(a.vshape)
        sh[ax] = I1
        v = bcast_to(v if v.ndim != a.ndim - 1 else v[tuple([slice(None)] * ax + [None])], tuple(sh))
    key = lambda sl: tuple([slice(None)] * ax + [sl])
    return concatenate([a[key(slice(None, at))], v.astype(_np.float64) if a.dt == "f" and v.dt == "i" else v, a[key(slice(at, None))]], ax).astype({"f": float, "i": int, "c": complex}.get(a.dt, float))


def slicebounds_(o, n):
    o = tm.toI(term(o))
    if isconst(o) and cval(o) < 0:
        o = add(o, n)
    if not S().ctx.valid(and_(le(I0, o), le(o, n))):
        raise Unsupported("position of insert / delete")
    return wrap(o)


@shim()
def delete(a, obj, axis=None):
    a = darr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
    if not isinstance(obj, (int, Sym)):
        raise Unsupported("delete several positions")
    ax = 0 if axis is None else axis % a.ndim
    at = slicebounds_(obj, a.vshape[ax])
    key = lambda sl: tuple([slice(None)] * ax + [sl])
    return concatenate([a[key(slice(None, at))], a[key(slice(at + 1, None))]], ax)


@shim()
def take(a, indices, axis=None, out=None, mode="raise"):
    a = darr(a)
    if out is not None or mode != "raise":
        raise Unsupported("take options")
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("take from a flattened array")
        axis = 0
    ix = indices if isinstance(indices, (int, Sym)) else darr(indices)
    return a[tuple([slice(None)] * (axis % a.ndim) + [ix])]


@shim()
def ptp(a, axis=None, **k):
    return reduce_("max", a, axis) - reduce_("min", a, axis)


@shim()
def average(a, axis=None, weights=None, **k):
    if k:
        raise Unsupported("average options")
    if weights is None:
        return reduce_("mean", a, axis)
    w = darr(weights)
    return reduce_("sum", darr(a) * w, axis) / reduce_("sum", w, axis)


@shim()
def clip(a, lo=None, hi=None, **k):
    if k:
        raise Unsupported("clip options")
    r = a if isinstance(a, Sym) else darr(a)
    if lo is not None:
        r = F["maximum"](r, lo)
    if hi is not None:
        r = F["minimum"](r, hi)
    return r


@shim()
def kron(a, b):
    a, b = darr(a), darr(b)
    if a.ndim != 1 or b.ndim != 1 or not (is1(a.vshape[0]) or is1(b.vshape[0])):
        raise Unsupported("kron")
    return a * b


# ---- reductions, ufuncs
for nm in ("sum", "prod", "mean", "any", "all", "max", "min"):
    F[nm] = (lambda nm: lambda a, axis=None, **k: reduce_(nm, a, axis, **k))(nm)
F["amax"], F["amin"] = F["max"], F["min"]
F["argmin"] = lambda a, axis=None: argext("argmin", a, axis)
F["argmax"] = lambda a, axis=None: argext("argmax", a, axis)
F["cumsum"] = lambda a, axis=None, **k: cumulate("sum", a, axis)
F["cumprod"] = lambda a, axis=None, **k: cumulate("prod", a, axis)
F["size"] = lambda a, axis=None: darr(a).size if axis is None else wrap(dimsize(darr(a).vshape[axis]))
F["ndim"] = lambda a: 0 if a is None or isinstance(a, (str, bytes)) else darr(a).ndim
F["shape"] = lambda a: darr(a).shape
F["dot"] = lambda a, b: dot(a, b)
F["matmul"] = lambda a, b: matmul(a, b)
F["inner"] = lambda a, b: dot(a, b)
F["vdot"] = lambda a, b: dot(darr(a).conj(), b)
F["transpose"] = lambda a, axes=None: darr(a).transpose(*([axes] if axes is not None else []))
F["swapaxes"] = lambda a, x, y: darr(a).swapaxes(x, y)
F["reshape"] = lambda a, s, order="C", **k: darr(a).reshape(s, order=order)
F["ravel"] = lambda a, order="C", **k: darr(a).ravel(order)
F["repeat"] = lambda a, n, axis=None: repeat(a, n, axis)
F["sort"] = lambda a, axis=-1, **k: sort(a)
F["argsort"] = lambda a, axis=-1, **k: argsort(a)
F["where"] = where
F["nonzero"] = lambda a: where(darr(a) != 0 if darr(a).dt != "b" else darr(a))
F["expand_dims"] = lambda a, axis: darr(a)[tuple([slice(None)] * (axis % (darr(a).ndim + 1)) + [None] + [Ellipsis] * 0)] \
    if axis % (darr(a).ndim + 1) == darr(a).ndim else darr(a)[tuple([slice(None)] * (axis % (darr(a).ndim + 1)) + [None, Ellipsis])]
F["squeeze"] = lambda a, axis=None: darr(a).squeeze(axis)
F["isscalar"] = lambda a: isnum(a)
F["iscomplexobj"] = lambda a: darr(a).dt == "c"


@shim()
def broadcast_to(a, shape):
    return bcast_to(darr(a), shp(shape))


@shim()
def array_equal(a, b, **k):
    a, b = darr(a), darr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.vshape, b.vshape):
        if not dimeq(x, y):
            return False
    return reduce_("all", ufunc2("equal", a, b))


@shim()
def allclose(a, b, *r, **k):
    t = fresh("allclose", "B")
    S().note("np.allclose: unspecified (both answers considered)")
    return wrap(t)


@shim()
def isclose(a, b, *r, **k):
    S().note("np.isclose: unspecified (both answers considered)")
    if isnum(a) and isnum(b):
        return wrap(fresh("isclose", "B"))
    raise Unsupported("isclose of arrays")


@shim()
def frexp(x):
    a = darr(x)
    g = a.snap()
    S().note("np.frexp: exponents are integers")
    m = SArr.new(a.vshape, lambda *i: app("FREXPM", (toR(g(*i)),), "R"), "f")
    e = SArr.new(a.vshape, lambda *i: app("FREXPE", (toR(g(*i)),), "I"), "i")
    return m, e


@shim()
def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    A = [darr(o) for o in ops]
    dims = {}
    for s, a in zip(ins, A):
        if len(s) != a.ndim:
            raise ValueError("einsum subscripts")
        for c, d in zip(s, a.vshape):
            if c in dims:
                if not dimeq(dims[c], d):
                    raise ValueError("einsum dimensions")
            else:
                dims[c] = d
    if out is None:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    red = [c for c in dims if c not in out]
    gs = [a.snap() for a in A]
    dt = joindt(*[a.dt for a in A])

    def elem(*idx):
        def rec(k, env):
            if k == len(red):
                return mul(*[toR(g(*[env[c] for c in s])) for s, g in zip(ins, gs)])
            return sumdim(dims[red[k]], lambda i: rec(k + 1, dict(env, **{red[k]: i})))
        return rec(0, dict(zip(out, idx)))
    if not out:
        return wrap(elem())
    return SArr.new([dims[c] for c in out], elem, dt)


# ---- ufuncs
class UFunc:
    def __init__(self, name):
        self.name = name
        self.real = getattr(_np, name, None)
        self.bin = name in U2

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        if not SYMBOLIC[0] and not issym(a):
            if out is not None:
                k["out"] = out
            if where is not True:
                k["where"] = where
            if dtype is not None:
                k["dtype"] = dtype
            return self.real(*a, **k)
        if isinstance(out, tuple):
            out = out[0]
        if self.bin:
            if len(a) == 3:
                a, out = a[:2], a[2]
            return ufunc2(self.name, a[0], a[1], out=out, where=where)
        if len(a) == 2:
            a, out = a[:1], a[1]
        return ufunc1(self.name, a[0], out=out, where=where)

    def outer(self, a, b):
        if not SYMBOLIC[0] and not issym((a, b)):
            return self.real.outer(a, b)
        a, b = darr(a), darr(b)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("ufunc.outer")
        return ufunc2(self.name, a[:, None], b[None, :])

    def reduce(self, a, axis=0, **k):
        if not SYMBOLIC[0] and not issym(a):
            return self.real.reduce(a, axis=axis, **k)
        kind = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_or": "any", "logical_and": "all"}.get(self.name)
        if kind is None:
            raise Unsupported("ufunc.reduce")
        return reduce_(kind, a, axis, **k)

    def accumulate(self, a, axis=0, **k):
        if not SYMBOLIC[0] and not issym(a):
            return self.real.accumulate(a, axis=axis, **k)
        kind = {"add": "sum", "multiply": "prod"}.get(self.name)
        if kind is None:
            raise Unsupported("ufunc.accumulate")
        return cumulate(kind, a, axis)

    def at(self, *a):
        if not SYMBOLIC[0] and not issym(a):
            return self.real.at(*a)
        raise Unsupported("ufunc.at")


for nm in list(U2) + list(U1):
    F[nm] = UFunc(nm)


class errstate:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        st = sym.S.errstate
        st.append(dict(st[-1], **self.kw))

    def __exit__(self, *a):
        sym.S.errstate.pop()
        return False


# ---- linalg
def _lam2(a):
    g = a.snap()
    return lam("I", lambda i: lam("I", lambda j: toR(g(i, j))))


def INV(n, l, i, j):
    return app("INV", (n, l, i, j), "R")


LA = {}


def la(*names):
    def deco(f):
        for n in names or (f.__name__,):
            LA[n] = f
        return f
    return deco


def subst_cond(t, c, v):
    """t under the condition c being v, by its top-level case distinctions"""
    while t.op == "ite":
        if t.args[0] is c or t.args[0] is not_(c):
            t = t.args[1] if (t.args[0] is c) == v else t.args[2]
        else:
            break
    return t


@la()
def inv(a, **k):
    a = darr(a)
    if a.ndim == 3:
        g = a.snap()
        return SArr.new(a.vshape, lambda s, i, j: INV(a.vshape[1], lam("I", lambda p: lam("I", lambda q: toR(g(s, p, q)))), i, j), a.dt)
    if a.ndim != 2 or not dimeq(*a.vshape):
        raise ValueError("Last 2 dimensions of the array must be square")
    n = a.vshape[0]
    if getattr(S(), "dets", None) is not None and isconst(n) and cval(n) == 2:
        g = a.snap()
        m = [[toR(g(ic(i), ic(j))) for j in range(2)] for i in range(2)]
        det = sub(mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
        S().dets.append((S().ctx, det))
        adj = [[m[1][1], neg(m[0][1])], [neg(m[1][0]), m[0][0]]]
        return SArr.new((n, n), lambda i, j: mul(ite(eq(i, I0), ite(eq(j, I0), adj[0][0], adj[0][1]), ite(eq(j, I0), adj[1][0], adj[1][1])), recip(det)), joindt("f", a.dt))
    S().note("np.linalg: the matrix is invertible and solve / inv return the exact inverse image")
    g = a.snap()
    p, q = fresh("p", "I"), fresh("q", "I")
    with sym.under(le(I0, p), lt(p, n), le(I0, q), lt(q, n)):
        off = subst_cond(toR(g(p, q)), eq(p, q), False)
    if off is R0 or (off.op == "const" and cval(off) == 0):
        return SArr.new((n, n), lambda i, j: ite(eq(i, j), recip(toR(g(i, i))), R0), joindt("f", a.dt))
    l = _lam2(a)
    return SArr.new((n, n), lambda i, j: INV(n, l, i, j), joindt("f", a.dt))


@la()
def det(a):
    a = darr(a)
    if a.ndim == 3:
        g = a.snap()
        n = a.vshape[1]
        if not dimeq(*a.vshape[1:]):
            raise ValueError("Last 2 dimensions of the array must be square")
        return SArr.new((a.vshape[0],), lambda s: app("DET", (n, lam("I", lambda p: lam("I", lambda q: toR(g(s, p, q))))), "R"), "f")
    if a.ndim != 2 or not dimeq(*a.vshape):
        raise ValueError("Last 2 dimensions of the array must be square")
    S().note("np.linalg.det is the determinant")
    return wrap(app("DET", (a.vshape[0], _lam2(a)), "R"))


@la()
def eigvals(a):
    a = darr(a)
    if a.ndim != 2 or not dimeq(*a.vshape):
        raise Unsupported("eigvals of this shape")
    S().note("np.linalg.eigvals: the eigenvalues of the matrix")
    n, l = a.vshape[0], _lam2(a)
    return SArr.new((n,), lambda i: add(app("EIGR", (n, l, i), "R"), mul(sym.IMAG, app("EIGI", (n, l, i), "R"))), "c")


@la()
def solve(a, b, **k):
    a, b = darr(a), darr(b)
    s = k.pop("lower", None)
    if a.ndim != 2:
        raise Unsupported("stacked solve")
    return matmul(inv(a), b)


def _eigt(a, who):
    """eigenvalues of a symmetric tridiagonal matrix: recorded in S.eigs, described by the contract that uses them"""
    d, e = darr(a[0]), darr(a[1])
    if d.ndim != 1 or e.ndim != 1 or isinstance(d.vshape[0], tuple) or isinstance(e.vshape[0], tuple):
        raise Unsupported(who)
    n = d.vshape[0]
    if not S().ctx.valid(eq(e.vshape[0], sub(n, I1))):
        raise ValueError("ab must have shape")
    r = SArr.new((n,), lambda i: app("EIGT", (i,), "R"), "f")
    r.buf.extra["ascending"] = r.buf.elem
    if getattr(S(), "eigs", None) is None:
        raise Unsupported(who)
    S().eigs.append((d.snap(), e.snap(), n))
    if len(S().eigs) > 1:
        raise Unsupported("%s called twice" % who)
    S().note("scipy.linalg.eigh_tridiagonal: the eigenvalues in ascending order (the simple roots of the characteristic polynomial when no off-diagonal entry vanishes)")
    return r


@la()
def eigh_tridiagonal(*a, eigvals_only=False, **k):
    if len(a) != 2 or k:
        raise Unsupported("eigh_tridiagonal options")
    r = _eigt(a, "eigh_tridiagonal")
    if eigvals_only:
        return r
    n = r.vshape[0]
    return r, SArr.new((n, n), lambda i, j: app("EIGV", (i, j), "R"), "f")


@la()
def eigvalsh_tridiagonal(*a, **k):
    if len(a) != 2 or k:
        raise Unsupported("eigvalsh_tridiagonal options")
    return _eigt(a, "eigvalsh_tridiagonal")


def _tridiag(a, who):
    """(diagonal, subdiagonal) of a matrix that is proved to be tridiagonal and symmetric"""
    a = darr(a)
    if a.ndim != 2 or any(isinstance(d, tuple) for d in a.vshape) or not S().ctx.valid(eq(*a.vshape)):
        raise Unsupported("%s of this shape" % who)
    n, g = a.vshape[0], a.snap()
    i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
    c = S().ctx.extend(le(I0, i), lt(i, n), le(I0, j), lt(j, n))
    import vp.prover as prover
    for goal, h in ((eq(toR(g(i, j)), toR(g(j, i))), ()), (eq(toR(g(i, j)), R0), (lt(add(i, I1), j),))):
        try:
            prover.prove(goal, c.extend(*h), {"time": 10})
        except (prover.ProofFail, prover.Undefined, prover.Budget, RecursionError):
            raise Unsupported("%s of a matrix that is not symmetric and tridiagonal" % who)
    return diag(a), diag(a, -1)


@la()
def eigvalsh(a, UPLO="L", **k):
    if k:
        raise Unsupported("eigvalsh options")
    return _eigt(_tridiag(a, "eigvalsh"), "eigvalsh")


@la()
def eigh(a, eigvals_only=False, **k):
    if k:
        raise Unsupported("eigh options")
    r = _eigt(_tridiag(a, "eigh"), "eigh")
    if eigvals_only:
        return r
    n = r.vshape[0]
    return r, SArr.new((n, n), lambda i, j: app("EIGV", (i, j), "R"), "f")


@la()
def multi_dot(arrays, **k):
    r = darr(arrays[0])
    for a in arrays[1:]:
        r = matmul(r, a)
    return r


@la()
def norm(x, ord=None, axis=None, **k):
    x = darr(x)
    if x.ndim == 1 and axis is None:
        if ord == _np.inf:
            return reduce_("max", ufunc1("abs", x))
        if ord in (None, 2):
            g = x.snap()
            return wrap(fn("sqrt", sumdim(x.vshape[0], lambda i: powi(toR(g(i)) if x.dt in "fib" else fn("abs", toR(g(i))), 2))))
        if ord == 1:
            return reduce_("sum", ufunc1("abs", x))
    if x.ndim == 2 and axis is not None and ord == _np.inf:
        return reduce_("max", ufunc1("abs", x), axis)
    raise Unsupported("norm")


@la()
def lu(a, **k):
    a = darr(a)
    permute, indices = k.pop("permute_l", False), k.pop("p_indices", False)
    k.pop("check_finite", None), k.pop("overwrite_a", None)
    if k or indices:
        raise Unsupported("lu options")
    if a.ndim != 2 or not dimeq(*a.vshape):
        raise Unsupported("lu of this shape")
    S().note("scipy.linalg.lu(A) = (P, L, U) with A = P L U, L unit lower, U upper triangular")
    l = _lam2(a)
    n = a.vshape[0]
    f = lambda nm: SArr.new((n, n), lambda i, j: app(nm, (n, l, i, j), "R"), "f")
    U = SArr.new((n, n), lambda i, j: ite(le(i, j), app("LUU", (n, l, i, j), "R"), R0), "f")
    L = SArr.new((n, n), lambda i, j: ite(eq(i, j), R1, ite(le(j, i), app("LUL", (n, l, i, j), "R"), R0)), "f")
    if permute:
        return matmul(f("LUP"), L), U
    return f("LUP"), L, U


@la()
def matrix_power(a, k):
    if isinstance(k, int) and k >= 0:
        r = eye(wrap(darr(a).vshape[0]))
        for _ in range(k):
            r = matmul(r, a)
        return r
    raise Unsupported("matrix_power")


@la()
def lstsq(a, b, rcond=None, cond=None, **k):
    a, b = darr(a), darr(b)
    if a.ndim != 2 or k:
        raise Unsupported("lstsq options")
    S().note("lstsq(A, b): the solution of the normal equations (A of full column rank)")
    x = matmul(inv(matmul(a.T, a)), matmul(a.T, b))
    return x, SArr.new((I0,), lambda i: R0, "f"), wrap(a.vshape[1]), None


@la()
def pinv(a, **k):
    a = darr(a)
    if a.ndim != 2 or k:
        raise Unsupported("pinv options")
    S().note("pinv(A): (A^T A)^-1 A^T (A of full column rank)")
    return matmul(inv(matmul(a.T, a)), a.T)


@shim()
def polyfit(x, y, deg, **k):
    if deg != 1 or k:
        raise Unsupported("polyfit of this degree")
    S().note("np.polyfit(x, y, 1): the least-squares line")
    x, y = darr(x), darr(y)
    xm, ym = x.mean(), y.mean()
    b = ((x - xm) * (y - ym)).sum() / ((x - xm) * (x - xm)).sum()
    return array([b, ym - b * xm])


# ---- module objects
class ModShim(types.ModuleType):
    def __init__(self, name, table, real, subs=None):
        super().__init__(name)
        self.__dict__["_table"] = table
        self.__dict__["_real"] = real
        self.__dict__["_subs"] = subs or {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self._subs:
            v = self._subs[name]
        else:
            real = getattr(self._real, name, None)
            f = self._table.get(name)
            if f is None:
                if real is None:
                    raise AttributeError("module %r has no attribute %r" % (self.__name__, name))
                if isinstance(real, (types.FunctionType, types.BuiltinFunctionType, _np.ufunc)) or \
                        (callable(real) and not isinstance(real, type)):
                    v = guard(self.__name__ + "." + name, real, None)
                elif isinstance(real, types.ModuleType):
                    v = ModShim(self.__name__ + "." + name, {}, real)
                else:
                    v = real
            elif isinstance(f, UFunc):
                v = f
            else:
                v = guard(self.__name__ + "." + name, real, f)
        self.__dict__[name] = v
        return v


CALLHOOK = {}


def guard(name, real, f):
    def call(*a, **k):
        if not SYMBOLIC[0] and not issym(a) and not issym(k):
            return real(*a, **k)
        h = CALLHOOK.get(name)
        if h is not None:
            return h(*a, **k)
        if f is None:
            raise Unsupported("%s has no contract" % name)
        try:
            return f(*[x.resolve() if isinstance(x, Choice) else x for x in a], **k)
        except TypeError as e:
            if "unexpected keyword" in str(e):
                raise Unsupported("%s: %s" % (name, e))
            raise
    call.__name__ = name
    return call


class _NdIndex:
    pass


class _R_:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        out = []
        for x in k:
            if isinstance(x, slice):
                out.append(arange(x.start or 0, x.stop, x.step or 1))
            elif isinstance(x, str):
                raise Unsupported("np.r_ with directives")
            else:
                x = darr(x)
                out.append(x if x.ndim else x.reshape(1))
        return concatenate(out)


def build(importer=importlib.import_module):
    import scipy.linalg
    import scipy.special
    import scipy.sparse
    import scipy.optimize
    import numpy.polynomial.legendre
    lin_ = ModShim("numpy.linalg", LA, _np.linalg)
    np_ = ModShim("numpy", F, _np, {
        "linalg": lin_, "errstate": errstate, "pi": Pi(_np.pi), "inf": _np.inf, "newaxis": None, "r_": _R_(),
        "ndarray": _np.ndarray, "float64": _np.float64})
    mods = {
        "numpy": np_, "numpy.linalg": lin_,
        "scipy.linalg": ModShim("scipy.linalg", LA, scipy.linalg),
        "scipy.special": ModShim("scipy.special", {}, scipy.special),
        "scipy.sparse": ModShim("scipy.sparse", {}, scipy.sparse),
        "scipy.optimize": ModShim("scipy.optimize", {}, scipy.optimize),
    }
    mods["math"] = mathshim()
    mods["scipy"] = ModShim("scipy", {}, importlib.import_module("scipy"), {
        "linalg": mods["scipy.linalg"], "special": mods["scipy.special"], "sparse": mods["scipy.sparse"],
        "optimize": mods["scipy.optimize"]})
    return mods


def mathshim():
    """the math module on symbolic numbers"""
    import math as _m
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in vars(_m).items() if not k.startswith("__")})
    m.pi = Pi(_m.pi)

    def one(name, f):
        real = getattr(_m, name)

        def g(*a, **k):
            if not issym(a) and not issym(k):
                return real(*a, **k)
            return f(*a, **k)
        return g
    num = lambda u: lambda x: ufunc1(u, x) if isinstance(x, Sym) else real_(x, u)

    def real_(x, u):
        raise Unsupported("math.%s of an array" % u)
    for n in ("sqrt", "cos", "sin", "exp", "log10", "log2", "fabs"):
        setattr(m, n, one(n, num(n)))
    m.log = one("log", lambda x, *b: ufunc1("log", x) if not b else bad("log with a base"))
    m.pow = one("pow", lambda x, y: x ** y)
    m.prod = one("prod", lambda x, start=1: F["prod"](darr(x)) * start)
    m.fsum = one("fsum", lambda x: F["sum"](darr(x)))

    def bad(what):
        raise Unsupported("math.%s" % what)
    for n in ("floor", "ceil", "trunc", "isclose", "factorial", "comb", "hypot", "gcd", "isqrt", "copysign", "fmod", "frexp", "ldexp", "dist", "gamma", "lgamma", "tan", "acos", "asin", "atan", "atan2", "expm1", "log1p", "isnan", "isinf", "isfinite", "perm", "tanh", "cosh", "sinh"):
        setattr(m, n, one(n, lambda *a, n=n, **k: bad(n)))
    return m


class Pi(float):
    """np.pi: recognised exactly when it meets a symbolic value"""
