"""Loops of symbolic length: the body is executed once from a generic state; the
state after m iterations is a closed form (sum, product, each position written
once) whose inductive step is proved, or a function defined by recursion."""
import itertools
import sys
import numpy as _np
from .terms import *
from . import terms as tm
from . import sym
from .sym import *
from . import prover

DEBUG = 0
_cnt = itertools.count()


class SZip:
    def __init__(self, its):
        self.its = [x for x in its]

    def length(self):
        S = sym.S
        r = None
        for x in self.its:
            n = itlen(x)
            if r is None or r is n or S.ctx.valid(le(n, r)):
                r = n
            elif not S.ctx.valid(le(r, n)):
                if S.decide(le(n, r)):
                    r = n
        return r

    def get(self, k):
        return tuple(itget(x, k) for x in self.its)


class SEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, tm.toI(term(start))

    def length(self):
        return itlen(self.it)

    def get(self, k):
        return (wrap(add(self.start, k)), itget(self.it, k))


class SShift:
    """all items but the first"""

    def __init__(self, it):
        self.it = it

    def length(self):
        return sub(itlen(self.it), I1)

    def get(self, k):
        return itget(self.it, add(k, I1))


def itlen(x):
    if isinstance(x, (SRange, SZip, SEnum, SShift)):
        return x.length()
    if isinstance(x, SList):
        return x.n
    if isinstance(x, SArr):
        return dimsize(x.vshape[0])
    if isinstance(x, range):
        return ic(len(x))
    if isinstance(x, (list, tuple, _np.ndarray)):
        return ic(len(x))
    raise Unsupported("iteration over %s" % type(x).__name__)


def itget(x, k):
    """k-th item (k within range)"""
    if isinstance(x, (SRange, SZip, SEnum, SShift)):
        return x.get(k)
    if isinstance(x, SList):
        return x.get(k)
    if isinstance(x, SArr):
        if isinstance(x.vshape[0], tuple):
            raise Unsupported("iteration over a flattened dimension")
        with sym.under(sym.inrange(k, x.vshape[0])):
            return x[wrap(k)]
    if isinstance(x, range):
        return wrap(add(ic(x.start), scale(x.step, k)))
    if isinstance(x, (list, tuple)):
        return aslist(x).get(k)
    if isinstance(x, _np.ndarray):
        return darr(x)[wrap(k)]
    raise Unsupported("iteration over %s" % type(x).__name__)


def tolist(x):
    return mklist(itlen(x), lambda k: itget(x, k))


def unroll(x):
    n = itlen(x)
    raise Unsupported("loop of symbolic length with early exit")


def getlocals(*pairs):
    d = {}
    for n, f in pairs:
        try:
            d[n] = f()
        except NameError:
            pass
    return d


def facts(base, ctx, conds):
    bs = base.set
    cs = set(conds.args) if conds.op == "and" else {conds}
    return [a for a in ctx.asm if a not in bs and a not in cs]


# --------------------------------------------------------------------------- comprehensions
def comp(kind, f, it, cond):
    from .load import symit, conc
    if isinstance(it, Choice):
        it = it.resolve()
    if not symit(it):
        l = [f(x) for x in conc(it) if cond is None or cond(x)]
        if kind == "list":
            return l
        if kind == "set":
            return set(l)
        if kind == "dict":
            return dict(l)
        return iter(l) if not any(shimsym(y) for y in l) else l
    if kind in ("set", "dict"):
        raise Unsupported("%s comprehension of symbolic length%s" % (kind, " with condition" if cond else ""))
    S = sym.S
    n = itlen(it)
    if cond is not None:
        return filtered(kind, f, it, cond, n)
    p = fresh("p", "I")
    old, oldlog = S.ctx, S.writelog
    S.ctx = S.ctx.extend(le(I0, p), lt(p, n))
    base = S.ctx
    mark = Buf._n
    S.writelog = []
    S.generic.append(p)
    try:
        if not base.feasible():
            return []
        res = S.explore(lambda: f(itget(it, p)))
        wl = S.writelog
    finally:
        S.writelog = oldlog
        S.ctx = old
        S.generic.pop()
    for w in wl:
        if isinstance(w[0], SList) or w[0].id <= mark:
            raise Unsupported("comprehension with side effects")
    val = None
    exc = [(c, v) for _, c, k, v in res if k == "exc"]
    ok = [(cx, c, v) for cx, c, k, v in res if k == "ret"]
    for c, e in exc:
        E = Exists(I0, n, lambda q, c=c: subst(c, {p: q}))
        if S.decide(E):
            raise e
    if not ok:
        raise Infeasible()
    for cx, c, v in ok:
        for a in facts(base, cx, c):
            S.assume(Forall(I0, n, lambda q: implies(subst(c, {p: q}), subst(a, {p: q}))))
    val = ok[-1][2]
    for cx, c, v in reversed(ok[:-1]):
        val = vmerge(c, v, val)
    return SList(n, lambda k: vsubst(val, {p: k})) if not isconst(n) else [vsubst(val, {p: ic(k)}) for k in range(int(cval(n)))]


def filtered(kind, f, it, cond, n):
    """[f(x) for x in it if cond(x)]: the elements at the positions where the condition holds, in order (np.where)"""
    if isconst(n):
        raise Unsupported("comprehension with condition")
    m = comp("list", lambda x: wrap(term(bool_(cond(x)))), it, None)
    if not isinstance(m, SList):
        return m
    w = sym.where(sym.darr(m))[0]
    g = w.snap()
    r = comp(kind, f, Picked(w.vshape[0], lambda k: itget(it, g(k))), None)
    if isinstance(r, SList):
        q = fresh("q", "I")
        v = r.get(q)
        if isinstance(v, sym.Sym) and v.t is g(q):
            r.index = w
    return r


class Picked(SList):
    pass


def bool_(x):
    if isinstance(x, (bool, sym.Sym)):
        return x
    return bool(x)


def shimsym(x):
    from .shim import issym
    return issym(x)


# --------------------------------------------------------------------------- applications
def mapapps(t, fns, memo=None):
    """replace applications of the named functions"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("var", "const"):
        return t
    if t.op == "lam":
        f = fresh("b", t.args[1])
        body = open_(t, f)
        nb = mapapps(body, fns)
        r = t if nb is body else close(f, nb)
    else:
        na = tuple(mapapps(a, fns, memo) if isinstance(a, T) else a for a in t.args)
        if t.op == "app" and na[0] in fns:
            r = fns[na[0]](na[1:])
        else:
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort)
    memo[t] = r
    return r


def hasapp(t, names):
    return any(x.op == "app" and x.args[0] in names for x in subterms(t))


def walk(t, ctx, f):
    """rewrites applications top-down knowing the conditions and ranges above them: f(t, ctx) -> replacement or None"""
    if not isinstance(t, T) or t.op in ("var", "const"):
        return t
    if t.op == "app":
        r = f(t, ctx)
        if r is not None:
            return r
    if t.op == "ite":
        c = walk(t.args[0], ctx, f)
        return ite(c, walk(t.args[1], ctx.extend(c), f), walk(t.args[2], ctx.extend(not_(c)), f))
    if t.op in ("sum", "prod", "exists", "forall"):
        lo, hi, l = t.args
        v = boundvar(l) if False else fresh("b", "I")
        body = open_(l, v)
        nb = walk(body, ctx.extend(le(lo, v), lt(v, hi)), f)
        lo2, hi2 = walk(lo, ctx, f), walk(hi, ctx, f)
        return t if nb is body and lo2 is lo and hi2 is hi else rebuild(t.op, (lo2, hi2, l if nb is body else close(v, nb)), t.sort)
    if t.op == "lam":
        v = fresh("b", t.args[1])
        body = open_(t, v)
        nb = walk(body, ctx, f)
        return t if nb is body else close(v, nb)
    na = tuple(walk(a, ctx, f) if isinstance(a, T) else a for a in t.args)
    return t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort)


class Ghost:
    """function defined by the verifier: 'time' recursion G(params, m, q) or direct definition"""

    def __init__(self, name, kind, params, q, sort, init=None, step=None, i=None, body=None):
        self.name, self.kind, self.params, self.q, self.sort = name, kind, tuple(params), tuple(q), sort
        self.init, self.step, self.i, self.body = init, step, i, body

    def map(self, fns):
        for k in ("init", "step", "body"):
            v = getattr(self, k)
            if v is not None:
                setattr(self, k, mapapps(v, fns))

    def unfold(self, args, ctx):
        np_ = len(self.params)
        if self.kind == "time":
            m = args[np_]
            sm = dict(zip(self.params, args[:np_]))
            sm.update(zip(self.q, args[np_ + 1:]))
            if ctx.valid(eq(m, I0)):
                return subst(self.init, sm)
            if ctx.valid(le(I1, m)):
                sm[self.i] = sub(m, I1)
                return subst(self.step, sm)
            return None
        sm = dict(zip(self.params, args[:np_]))
        sm.update(zip(self.q, args[np_:]))
        return subst(self.body, sm)


GHOSTKEYS = {}         # definition -> (names, ghosts)


def unfolder(S):
    def unf(x, ctx):
        g = S.ghosts.get(x.args[0])
        if g is None:
            return None
        return g.unfold(x.args[1:], ctx)
    return unf


def split_acc(t, G):
    """t == G + d ?  -> d"""
    if t is G:
        return R0 if t.sort == "R" else I0
    if t.op == "ite":
        a, b = split_acc(t.args[1], G), split_acc(t.args[2], G)
        if a is None or b is None or G in subterms(t.args[0]):
            return None
        return ite(t.args[0], a, b)
    if t.sort not in "RI":
        return None
    d = sub(t, G)
    if G in subterms(d):
        if t.op == "+":
            # G possibly below an ite inside of the sum
            ites = [a for a in t.args if a.op == "ite" or (a.op == "*" and any(x.op == "ite" for x in a.args if isinstance(x, T)))]
            for a in t.args:
                if a.op == "ite" and G in subterms(a):
                    rest = sub(t, a)
                    return split_acc(ite(a.args[0], add(rest, a.args[1]), add(rest, a.args[2])), G)
        return None
    return d


def split_mul(t, G):
    if t is G:
        return R1
    if t.op == "ite":
        a, b = split_mul(t.args[1], G), split_mul(t.args[2], G)
        if a is None or b is None or G in subterms(t.args[0]):
            return None
        return ite(t.args[0], a, b)
    if t.op == "*" and sum(1 for a in t.args if a is G) == 1:
        d = mul(*[a for a in t.args if a is not G])
        return None if G in subterms(d) else d
    return None


def refocus(t, G, qs, conds=()):
    """below a condition q == f, an entry that is read at f is the entry at q"""
    if t.op != "ite":
        if not conds or t.sort not in "RIB":
            return t
        m = {}
        for x in subterms(t):
            if x.op == "app" and x.args[0] == G.args[0] and len(x.args) == len(G.args) and x is not G:
                for a, b in zip(x.args[1:], G.args[1:]):
                    if a is not b and not (b in qs and any(pinned(c, b) is a for c in conds)):
                        break
                else:
                    m[x] = G
        return replace(t, m) if m else t
    c = t.args[0]
    return ite(c, refocus(t.args[1], G, qs, conds + (c,)), refocus(t.args[2], G, qs, conds + ((not_(c),) if c.op == "not" or c.op == "or" else ())))


def leaves(t, G, g=TRUE):
    if t.op == "ite" and not (t.args[0].bad):
        c = t.args[0]
        return leaves(t.args[1], G, and_(g, c)) + leaves(t.args[2], G, and_(g, not_(c)))
    return [(g, t)]


def pinned(c, i):
    """index e with  c -> i == e"""
    cs = c.args if c.op == "and" else (c,)
    for a in cs:
        if a.op == "eq" and a.args[0].sort == "I":
            acc, k = lin(a.args[0])
            if abs(acc.get(i, 0)) == 1:
                rest = sub(a.args[0], scale(acc[i], i))
                if i not in rest.fv:
                    return scale(-1 / acc[i], rest)
    return None


class Comp:
    """one component of the loop state"""


class Iteration(BaseException):
    """a path of the memo rule: one arbitrary iteration has been executed"""

    def __init__(self, i, effects):
        self.i, self.effects = i, effects


class GoneUsed(Unsupported):
    pass


class Gone:
    """a carried local whose value the loop rule does not describe: it can be handed on, never looked at"""

    def __getattribute__(self, k):
        raise GoneUsed("value carried by a loop")

    def _no(self, *a):
        raise GoneUsed("value carried by a loop")
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __hash__ = _no
    __contains__ = __setitem__ = __matmul__ = __rmatmul__ = __str__ = __repr__ = __format__ = _no


def seteq(a, b):
    """a == b for all indices, quietly"""
    S = sym.S
    if a is b:
        return True
    if not (isinstance(a, (SArr, Sym, int, float)) and isinstance(b, (SArr, Sym, int, float))):
        return False
    a, b = darr(a), darr(b)
    if len(a.vshape) != len(b.vshape):
        return False
    if any(isinstance(d, tuple) for d in a.vshape + b.vshape):
        return False
    ix = [fresh("i", "I") for _ in a.vshape]
    rng = [c for i, n in zip(ix, b.vshape) for c in (le(I0, i), lt(i, n))]
    gs = [(eq(p, q), S.ctx) for p, q in zip(a.vshape, b.vshape)] + [(eq(toR(a.at(*ix)), toR(b.at(*ix))), S.ctx.extend(*rng))]
    for g, c in gs:
        try:
            prover.prove(g, c, {"time": 20, "unfold": unfolder(S)})
        except (prover.ProofFail, prover.Undefined, prover.Budget, RecursionError):
            return False
    return True


def memoloop(sinks):
    """Loop rule for bodies that keep a memo: the only effects on outer objects go to the sinks (objects with a list .log,
    emptied here), and the locals carried between iterations are either still the initial ones or those an earlier iteration
    j, started from the initial ones, leaves behind.  This invariant is proved for an arbitrary iteration i from both kinds
    of state; a path ends after iteration i (raising Iteration with its effects) or after the loop."""

    def rule(it, n, body, getl, setl):
        S = sym.S
        pre = getl()

        def run(k):
            for x in sinks:
                del x.log[:]
            mark, old = Buf._n, S.writelog
            S.writelog = []
            S.looprule = None
            try:
                body(itget(it, k))
                wl = S.writelog
            finally:
                S.writelog = old
                S.looprule = rule
            if any(w[0].id <= mark for w in wl if isinstance(w[0], (Buf, sym.Touch)) and getattr(w[0], "obj", None) not in sinks):
                raise Unsupported("memo rule: a loop writes an outer object")
            if any(isinstance(w[0], SList) for w in wl):
                raise Unsupported("memo rule: a loop extends a list")
            post = getl()
            return {k: post[k] for k in pre}, [list(x.log) for x in sinks]
        if not S.decide(fresh("iteration", "B")):
            setl(dict(pre, **{k: Gone() for k in S.memo_carried}))
            for x in sinks:
                del x.log[:]
            return
        i = fresh("i", "I")
        S.ctx = S.ctx.extend(le(I0, i), lt(i, n))
        if not S.ctx.feasible():
            raise Infeasible()
        post1, eff1 = run(i)
        S.memo_carried |= {k for k in pre if post1[k] is not pre[k]}
        if not S.memo_carried or S.decide(fresh("first", "B")):
            raise Iteration(i, eff1)
        j = fresh("j", "I")
        S.ctx = S.ctx.extend(le(I0, j), lt(j, i))
        if not S.ctx.feasible():
            raise Infeasible()
        setl(pre)
        st, _ = run(j)
        setl(st)
        post2, eff2 = run(i)
        if not all(post2[k] is st[k] for k in pre) and not all(seteq(post2[k], post1[k]) for k in pre):
            raise Unsupported("memo rule: the locals carried by the loop are not those of one earlier iteration")
        raise Iteration(i, eff2)
    return rule


def loop(it, body, getl, setl, where, live, apps, peeled=0):
    """the loop rule; where a carried local only has a describable value after the first iterations, these are peeled off"""
    S = sym.S
    ng = set(S.ghosts)
    try:
        return loop1(it, body, getl, setl, where, live, apps)
    except GoneUsed:
        if peeled >= 2 or getattr(S, "looprule", None) is not None or isconst(itlen(it)):
            raise
    for g in set(S.ghosts) - ng:
        del S.ghosts[g]
    if not S.decide(lt(I0, itlen(it))):
        return
    body(itget(it, I0))
    return loop(SShift(it), body, getl, setl, where, live, apps, peeled + 1)


def loop1(it, body, getl, setl, where, live, apps):
    S = sym.S
    n = itlen(it)
    if getattr(S, "looprule", None) is not None:
        return S.looprule(it, n, body, getl, setl)
    if isconst(n):
        for k in range(int(cval(n))):
            body(itget(it, ic(k)))
        return
    if not S.ctx.extend(lt(I0, n)).feasible():
        return
    S.loops += 1
    pre = getl()
    for x in apps:
        if isinstance(pre.get(x), list):
            # references: the variable, pre, the argument of getrefcount (and the birth record)
            b = BIRTH.get(id(pre[x]))
            if sys.getrefcount(pre[x]) > 3 + (b is not None and b[0] is pre[x]):
                raise Unsupported("a loop extends a list that has another name (%s)" % x)
            d = dict(pre)
            d[x] = aslist(list(pre[x]))
            setl(d)
            pre = getl()
    lists = [pre[x] for x in apps if isinstance(pre.get(x), SList)]
    params = tuple(S.generic)
    i = fresh("i", "I")
    uid = next(_cnt)
    old, oldlog = S.ctx, S.writelog
    W = []                 # buffers
    L = []                 # carried locals
    shot = shallow(pre)
    lpre = [(l, l.n, l.get) for l in lists]
    mark = Buf._n
    wpre = {}

    def gname(k):
        return "%s#%d.%s" % (where.split(".")[-1], uid, k)

    def gsort(dt):
        return {"i": "I", "b": "B"}.get(dt, "R")

    X = set()              # carried locals whose value is not described (set by every iteration, only handed on)
    for attempt in range(8):
        shapes = {}
        gvals = {}
        for nme in L:
            v = pre[nme]
            if nme in X:
                continue
            if isinstance(v, SArr):
                dts = lastdt.get(nme, v.dt)
                dt = joindt(dts, v.dt)
                gvals[nme] = ("arr", gname(nme), tuple(v.vshape), dt)
            elif isnum(v):
                t = term(v)
                so = "R" if (t.sort == "R" or lastdt.get(nme, t.sort) == "R") else t.sort
                gvals[nme] = ("num", gname(nme), (), so)
            else:
                X.add(nme)

        def restore():
            for b in W:
                nm_ = gname("b%d" % W.index(b))
                b.elem = memo_app(nm_, params + (i,), gsort(b.dtype))
            d = dict(pre)
            for nme, g in gvals.items():
                if g[0] == "arr":
                    d[nme] = SArr(Buf(g[2], memo_app(g[1], params + (i,), gsort(g[3])), g[3]))
                else:
                    d[nme] = wrap(app(g[1], params + (i,), g[3]))
            for nme in X:
                d[nme] = GONE
            setl(d)
            for l, n0, g0 in lpre:
                l.n = add(n0, i)
                l.get = lambda k: (_ for _ in ()).throw(Unsupported("list element read while the list is built"))

        def run():
            start = getl()
            body(itget(it, i))
            post = getl()
            if shallow({k: pre[k] for k in pre}) != shot:
                raise Unsupported("container modified in a loop")
            ch = {k: v for k, v in post.items() if k not in start or v is not start[k]}
            lst = [(l.n, l.get) for l in lists]
            return {b: b.elem for b in allw()}, ch, lst

        wl = []

        def allw():
            out = list(W)
            for w in S.writelog:
                if isinstance(w[0], Buf) and w[0].id <= mark and w[0] not in out:
                    out.append(w[0])
            return out
        S.ctx = old.extend(le(I0, i), lt(i, n))
        base = S.ctx
        S.writelog = []
        S.generic.append(i)
        nghost = set(S.ghosts)
        try:
            for b in W:
                wpre.setdefault(b, b.elem)
            res = S.explore(run, restore)
            wl = S.writelog
        finally:
            S.generic.pop()
            S.writelog = oldlog
            S.ctx = old
            if any(isinstance(w[0], sym.Touch) and w[0].id <= mark for w in wl):
                raise Unsupported("a loop assigns attributes or items of an object that exists outside of it")
            # roll back
            seen = {}
            for w in wl:
                if isinstance(w[0], Buf) and w[0].id <= mark and w[0] not in seen:
                    seen[w[0]] = w[1]
            for b, e in seen.items():
                if b not in wpre:
                    wpre[b] = e
                b.elem = wpre[b]
            for b in W:
                b.elem = wpre[b]
            for l, n0, g0 in lpre:
                l.n, l.get = n0, g0
            setl(pre)
        newW = [b for b in seen if b not in W]
        newL = []
        lastdt = locals().get("lastdt", {}) if attempt else {}
        again = False
        for cx, c, k, v in res:
            if k != "ret":
                continue
            for nme, val in v[1].items():
                if nme in pre and nme not in L and nme not in newL and not (isinstance(pre[nme], SList) and pre[nme] in lists):
                    if val is pre[nme]:
                        continue
                    newL.append(nme)
                if nme in gvals and nme not in X and not fits(cx, gvals[nme], val):
                    X.add(nme)
                    again = True
                if isinstance(val, SArr):
                    o = lastdt.get(nme)
                    lastdt[nme] = joindt(val.dt, o) if isinstance(o, str) and o in "fibc" else val.dt
                elif isnum(val) and nme in gvals:
                    t = term(val)
                    if t.sort == "R" and gvals[nme][3] != "R":
                        lastdt[nme] = "R"
                        again = True
        # drop carried locals that are never read before they are written
        if not newW and not newL and not again:
            break
        W += newW
        L += newL
        for g in set(S.ghosts) - nghost:
            del S.ghosts[g]
    else:
        raise Unsupported("loop state not found")
    inner = [g for g in S.ghosts if g not in nghost]
    oks = [(cx, c, v) for cx, c, k, v in res if k == "ret"]
    excs = [(c, v) for cx, c, k, v in res if k == "exc"]

    # ---- components
    comps = []

    def merged(fs):
        """fs: per path term"""
        r = fs[-1]
        for (cx, c, v), t in zip(reversed(oks[:-1]), reversed(fs[:-1])):
            r = ite(c, t, r)
        return r
    if not oks:
        # every iteration raises
        if S.decide(lt(I0, n)):
            raise excs[0][1]
        return
    pathval = oks
    for k, b in enumerate(W):
        c = Comp()
        c.kind, c.obj, c.name = "buf", b, gname("b%d" % k)
        qs = tuple(freshidx(d, "q") for d in b.shape)
        c.q = tuple(x for y in qs for x in flatvars(y))
        c.rng = and_(*[inrange(a, d) for a, d in zip(qs, b.shape)])
        c.sort = gsort(b.dtype)
        c.init = wpre[b](*qs)
        es = []
        for cx, cc, v in oks:
            with under(c.rng):
                e = v[0].get(b)
                es.append(e(*qs) if e else app(c.name, params + (i,) + c.q, c.sort))
        c.new = merged(es)
        comps.append(c)
    for nme in L:
        if nme in X:
            continue
        g = gvals[nme]
        c = Comp()
        c.kind, c.obj, c.name = "loc", nme, g[1]
        c.shape = g[2]
        c.dt = g[3]
        qs = tuple(freshidx(d, "q") for d in g[2])
        c.qs = qs
        c.q = tuple(x for y in qs for x in flatvars(y))
        c.rng = and_(*[inrange(a, d) for a, d in zip(qs, g[2])])
        c.sort = gsort(g[3]) if g[0] == "arr" else g[3]
        conv = lambda t: todt(t, {"R": "f", "I": "i", "B": "b"}[c.sort])
        c.init = conv(darr(pre[nme]).at(*qs))
        es = []
        for cx, cc, v in oks:
            val = v[1].get(nme)
            if nme not in v[1]:
                es.append(app(c.name, params + (i,) + c.q, c.sort))
            elif isinstance(val, SArr) or isnum(val):
                val = darr(val)
                if len(val.vshape) != len(g[2]) or not all(x == y or (not isinstance(x, tuple) and not isinstance(y, tuple) and cx.valid(eq(x, y))) for x, y in zip(val.vshape, g[2])):
                    raise Unsupported("loop-carried array changes shape")
                with under(c.rng):
                    es.append(conv(val.at(*qs)))
            else:
                raise Unsupported("loop-carried value changes type")
        c.new = merged(es)
        comps.append(c)

    # ---- solve
    names = {c.name for c in comps}
    np_ = len(params)
    m = fresh("m", "I")

    def closedfn(c):
        T_ = c.closed

        def f(args):
            sm = dict(zip(params, args[:np_]))
            sm[m] = args[np_]
            sm.update(zip(c.q, args[np_ + 1:]))
            return subst(T_, sm)
        return f
    solved = {}
    todo = list(comps)
    new = {c: refocus(c.new, app(c.name, params + (i,) + c.q, c.sort), c.q) if c.q else c.new for c in comps}
    if __import__('os').environ.get('VPDBG'):
        for c in comps: print('COMP', where, c.name, show(app(c.name, params + (i,) + c.q, c.sort)), ':=', show(c.new)[:1500], 'RNG', show(c.rng))
    progress = True
    while todo and progress:
        progress = False
        for c in list(todo):
            G = app(c.name, params + (i,) + c.q, c.sort)
            e = new[c]
            c.closed = None
            if e is G:
                c.closed = c.init
            unsolved = {x.name for x in todo}
            if c.closed is None:
                d = split_acc(e, G)
                if d is not None and not hasapp(d, unsolved):
                    if c.sort == "R":
                        c.closed = add(c.init, Sum(I0, m, lambda k: subst(toR(d), {i: k})))
                    elif i not in d.fv:
                        c.closed = add(c.init, mul(m, d))
            if c.closed is None and c.sort == "R":
                d = split_mul(e, G)
                if d is not None and not hasapp(d, unsolved):
                    c.closed = mul(c.init, Prod(I0, m, lambda k: subst(d, {i: k})))
            if c.closed is None and not hasapp(e, unsolved | {c.name}):
                # overwritten in every iteration: the value of the last one
                c.closed = ite(eq(m, I0), c.init, subst(e, {i: sub(m, I1)}))
            if c.closed is not None:
                c.how = "closed"
                solved[c.name] = closedfn(c)
                todo.remove(c)
                new = {x: mapapps(y, solved) for x, y in new.items()}
                progress = True
    # positions written once
    once = []
    for c in todo:
        G = app(c.name, params + (i,) + c.q, c.sort)
        lv = [(g, t) for g, t in leaves(new[c], G) if t is not G and g is not FALSE]
        if not lv or not c.q:
            continue
        cond = or_(*[g for g, t in lv])
        f = None
        for g, t in lv:
            f = pinned(g, i)
            if f is not None:
                break
        if f is None:
            continue
        ctx = base.extend(c.rng)
        if not ctx.valid(implies(cond, eq(i, f))) or hasapp(cond, {x.name for x in todo}):
            continue
        once.append((c, cond, f))
    rec = {c.name for c, _, _ in once}
    for c, cond, f in once:
        # value at the writing iteration
        e = subst(new[c], {i: f})
        c.rname = c.name + ".val"
        c.cw = and_(subst(cond, {i: f}), le(I0, f), lt(f, m))
        G = app(c.name, params + (i,) + c.q, c.sort)
        # e without the leaf G
        val = None
        for g, t in reversed([(g, t) for g, t in leaves(new[c], G) if t is not G and g is not FALSE]):
            t = subst(t, {i: f})
            val = t if val is None else ite(subst(g, {i: f}), t, val)
        c.val = val
    def unwritten(t, ctx):
        """a position not yet written when it is read holds the initial value"""
        c = byname.get(t.args[0])
        if c is None:
            return None
        a = t.args[1:]
        if not all(x is y for x, y in zip(a, params)):
            return None
        sm = dict(zip(c.q, a[np_ + 1:]))
        sm[m] = a[np_]
        if ctx.valid(not_(subst(c.cw, sm))):
            return subst(c.init, sm)
        return None
    byname = {c.name: c for c, _, _ in once}
    for c, cond, f in once:
        if hasapp(c.val, set(byname)):
            c.val = walk(c.val, base.extend(c.rng).extend(subst(cond, {i: f})).extend(le(I0, f), lt(f, n)), unwritten)
    # values that refer (in a cycle) to the values themselves are definitions; the others are inlined in order
    onames = {c.name: c for c, _, _ in once}
    deps = {c: {onames[x.args[0]] for x in subterms(c.val) if x.op == "app" and x.args[0] in onames} for c, _, _ in once}

    def reach(c):
        seen, st = set(), list(deps[c])
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(deps[x])
        return seen
    fn2 = {}
    for c, _, _ in once:
        c.isrec = c in reach(c)
        if c.isrec:
            c.closed = ite(c.cw, app(c.rname, params + c.q, c.sort), c.init)
            fn2[c.name] = closedfn(c)
    pend = [c for c, _, _ in once if not c.isrec]
    while pend:
        c = next(c for c in pend if not (deps[c] & set(pend)))
        pend.remove(c)
        c.val = mapapps(c.val, fn2)
        c.closed = ite(c.cw, c.val, c.init)
        fn2[c.name] = closedfn(c)
    for c, cond, f in once:
        c.how = "once"
        if c.isrec:
            S.ghosts[c.rname] = Ghost(c.rname, "def", params, c.q, c.sort, body=c.val)
        todo.remove(c)
    solved.update(fn2)
    if DEBUG:
        for c in todo:
            print("TIME", c.name, show(new[c])[:1500])
    # the rest: defined by recursion over the iteration count
    for c in todo:
        c.how = "time"
        S.ghosts[c.name] = Ghost(c.name, "time", params, c.q, c.sort, init=c.init, step=c.new, i=i)
        c.closed = app(c.name, params + (m,) + c.q, c.sort)
    # substitute everywhere (closed forms of 'closed' components may be needed inside)
    for c in once:
        pass
    if solved:
        # values of 'once' components refer to the state at the start of their iteration
        for g in inner:
            S.ghosts[g].map(solved)
        for c, _, _ in once:
            if c.isrec:
                S.ghosts[c.rname].map(solved)
            else:
                pass
        for c in todo:
            S.ghosts[c.name].map(solved)
    # ---- loops with the same definition define the same functions
    made = [g for g in [c.rname for c, _, _ in once if c.isrec] + [c.name for c in todo]]
    if made:
        key = []
        self_ = {g: (lambda args, k=k: app("$self%d" % k, args, S.ghosts[made[k]].sort)) for k, g in enumerate(made)}
        for g in made:
            G = S.ghosts[g]
            ren = {v: var("$p%d" % k, v.sort) for k, v in enumerate(tuple(G.params) + tuple(G.q) + ((G.i,) if G.i is not None else ()))}
            key.append((G.kind, G.sort, len(G.params), len(G.q)) + tuple(None if t is None else subst(mapapps(t, self_), ren) for t in (G.init, G.step, G.body)))
        key = tuple(key)
        have, defs = GHOSTKEYS.get(key, (None, None))
        if have:
            for h, d in zip(have, defs):
                S.ghosts.setdefault(h, d)
            ren = {g: (lambda args, h=h: app(h, args, S.ghosts[h].sort)) for g, h in zip(made, have)}
            for g in made:
                del S.ghosts[g]
            inner = [g for g in inner if g in S.ghosts]
            for c in comps:
                c.closed = mapapps(c.closed, ren)
                if c.how != "time":
                    solved[c.name] = closedfn(c)
            for c in todo:
                solved[c.name] = ren[c.name]
        else:
            GHOSTKEYS[key] = (made, [S.ghosts[g] for g in made])
    # ---- the inductive steps
    hints = {"unfold": unfolder(S), "unfold_depth": 2, "time": 60}
    for c in comps:
        if c.how == "time":
            continue
        step = mapapps(c.new, solved)
        goal_l = step
        goal_r = subst(c.closed, {m: add(i, I1)})
        ctx = base.extend(c.rng)
        S.obligation("loop in %s: inductive step of %s" % (where, "buffer" if c.kind == "buf" else "local"),
                     ctx, goal_eq(goal_l, goal_r), hints)
        if c.how == "once" or True:
            init = subst(c.closed, {m: I0})
            S.obligation("loop in %s: initial state" % where, old.extend(c.rng), goal_eq(init, c.init), hints)
    # ---- facts assumed in the body hold for every iteration
    for cx, cc, v in oks:
        for a in facts(base, cx, cc):
            a2 = mapapps(implies(cc, a), solved)
            S.assume(Forall(I0, n, lambda k: subst(a2, {i: k})))
    for cc, e in excs:
        c2 = mapapps(cc, solved)
        if S.decide(Exists(I0, n, lambda k: subst(c2, {i: k}))):
            raise e
    # ---- state after the loop
    post = dict(pre)
    for c in comps:
        T_ = subst(c.closed, {m: n})
        if c.kind == "buf":
            c.obj.write(tmpl(T_, c.q))
        elif c.shape == () and not isinstance(pre[c.obj], SArr):
            post[c.obj] = wrap(T_)
        else:
            post[c.obj] = SArr(Buf(c.shape, tmpl(T_, c.q), c.dt))
    lists_post = []
    for k, l in enumerate(lists):
        n0, g0 = lpre[k][1:]
        vals = []
        for cx, cc, v in oks:
            ln, gt = v[2][k]
            if not base.valid(eq(ln, add(n0, i, I1))):
                if ln is add(n0, i):
                    vals.append(None)
                    continue
                raise Unsupported("list grows irregularly in a loop")
            vals.append(gt)
        if all(v is None for v in vals):
            continue
        if any(v is None for v in vals):
            raise Unsupported("conditional append in a loop")
        with under(le(I0, i), lt(i, n)):
            item = None
            for (cx, cc, v), gt in reversed(list(zip(oks, vals))):
                x = gt(add(n0, i))
                item = x if item is None else vmerge(cc, x, item)
        item = vmapapps(item, solved)
        l.append_range(n0, g0, n, (lambda item: lambda k_: vsubst(item, {i: k_}))(item))
    body_bound = {}
    for nme in live:
        if (nme in L and nme not in X) or nme in apps:
            continue
        vals = [v[1].get(nme, MISSING) for cx, cc, v in oks]
        if all(v is MISSING for v in vals):
            continue
        if nme in pre and nme not in X:
            continue
        body_bound[nme] = vals
    some = not body_bound or S.decide(lt(I0, n))
    for nme in X:
        post[nme] = GONE if some else pre[nme]
    if body_bound and some:
        for nme, vals in body_bound.items():
            if any(v is MISSING for v in vals):
                continue
            val = None
            try:
                for (cx, cc, v), x in reversed(list(zip(oks, vals))):
                    val = x if val is None else vmerge(cc, x, val)
                post[nme] = vsubst(vmapapps(val, solved), {i: sub(n, I1)})
            except Unsupported:
                pass
    setl(post)


MISSING = object()
GONE = Gone()


def seen(x):
    """an operand of 'is'"""
    if type(x) is Gone:
        raise GoneUsed("value carried by a loop")
    return x


def fits(ctx, g, val):
    """can the carried local described by g hold val?"""
    if isinstance(val, SArr):
        if any(isinstance(d, tuple) for d in val.vshape + g[2]):
            return len(val.vshape) == len(g[2]) and all(x == y for x, y in zip(val.vshape, g[2]))
        return len(val.vshape) == len(g[2]) and all(ctx.valid(eq(x, y)) for x, y in zip(val.vshape, g[2]))
    return isnum(val) and g[2] == ()


def vmapapps(v, fns):
    if not fns:
        return v
    if isinstance(v, Sym):
        return wrap(mapapps(v.t, fns))
    if isinstance(v, SArr):
        g = v.snap()
        return SArr.new(v.vshape, lambda *q: mapapps(g(*q), fns), v.dt)
    if isinstance(v, (list, tuple)):
        return type(v)(vmapapps(x, fns) for x in v)
    if isinstance(v, SList):
        return SList(mapapps(v.n, fns), lambda k: vmapapps(v.get(k), fns))
    if isinstance(v, Choice):
        return Choice(mapapps(v._c, fns), vmapapps(v._a, fns), vmapapps(v._b, fns))
    return v


def _append_range(self, n0, g0, n, item):
    if sym.S.writelog is not None:
        sym.S.writelog.append((self, n0, g0))
    self.get = lambda k: vite(lt(k, n0), lambda: g0(k), lambda: item(sub(k, n0))) if n0 is not I0 else item(k)
    self.n = add(n0, n)


SList.append_range = _append_range


def tmpl(t, q):
    def elem(*idx):
        flat = [x for y in idx for x in flatvars(y)]
        return subst(t, dict(zip(q, flat)))
    return elem


def memo_app(name, pre, sort):
    def elem(*idx):
        return app(name, pre + tuple(x for y in idx for x in flatvars(y)), sort)
    return elem


def goal_eq(a, b):
    return eq(a, b)


def shallow(d, depth=3):
    out = []
    for k in sorted(d, key=str):
        v = d[k]
        if isinstance(v, list) and depth:
            out.append((k, id(v), tuple(shallow(dict(enumerate(v)), depth - 1))))
        elif isinstance(v, dict) and depth:
            out.append((k, id(v), tuple(shallow(v, depth - 1))))
        else:
            out.append((k, id(v)))
    return out
