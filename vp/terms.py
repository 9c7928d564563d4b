"""Hash-consed terms of the logic used by the verifier.

Sorts: 'I' mathematical integers, 'R' numbers of a field of characteristic 0
(real, or complex where the code is complex), 'B' truth values, 'L' lambdas,
'E' opaque entities.

Undefinedness (division by zero outside of numpy's 1/0 = inf convention, use
of inf as a number, reading an unbound value) is the absorbing term UNDEF; it
only occurs below an `ite` guard, and a goal that can reach it is unprovable.
"""
from fractions import Fraction
import itertools
import zlib

_table = {}
_ids = itertools.count()
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "sort", "fv", "h", "id", "bad", "key", "__weakref__")

    def __repr__(self):
        return show(self)

    # structural identity = object identity
    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise TypeError("term used as a Python truth value")


_crc = {}


def _h(s):
    r = _crc.get(s)
    if r is None:
        r = _crc[s] = zlib.crc32(s.encode())
    return r


def _skey(op, args, sort):
    if op == "var":
        n = args[0]
        return 1 if "!" in n or n[0] == "@" else _h(n)
    return hash((_h(op),) + tuple(a.key[0] if isinstance(a, T) else _h(a) if isinstance(a, str) else hash(a) for a in args
                                  if not (op == "lam" and not isinstance(a, T)))) & 0xffffffffffff


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else ("c", type(a).__name__, a) for a in args), sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = object.__new__(T)
    t.op, t.args, t.sort = op, tuple(args), sort
    fv, h, bad = EMPTY, 0, False
    if op == "var":
        pass
    for a in t.args:
        if isinstance(a, T):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.h > h:
                h = a.h
            if a.bad:
                bad = True
    t.id = next(_ids)
    if op == "var":
        fv = frozenset((t,))
    elif op == "lam":
        v = mk("var", ("@%d" % t.args[0], t.args[1]), t.args[1])
        fv = fv - {v}
        h = t.args[0]
    if op in ("undef", "inf"):
        bad = True
    t.fv, t.h, t.bad = fv, h, bad
    # order of the arguments of commutative operations: by structure (names of bound and of fresh variables
    # are not part of it), so that alpha-equivalent terms are written in the same way
    t.key = (_skey(op, t.args, sort), t.id)
    _table[key] = t
    return t


# ----------------------------------------------------------------- leaves
def var(name, sort):
    return mk("var", (name, sort), sort)


_fresh = itertools.count(1)


def fresh(base, sort):
    return var("%s!%d" % (base, next(_fresh)), sort)


def ic(n):
    return mk("const", (Fraction(int(n)),), "I")


def rc(x):
    if isinstance(x, float):
        x = Fraction(x)
    return mk("const", (Fraction(x),), "R")


TRUE = mk("const", (True,), "B")
FALSE = mk("const", (False,), "B")
UNDEF = mk("undef", (), "R")
I0, I1 = ic(0), ic(1)
R0, R1 = rc(0), rc(1)


def bc(b):
    return TRUE if b else FALSE


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def inf(sign):
    """sign: +1, -1 or a Bool term (True: +inf)"""
    if sign == 1:
        return mk("inf", (TRUE,), "R")
    if sign == -1:
        return mk("inf", (FALSE,), "R")
    return mk("inf", (sign,), "R")


# ----------------------------------------------------------------- ite lifting for UNDEF / inf
def _badite(t):
    """ite having UNDEF/inf as a direct branch (possibly nested)"""
    return t.op == "ite" and (t.args[1].op in ("undef", "inf") or t.args[2].op in ("undef", "inf")
                              or _badite(t.args[1]) or _badite(t.args[2]))


def _lift(args, build):
    """Lift the first bad ite among args out of the operation"""
    for n, a in enumerate(args):
        if isinstance(a, T) and a.bad and a.op == "ite" and _badite(a):
            c, x, y = a.args
            l = list(args)
            l[n] = x
            tx = build(*l)
            l[n] = y
            ty = build(*l)
            return ite(c, tx, ty)
    return None


# ----------------------------------------------------------------- arithmetic
def toR(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, R1, R0)
    if t.op == "const":
        return rc(cval(t))
    if t.op == "ite":
        return ite(t.args[0], toR(t.args[1]), toR(t.args[2]))
    if t.op == "+":
        return add(*[toR(a) for a in t.args])
    if t.op == "*":
        return mul(*[toR(a) for a in t.args])
    if t.op == "pow" and isinstance(t.args[1], int):
        return mul(*([toR(t.args[0])] * t.args[1]))
    return mk("toR", (t,), "R")


def toI(t):
    if t.sort == "I":
        return t
    if t.sort == "B":
        return ite(t, I1, I0)
    raise TypeError("real used as an integer: %s" % t)


def _coef(t):
    """(coefficient, rest) of a term"""
    if t.op == "const":
        return cval(t), None
    if t.op == "*" and t.args[0].op == "const":
        c = cval(t.args[0])
        rest = t.args[1:]
        return c, (rest[0] if len(rest) == 1 else mk("*", rest, t.sort))
    return Fraction(1), t


def add(*ts):
    if len(ts) == 1:
        return ts[0]
    sort = "R" if any(t.sort == "R" for t in ts) else "I"
    if sort == "R":
        ts = [toR(t) for t in ts]
        for t in ts:
            if t.bad:
                if t.op == "undef":
                    return UNDEF
                if t.op == "inf":
                    # finite + inf is an infinity of the same sign
                    others = [u for u in ts if u is not t]
                    if all(not u.bad for u in others):
                        return t
                    if not any(_badite(u) for u in others):
                        return UNDEF
        l = _lift(ts, add)
        if l is not None:
            return l
    else:
        ts = [toI(t) for t in ts]
    acc, k = {}, Fraction(0)
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "+":
            stack.extend(reversed(t.args))
            continue
        c, r = _coef(t)
        if r is None:
            k += c
        else:
            acc[r] = acc.get(r, 0) + c
    out = []
    for r in sorted(acc, key=lambda r: r.key):
        c = acc[r]
        if c != 0:
            out.append(scale(c, r))
    K = rc if sort == "R" else ic
    if k != 0 or not out:
        out.append(mk("const", (k,), sort))
    if len(out) == 1:
        return out[0]
    return mk("+", out, sort)


def scale(c, t):
    c = Fraction(c)
    if c == 1:
        return t
    if c == 0:
        return mk("const", (Fraction(0),), t.sort)
    if t.op == "const":
        return mk("const", (c * cval(t),), t.sort)
    if t.op == "+":
        return add(*[scale(c, a) for a in t.args])
    c0, r = _coef(t)
    c = c * c0
    if c == 1:
        return r
    cc = mk("const", (c,), t.sort)
    if r.op == "*":
        return mk("*", (cc,) + r.args, t.sort)
    return mk("*", (cc, r), t.sort)


def mul(*ts):
    if len(ts) == 1:
        return ts[0]
    sort = "R" if any(t.sort == "R" for t in ts) else "I"
    if sort == "R":
        ts = [toR(t) for t in ts]
        for t in ts:
            if t.op == "undef":
                return UNDEF
        l = _lift(ts, mul)
        if l is not None:
            return l
        if any(t.op == "inf" for t in ts):
            if all(t.op == "inf" or (t.op == "const" and cval(t) != 0) for t in ts):
                s = TRUE
                for t in ts:
                    p = t.args[0] if t.op == "inf" else bc(cval(t) > 0)
                    s = eq(s, p)
                return inf(s)
            return UNDEF
    else:
        ts = [toI(t) for t in ts]
    k = Fraction(1)
    acc = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "*":
            stack.extend(reversed(t.args))
        elif t.op == "const":
            k *= cval(t)
        elif t.op == "pow":
            acc[t.args[0]] = acc.get(t.args[0], 0) + t.args[1]
        elif t.op == "recip":
            acc[t] = acc.get(t, 0) + 1
        else:
            acc[t] = acc.get(t, 0) + 1
    if k == 0:
        return mk("const", (Fraction(0),), sort)
    sums = [t for t in acc if t.op == "+" and sort == "I"]
    if sums and sort == "I":
        s = sums[0]
        n = acc.pop(s)
        rest = [mk("const", (k,), sort)]
        for t, e in acc.items():
            rest += [t] * e
        rest += [s] * (n - 1)
        return add(*[mul(a, *rest) for a in s.args])
    out = []
    for t in sorted(acc, key=lambda t: t.key):
        e = acc[t]
        out.append(t if e == 1 else mk("pow", (t, e), sort))
    if not out:
        return mk("const", (k,), sort)
    if len(out) == 1:
        if k == 1:
            return out[0]
        return scale(k, out[0])
    r = mk("*", out, sort)
    if k != 1:
        r = mk("*", (mk("const", (k,), sort),) + r.args, sort)
    return r


def neg(t):
    return scale(-1, t) if t.sort != "R" or not t.bad else mul(rc(-1), t)


def sub(a, b):
    return add(a, neg(b))


def powi(t, n):
    """t**n for a concrete integer n >= 0"""
    n = int(n)
    assert n >= 0
    if n == 0:
        return mk("const", (Fraction(1),), t.sort)
    return mul(*([t] * n))


def recip(t):
    """total reciprocal (meaningless at 0: callers guard it)"""
    t = toR(t)
    if t.op == "undef":
        return UNDEF
    l = _lift([t], recip)
    if l is not None:
        return l
    if t.op == "inf":
        return R0
    if t.op == "const":
        if cval(t) == 0:
            return mk("recip", (t,), "R")
        return rc(1 / cval(t))
    if t.op == "recip":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], recip(t.args[1]), recip(t.args[2]))
    if t.op == "*":
        return mul(*[recip(a) for a in t.args])
    if t.op == "pow":
        return mul(*([recip(t.args[0])] * t.args[1]))
    c, r = _coef(t)
    if c != 1:
        return mul(rc(1 / c), recip(r))
    return mk("recip", (t,), "R")


def szero(t):
    """sign of the zero of a vanishing expression (unknown): Bool"""
    return app("szero", (t,), "B")


def div(a, b, infok=True):
    """numpy's a/b: inf for nonzero/0 (sign unknown), undefined for 0/0"""
    a, b = toR(a), toR(b)
    if a.op == "undef" or b.op == "undef":
        return UNDEF
    l = _lift([a, b], div)
    if l is not None:
        return l
    if b.op == "inf":
        return R0 if a.op != "inf" else UNDEF
    if a.op == "inf":
        return ite(eq(b, R0), a, UNDEF)
    z = eq(b, R0)
    if z is FALSE:
        return mul(a, recip(b))
    if a.op == "const" and cval(a) != 0:
        s = szero(b)
        if cval(a) < 0:
            s = not_(s)
        bad = inf(s)
    else:
        bad = UNDEF
    return ite(z, bad, mul(a, recip(b)))


def powt(b, e):
    """b**e with symbolic integer exponent"""
    b = toR(b)
    e = toI(e)
    if isconst(e):
        n = int(cval(e))
        return powi(b, n) if n >= 0 else recip(powi(b, -n))
    if isconst(b) and cval(b) in (0, 1):
        if cval(b) == 1:
            return R1
        return ite(eq(e, I0), R1, R0)
    return mk("powt", (b, e), "R")


def idiv(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return ic(cval(a) // cval(b))
    if isconst(b) and cval(b) == 1:
        return a
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return ic(cval(a) % cval(b))
    if isconst(b) and cval(b) == 1:
        return I0
    return mk("imod", (a, b), "I")


# ----------------------------------------------------------------- booleans
def not_(a):
    if a.op == "const":
        return FALSE if cval(a) else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le" and a.args[0].sort == "I":
        # not (t <= 0)  <=>  1 - t <= 0
        return _le0(sub(I1, a.args[0]))
    return mk("not", (a,), "B")


def and_(*ts):
    out = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "and":
            stack.extend(reversed(t.args))
        elif t is FALSE:
            return FALSE
        elif t is not TRUE:
            out[t] = True
    for t in out:
        if not_(t) in out:
            return FALSE
    l = sorted(out, key=lambda t: t.key)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk("and", l, "B")


def or_(*ts):
    out = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "or":
            stack.extend(reversed(t.args))
        elif t is TRUE:
            return TRUE
        elif t is not FALSE:
            out[t] = True
    for t in out:
        if not_(t) in out:
            return TRUE
    # (a & p) | (a & !p) = a
    ands = [t for t in out if t.op == "and"]
    for i, s in enumerate(ands):
        for t in ands[i + 1:]:
            a, b = set(s.args), set(t.args)
            if len(a) == len(b) and len(a - b) == 1 and not_(next(iter(a - b))) in b - a:
                r = [x for x in out if x is not s and x is not t]
                return or_(and_(*[x for x in s.args if x in b]), *r)
    l = sorted(out, key=lambda t: t.key)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk("or", l, "B")


def implies(a, b):
    return or_(not_(a), b)


def lin(t):
    """integer linear form: ({atom: coef}, const)"""
    acc, k = {}, Fraction(0)
    for a in (t.args if t.op == "+" else (t,)):
        c, r = _coef(a)
        if r is None:
            k += c
        else:
            acc[r] = acc.get(r, 0) + c
    return acc, k


def _le0(t):
    """t <= 0 for an integer term"""
    if t.op == "const":
        return bc(cval(t) <= 0)
    if t.op == "ite" and (t.args[1].op == "const" or t.args[2].op == "const"):
        return ite(t.args[0], _le0(t.args[1]), _le0(t.args[2]))
    acc, k = lin(t)
    import math
    g = 0
    for c in acc.values():
        if c.denominator != 1:
            return mk("le", (t,), "B")
        g = math.gcd(g, int(c))
    if g > 1:
        # sum(c/g a) <= floor(-k/g)
        m = (-k / g).__floor__()
        t = add(*([scale(c / g, r) for r, c in acc.items()] + [ic(-m)]))
    return mk("le", (t,), "B")


def le(a, b):
    if a.sort == "I" and b.sort == "I":
        return _le0(sub(a, b))
    a, b = toR(a), toR(b)
    l = _lift([a, b], le)
    if l is not None:
        return l
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return or_(not_(a.args[0]), b.args[0])
        if b.op == "inf":
            return b.args[0]
        return not_(a.args[0])
    d = sub(a, b)
    if d.op == "const":
        return bc(cval(d) <= 0)
    if d.op == "ite":
        return ite(d.args[0], le(d.args[1], R0), le(d.args[2], R0))
    return mk("le", (d,), "B")


def lt(a, b):
    if a.sort == "I" and b.sort == "I":
        return _le0(add(sub(a, b), I1))
    return not_(le(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _integral(t):
    return t.op == "toR" or (t.op == "*" and all(_integral(a) for a in t.args)) or (t.op == "pow" and t.sort == "R" and isinstance(t.args[1], int) and t.args[1] > 0 and _integral(t.args[0]))


def eq(a, b):
    if a is b:
        if a.op == "undef":
            return mk("undef", (), "B")
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.key > b.key:
            a, b = b, a
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort in "LE" or b.sort in "LE":
        return mk("eqE", (a, b) if a.key < b.key else (b, a), "B")
    if a.sort == "R" or b.sort == "R":
        a, b = toR(a), toR(b)
        l = _lift([a, b], eq)
        if l is not None:
            return l
        if a.op == "inf" or b.op == "inf":
            if a.op == "undef" or b.op == "undef":
                return mk("undef", (), "B")
            if a.op == "inf" and b.op == "inf":
                return eq(a.args[0], b.args[0])
            return FALSE
    elif a.sort != "I" or b.sort != "I":
        a, b = toI(a), toI(b)
    d = sub(a, b)
    if d.op == "undef":
        return mk("undef", (), "B")
    if d.op == "const":
        return bc(cval(d) == 0)
    if d.op == "ite" and (d.args[1].op == "const" or d.args[2].op == "const"):
        z = mk("const", (Fraction(0),), d.sort)
        return ite(d.args[0], eq(d.args[1], z), eq(d.args[2], z))
    if d.op == "*" and d.sort == "R":
        return or_(*[eq(x, R0) for x in d.args if x.op != "const"])
    if d.op == "pow" and d.sort == "R":
        return eq(d.args[0], R0)
    if d.op == "recip":
        return eq(d.args[0], R0)   # only used under a guard
    # canonical orientation
    acc, k = lin(d)
    lead = min(acc, key=lambda r: r.key)
    c = acc[lead]
    if d.sort == "R":
        if all(_integral(r) for r in acc):
            # integer atoms: solvable only if the gcd of the coefficients divides the constant
            import math
            L, g = 1, 0
            for x in acc.values():
                L = L * x.denominator // math.gcd(L, x.denominator)
            for x in acc.values():
                g = math.gcd(g, int(x * L))
            if (Fraction(k) * L / g).denominator != 1:
                return FALSE
        if c != 1:
            d = scale(1 / c, d)
    else:
        import math
        g = 0
        for x in acc.values():
            g = math.gcd(g, int(x))
        if k % g:
            return FALSE
        if c < 0:
            g = -g
        if g != 1:
            d = scale(Fraction(1, g), d)
    return mk("eq", (d,), "B")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if "R" in (a.sort, b.sort):
            a, b = toR(a), toR(b)
        else:
            a, b = toI(a), toI(b)
        if a is b:
            return a
    if c.op == "undef":
        return UNDEF if a.sort == "R" else mk("undef", (), a.sort)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


# ----------------------------------------------------------------- functions, binders
def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


def lam(sort, f, base="k"):
    """lambda over a variable of the given sort; f: term -> term"""
    v = fresh(base, sort)
    return close(v, f(v))


def close(v, body):
    h = body.h + 1
    b = var("@%d" % h, v.sort)
    return mk("lam", (h, v.sort, subst(body, {v: b})), "L")


def boundvar(l):
    return var("@%d" % l.args[0], l.args[1])


def open_(l, t):
    """apply the lambda to a term"""
    return subst(l.args[2], {boundvar(l): t})


def Sum(lo, hi, f):
    l = f if isinstance(f, T) else lam("I", f)
    return _mksum(lo, hi, l)


def _mksum(lo, hi, l):
    if l.args[2] is R0:
        return R0
    if l.args[2].op == "undef":
        return ite(lt(lo, hi), UNDEF, R0)
    if isconst(lo) and isconst(hi):
        n = cval(hi) - cval(lo)
        if n <= 0:
            return R0
        if n <= 4:
            return add(*[open_(l, ic(cval(lo) + i)) for i in range(int(n))]) if n > 1 else toR(open_(l, lo))
    return mk("sum", (lo, hi, l), "R")


def Prod(lo, hi, f):
    l = f if isinstance(f, T) else lam("I", f)
    return _mkprod(lo, hi, l)


def _mkprod(lo, hi, l):
    if l.args[2] is R1:
        return R1
    if isconst(lo) and isconst(hi):
        n = cval(hi) - cval(lo)
        if n <= 0:
            return R1
        if n <= 4:
            return mul(*[open_(l, ic(cval(lo) + i)) for i in range(int(n))]) if n > 1 else toR(open_(l, lo))
    return mk("prod", (lo, hi, l), "R")


def Exists(lo, hi, f):
    l = f if isinstance(f, T) else lam("I", f)
    return _mkex(lo, hi, l)


def _mkex(lo, hi, l):
    if l.args[2] is FALSE:
        return FALSE
    if l.args[2] is TRUE:
        return lt(lo, hi)
    if isconst(lo) and isconst(hi):
        n = cval(hi) - cval(lo)
        if n <= 4:
            return or_(*[open_(l, ic(cval(lo) + i)) for i in range(max(0, int(n)))])
    return mk("exists", (lo, hi, l), "B")


def Forall(lo, hi, f):
    l = f if isinstance(f, T) else lam("I", f)
    return not_(_mkex(lo, hi, mk("lam", (l.args[0], l.args[1], not_(l.args[2])), "L")))


def fn(name, *args):
    """real function applied to real arguments"""
    args = [toR(a) for a in args]
    if any(a.op == "undef" for a in args):
        return UNDEF
    l = _lift(args, lambda *a: fn(name, *a))
    if l is not None:
        return l
    (t,) = args if len(args) == 1 else (None,)
    if t is not None:
        if name == "abs":
            if t.op == "inf":
                return inf(1)
            if isconst(t):
                return rc(abs(cval(t)))
            if t.op == "ite":
                return ite(t.args[0], fn("abs", t.args[1]), fn("abs", t.args[2]))
        elif name == "sign":
            if isconst(t):
                return rc((cval(t) > 0) - (cval(t) < 0))
            if t.op == "ite":
                return ite(t.args[0], fn("sign", t.args[1]), fn("sign", t.args[2]))
        elif name in ("log", "exp"):
            if t.op == "inf":
                return UNDEF
            if t.op == "ite":
                return ite(t.args[0], fn(name, t.args[1]), fn(name, t.args[2]))
            if name == "exp" and isconst(t) and cval(t) == 0:
                return R1
            if name == "log" and isconst(t) and cval(t) == 1:
                return R0
        if t.op == "inf":
            return UNDEF
    return mk("fn", (name,) + tuple(args), "R")


# ----------------------------------------------------------------- rebuild / substitution
def rebuild(op, args, sort):
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "pow":
        return mul(*([args[0]] * args[1]))
    if op == "recip":
        return recip(args[0])
    if op == "powt":
        return powt(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "toR":
        return toR(args[0])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "le":
        return le(args[0], ic(0) if args[0].sort == "I" else R0)
    if op == "eq":
        return eq(args[0], ic(0) if args[0].sort == "I" else R0)
    if op == "eqE":
        return eq(*args)
    if op == "ite":
        return ite(*args)
    if op == "sum":
        return _mksum(*args)
    if op == "prod":
        return _mkprod(*args)
    if op == "exists":
        return _mkex(*args)
    if op == "fn":
        return fn(*args)
    if op == "app":
        if any(isinstance(a, T) and a.op == "undef" and a.sort == "R" for a in args):
            return UNDEF if sort == "R" else mk("undef", (), sort)
        if args[0] in APPHOOK:
            return APPHOOK[args[0]](args, sort)
        return mk("app", args, sort)
    return mk(op, args, sort)


APPHOOK = {}


def subst(t, m, memo=None):
    if not m:
        return t
    keys = frozenset(m)
    if memo is None:
        memo = {}
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "var":
        r = m[t]
    elif t.op == "lam":
        bv = boundvar(t)
        body = _subst(t.args[2], m, keys, memo)
        h = body.h + 1
        if h == t.args[0]:
            r = mk("lam", (h, t.args[1], body), "L")
        else:
            nb = var("@%d" % h, t.args[1])
            # go through a fresh variable: '@h' may be bound inside of the body
            f = fresh("b", t.args[1])
            body = subst(body, {bv: f})
            body = subst(body, {f: nb})
            if body.h + 1 != h:
                r = close(f, subst(body, {nb: f}))
            else:
                r = mk("lam", (h, t.args[1], body), "L")
    else:
        r = rebuild(t.op, tuple(_subst(a, m, keys, memo) if isinstance(a, T) else a for a in t.args), t.sort)
    memo[t] = r
    return r


def replace(t, m, memo=None):
    """replace arbitrary subterms (given as dict term->term), bottom-up on terms
    that occur literally; does not look below changed results again"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("var", "const"):
        r = t
    elif t.op == "lam":
        bv = boundvar(t)
        f = fresh("b", t.args[1])
        r = close(f, replace(subst(t.args[2], {bv: f}), m, None))
    else:
        na = tuple(replace(a, m, memo) if isinstance(a, T) else a for a in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort)
    memo[t] = r
    return r


def subterms(t, seen=None):
    """all subterms (bodies of binders included)"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return seen


# ----------------------------------------------------------------- printing
def show(t, d=0):
    o, a = t.op, t.args
    if d > 40:
        return "..."
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == "const":
        return str(a[0])
    if o == "var":
        return a[0]
    if o == "undef":
        return "UNDEF"
    if o == "inf":
        return "inf(%s)" % s(a[0])
    if o == "+":
        return "(" + " + ".join(map(s, a)) + ")"
    if o == "*":
        return "*".join(map(s, a))
    if o == "pow":
        return "%s^%s" % (s(a[0]), a[1])
    if o == "recip":
        return "1/(%s)" % s(a[0])
    if o == "not":
        if a[0].op == "eq":
            return "(%s != 0)" % s(a[0].args[0])
        return "!" + s(a[0])
    if o == "and":
        return "(" + " & ".join(map(s, a)) + ")"
    if o == "or":
        return "(" + " | ".join(map(s, a)) + ")"
    if o == "le":
        return "(%s <= 0)" % s(a[0])
    if o == "eq":
        return "(%s == 0)" % s(a[0])
    if o == "ite":
        return "if(%s, %s, %s)" % tuple(map(s, a))
    if o in ("sum", "prod", "exists"):
        return "%s[%s<=@%d<%s](%s)" % (o, s(a[0]), a[2].args[0], s(a[1]), s(a[2].args[2]))
    if o == "lam":
        return "\\@%d.%s" % (a[0], s(a[2]))
    if o == "toR":
        return s(a[0])
    if o in ("app", "fn"):
        return "%s(%s)" % (a[0], ", ".join(map(s, a[1:])))
    return "%s(%s)" % (o, ", ".join(map(s, a)))
