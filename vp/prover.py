"""Equational prover: guarded polynomial normal forms over Sum / Prod / opaque
atoms, with case splitting decided by z3.  Everything it accepts is derived by
the rules below; it never samples."""
import sys
import time
from fractions import Fraction
from .terms import *
from . import terms as tm
from .ctx import Ctx, STATS, hasquant

sys.setrecursionlimit(20000)


# matrix functions with f(c A) = c^k f(A) for c > 0 (lu: A = P L U with the same P, L)
HOMOG = {"LUU": 1, "LUL": 0, "LUP": 0, "INV": -1}
# functions f(n, l, ...) of the values of l on [0, n) only (vp/shim.py, vp/sym.py)
RANGED = {"MAX", "MIN", "ARGMAX", "ARGMIN", "ARGSORT", "ARGSORTINV", "SORT", "UNIQN", "UNIQ", "UNIQI", "UNIQV", "INV", "DET", "EIGR", "EIGI", "LUU", "LUL", "LUP", "LDD", "LDL", "LDR"}


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def open2(l):
    i, j = fresh("i", "I"), fresh("j", "I")
    b = open_(l, i)
    return (i, j, open_(b, j)) if b.sort == "L" else (i, None, b)


def content2(l):
    """the largest positive rational c with every (canonical) entry a combination with coefficients in c Z"""
    from math import gcd
    num, den = 0, 1
    for t in leaves(open2(l)[2]):
        acc, k = lin(t)
        for c in list(acc.values()) + [k]:
            c = Fraction(c)
            if c:
                num = gcd(num * c.denominator, abs(c.numerator) * den)
                den = den * c.denominator
                g = gcd(num, den)
                num, den = num // g, den // g
    return Fraction(num, den)


def scaled2(l, c):
    i, j, b = open2(l)

    def s(t):
        if t.op == "ite":
            return ite(t.args[0], s(t.args[1]), s(t.args[2]))
        return scale(c, t)
    b = s(b)
    return close(i, b if j is None else close(j, b))


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Undefined(Exception):
    """a possibly undefined value is reachable"""

    def __init__(self, what, ctx):
        self.what, self.ctx = what, ctx


class ProofFail(Exception):
    def __init__(self, msg, ctx=None, term=None):
        super().__init__(msg)
        self.ctx, self.term = ctx, term


class Budget(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# Poly: dict {mono: Fraction}; mono: tuple of (atom, exponent) sorted by atom id
ONE = ()


def pconst(c):
    return {ONE: Fraction(c)} if c else {}


def patom(t, e=1):
    return {((t, e),): Fraction(1)}


def padd(p, q, c=1):
    r = dict(p)
    for m, x in q.items():
        y = r.get(m, 0) + c * x
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, e in b:
        x = d.get(t, 0) + e
        if x:
            d[t] = x
        else:
            del d[t]
    return tuple(sorted(d.items(), key=lambda te: te[0].key))


MAXTERMS = 4000


def pmul(p, q):
    r = {}
    if len(p) * len(q) > MAXTERMS * 10:
        raise Budget("polynomial too large")
    for m, x in p.items():
        for n, y in q.items():
            k = mmul(m, n)
            z = r.get(k, 0) + x * y
            if z:
                r[k] = z
            else:
                r.pop(k, None)
    return r


def pscale(p, c):
    return {m: x * c for m, x in p.items()} if c else {}


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def atomT(t, e):
    if e >= 0:
        return powi(t, e)
    return recip(powi(t, -e))


def monoT(m):
    return mul(*[atomT(t, e) for t, e in m]) if m else R1


def polyT(p):
    """canonical term of a polynomial"""
    if not p:
        return R0
    ms = sorted(p.items(), key=lambda mc: tuple((t.key, e) for t, e in mc[0]))
    return add(*[scale(c, toR(monoT(m))) for m, c in ms])


def pfv(p):
    s = set()
    for m in p:
        for t, e in m:
            s |= t.fv
    return s


# ------------------------------------------------------------------ literals
def cubes(c):
    """disjoint conjunctions of literals equivalent to c"""
    if c is TRUE:
        return [frozenset()]
    if c is FALSE:
        return []
    if c.op == "and":
        out = [frozenset()]
        for x in c.args:
            cx = cubes(x)
            out = [a | b for a in out for b in cx]
        return [x for x in out if consistent(x)]
    if c.op == "or":
        out = []
        rest = [frozenset()]
        for x in c.args:
            out += [a | b for a in rest for b in cubes(x)]
            nx = cubes(not_(x))
            rest = [a | b for a in rest for b in nx]
        return [x for x in out if consistent(x)]
    if c.op == "not":
        d = c.args[0]
        if d.op == "and":
            return cubes(or_(*[not_(x) for x in d.args]))
        if d.op == "or":
            return cubes(and_(*[not_(x) for x in d.args]))
        if d.op == "ite":
            return cubes(ite(d.args[0], not_(d.args[1]), not_(d.args[2])))
    return [frozenset((c,))]


def consistent(g):
    return not any(not_(l) in g for l in g)


def guardT(g):
    return and_(*g)


def partial(t, memo={}):
    """contains a function that is not total (on the field)"""
    r = memo.get(t)
    if r is None:
        r = t.op in ("fn", "recip", "powt", "undef", "inf") or any(isinstance(a, T) and partial(a) for a in t.args)
        memo[t] = r
    return r


class Prover:
    """normalisation relative to a context"""

    def __init__(self, ctx, hints=None, local=frozenset()):
        self.ctx = ctx
        self.hints = hints or {}
        self.local = local            # binder variables opened above (cannot be split on)
        self.memo = {}

    def sub(self, newctx, local=None):
        key = (newctx, local if local is not None else self.local)
        cache = self.hints.setdefault("_provers", {})
        p = cache.get(key)
        if p is None:
            p = Prover(newctx, self.hints, key[1])
            cache[key] = p
        return p

    # ---- decisions
    def decide(self, c):
        return self.ctx.decide(c)

    def require(self, c):
        """decide c, or ask for a case split (only on conditions free of binder variables)"""
        d = self.decide(c)
        if d is not None:
            return d
        if c.fv & self.local:
            return None
        raise NeedSplit(c)

    # ---- guarded polynomials: list of (guards, poly)
    def gp(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._gp(t)
            self.memo[t] = r
        return r

    def _gp(self, t):
        o, a = t.op, t.args
        if t.sort == "I" or t.sort == "B":
            t = toR(t)
            o, a = t.op, t.args
        if o == "const":
            return [(frozenset(), pconst(cval(t)))]
        if o == "+":
            return self.gsum([self.gp(x) for x in a])
        if o == "*":
            return self.gprod([self.gp(x) for x in a])
        if o == "pow":
            return self.gprod([self.gp(a[0])] * a[1])
        if o == "toR":
            x = a[0]
            if x.op == "ite":
                return self.gp(ite(x.args[0], toR(x.args[1]), toR(x.args[2])))
            if x.op in ("idiv", "imod", "app"):
                y = self.canon_app(x)
                if isinstance(y, list):
                    return y
                return [(frozenset(), patom(toR(y)))] if y.op != "const" else [(frozenset(), pconst(cval(y)))]
            return [(frozenset(), patom(t))]
        if o == "undef" or o == "inf":
            if not self.ctx.feasible():
                return []
            raise Undefined(t, self.ctx)
        if o == "ite":
            c, x, y = a
            return self.gite(c, x, y)
        if o == "recip":
            return self.cells(a[0], self.precip)
        if o == "fn":
            return self.gfn(t)
        if o == "sum":
            return self.gsumop(*a)
        if o == "prod":
            return self.gprodop(*a)
        if o == "powt":
            return self.gpowt(t)
        if o == "var":
            return [(frozenset(), patom(t))]
        if o == "app":
            y = self.canon_app(t)
            if isinstance(y, list):
                return y
            if y.op == "app" and y.args[0] in ("PS", "PP"):
                return [(frozenset(), patom(y))]
            if y.op != "app":
                return self.gp(y)
            return [(frozenset(), patom(y))]
        raise ProofFail("unsupported term %s" % o)

    def gite(self, c, x, y):
        d = self.decide(c)
        if d is True:
            return self.gp(x)
        if d is False:
            return self.gp(y)
        out = []
        for val, cc in ((x, c), (y, not_(c))):
            for cube in cubes(cc):
                keep, dead = [], False
                for l in cube:
                    dl = self.decide(l)
                    if dl is False:
                        dead = True
                        break
                    if dl is None:
                        if not (l.fv & self.local):
                            raise NeedSplit(l)
                        keep.append(l)
                if dead:
                    continue
                sub = self.sub(self.ctx.extend(*keep))
                if not sub.ctx.feasible():
                    continue
                for g, p in sub.gp(val):
                    out.append((g | frozenset(keep), p))
        return self.gmerge(out)

    def gmerge(self, l):
        d = {}
        for g, p in l:
            if g in d:
                d[g] = padd(d[g], p)
            else:
                d[g] = p
        return [(g, p) for g, p in d.items() if p]

    def gsum(self, ls):
        return self.gmerge([x for l in ls for x in l])

    def gand(self, g, h):
        if not g:
            return h
        if not h:
            return g
        u = g | h
        if not consistent(u):
            return None
        if len(u) > len(g) and len(u) > len(h):
            if not self.ctx.extend(*u).feasible():
                return None
        return u

    def gprod(self, ls):
        acc = [(frozenset(), pconst(1))]
        for l in ls:
            nxt = []
            for g, p in acc:
                for h, q in l:
                    u = self.gand(g, h)
                    if u is not None:
                        nxt.append((u, pmul(p, q)))
            acc = self.gmerge(nxt)
        return acc

    def disjoint(self, l):
        """rewrite a guarded sum into disjoint cells covering all cases: list of (guards, poly)"""
        lits = []
        for g, p in l:
            for x in g:
                if x not in lits and not_(x) not in lits:
                    lits.append(x)
        if not lits:
            s = {}
            for g, p in l:
                s = padd(s, p)
            return [(frozenset(), s)]
        lits.sort(key=lambda t: t.key)

        out = []

        def rec(i, g, l):
            if not any(h - g for h, p in l):
                s = {}
                for h, p in l:
                    s = padd(s, p)
                out.append((g, s))
                return
            x = lits[i]
            for y in (x, not_(x)):
                ny = not_(y)
                l2 = [(h, p) for h, p in l if ny not in h]
                if not any(x in h or not_(x) in h for h, p in l):
                    return rec(i + 1, g, l)
                g2 = g | {y}
                if not self.ctx.extend(*g2).feasible():
                    continue
                rec(i + 1, g2, l2)
        rec(0, frozenset(), l)
        return out

    def cells(self, t, f):
        """apply f (poly, prover-in-cell -> guarded poly list) to every disjoint cell of t"""
        out = []
        for g, p in self.disjoint(self.gp(t)):
            s = self.sub(self.ctx.extend(*g)) if g else self
            for h, q in f(p, s):
                u = self.gand(g, h)
                if u is not None:
                    out.append((u, q))
        return self.gmerge(out)

    # ---- reciprocals
    def precip(self, p, pr):
        return [(frozenset(), pr.invert(p))]

    def invert(self, p):
        if not p:
            return patom(recip(R0))
        if len(p) == 1:
            (m, c), = p.items()
            return self.mononorm({tuple((t, -e) for t, e in m): 1 / c})
        q, cont = self.primitive(p)
        base = polyT(q)
        (m, c), = cont.items()
        return self.mononorm({mmul(tuple((t, -e) for t, e in m), ((base, -1),)): 1 / c})

    def primitive(self, p):
        """p = content * q, q with leading coefficient 1 and no common monomial (exponent-wise minimum)"""
        ms = sorted(p, key=lambda m: tuple((t.key, e) for t, e in m))
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for t in list(common):
                e = d.get(t, 0)
                if common[t] > 0:
                    common[t] = min(common[t], e) if e > 0 else 0
                else:
                    common[t] = min(common[t], e)
                if not common[t]:
                    del common[t]
            for t, e in d.items():
                if e < 0 and t not in common:
                    common[t] = e
        # negative exponents absent from other monomials must be pulled as well
        for m in ms:
            for t, e in m:
                if e < 0:
                    common[t] = min(common.get(t, 0), e)
        cm = tuple(sorted(common.items(), key=lambda te: te[0].key))
        inv = tuple((t, -e) for t, e in cm)
        q = {mmul(m, inv): c for m, c in p.items()}
        q = self.expandpos(q)
        if not q:
            return q, {cm: Fraction(1)}
        ms = sorted(q, key=lambda m: tuple((t.key, e) for t, e in m))
        lead = q[ms[0]]
        return pscale(q, 1 / lead), {cm: lead}

    def expandpos(self, p):
        """expand sums raised to positive exponents; even powers of |.|"""
        while True:
            for m in p:
                hit = None
                for t, e in m:
                    if e > 0 and t.op == "+":
                        hit = (t, e)
                        break
                if hit:
                    break
            else:
                return self.mononorm(p)
            t, e = hit
            c = p[m]
            rest = tuple(x for x in m if x[0] is not t)
            p = dict(p)
            del p[m]
            base = self.poly1(t)
            p = padd(p, pmul({rest: c}, ppow(base, e)))

    def poly1(self, t):
        """polynomial of a canonical '+' term (no guards)"""
        r = self.gp(t)
        s = {}
        for g, q in r:
            if g:
                raise ProofFail("guards in a canonical sum")
            s = padd(s, q)
        return s

    def mononorm(self, p):
        """|a|^(2k+r) -> a^(2k) |a|^r"""
        out = {}
        for m, c in p.items():
            for t, e in m:
                if t.op == "fn" and t.args[0] == "abs" and e not in (0, 1):
                    r = e % 2
                    rest = tuple(x for x in m if x[0] is not t)
                    q = {rest: c}
                    base = t.args[1]
                    n = e - r
                    if r:
                        q = pmul(q, patom(t))
                    if base.op == "+":
                        if n < 0:
                            q = pmul(q, {((base, n),): Fraction(1)})
                        else:
                            q = pmul(q, ppow(self.poly1(base), n))
                    else:
                        bp = self.poly1(base)
                        if n < 0:
                            bp = self.invert(bp)
                            n = -n
                        q = pmul(q, ppow(bp, n))
                    out = padd(out, self.mononorm(q))
                    break
                if t.op == "fn" and t.args[0] == "sqrt" and abs(e) > 1:
                    # the argument of a square root is not negative (machine: nan otherwise)
                    r = abs(e) % 2
                    rest = tuple(x for x in m if x[0] is not t)
                    q = {rest: c}
                    if r:
                        q = pmul(q, {((t, 1 if e > 0 else -1),): Fraction(1)})
                    b = t.args[1]
                    if e < 0:
                        q = pmul(q, {((b, -(-e // 2)),): Fraction(1)} if b.op == "+" else ppow(self.invert(self.poly1(b)), -e // 2))
                    else:
                        q = pmul(q, ppow(self.poly1(b), e // 2))
                    out = padd(out, self.mononorm(q))
                    break
                if t.op == "app" and t.args[0] == "PP" and e not in (0, 1):
                    u = stripabs(t)
                    if u is not t:
                        # (prod |f|)^2k = (prod f)^2k
                        r = e % 2
                        rest = tuple(x for x in m if x[0] is not t)
                        q = pmul({rest: c}, {((u, e - r),): Fraction(1)}) if e - r else {rest: c}
                        if r:
                            q = pmul(q, patom(t))
                        out = padd(out, self.mononorm(q))
                        break
            else:
                out = padd(out, {m: c})
        return out

    # ---- functions
    def positive(self, t):
        return self.ctx.valid(gt(t, R0))

    def negative(self, t):
        return t.op == "+" and self.positive(neg(t))

    def nonzero(self, t):
        return self.ctx.valid(ne(t, R0))

    def gfn(self, t):
        name = t.args[0]
        if len(t.args) == 2:
            if name == "abs":
                return self.cells(t.args[1], lambda p, pr: [(frozenset(), pr.pabs(p))])
            if name == "sign":
                return self.cells(t.args[1], lambda p, pr: [(frozenset(), pr.psign(p))])
            if name == "exp":
                return self.cells(t.args[1], lambda p, pr: [(frozenset(), pr.pexp(p))])
            if name in ("log", "log10", "log2"):
                return self.cells(t.args[1], lambda p, pr: [(frozenset(), pr.plog(p, name))])
            if name == "sqrt":
                return self.cells(t.args[1], lambda p, pr: [(frozenset(), pr.psqrt(p))])
            return self.cells(t.args[1], lambda p, pr: [(frozenset(), patom(fn(name, polyT(p))))])
        return [(frozenset(), patom(fn(name, *[self.canon(x) for x in t.args[1:]])))]

    def psqrt(self, p):
        t = polyT(p)
        if isconst(t):
            import math
            c = cval(t)
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return pconst(Fraction(n, d))
            return patom(fn("sqrt", t))
        # positive factors leave the root: sqrt(a b) = sqrt(a) sqrt(b) for a > 0
        q, cont = self.primitive(p) if len(p) > 1 else ({(): Fraction(1)}, p)
        (m, c), = cont.items()
        if c > 0:
            out, rest = pconst(1), {(): Fraction(1)}
            for x, e in m:
                if self.positive(x):
                    if e % 2:
                        out = pmul(out, {((fn("sqrt", x), 1 if e > 0 else -1),): Fraction(1)})
                    h = e // 2 if e > 0 else -(-e // 2)
                    if h:
                        out = pmul(out, {((x, h),): Fraction(1)})
                else:
                    rest = pmul(rest, {((x, e),): Fraction(1)})
            if c != 1:
                out = pmul(out, self.psqrt(pconst(c)))
            rest = pmul(rest, q)
            if rest != p:
                r = polyT(rest)
                return self.mononorm(out if r is R1 else pmul(out, patom(fn("sqrt", r))))
        return patom(fn("sqrt", t))

    def pabs(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            r = pconst(abs(c))
            for t, e in m:
                if t.op == "fn" and t.args[0] in ("abs", "exp"):
                    a = t
                elif self.positive(t):
                    a = t
                elif self.negative(t):
                    a, r = t, pscale(r, Fraction(-1) ** e)
                elif t.op == "powt":
                    # |b^e| = |b|^e
                    r = pmul(r, ppow(self.poly1(powt(fn("abs", t.args[0]), t.args[1])), e) if e > 0 else self.invert(ppow(self.poly1(powt(fn("abs", t.args[0]), t.args[1])), -e)))
                    continue
                elif t.op == "app" and t.args[0] == "PP":
                    l = t.args[1]
                    # |prod f| = prod |f|
                    q = self.gp(prodterm(l, t.args[2], t.args[3], lambda b: fn("abs", b)))
                    if len(q) != 1 or q[0][0] or len(q[0][1]) != 1:
                        raise ProofFail("|prod|")
                    (m2, c2), = q[0][1].items()
                    r = pmul(r, {tuple((x, y * e) for x, y in m2): c2 ** e})
                    continue
                else:
                    a = fn("abs", t)
                r = pmul(r, {((a, e),): Fraction(1)})
            return self.mononorm(r)
        q, cont = self.primitive(p)
        t = polyT(q)
        a = t if self.positive(t) else fn("abs", t)
        base = {((a, 1),): Fraction(1)}
        if a.op == "+":
            base = q
        elif self.negative(t):
            base = pscale(q, -1)
        return self.mononorm(pmul(self.pabs(cont), base))

    def psign(self, p):
        if not p:
            return {}
        if len(p) > 1:
            q, cont = self.primitive(p)
            if any(cont) or len(q) == 1:
                # sign of the content, sign of the primitive part
                r = pmul(self.psign(cont), self.psign(q))
                return self.mononorm(r)
        t = polyT(p)
        if self.positive(t):
            return pconst(1)
        if self.negative(t):
            return pconst(-1)
        if len(p) == 1 and len(next(iter(p))) > 1:
            (m, c), = p.items()
            r = pconst(1 if c > 0 else -1)
            for x, e in m:
                r = pmul(r, self.psign({((x, 1),): Fraction(1)}) if e % 2 else pmul(self.psign({((x, 1),): Fraction(1)}), self.psign({((x, 1),): Fraction(1)})))
            return self.mononorm(r)
        if self.nonzero(t):
            # sign(a) = |a| / a
            return self.mononorm(pmul(self.pabs(p), self.invert(p)))
        return patom(fn("sign", t))

    def pexp(self, p):
        r = pconst(1)
        for m, c in p.items():
            r = pmul(r, self.exp1(m, c))
        return self.mononorm(r)

    def exp1(self, m, c):
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            t = m[0][0]
            n = int(c)
            if t.op == "fn" and t.args[0] == "log" and (t.args[1].op == "fn" and t.args[1].args[0] == "abs"
                                                        and self.nonzero(t.args[1].args[1])
                                                        or self.positive(t.args[1])):
                q = self.poly1(t.args[1])
                if n < 0:
                    q, n = self.invert(q), -n
                return ppow(q, n)
            if t.op == "app" and t.args[0] == "PS":
                l, lo, hi = t.args[1], t.args[2], t.args[3]
                # exp(sum f) = prod exp f
                g = self.gp(prodterm(l, lo, hi, lambda b: fn("exp", b), sumlike=True))
                s = {}
                for h, q in g:
                    if h:
                        raise ProofFail("exp(sum)")
                    s = padd(s, q)
                if n < 0:
                    s, n = self.invert(s), -n
                return ppow(s, n)
        ps = [t for t, e in m if e == 1 and t.op == "app" and t.args[0] == "PS"]
        if len(ps) == 1 and len(m) > 1:
            # a sum times closed factors: the factors move into the sum
            t = ps[0]
            l, lo, hi = t.args[1], t.args[2], t.args[3]
            rest = scale(c, monoT(tuple(x for x in m if x[0] is not t)))
            g = self.gp(prodterm(l, lo, hi, lambda b: fn("exp", mul(rest, b)), sumlike=True))
            if len(g) == 1 and not g[0][0]:
                return g[0][1]
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            return {((fn("exp", m[0][0]), int(c)),): Fraction(1)}
        if not m:
            return {((fn("exp", R1), int(c)),): Fraction(1)} if c.denominator == 1 else patom(fn("exp", rc(c)))
        return patom(fn("exp", scale(c, monoT(m))))

    def plog(self, p, name):
        if name in ("log10", "log2"):
            return pmul(self.plog(p, "log"), {((fn("log", rc(10 if name == "log10" else 2)), -1),): Fraction(1)})
        if len(p) == 1:
            (m, c), = p.items()
            m2, ok = [], True
            for t, e in m:
                if self.positive(t) or t.op == "fn" and t.args[0] == "abs" and self.nonzero(t.args[1]):
                    m2.append((t, e))
                elif self.negative(t):
                    m2.append((neg(t), e))
                    c = c * (-1) ** e
                else:
                    ok = False
            if c > 0 and ok:
                r = patom(fn(name, rc(c))) if c != 1 else {}
                for t, e in m2:
                    if t.op == "powt" and self.positive(t.args[0]):
                        r = padd(r, pmul(pscale(self.poly1(toR(t.args[1])), Fraction(e)), self.plog(self.poly1(t.args[0]), name)))
                    elif t.op == "fn" and t.args[0] == "rpow" and self.positive(t.args[1]):
                        r = padd(r, pmul(pscale(self.poly1(t.args[2]), Fraction(e)), self.plog(self.poly1(t.args[1]), name)))
                    else:
                        r = padd(r, patom(fn(name, t)), Fraction(e))
                return r
        return patom(fn(name, polyT(p)))

    def gpowt(self, t):
        b, e = t.args
        e = self.canonI(e)
        if isconst(e):
            return self.gp(powt(b, e))

        def f(p, pr):
            if len(p) == 1:
                (m, c), = p.items()
                r = pconst(1)
                if c != 1:
                    r = pmul(r, pr.powconst(c, e))
                for x, n in m:
                    r = pmul(r, pr.powatom(x, e, n))
                return [(frozenset(), r)]
            return [(frozenset(), pr.powatom(polyT(p), e, 1))]
        return self.cells(b, f)

    def splitexp(self, e):
        """e = e0 + k with constant part removed"""
        acc, k = lin(e)
        return sub(e, ic(k)), int(k)

    def powconst(self, c, e):
        e0, k = self.splitexp(e)
        if isconst(e0):
            return pconst(c ** k)
        if c == -1:
            r = patom(powt(rc(-1), e0))
            return pscale(r, Fraction(-1) ** k)
        return pscale(patom(powt(rc(c), e0)), Fraction(c) ** k)

    def powatom(self, x, e, n):
        e0, k = self.splitexp(e)
        return self.mononorm({mmul(((powt(x, e0), n),), ((x, k * n),) if k else ()): Fraction(1)})

    # ---- canonical terms (arguments of opaque functions)
    def canon(self, t):
        """canonical term equal to t (guards allowed inside, as ite)"""
        if t.sort == "I":
            return self.canonI(t)
        if t.sort == "B":
            return self.canonB(t)
        if t.sort == "L":
            return self.canonL(t)
        if t.sort == "E":
            return t
        cs = self.disjoint(self.gp(t))
        return self.cellsT(cs)

    def cellsT(self, cs):
        cs = [(g, polyT(p)) for g, p in cs]
        cs.sort(key=lambda gp: sorted(x.key for x in gp[0]))
        if len(cs) == 1:
            return cs[0][1]
        # build nested ite: value by value
        r = cs[-1][1]
        for g, v in reversed(cs[:-1]):
            r = ite(guardT(g), v, r)
        return r

    def canonL(self, l, n=None):
        """n: only the values on [0, n) matter"""
        v = fresh("c", l.args[1])
        ctx = self.ctx
        if n is not None and l.args[1] == "I":
            ctx = ctx.extend(le(I0, v), lt(v, n))
        pr = self.sub(ctx, self.local | {v})
        b = open_(l, v)
        b = pr.canonL(b, n) if b.sort == "L" else pr.canon(b)
        return close(v, b)

    def canonI(self, t):
        if not any(x.op in ("ite", "app", "idiv", "imod", "exists") for x in subterms(t)):
            return t
        if t.op == "ite":
            d = self.require(t.args[0])
            if d is True:
                return self.canonI(t.args[1])
            if d is False:
                return self.canonI(t.args[2])
            return ite(t.args[0], self.canonI(t.args[1]), self.canonI(t.args[2]))
        if t.op in ("+", "*", "idiv", "imod"):
            return rebuild(t.op, [self.canonI(x) for x in t.args], t.sort)
        if t.op == "app":
            y = self.canon_app(t, lift=False)
            return y
        return t

    def canonB(self, t):
        if t.op in ("and", "or", "not"):
            return rebuild(t.op, [self.canonB(x) for x in t.args], "B")
        if t.op == "app":
            return self.canon_app(t, lift=False)
        return t

    def findite(self, t):
        """an ite / integer ite below an integer or real argument"""
        if t.op == "ite":
            return t.args[0]
        if t.sort == "L":
            return None
        for a in t.args:
            if isinstance(a, T) and a.sort in "IR" and t.op in ("+", "*", "idiv", "imod", "toR"):
                c = self.findite(a)
                if c is not None:
                    return c
        return None

    def resolve(self, t, c, val):
        """t with the ites on condition c resolved"""
        m = {}
        for x in subterms(t):
            if x.op == "ite" and x.args[0] is c:
                m[x] = x.args[1] if val else x.args[2]
        return replace(t, m)

    def canon_app(self, t, lift=True):
        """canonicalise the arguments; returns a term, or a guarded list if the
        value depends on a binder-local condition"""
        name = t.args[0]
        if name in ("PS", "PP"):
            return t
        args = list(t.args[1:])
        for i, a in enumerate(args):
            if isinstance(a, T) and a.sort in "IR":
                c = self.findite(a)
                if c is not None:
                    d = self.decide(c)
                    if d is not None:
                        args[i] = self.resolve(a, c, d)
                        return self.canon_app(app(name, args, t.sort), lift)
                    if not (c.fv & self.local):
                        raise NeedSplit(c)
                    l1, l2 = list(args), list(args)
                    l1[i], l2[i] = self.resolve(a, c, True), self.resolve(a, c, False)
                    u = ite(c, app(name, l1, t.sort), app(name, l2, t.sort))
                    if lift and t.sort == "R":
                        return self.gp(u)
                    return u
        if name in RANGED and args[0].sort == "I":
            out = [self.canonL(a, args[0]) if isinstance(a, T) and a.sort == "L" else self.canon(a) if isinstance(a, T) else a for a in args]
        else:
            out = [self.canon(a) if isinstance(a, T) else a for a in args]
        r = app(name, out, t.sort)
        if name in HOMOG and lift and t.sort == "R" and isinstance(out[1], T) and out[1].sort == "L":
            c = content2(out[1])
            if c not in (0, 1):
                # f(c A) = c^k f(A)
                out[1] = scaled2(out[1], 1 / c)
                return [(frozenset(), pscale(q, c ** HOMOG[name])) if not g else (g, pscale(q, c ** HOMOG[name])) for g, q in self.gp(app(name, out, t.sort))]
        h = self.hints.get("rewrite")
        if h:
            x = h(r, self)
            if x is not None and x is not r:
                return self.gp(x) if t.sort == "R" and lift else x
        if t.sort == "I" and r.op not in ("app", "const"):
            return self.canonI(r) if r is not t else r
        return r

    # ---- sums
    def solvefor(self, l, v):
        """literal  v == e  (coefficient +-1): e, or None"""
        if l.op != "eq" or l.args[0].sort != "I":
            return None
        acc, k = lin(l.args[0])
        c = acc.get(v)
        if c is None or abs(c) != 1:
            return None
        rest = sub(l.args[0], scale(c, v))
        if v in rest.fv:
            return None
        return scale(-1 / c, rest)

    def boundof(self, l, v):
        """literal v <= e or v >= e: ('hi', e) / ('lo', e)"""
        if l.op != "le" or l.args[0].sort != "I":
            return None
        acc, k = lin(l.args[0])
        c = acc.get(v)
        if c is None or abs(c) != 1:
            return None
        rest = sub(l.args[0], scale(c, v))
        if v in rest.fv:
            return None
        # c v + rest <= 0
        if c == 1:
            return ("hi", add(neg(rest), I1))      # v < -rest + 1
        return ("lo", rest)

    def gsumop(self, lo, hi, l):
        lo, hi = self.canonI(lo), self.canonI(hi)
        d = self.require(lt(lo, hi))
        if d is False:
            return []
        if d and self.ctx.valid(le(hi, add(lo, I1))):
            return self.gp(toR(open_(l, lo)))
        v = fresh("k", "I")
        body = open_(l, v)
        local = self.local | {v}
        c2 = self.ctx.extend(le(lo, v), lt(v, hi))
        pr = self.sub(c2, local)
        outs = []
        for g, p in pr.gp(body):
            outs += self.sumcell(v, lo, hi, g, p, pr, d)
        return self.gmerge(outs)

    def kronecker(self, x, v, lo, hi):
        """f(v) == f(e) for an injective f: v == e"""
        y = x.args[0] if x.op == "not" else x
        if y.op != "eq" or y.args[0].sort != "R":
            return x
        acc, _ = lin(y.args[0])
        heads = {a.args[0] for a in acc if a.op == "app" and len(a.args) == 2 and a.args[1] is v}
        if not heads:
            return x
        cands = []
        for src in [y] + [a for a in self.ctx.asm if a.op == "eq" and a.args[0].sort == "R"]:
            for a in lin(src.args[0])[0]:
                if a.op == "app" and a.args[0] in heads and v not in a.fv and a.args[1] not in cands:
                    cands.append(a.args[1])
        c = None
        for e in cands:
            c = c or self.ctx.extend(le(lo, v), lt(v, hi), y)
            if c.valid(eq(v, e)):
                if self.ctx.extend(eq(v, e)).valid(subst(y, {v: e})):
                    return ne(v, e) if x.op == "not" else eq(v, e)
        return x

    def sumcell(self, v, lo, hi, g, p, pr, nonempty):
        """sum over v in [lo,hi) of [g] p"""
        outer = frozenset(x for x in g if v not in x.fv)
        inner = [self.kronecker(x, v, lo, hi) for x in g if v in x.fv]
        # delta
        for x in inner:
            e = self.solvefor(x, v)
            if e is not None:
                cond = [le(lo, e), lt(e, hi)] + [subst(y, {v: e}) for y in inner if y is not x]
                keep, dead = list(outer), False
                for c in cond:
                    for q in (c.args if c.op == "and" else (c,)):
                        dq = self.decide(q)
                        if dq is False:
                            return []
                        if dq is None:
                            if not (q.fv & self.local):
                                raise NeedSplit(q)
                            keep.append(q)
                s = self.sub(self.ctx.extend(*keep)) if keep else self
                if not s.ctx.feasible():
                    return []
                r = []
                for h, q in s.gp(subst(polyT(p), {v: e})):
                    u = self.gand(frozenset(keep), h)
                    if u is not None:
                        r.append((u, q))
                return r
        # ranges
        s = self.sub(self.ctx.extend(*outer)) if outer else self
        rest = []
        for x in inner:
            b = self.boundof(x, v)
            if b is None:
                rest.append(x)
                continue
            kind, e = b
            if kind == "hi":
                d = s.decide(le(e, hi))
                if d is None:
                    if (e.fv | hi.fv) & self.local:
                        return self.hardsplit(outer, le(e, hi), v, lo, hi, g, p, pr)
                    raise NeedSplit(le(e, hi))
                hi = e if d else hi
            else:
                d = s.decide(le(lo, e))
                if d is None:
                    if (e.fv | lo.fv) & self.local:
                        return self.hardsplit(outer, le(lo, e), v, lo, hi, g, p, pr)
                    raise NeedSplit(le(lo, e))
                lo = e if d else lo
        d = s.decide(lt(lo, hi))
        if d is None:
            if (lo.fv | hi.fv) & self.local:
                return self.hardsplit(outer, lt(lo, hi), v, lo, hi, frozenset(rest) | outer, p, pr)
            raise NeedSplit(lt(lo, hi))
        if d is False:
            return []
        # disequalities over a plain range
        extra = []
        changed = True
        while changed:
            changed = False
            for x in rest:
                e = self.solvefor(x.args[0], v) if x.op == "not" else None
                if e is None:
                    continue
                if s.ctx.valid(eq(e, lo)):
                    lo = add(lo, I1)
                elif s.ctx.valid(eq(e, sub(hi, I1))):
                    hi = sub(hi, I1)
                elif s.ctx.valid(or_(lt(e, lo), le(hi, e))):
                    pass
                elif not any(v in t.fv and (n < 0 or partial(t)) for m in p for t, n in m):
                    # [v != e] X = X - [v == e] X  (X stays defined at v = e)
                    neg_ = self.sumcell(v, lo, hi, (frozenset(rest) - {x}) | {eq(v, e)} | outer, pscale(p, -1), pr, None)
                    extra += neg_
                else:
                    continue
                rest.remove(x)
                changed = True
                d = s.decide(lt(lo, hi))
                if d is False:
                    return extra
                if d is None:
                    if (lo.fv | hi.fv) & self.local:
                        return extra + self.hardsplit(outer, lt(lo, hi), v, lo, hi, frozenset(rest) | outer, p, pr)
                    raise NeedSplit(lt(lo, hi))
                break
        rest.sort(key=lambda t: t.key)
        if s.ctx.valid(le(hi, add(lo, I1))):
            # a single index
            r = ite(subst(guardT(rest), {v: lo}), subst(polyT(p), {v: lo}), R0)
            return extra + [(outer | h, q) for h, q in s.gp(r)]
        out = {}
        for m, c in p.items():
            out = padd(out, s.psum1(v, lo, hi, rest, m), c)
        return extra + ([(outer, out)] if out else [])

    def hardsplit(self, outer, cond, v, lo, hi, g, p, pr):
        """case split on a condition over enclosing binder variables"""
        r = []
        for c in (cond, not_(cond)):
            gg = outer | {c}
            s = self.sub(self.ctx.extend(*gg))
            if not s.ctx.feasible():
                continue
            for h, q in s.sumcell(v, lo, hi, g | {c} if False else g, p, pr, None):
                u = s.gand(gg, h)
                if u is not None:
                    r.append((u, q))
        return r

    def psum1(self, v, lo, hi, guards, m):
        out = tuple(x for x in m if v not in x[0].fv)
        inn = tuple(x for x in m if v in x[0].fv)
        coef = {out: Fraction(1)}
        if not inn and not guards:
            return pmul(coef, self.poly1(toR(sub(hi, lo))))
        term = toR(monoT(inn))
        g = guardT(guards)
        # shift canonicalisation
        c = self.shift(v, [term] + list(guards))
        if c:
            term = subst(term, {v: sub(v, ic(c))})
            g = subst(g, {v: sub(v, ic(c))})
            lo, hi = add(lo, ic(c)), add(hi, ic(c))
        l = close(v, ite(g, term, R0))
        return pmul(coef, patom(app("PS", (l, lo, hi), "R")))

    def shift(self, v, ts):
        """constant c such that replacing v by v-c makes the least offset of v in index arguments 0"""
        offs = []
        seen = set()
        for t in ts:
            for x in subterms(t):
                if x.op == "app" and x.args[0] not in ("PS", "PP"):
                    for a in x.args[1:]:
                        if isinstance(a, T) and a.sort == "I" and v in a.fv:
                            acc, k = lin(a)
                            if acc.get(v) == 1 and len(acc) == 1:
                                offs.append(int(k))
        return min(offs) if offs else 0

    # ---- products
    def gprodop(self, lo, hi, l):
        lo, hi = self.canonI(lo), self.canonI(hi)
        d = self.require(lt(lo, hi))
        if d is False:
            return [(frozenset(), pconst(1))]
        if d is None:
            raise ProofFail("product over an undecided range below a binder")
        v = fresh("k", "I")
        body = open_(l, v)
        pr = self.sub(self.ctx.extend(le(lo, v), lt(v, hi)), self.local | {v})
        acc = [(frozenset(), pconst(1))]
        for g, p in pr.disjoint(pr.gp(body)):
            acc = self.gprod([acc, self.prodcell(v, lo, hi, g, p, pr)])
        return acc

    def prodcell(self, v, lo, hi, g, p, pr):
        outer = frozenset(x for x in g if v not in x.fv)
        inner = [x for x in g if v in x.fv]
        for x in outer:
            d = self.decide(x)
            if d is False:
                return [(frozenset(), pconst(1))]
            if d is None:
                if x.fv & self.local:
                    raise ProofFail("outer guard below a product")
                raise NeedSplit(x)
        for x in inner:
            e = self.solvefor(x, v)
            if e is not None:
                cond = [le(lo, e), lt(e, hi)] + [subst(y, {v: e}) for y in inner if y is not x]
                for c in cond:
                    dq = self.decide(c)
                    if dq is False:
                        return [(frozenset(), pconst(1))]
                    if dq is None:
                        if c.fv & self.local:
                            raise ProofFail("undecided delta below a product")
                        raise NeedSplit(c)
                return self.gp(subst(polyT(p), {v: e}))
        rest = []
        for x in inner:
            b = self.boundof(x, v)
            if b is None:
                rest.append(x)
                continue
            kind, e = b
            if kind == "hi":
                d = self.require(le(e, hi))
                if d is None:
                    raise ProofFail("undecided range below a product")
                hi = e if d else hi
            else:
                d = self.require(le(lo, e))
                if d is None:
                    raise ProofFail("undecided range below a product")
                lo = e if d else lo
        d = self.require(lt(lo, hi))
        if d is None:
            raise ProofFail("undecided range below a product")
        if d is False:
            return [(frozenset(), pconst(1))]
        # an excluded index at an end of the range
        for x in list(rest):
            e = self.solvefor(x.args[0], v) if x.op == "not" else None
            if e is None:
                continue
            if self.ctx.valid(eq(e, lo)):
                lo = add(lo, I1)
            elif self.ctx.valid(eq(e, sub(hi, I1))):
                hi = sub(hi, I1)
            elif not self.ctx.valid(or_(lt(e, lo), le(hi, e))):
                continue
            rest.remove(x)
            return self.prodcell(v, lo, hi, frozenset(rest), p, pr)
        if self.ctx.valid(le(hi, add(lo, I1))):
            # a single index
            return self.gp(ite(subst(guardT(rest), {v: lo}), subst(polyT(p), {v: lo}), R1))
        if len(p) == 1:
            (m, c), = p.items()
            r = pconst(1)
            if c != 1:
                r = pmul(r, self.constprod(rc(c), v, lo, hi, rest))
            for x, e in m:
                if v not in x.fv:
                    q = self.constprod(x, v, lo, hi, rest)
                    (mm, cc), = q.items()
                    r = pmul(r, {tuple((y, n * e) for y, n in mm): cc ** e})
                else:
                    r = pmul(r, {((self.prodatom(x, v, lo, hi, rest), e),): Fraction(1)})
            return [(frozenset(), self.mononorm(r))]
        if not p:
            raise ProofFail("zero factor in a product")
        q, cont = pr.primitive(p)
        if cont != {ONE: Fraction(1)}:
            r = self.prodcell(v, lo, hi, frozenset(rest), cont, pr)
        else:
            r = [(frozenset(), pconst(1))]
        return self.gprod([r, [(frozenset(), patom(self.prodatom(polyT(q), v, lo, hi, rest)))]])

    def constprod(self, x, v, lo, hi, rest):
        """product of a factor independent of v"""
        n = sub(hi, lo)
        nes = []
        for y in rest:
            if y.op == "not" and self.solvefor(y.args[0], v) is not None:
                nes.append(self.solvefor(y.args[0], v))
            else:
                raise ProofFail("constant below a guarded product")
        if len(nes) > 1:
            raise ProofFail("constant below a guarded product")
        for e in nes:
            d = self.require(and_(le(lo, e), lt(e, hi)))
            if d is None:
                raise ProofFail("undecided")
            if d:
                n = sub(n, I1)
        r = self.gpowt(mk("powt", (x, n), "R")) if not isconst(n) else self.gp(powt(x, n))
        if len(r) != 1 or r[0][0]:
            raise ProofFail("powt")
        return r[0][1]

    def prodatom(self, x, v, lo, hi, rest):
        rest = sorted(rest, key=lambda t: t.key)
        g = guardT(rest)
        c = self.shift(v, [x] + rest)
        if c:
            x = subst(x, {v: sub(v, ic(c))})
            g = subst(g, {v: sub(v, ic(c))})
            lo, hi = add(lo, ic(c)), add(hi, ic(c))
        return app("PP", (close(v, ite(g, x, R1)), lo, hi), "R")

    # ---- zero test
    def clear(self, p):
        """multiply by all '+' denominators"""
        p = self.expandpos(p)
        for _ in range(60):
            worst = None
            for m in p:
                for t, e in m:
                    if e < 0 and (t.op == "+"):
                        if worst is None or e < worst[1]:
                            worst = (t, e)
            if worst is None:
                return p
            t, e = worst
            p = {mmul(m, ((t, -e),)): c for m, c in p.items()}
            p = self.expandpos(p)
            if len(p) > MAXTERMS:
                raise Budget("too many terms")
        raise Budget("denominators")

    def pspairs(self, p):
        """rewrite sums over ranges into prefix sums with aligned bounds"""
        atoms = {}
        for m in p:
            for t, e in m:
                if t.op == "app" and t.args[0] == "PS":
                    atoms.setdefault(t.args[1], set()).add(t)
        m = {}
        for l, ts in atoms.items():
            if len(ts) < 2:
                continue
            los = {t.args[2] for t in ts}
            if len(los) == 1:
                base = {t.args[3] for t in ts}
                ends = self.alignends(base)
                for t in ts:
                    b, k = ends[t.args[3]]
                    if k:
                        r = app("PS", (l, t.args[2], b), "R")
                        # hi = b + k
                        ext = [open_(l, add(b, ic(i))) for i in range(k)]
                        m[t] = (r, ext)
            else:
                # general: sum[lo,hi) = F(hi) - F(lo)
                pts = {x for t in ts for x in t.args[2:4]}
                ends = self.alignends(pts)
                for t in ts:
                    lo, hi = t.args[2], t.args[3]
                    bl, kl = ends[lo]
                    bh, kh = ends[hi]
                    ext = [open_(l, add(bh, ic(i))) for i in range(kh)]
                    ext += [neg(open_(l, add(bl, ic(i)))) for i in range(kl)]
                    m[t] = (sub(app("PF", (l, bh), "R"), app("PF", (l, bl), "R")), ext)
        # products from the same start to ends with a constant distance: the factors beyond the first end are split off
        mp, pats = {}, {}
        for mono in p:
            for t, e in mono:
                if t.op == "app" and t.args[0] == "PP":
                    pats.setdefault((t.args[1], t.args[2]), set()).add(t)
        for (l, lo), ts in pats.items():
            if len(ts) < 2:
                continue
            ends = self.alignends({t.args[3] for t in ts})
            for t in ts:
                b, k = ends[t.args[3]]
                if k:
                    mp[t] = (app("PP", (l, lo, b), "R"), [open_(l, add(b, ic(i))) for i in range(k)])
        if not m and not mp:
            return p
        out = {}
        for mono, c in p.items():
            q = {(): c}
            for t, e in mono:
                if t in mp:
                    r, ext = mp[t]
                    s = patom(r)
                    for x in ext:
                        g = self.gp(x)
                        if len(g) != 1 or g[0][0]:
                            raise ProofFail("guard in a range extension")
                        s = pmul(s, g[0][1])
                    q = pmul(q, ppow(s, e) if e > 0 else ppow(self.invert(s), -e))
                elif t in m and e > 0:
                    r, ext = m[t]
                    s = self.pf(r)
                    for x in ext:
                        g = self.gp(x)
                        for h, y in g:
                            if h:
                                raise ProofFail("guard in a range extension")
                            s = padd(s, y)
                    q = pmul(q, ppow(s, e))
                else:
                    q = pmul(q, {((t, e),): Fraction(1)})
            out = padd(out, q)
        return out

    def pf(self, r):
        if r.op == "app":
            return patom(r)
        s = {}
        for x in (r.args if r.op == "+" else (r,)):
            c, y = tm._coef(x)
            if y is None:
                s = padd(s, pconst(c))
            else:
                s = padd(s, patom(y), c)
        return s

    def alignends(self, pts):
        """for every end e: (base, k) with e = base + k, k >= 0 constant"""
        groups = {}
        for e in pts:
            acc, k = lin(e)
            groups.setdefault(sub(e, ic(k)), []).append((int(k), e))
        r = {}
        for b0, l in groups.items():
            kmin = min(k for k, e in l)
            for k, e in l:
                r[e] = (add(b0, ic(kmin)), k - kmin)
        return r

    def iszero(self, p):
        p = self.clear(p)
        if not p:
            return True
        q = self.pspairs(p)
        q = self.clear(q)
        return not q

    def residual(self, t):
        """polynomial of t (no local guards at top level)"""
        s = {}
        for g, p in self.gp(t):
            if g:
                # guards over outer variables only: they must have been split
                raise NeedSplit(next(iter(g)))
            s = padd(s, p)
        return s


def stripabs(t):
    """PP term -> the same product without absolute values"""
    l, lo, hi = t.args[1:]

    def f(b):
        if b.op == "ite":
            return ite(b.args[0], f(b.args[1]), f(b.args[2]))
        if b.op == "*":
            return mul(*[f(x) for x in b.args])
        if b.op in ("recip",):
            return recip(f(b.args[0]))
        if b.op == "fn" and b.args[0] == "abs":
            return b.args[1]
        return b
    v = boundvar(l)
    b = f(l.args[2])
    if b is l.args[2]:
        return t
    return app("PP", (lam("I", lambda i: subst(b, {v: i})), lo, hi), "R")


def prodterm(l, lo, hi, f, sumlike=False):
    """Prod over [lo,hi) of f(body), body = ite(g, x, 1) (or 0 for a sum atom)"""
    v = fresh("k", "I")
    b = open_(l, v)
    if b.op == "ite":
        g, x, y = b.args
        neutral = R0 if sumlike else R1
        if y is neutral:
            nb = ite(g, f(x), R1)
        elif x is neutral:
            nb = ite(g, R1, f(y))
        else:
            nb = f(b)
    else:
        nb = f(b)
    return Prod(lo, hi, close(v, nb))


# ------------------------------------------------------------------ goals
class Result:
    def __init__(self):
        self.cases = 0
        self.fail = None


MAXCASES = 400


def simplify_eqs(ctx, t):
    """use integer equalities v == e of the context to eliminate variables in t"""
    m = {}
    for a in ctx.asm:
        if a.op == "eq" and a.args[0].sort == "I":
            acc, k = lin(a.args[0])
            cands = [v for v, c in acc.items() if v.op == "var" and abs(c) == 1 and "!" in v.args[0]]
            for v in sorted(cands, key=lambda v: -v.id):
                rest = subst(sub(a.args[0], scale(acc[v], v)), m)
                if v in rest.fv or v in m:
                    continue
                e = scale(-1 / acc[v], rest)
                m = {x: subst(y, {v: e}) for x, y in m.items()}
                m[v] = e
                break
    return subst(t, m) if m else t


def real_eqs(ctx, t):
    """use equalities x(i) == e between reals of the context"""
    m = {}
    for a in ctx.asm:
        if a.op == "eq" and a.args[0].sort == "R":
            acc, k = lin(a.args[0])
            cands = [v for v, c in acc.items() if (v.op in ("app", "var"))]
            if not cands:
                continue
            v = max(cands, key=lambda v: v.id)
            e = scale(-1 / acc[v], sub(a.args[0], scale(acc[v], v)))
            if v in subterms(e) or v in m:
                continue
            e = replace(e, m)
            m = {x: replace(y, {v: e}) for x, y in m.items()}
            m[v] = e
    return replace(t, m) if m else t


def prove(goal, ctx, hints=None, depth=0, budget=None):
    """True, or raises ProofFail / Undefined / Budget"""
    hints = hints if hints is not None else {}
    budget = budget if budget is not None else {"cases": 0, "t0": time.time(), "limit": hints.get("time", 120)}
    if goal is TRUE or goal in ctx.set:
        return True
    if goal.bad and goal.op == "undef":
        if not ctx.feasible():
            return True
        raise Undefined(goal, ctx)
    if goal.op == "and":
        for g in goal.args:
            prove(g, ctx, hints, depth, budget)
        return True
    if goal.op == "not" and goal.args[0].op == "exists":
        lo, hi, l = goal.args[0].args
        v = fresh("u", "I")
        return prove(not_(open_(l, v)), ctx.extend(le(lo, v), lt(v, hi)), hints, depth, budget)
    if goal.op == "not" and goal.args[0].op == "and":
        return prove(or_(*[not_(a) for a in goal.args[0].args]), ctx, hints, depth, budget)
    if goal.op == "not" and goal.args[0].op == "or":
        return prove(and_(*[not_(a) for a in goal.args[0].args]), ctx, hints, depth, budget)
    if goal.op == "or":
        if ctx.valid(goal):
            return True
        args = list(goal.args)
        if goal.bad:
            # a disjunct with an undefined part cannot be shown
            some = [a for a in args if a.op != "undef" and not (a.op == "and" and any(x.op == "undef" for x in a.args))]
            if some and len(some) < len(args):
                return prove(or_(*some), ctx, hints, depth, budget)
            for a in args:
                if not a.bad and ctx.valid(a):
                    return True
            args = [a for a in args if a.bad or not ctx.valid(not_(a))]
            new = []
            for a in args:
                if a.op == "and":
                    ls = []
                    for x in a.args:
                        d = ctx.decide(x) if not x.bad else None
                        if d is False:
                            break
                        if d is None:
                            ls.append(x)
                    else:
                        new.append(and_(*ls))
                else:
                    new.append(a)
            g2 = or_(*new)
            if g2 is not goal:
                return prove(g2, ctx, hints, depth, budget)
            lits = {}
            for a in args:
                for x in (a.args if a.op == "and" else (a,)):
                    if not x.bad:
                        if not_(x) in lits:
                            # a conditional: both cases
                            for d in (x, not_(x)):
                                c2 = ctx.extend(d)
                                if c2.feasible():
                                    prove(goal, c2, hints, depth + 1, budget)
                            return True
                        lits[x] = True
        eqs = [a for a in args if a.op == "eq" and a.args[0].sort == "R"] or \
              [a for a in args if a.op == "not" and a.args[0].op == "exists"] or \
              [a for a in args if a.op in ("and",)] or [a for a in args if a.op == "exists"] or args[-1:]
        g = eqs[-1]
        asm = [not_(a) for a in args if a is not g]
        c2 = ctx.extend(*asm)
        if not c2.feasible():
            return True
        return prove(g, c2, hints, depth, budget)
    if goal.op == "exists":
        if ctx.valid(goal):
            return True
        for w in hints.get("witness", ()):
            lo, hi, l = goal.args
            try:
                return prove(and_(le(lo, w), lt(w, hi), open_(l, w)), ctx, hints, depth, budget)
            except (ProofFail, Undefined):
                pass
        raise ProofFail("no witness for %s" % show(goal)[:300], ctx, goal)
    if goal.op == "eq" and goal.args[0].sort == "R" and not goal.bad:
        return prove_zero(goal.args[0], ctx, hints, depth, budget)
    if goal.op == "eq" and goal.args[0].sort == "R":
        return prove_zero(goal.args[0], ctx, hints, depth, budget)
    if ctx.valid(goal):
        return True
    if goal.op in ("le", "not", "eq") and ctx.nlvalid(goal):
        return True
    for lem in hints.get("goal_lemmas", ()):
        if lem(goal, ctx):
            return True
    if not goal.bad and not hints.get('quick') and ctx.mbvalid(goal):
        return True
    raise ProofFail("not valid: %s" % show(goal)[:400], ctx, goal)


def prove_zero(t, ctx, hints, depth=0, budget=None):
    budget = budget if budget is not None else {"cases": 0, "t0": time.time(), "limit": 120}
    budget["cases"] += 1
    if budget["cases"] > hints.get("maxcases", MAXCASES) or time.time() - budget["t0"] > budget["limit"]:
        raise Budget("case / time budget")
    t0 = t
    t = simplify_eqs(ctx, t)
    t = real_eqs(ctx, t)
    pr = Prover(ctx, dict(hints, _provers={}))
    try:
        p = pr.residual(t)
        if pr.iszero(p):
            return True
    except NeedSplit as s:
        c = s.cond
        for d in (c, not_(c)):
            c2 = ctx.extend(d)
            if c2.feasible():
                prove_zero(t, c2, hints, depth + 1, budget)
        return True
    except Undefined as u:
        if not u.ctx.feasible():
            return True
        raise
    # unfold definitional equations of ghost functions
    q = pr.clear(pr.pspairs(pr.clear(p)))
    if depth < 60:
        r = polyT(q)
        unf = hints.get("unfold")
        if unf:
            n = hints.get("unfold_depth", 2)
            done = hints.get("_unfolded", 0)
            if done < n:
                m = {}
                for x in undominated({x for mono in q for x, e in mono if x.op == "app"}, ctx):
                    y = unf(x, ctx)
                    if y is not None:
                        m[x] = y
                if m:
                    return prove_zero(replace(r, m), ctx, dict(hints, _unfolded=done + 1), depth + 1, budget)
        # congruence: unify index arguments of applications
        u = unify(q, ctx)
        if u is not None:
            c, r2 = u
            if c is None:
                return prove_zero(r2, ctx, hints, depth + 1, budget)
            for d in (c, not_(c)):
                c2 = ctx.extend(d)
                if c2.feasible():
                    prove_zero(r, c2, hints, depth + 1, budget)
            return True
        # last resort: nonlinear real arithmetic over the atoms
        if ctx.nlvalid(eq(r, R0)):
            return True
        if not r.bad and any(hasquant(a) for a in ctx.asm) and (ctx.valid(eq(r, R0)) or not t0.bad and ctx.valid(eq(t0, R0))):
            return True
        raise ProofFail("residual %s" % show(r)[:600], ctx, r)
    raise ProofFail("depth", ctx, t)


def undominated(atoms, ctx):
    """applications, without those f(.., a, ..) beside an f(.., b, ..) with a < b
    (recursive definitions are unfolded from the latest instance on)"""
    atoms = sorted(atoms, key=lambda t: t.key)
    out = []
    for x in atoms:
        for y in atoms:
            if y is x or y.args[0] != x.args[0] or len(y.args) != len(x.args):
                continue
            diff = [(a, b) for a, b in zip(x.args[1:], y.args[1:]) if a is not b]
            if len(diff) == 1 and isinstance(diff[0][0], T) and diff[0][0].sort == "I" and ctx.valid(lt(*diff[0])):
                break
        else:
            out.append(x)
    return out


def unify(q, ctx):
    """two atoms f(a), f(b) whose index arguments are provably equal: substitute;
    or may be equal or not: propose a split"""
    atoms = {}
    for mono in q:
        for x, e in mono:
            for y in subterms(x):
                if y.op == "app" and y.args[0] not in ("PS", "PP", "PF") and not any(
                        v.args[0].startswith("@") for v in y.fv):
                    atoms.setdefault((y.args[0], len(y.args)), set()).add(y)
    for k, s in atoms.items():
        s = sorted(s, key=lambda t: t.key)
        for i in range(len(s)):
            for j in range(i):
                conds = [eq(a, b) for a, b in zip(s[i].args[1:], s[j].args[1:]) if isinstance(a, T) and a is not b]
                if any(c.op == "eqE" for c in conds):
                    continue
                c = and_(*conds)
                if ctx.valid(c):
                    r = polyT(q)
                    return None, replace(r, {s[i]: s[j]})
    return None
