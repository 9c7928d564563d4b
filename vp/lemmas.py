"""Structural facts used as context lemmas: non-zero and positive terms."""
from .terms import *
from . import terms as tm

BUSY = set()


def _body(t):
    """sum / prod term -> lo, hi, lam"""
    return t.args[0], t.args[1], t.args[2]


def nz(t, ctx):
    """t is defined and != 0"""
    if t.sort == "I":
        return ctx.valid(ne(t, I0))
    o, a = t.op, t.args
    if o == "const":
        return cval(t) != 0
    if o in ("undef", "inf", "var"):
        return False
    if o == "*":
        return all(nzq(x, ctx) for x in a)
    if o in ("pow", "powt", "recip"):
        return nzq(a[0], ctx)
    if o == "prod":
        lo, hi, l = _body(t)
        v = fresh("v", "I")
        return nzq(open_(l, v), ctx.extend(le(lo, v), lt(v, hi)))
    if o == "app" and a[0] == "PP":
        l, lo, hi = a[1:]
        v = fresh("v", "I")
        return nzq(open_(l, v), ctx.extend(le(lo, v), lt(v, hi)))
    if o == "ite":
        return _ite(t, ctx, nzq)
    if o == "fn":
        if a[0] == "exp":
            return defined(a[1], ctx)
        if a[0] in ("abs", "sign", "sqrt"):
            return nzq(a[1], ctx) if a[0] != "sqrt" else pos(a[1], ctx)
        return pos(t, ctx)
    return False


def nzq(t, ctx):
    return memo("nzq", t, ctx, _nzq)


def memo(k, t, ctx, f):
    m = ctx.memo
    if (k, t) not in m:
        m[k, t] = False     # cycles
        m[k, t] = f(t, ctx)
    return m[k, t]


def _nzq(t, ctx):
    if t.op in ("prod", "*", "ite", "fn", "recip", "pow", "powt") or t.op == "app" and t.args[0] == "PP":
        if nz(t, ctx):
            return True
    if t.sort == "R" and not t.bad and ctx.valid(ne(t, R0)):
        return True
    return pos(t, ctx)


def _ite(t, ctx, f):
    c, x, y = t.args
    d = ctx.decide(c)
    if d is True:
        return f(x, ctx)
    if d is False:
        return f(y, ctx)
    ok = True
    for cc, v in ((c, x), (not_(c), y)):
        c2 = ctx.extend(cc)
        if not c2.feasible():
            continue
        if not f(v, c2):
            return False
    return ok


def known(x, ctx):
    """the sum x is a non-zero multiple of a sum assumed not to vanish"""
    from . import prover as pv
    for a in ctx.asm:
        if a.op == "not" and a.args[0].op == "eq" and a.args[0].args[0].sort == "R" and a.args[0].args[0].op in ("sum", "+", "*"):
            pr = pv.Prover(ctx, {"_provers": {}})
            s = pr.residual(a.args[0].args[0])
            if len(s) == 1:
                (m, c), = s.items()
                if any(y is x for y, e in m) and all(y is x or nzq(y, ctx) for y, e in m):
                    return True
    return False


def nzp(t, ctx, depth=0):
    """t != 0 by normalisation: one monomial of non-zero factors, or a multiple of a sum assumed not to vanish"""
    from . import prover as pv
    if depth > 6:
        return False
    pr = pv.Prover(ctx, {"_provers": {}})
    try:
        p = pr.residual(pv.real_eqs(ctx, pv.simplify_eqs(ctx, t)))
        if not p:
            return False
        if len(p) == 1:
            (m, c), = p.items()
            return all(nzq(x, ctx) or x.op == "app" and x.args[0] == "PS" and known(x, ctx) for x, e in m)
        q, cont = pr.primitive(p)
        for a in ctx.asm:
            if a.op == "not" and a.args[0].op == "eq" and a.args[0].args[0].sort == "R" and a.args[0].args[0].op in ("sum", "+", "*"):
                s = pv.Prover(ctx, {"_provers": {}}).residual(a.args[0].args[0])
                if len(s) > 1:
                    s, _ = pr.primitive(s)
                    if s == q or pr.iszero(pv.padd(s, q, -1)):
                        (m, c), = cont.items()
                        return all(nzq(x, ctx) for x, e in m)
    except pv.NeedSplit as s:
        for d in (s.cond, not_(s.cond)):
            c2 = ctx.extend(d)
            if c2.feasible() and not nzp(t, c2, depth + 1):
                return False
        return True
    except (pv.Undefined, pv.ProofFail, pv.Budget):
        return False
    return False


def pos(t, ctx):
    """t is defined and > 0"""
    return memo("pos", t, ctx, _pos)


def _pos(t, ctx):
    o, a = t.op, t.args
    if t.sort == "I":
        return ctx.valid(lt(I0, t))
    if o == "const":
        return cval(t) > 0
    if o in ("undef", "inf"):
        return False
    if o == "*":
        return all(pos(x, ctx) for x in a)
    if o == "pow" and not isinstance(a[1], T) and a[1] % 2 == 0:
        return nzq(a[0], ctx)
    if o in ("pow", "powt", "recip"):
        return pos(a[0], ctx)
    if o == "prod":
        lo, hi, l = _body(t)
        v = fresh("v", "I")
        return pos(open_(l, v), ctx.extend(le(lo, v), lt(v, hi)))
    if o == "ite":
        return _ite(t, ctx, pos)
    if o == "fn":
        if a[0] == "exp":
            return defined(a[1], ctx)
        if a[0] == "abs":
            return nzq(a[1], ctx)
        if a[0] == "sqrt":
            return pos(a[1], ctx)
        if a[0] == "rpow":
            return pos(a[1], ctx) and defined(a[2], ctx)
        if a[0] in ("log", "log10", "log2"):
            return isconst(a[1]) and cval(a[1]) > 1
        return False
    if o == "app" and a[0] == "MAX" and len(a) == 3 and isinstance(a[2], T) and a[2].sort == "L":
        # a maximum is at least its first element
        return ctx.valid(lt(I0, a[1])) and pos(open_(a[2], I0), ctx)
    if o == "+" and spread(t, ctx):
        return True
    return not t.bad and ctx.valid(gt(t, R0))


def nonneg(t, ctx):
    """t is defined and >= 0"""
    o, a = t.op, t.args
    if o == "const":
        return cval(t) >= 0
    if o == "*":
        return all(nonneg(x, ctx) for x in a)
    if o == "recip":
        return pos(a[0], ctx)
    if o == "fn" and a[0] in ("abs", "sqrt"):
        return defined(a[1], ctx)
    if o == "ite":
        return _ite(t, ctx, nonneg)
    return pos(t, ctx)


def spread(t, ctx):
    """max f - min f > 0 for two different values of f"""
    ap = [x for x in t.args if x.op == "app" and x.args[0] == "MAX"]
    an = [x for x in t.args if x.op == "*" and len(x.args) == 2 and isconst(x.args[0]) and cval(x.args[0]) == -1 and x.args[1].op == "app" and x.args[1].args[0] == "MIN"]
    if len(t.args) == 2 and len(ap) == 1 and len(an) == 1:
        m, n = ap[0], an[0].args[1]
        if m.args[1:] == n.args[1:]:
            l = m.args[2]
            return ctx.valid(le(ic(2), m.args[1])) and ctx.valid(ne(open_(l, I0), open_(l, I1)))
    return False


def defined(t, ctx):
    """no undefined or infinite value inside"""
    if t.op in ("undef", "inf"):
        return False
    if t.op in ("const", "var"):
        return True
    if t.op == "ite":
        return _ite(t, ctx, defined)
    if t.op in ("sum", "prod"):
        lo, hi, l = _body(t)
        v = fresh("v", "I")
        return defined(open_(l, v), ctx.extend(le(lo, v), lt(v, hi)))
    if t.op == "recip":
        return nzq(t.args[0], ctx)
    if t.op == "app" and t.args[0] in ("MAX", "MIN"):
        v = fresh("v", "I")
        return defined(open_(t.args[2], v), ctx.extend(le(I0, v), lt(v, t.args[1])))
    if t.op == "app":
        return True
    if t.op == "fn":
        if t.args[0] in ("log", "log10", "log2"):
            return defined(t.args[1], ctx) and pos(t.args[1], ctx)
        return all(defined(x, ctx) for x in t.args[1:])
    return all(defined(x, ctx) for x in t.args if isinstance(x, T) and x.sort in "RI")


def lemma(c, ctx):
    """context lemma: ne(t, 0), t > 0"""
    key = (id(ctx), c)
    if key in BUSY or len(BUSY) > 40:
        return False
    BUSY.add(key)
    try:
        if c.op == "not" and c.args[0].op == "eq" and c.args[0].args[0].sort == "R":
            t = c.args[0].args[0]
            return t.op not in ("var",) and (nz(t, ctx) or pos(t, ctx) or pos(neg(t), ctx) or t.op == "sum" and nzp(t, ctx))
        if c.op == "not" and c.args[0].op == "le" and c.args[0].args[0].sort == "R":
            return pos(c.args[0].args[0], ctx)
        if c.op == "le" and c.args[0].sort == "R":
            t = neg(c.args[0])
            return t.op in ("*", "fn", "recip") and nonneg(t, ctx)
    finally:
        BUSY.discard(key)
    return False
