"""Contexts (sets of assumptions) decided by z3 (integer linear arithmetic,
uninterpreted functions, quantified hypotheses by e-matching)."""
import time
import collections
import z3
from .terms import *
from . import terms as tm

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0, "z3_unsat": 0}
# the limits of z3 are on its own count of steps (the same on a loaded machine), the wall clock is a backstop only
RLIMIT, TIMEOUT = 16000000, 60000


class Tr:
    """term -> z3"""

    def __init__(self, nl=False):
        self.memo = {}
        self.nl = nl
        self.funs = {}

    SORT = {"I": z3.IntSort, "R": z3.RealSort, "B": z3.BoolSort}

    def fun(self, name, dom, ran):
        key = (name, dom, ran)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function(name, *[self.SORT[d]() for d in dom], self.SORT[ran]())
            self.funs[key] = f
        return f

    def uf(self, name, args, sort):
        """uninterpreted function over term args; lambda arguments are named by identity"""
        zs, dom, nm = [], "", name
        for a in args:
            if isinstance(a, T):
                if a.sort == "L":
                    sk, free = lift(a)
                    nm += "#%d" % sk.id
                    for v in free:
                        zs.append(self(v))
                        dom += v.sort
                elif a.sort == "E":
                    nm += "#%d" % a.id
                else:
                    zs.append(self(a))
                    dom += a.sort
            else:
                nm += "/%s" % (a,)
        if not zs:
            return z3.Const(nm, self.SORT[sort]())
        return self.fun(nm, dom, sort)(*zs)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def _tr(self, t):
        o, a = t.op, t.args
        if o == "const":
            c = a[0]
            if t.sort == "B":
                return z3.BoolVal(c)
            if t.sort == "I":
                return z3.IntVal(int(c))
            return z3.RealVal(str(c))
        if o == "var":
            return z3.Const(a[0], self.SORT[t.sort]())
        if o == "+":
            return z3.Sum([self(x) for x in a])
        if o == "*":
            nc = [x for x in a if x.op != "const"]
            if len(nc) == 1 or self.nl:
                r = self(a[0])
                for x in a[1:]:
                    r = r * self(x)
                return r
            c = Fraction(1)
            for x in a:
                if x.op == "const":
                    c *= cval(x)
            u = self.uf("mul%s%d" % (t.sort, len(nc)), nc, t.sort)
            if c == 1:
                return u
            return (z3.RealVal(str(c)) if t.sort == "R" else z3.IntVal(int(c))) * u
        if o == "pow":
            if self.nl:
                r = self(a[0])
                q = r
                for _ in range(a[1] - 1):
                    q = q * r
                return q
            return self.uf("pow%d" % a[1], [a[0]], t.sort)
        if o == "recip":
            if self.nl:
                return 1 / self(a[0])
            return self.uf("recip", [a[0]], "R")
        if o == "toR":
            return z3.ToReal(self(a[0]))
        if o == "not":
            return z3.Not(self(a[0]))
        if o == "and":
            return z3.And([self(x) for x in a])
        if o == "or":
            return z3.Or([self(x) for x in a])
        if o == "le":
            return self(a[0]) <= 0
        if o == "eq":
            return self(a[0]) == 0
        if o == "ite":
            return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if o == "exists":
            bv = boundvar(a[2])
            z = self(bv)
            return z3.Exists([z], z3.And(self(a[0]) <= z, z < self(a[1]), self(a[2].args[2])))
        if o == "idiv":
            if isconst(a[1]) and cval(a[1]) > 0:
                return self(a[0]) / self(a[1])
            return self.uf("idiv", a, "I")
        if o == "imod":
            if isconst(a[1]) and cval(a[1]) > 0:
                return self(a[0]) % self(a[1])
            return self.uf("imod", a, "I")
        if o == "fn" and a[0] == "abs":
            z = self(a[1])
            return z3.If(z >= 0, z, -z)
        if o in ("app", "fn"):
            return self.uf(a[0], a[1:], t.sort)
        if o == "undef" or o == "inf" or o == "eqE":
            return z3.Const("%s#%d" % (o, t.id), self.SORT[t.sort]())
        return self.uf(o, a, t.sort)


def lift(l, memo={}):
    """(skeleton, terms): the lambda as a function of its maximal subterms without own bound variables, so that
    equal instances of a lambda get the same name"""
    r = memo.get(l)
    if r is not None:
        return r
    h = l.args[0]
    free, names = [], {}
    own = {}

    def bound(t):
        return any(v.args[0].startswith("@") and int(v.args[0][1:]) <= h for v in t.fv)

    def go(t):
        if not isinstance(t, T) or t.op in ("const", "undef", "inf"):
            return t
        if t.op == "lam":
            b = go(t.args[2])
            return t if b is t.args[2] else mk("lam", (t.args[0], t.args[1], b), "L")
        if t.op not in ("+", "*", "and", "or", "not", "le", "eq") and t.sort in "IRB" and not bound(t):
            if t not in names:
                names[t] = var("#%d%s" % (len(free), t.sort), t.sort)
                free.append(t)
            return names[t]
        if t in own:
            return own[t]
        na = tuple(go(x) for x in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else mk(t.op, na, t.sort)
        own[t] = r
        return r
    r = (go(l), free)
    memo[l] = r
    return r


_TR = Tr()
_TRN = Tr(nl=True)


def hasquant(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op == "exists" or any(isinstance(a, T) and a.sort in "BIR" and hasquant(a) for a in t.args)
        memo[t] = r
    return r


def groundterms(a, memo={}):
    """applications without bound variables below a quantifier"""
    r = memo.get(a)
    if r is None:
        r, seen = [], set()

        def walk(t, below):
            if (t, below) in seen or not isinstance(t, T):
                return
            seen.add((t, below))
            if below and t.op == "app" and t.sort in "IR":
                if not any(v.args[0].startswith("@") for v in t.fv):
                    if any(isinstance(x, T) and x.sort in "IR" for x in t.args):
                        r.append(t)
                    return
            if t.op == "exists":
                for x in t.args[:2]:
                    walk(x, below)
                walk(t.args[2].args[2], True)
            elif t.op != "lam":
                for x in t.args:
                    if isinstance(x, T):
                        walk(x, below)
        walk(a, False)
        memo[a] = r
    return r


def _negquant(t, memo={}):
    """contains a universally quantified part (a negated exists)?"""
    return hasquant(t)


# functions whose values at the variables of a goal take part in the instantiation of quantified assumptions
# their defining facts give new terms to instantiate them with, without end
LOOPING = frozenset(("WHERE", "WHEREV"))


def functors(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = frozenset(x.args[0] for x in subterms(t) if x.op == "app") & LOOPING
        memo[t] = r
    return r


INVERSES = ("ARGSORTINV", "SORTQ", "UNIQV")


LIVE = collections.OrderedDict()       # solvers in use, the oldest ones are given up
NLIVE = 150


def keep(ctx, which):
    k = (id(ctx), which)
    LIVE[k] = (ctx, which)
    LIVE.move_to_end(k)
    while len(LIVE) > NLIVE:
        c, w = LIVE.popitem(last=False)[1]
        if w is None:
            c.solver = None
        else:
            c.fsolver.pop(w, None)


class Ctx:
    """immutable set of assumptions, with cached validity queries"""
    __slots__ = ("asm", "set", "cache", "parent", "lemmas", "solver", "qsolver", "_feas", "eqs", "memo", "funs", "fsolver")

    def __init__(self, asm=(), lemmas=()):
        self.asm = tuple(asm)
        self.set = frozenset(asm)
        self.cache = {}
        self.memo = {}
        self.lemmas = lemmas
        self.solver = self.qsolver = self.funs = None
        self.fsolver = {}
        self._feas = None

    def extend(self, *cs):
        new = []
        for c in cs:
            for d in (c.args if c.op == "and" else (c,)):
                if d is not TRUE and d not in self.set and d not in new:
                    new.append(d)
        if not new:
            return self
        key = ("ext", tuple(new))
        r = self.cache.get(key)
        if r is None:
            r = Ctx(self.asm + tuple(new), self.lemmas)
            self.cache[key] = r
        return r

    def _mk(self, quant, skip=()):
        s = z3.Solver()
        s.set("timeout", TIMEOUT)
        s.set("rlimit", RLIMIT)
        s.set("smt.mbqi", False)
        asm = [a for a in self.asm if not hasquant(a) or quant and not (skip and functors(a) & skip)]
        for a in asm:
            s.add(_TR(a))
        if quant:
            # ground terms below quantifiers take part in the instantiation
            seen = set()
            for a in asm:
                if hasquant(a):
                    for g in groundterms(a):
                        if g not in seen:
                            seen.add(g)
                            s.add(z3.Const("gr#%d" % g.id, Tr.SORT[g.sort]()) == _TR(g))
        return s

    def _query(self, neg, quant):
        t0 = time.time()
        if quant:
            # assumptions on the functions of LOOPING take part only where these functions occur in the goal or in a
            # quantifier-free assumption
            if self.funs is None:
                self.funs = frozenset().union(*[functors(a) for a in self.asm if not hasquant(a)])
            skip = LOOPING - self.funs - functors(neg)
            s = self.fsolver.get(skip)
            if s is None:
                s = self.fsolver[skip] = self._mk(True, skip)
            keep(self, skip)
        else:
            if self.solver is None:
                self.solver = self._mk(False)
            s = self.solver
            keep(self, None)
        s.push()
        s.add(_TR(neg))
        r = s.check()
        s.pop()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if time.time() - t0 > 0.95 * TIMEOUT / 1000:
            STATS["z3_wall"] = STATS.get("z3_wall", 0) + 1
        if r == z3.unsat:
            STATS["z3_unsat"] += 1
        elif r == z3.unknown:
            STATS["z3_unknown"] += 1
        return r

    def valid(self, c):
        """assumptions |- c ?  (False: not shown)"""
        if c is TRUE:
            return True
        if c in self.set:
            return True
        if FALSE in self.set:
            return True
        n = not_(c)
        if n in self.set:
            return not self.feasible()
        r = self.cache.get(c)
        if r is not None:
            return r
        if c.op == "and":
            r = all(self.valid(x) for x in c.args)
        elif c.op == "not" and c.args[0].op == "or":
            r = all(self.valid(not_(x)) for x in c.args[0].args)
        elif c.bad:
            # possibly undefined parts: only lemmas that establish definedness
            r = any(lem(c, self) for lem in self.lemmas)
        else:
            q = hasquant(n) or any(hasquant(a) for a in self.asm)
            r = self._query(n, False) == z3.unsat
            if not r and q:
                r = self._query(n, True) == z3.unsat
            if not r:
                for lem in self.lemmas:
                    if lem(c, self):
                        r = True
                        break
        self.cache[c] = r
        return r

    def feasible(self):
        """False only if the assumptions are contradictory"""
        if self._feas is None:
            if FALSE in self.set:
                self._feas = False
            else:
                q = any(hasquant(a) for a in self.asm)
                r = self._query(TRUE, False) != z3.unsat
                if r and q:
                    r = self._query(TRUE, True) != z3.unsat
                self._feas = r
        return self._feas

    def decide(self, c):
        """True / False / None"""
        if c.op == "const":
            return cval(c)
        if self.valid(c):
            return True
        if self.valid(not_(c)):
            return False
        return None

    def mbvalid(self, c):
        """quantified assumptions with model-based instantiation"""
        if not any(hasquant(a) for a in self.asm):
            return False
        t0 = time.time()
        inv, seen = {}, set()

        def walk(t):
            if t in seen or not isinstance(t, T):
                return
            seen.add(t)
            if t.op == "app" and t.args[0] in INVERSES and not any(isinstance(x, T) and any(v.args[0].startswith("@") for v in x.fv) for x in t.args[1:-1]):
                inv[t.args[:-1]] = 1
            for x in t.args:
                walk(x)
        for a in self.asm:
            walk(a)
        seeds = [v for v in c.fv if v.sort == "I"]
        new = list(seeds)
        for _ in range(3):
            new = [app(k[0], k[1:] + (v,), "I") for k in inv for v in new][:40]
            seeds += new
        for mb in ((False, True) if inv else (True,)):
            s = z3.Solver()
            s.set("timeout", TIMEOUT)
            s.set("rlimit", 2 * RLIMIT)
            if not mb:
                s.set("smt.mbqi", False)
                sp = z3.Function("seed#", z3.IntSort(), z3.BoolSort())
                for g in seeds:
                    s.add(sp(_TR(g)))
            for a in self.asm:
                s.add(_TR(a))
            s.add(_TR(not_(c)))
            r = s.check()
            if r == z3.unsat:
                break
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if time.time() - t0 > 0.95 * TIMEOUT / 1000:
            STATS["z3_wall"] = STATS.get("z3_wall", 0) + 1
        return r == z3.unsat

    def nlvalid(self, c):
        """nonlinear real arithmetic, quantifier-free assumptions"""
        if c is TRUE:
            return True
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", TIMEOUT)
        s.set("rlimit", RLIMIT)
        for a in self.asm:
            if not hasquant(a):
                s.add(_TRN(a))
        s.add(_TRN(not_(c)))
        r = s.check()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if time.time() - t0 > 0.95 * TIMEOUT / 1000:
            STATS["z3_wall"] = STATS.get("z3_wall", 0) + 1
        return r == z3.unsat
