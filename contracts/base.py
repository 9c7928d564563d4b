"""Contracts: run the real functions of /repo symbolically, one obligation per
postcondition and path, discharged by vp.prover / z3."""
import os
import signal
import sys
import time
import traceback
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
import numpy as np
import vp.sym as sym
from vp.sym import Session, SArr, SList, Buf, Unsupported, Sym, SInt, SReal, SBool, wrap, term, darr, PathLimit, IMAG, PI, Choice, SRange
from vp.load import World, symbolic, Str
from vp.terms import *
from vp import terms as tm
from vp import prover, loops, shim, lemmas as LEM
from vp.ctx import Ctx, STATS

CONTRACTS = {}


def contract(pid, functions, title, tier="quick", time_=90):
    """registers a contract: f(V) issues obligations through V"""
    def deco(f):
        CONTRACTS.setdefault(pid, []).append({"f": f, "functions": functions, "title": title, "tier": tier, "time": time_, "name": f.__name__})
        return f
    return deco


CANARY = [0] if os.environ.get("VP_CANARY") else None
CANARIES = []


class TimeUp(BaseException):
    pass


class Failed(Exception):
    """an obligation of the contract is not discharged"""


def arr(name, shape, dt="f", pre=()):
    so = {"f": "R", "i": "I", "b": "B", "c": "R"}[dt]
    return SArr.new(shape, lambda *i: app(name, tuple(pre) + i, so), dt)


def A(name, *i):
    return app(name, tuple(i), "R")


class V:
    """one contract under verification"""

    def __init__(self, meta):
        self.meta = meta
        self.obls = []
        self.assumed = {}
        self.paths = 0
        self.w = None
        self.raised = 0

    def world(self):
        shim.CALLHOOK.clear()
        self.w = World()
        self.w.module("qmat")
        return self.w

    def mod(self, name):
        return self.w.mods[name] if name in self.w.mods else self.w.module(name)

    def obl(self, name, status, t, detail=""):
        self.obls.append({"name": name, "status": status, "s": round(t, 3), "detail": detail})

    def goal(self, name, goal, ctx, S=None, hints=None):
        h = dict(hints or {})
        h.setdefault("time", 60)
        if S is not None:
            h.setdefault("unfold", loops.unfolder(S))
        t0 = time.time()
        wall = STATS.get("z3_wall", 0)
        try:
            prover.prove(goal, ctx, h)
        except (prover.ProofFail, prover.Undefined) as e:
            if not ctx.feasible():
                self.obl(name, "proved", time.time() - t0)
                return True
            # a query that was stopped by the wall clock (loaded machine) is not an answer
            # nor is a goal over a symbol whose definition is not complete (SCATTERPOS: which of several positions writes)
            open_ = "SCATTERPOS" in str(e) or "SCATTERPOS" in show(goal)
            self.obl(name, "failed" if STATS.get("z3_wall", 0) == wall and not open_ else "undecided", time.time() - t0, "%s: %s" % (type(e).__name__, str(e)[:700]))
            return False
        except (prover.Budget, PathLimit) as e:
            self.obl(name, "undecided", time.time() - t0, "%s: %s" % (type(e).__name__, str(e)[:300]))
            return False
        except RecursionError:
            self.obl(name, "undecided", time.time() - t0, "recursion limit")
            return False
        self.obl(name, "proved", time.time() - t0)
        if CANARY:
            self.canary(name, goal, ctx, S, h)
        return True

    def canary(self, name, goal, ctx, S, h):
        """self-test of the prover: after a proof, a wrong variant of the goal must not be provable in the same context"""
        def conv(g):
            if g.op == "and":
                return and_(*[conv(x) for x in g.args])
            if g.op == "eq":
                d = sub(g.args[0], g.args[1]) if len(g.args) == 2 else g.args[0]
                if d.sort in ("R", "I"):
                    return eq(add(d, R1 if d.sort == "R" else I1), R0 if d.sort == "R" else I0)
            return not_(g)
        for what, g in (("false", FALSE), ("wrong", conv(goal))):
            hh = dict(h, time=10, quick=True)
            hh.pop("unfold", None)
            if S is not None:
                hh["unfold"] = loops.unfolder(S)
            try:
                prover.prove(g, ctx, hh)
                CANARIES.append((what, name, show(goal)[:200]))
                open(os.environ["VP_CANARY"], "a").write("%s: %s :: %s\n" % (what, name, show(goal)[:300]))
            except Exception:
                CANARY[0] += 1

    def explore(self, label, asm, run, post=None, raises=None, may_raise=(), maxpaths=200, lemmas=(), expect=True, nonzero=None, keep=False):
        """run() on every path under the assumptions; post(P, value) states the postconditions.
        raises: exception types required on every path (rejection contracts);
        may_raise: (types, condition(ctx, exc) -> goal) allowed exceptional exits"""
        S = sym.set_session(Session(Ctx(tuple(asm), tuple(lemmas) + (LEM.lemma,))))
        S.maxpaths = maxpaths
        S.nonzero = nonzero
        if not S.ctx.feasible():
            raise Unsupported("%s: the precondition is contradictory" % label)

        # every path starts from the same class- and module-level state (C14 verifies that nothing is left there)
        start = Shared(self.w)

        def go():
            start.restore()
            with symbolic():
                return run()
        try:
            res = S.explore(go)
        finally:
            if not keep:
                start.restore()
        for nme, t in S.obls:
            self.obl("%s: %s" % (label, nme), "proved", t)
        for k, n in S.assumed.items():
            self.assumed[k] = self.assumed.get(k, 0) + n
        if not res:
            raise Unsupported("%s: no feasible path" % label)
        nret = 0
        for n, (ctx, conds, kind, v) in enumerate(res):
            self.paths += 1
            P = Path(self, S, ctx, "%s%s" % (label, " [path %d]" % (n + 1) if len(res) > 1 else ""), conds)
            if kind == "exc":
                if raises is not None:
                    ok = isinstance(v, raises)
                    if ok:
                        self.raised += 1
                    self.obl(P.label + ": raises %s" % "/".join(t.__name__ for t in (raises if isinstance(raises, tuple) else (raises,))),
                             "proved" if ok else "failed", 0, "" if ok else "raised %s: %s" % (type(v).__name__, str(v)[:200]))
                    continue
                h = None
                for types_, cond in may_raise:
                    if isinstance(v, types_):
                        h = cond
                        break
                if h is not None:
                    g = h(ctx, v) if callable(h) else h
                    self.goal(P.label + ": %s only where the contract allows it" % type(v).__name__, g, ctx, S)
                    continue
                if isinstance(v, (ValueError, AssertionError, IndexError, ZeroDivisionError, KeyError)):
                    self.obl(P.label + ": no exception", "failed", 0, "raises %s: %s on the path %s" % (type(v).__name__, str(v)[:200], show(conds)[:300]))
                    continue
                raise Unsupported("%s: %s: %s [%s]" % (label, type(v).__name__, str(v)[:200], " < ".join(
                    "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(v.__traceback__)[-3:]))))
            if raises is not None:
                self.obl(P.label + ": raises", "failed", 0, "accepted on the path %s" % show(conds)[:300])
                continue
            nret += 1
            old = S.ctx
            S.ctx = ctx
            try:
                if post:
                    post(P, v)
            finally:
                S.ctx = old
        if raises is None and expect and not nret:
            self.obl(label + ": returns", "failed", 0, "no path returns")
        return res


class Shared:
    """class attributes and module-level variables of the package, with the contents of the containers they hold"""

    def __init__(self, w):
        self.ns, self.con, self.memo = [], [], []
        seen = set()
        for name, m in list(w.mods.items()):
            self.ns.append((m, dict(vars(m))))
            for v in list(vars(m).values()):
                self.container(v, seen)
                if isinstance(v, type) and str(getattr(v, "__module__", "")).split(".")[0] == "qmat" and id(v) not in seen:
                    seen.add(id(v))
                    self.ns.append((v, dict(vars(v))))
                    for x in list(vars(v).values()):
                        self.container(x, seen)

    def container(self, v, seen, depth=0):
        if hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            self.memo.append((v, v.cache_info().currsize))
            return
        if isinstance(v, types.FunctionType) and vars(v) and id(v) not in seen:
            seen.add(id(v))
            self.con.append((vars(v), dict(vars(v))))
            for x in list(vars(v).values()):
                self.container(x, seen, depth + 1)
        for d in list(getattr(v, "__defaults__", None) or ()):
            if isinstance(d, (dict, list, set)):
                self.container(d, seen, depth + 1)
        if type(v) not in (dict, list, set) or id(v) in seen or depth > 4 or (isinstance(v, dict) and "__builtins__" in v) or len(v) > 2000:
            return
        seen.add(id(v))
        self.con.append((v, type(v)(v)))
        for x in list(v.values() if isinstance(v, dict) else v):
            self.container(x, seen, depth + 1)

    def changes(self):
        bad = []
        for o, d in self.ns:
            now = vars(o)
            for k in set(now) | set(d):
                if not k.startswith("__") and (k not in now or k not in d or now[k] is not d[k]):
                    # a submodule imported on demand is not state
                    if not (isinstance(now.get(k), types.ModuleType) and k not in d):
                        bad.append("%s.%s" % (o.__name__, k))
        for o, c in self.con:
            if len(o) != len(c) or (any(k not in o or o[k] is not v for k, v in c.items()) if isinstance(o, dict) else
                                    any(x is not y for x, y in zip(o, c)) if isinstance(o, list) else o != c):
                bad.append("a module- or class-level %s" % type(o).__name__)
        bad += ["a memoised function" for f, n in self.memo if f.cache_info().currsize != n]
        return bad

    def restore(self):
        for o, d in self.ns:
            now = dict(vars(o))
            for k in set(now) | set(d):
                if k.startswith("__") or (k in now and k in d and now[k] is d[k]):
                    continue
                if k in d:
                    setattr(o, k, d[k])
                elif not isinstance(now[k], types.ModuleType):
                    delattr(o, k)
        for o, c in self.con:
            if isinstance(o, list):
                o[:] = c
            else:
                o.clear()
                o.update(c)
        for f, n in self.memo:
            f.cache_clear()


class Path:
    def __init__(self, v, S, ctx, label, conds):
        self.v, self.S, self.ctx, self.label, self.conds = v, S, ctx, label, conds

    def prove(self, name, goal, *asm, **hints):
        c = self.ctx.extend(*asm) if asm else self.ctx
        return self.v.goal("%s: %s" % (self.label, name), goal, c, self.S, hints)

    def holds(self, goal, *asm, **hints):
        """can the goal be proved? (no obligation is recorded)"""
        keep, self.v.obls = self.v.obls, []
        hints.setdefault("quick", True)
        try:
            return self.prove("", goal, *asm, **hints)
        finally:
            self.v.obls = keep

    def nonzero(self, name, t, *asm):
        """t is defined and not zero"""
        c = self.ctx.extend(*asm)
        t0 = time.time()
        try:
            if LEM.nzq(t, c):
                self.v.obl("%s: %s" % (self.label, name), "proved", time.time() - t0)
                return True
        except RecursionError:
            pass
        return self.prove(name, ne(t, R0), *asm)

    def fact(self, name, ok, detail=""):
        """a decided (syntactic / ownership) obligation"""
        self.v.obl("%s: %s" % (self.label, name), "proved" if ok else "failed", 0, "" if ok else detail)
        return ok

    def shape(self, name, a, shape):
        a = a if isinstance(a, SArr) else darr(a)
        ok = len(a.vshape) == len(shape)
        if not ok:
            return self.fact(name + ": shape", False, "dimension %d instead of %d" % (len(a.vshape), len(shape)))
        return self.prove(name + ": shape", and_(*[eq(sym.dimsize(d), term(s)) for d, s in zip(a.vshape, shape)]))

    def array(self, name, a, shape, spec, *asm, **hints):
        """a has the shape and a[idx] == spec(idx) for all indices"""
        a = a if isinstance(a, SArr) else darr(a)
        if not self.shape(name, a, shape):
            return False
        idx = [fresh("i", "I") for _ in shape]
        rng = [c for i, n in zip(idx, shape) for c in (le(I0, i), lt(i, term(n)))]
        c = self.ctx.extend(*asm).extend(*rng)
        old = self.S.ctx
        self.S.ctx = c
        try:
            g = eq(toR(a.at(*[viewidx(i, d) for i, d in zip(idx, a.vshape)])), toR(spec(*idx)))
        finally:
            self.S.ctx = old
        return self.v.goal("%s: %s" % (self.label, name), g, c, self.S, hints)

    def maxabs(self, name, value, n, spec):
        """value is the maximum of |spec(i)| for 0 <= i < n: a bound, and attained"""
        t = toR(term(value))
        i = fresh("i", "I")
        if t.op == "app" and t.args[0] == "MAX" and len(t.args) == 3:
            # t is by definition the maximum of l over its range: same range, same values
            self.prove(name + ": range of the maximum", eq(t.args[1], term(n)))
            self.prove(name + ": the maximum of the absolute values", eq(open_(t.args[2], i), fn("abs", spec(i))), le(I0, i), lt(i, term(n)))
            return
        self.prove(name + " bounds every absolute value", le(fn("abs", spec(i)), t), le(I0, i), lt(i, term(n)))
        self.prove(name + " is attained", Exists(I0, term(n), lambda k: eq(fn("abs", spec(k)), t)))

    def owned(self, name, a, *args):
        """the result does not share memory with the arguments"""
        bufs = {x.buf for x in args if isinstance(x, SArr)}
        return self.fact(name, not (isinstance(a, SArr) and a.buf in bufs), "the result shares the memory of an argument")


def viewidx(i, d):
    if isinstance(d, tuple):
        raise Unsupported("index of a flattened dimension")
    return i


class Frame:
    """arguments must be unchanged: the buffers still hold the initial elements"""

    def __init__(self, **arrs):
        self.arrs = {k: (a.buf, a.buf.elem) for k, a in arrs.items() if isinstance(a, SArr)}

    def check(self, P):
        bad = [k for k, (b, e) in self.arrs.items() if b.elem is not e]
        P.fact("arguments are not modified", not bad, "written: %s" % bad)


def toR(t):
    return tm.toR(t) if t.sort != "R" else t


def run_contract(meta):
    """-> json-able result"""
    v = V(meta)
    z0 = dict(STATS)
    t0 = time.time()
    status, msg = "ok", ""

    def alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, meta["time"] * (20 if CANARY else 1))
    try:
        v.world()
        meta["f"](v)
        if not v.obls:
            status, msg = "unsupported", "no obligation generated"
    except TimeUp:
        status, msg = "unsupported", "time limit of %d s" % meta["time"]
    except Unsupported as e:
        status, msg = "unsupported", str(e)[:600]
    except RecursionError:
        status, msg = "unsupported", "recursion limit"
    except MemoryError:
        status, msg = "unsupported", "memory limit"
    except Exception as e:
        status = "unsupported"
        msg = "%s: %s [%s]" % (type(e).__name__, str(e)[:300], " < ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"name": meta["name"], "title": meta["title"], "functions": meta["functions"], "status": status, "message": msg,
            "obligations": v.obls, "assumed": v.assumed, "paths": v.paths, "wall": round(time.time() - t0, 2),
            "z3": {k: STATS[k] - z0[k] for k in STATS}}
