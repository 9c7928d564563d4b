"""Loads the qmat package from the working tree, mechanically instrumented on
every run: loops and comprehensions call back into the verifier when their
length is symbolic, builtins and numpy are replaced by their contracts.  Nothing
else of the source is changed; what is dropped is stated in DESIGN.md."""
import ast
import builtins as _b
import functools
import os
import sys
import types
import numpy as _np
from .terms import *
from . import terms as tm
from . import sym, shim
from .sym import *
from . import loops

REPO = os.environ.get("VP_REPO", "/repo")


# --------------------------------------------------------------------------- instrumentation
class Names(ast.NodeVisitor):
    """names stored in a list of statements, not looking into nested scopes"""

    def __init__(self):
        self.names = set()
        self.flow = False
        self.depth = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.names.add(n.target.id)
        self.generic_visit(n)

    def visit_Return(self, n):
        self.flow = True
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.flow = True

    visit_YieldFrom = visit_Yield

    def visit_Global(self, n):
        self.flow = True

    visit_Nonlocal = visit_Global

    def visit_Break(self, n):
        if self.depth == 0:
            self.flow = True

    def visit_For(self, n):
        self.visit(n.target)
        self.visit(n.iter)
        self.depth += 1
        for s in n.body:
            self.visit(s)
        self.depth -= 1
        for s in n.orelse:
            self.visit(s)

    def visit_While(self, n):
        self.visit(n.test)
        self.depth += 1
        for s in n.body:
            self.visit(s)
        self.depth -= 1
        for s in n.orelse:
            self.visit(s)


class Cont(ast.NodeTransformer):
    """continue -> return, at the level of this loop body"""

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For


def loadcount(body):
    d = {}
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                d[x.id] = d.get(x.id, 0) + 1
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                d[x.target.id] = d.get(x.target.id, 0) + 1
    return d


def _call(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fdepth = 0
        self.n = 0
        self.fname = []
        self.loads = []
        self.locs = []

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fdepth += 1
        self.fname.append(n.name)
        self.loads.append(loadcount(n.body))
        ln = Names()
        for s in n.body:
            ln.visit(s)
        self.locs.append(ln.names)
        n.body = self.block(n.body)
        self.loads.pop()
        self.locs.pop()
        self.fname.pop()
        self.fdepth -= 1
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, n):
        self.fdepth += 1
        self.generic_visit(n)
        self.fdepth -= 1
        return n

    def visit_ClassDef(self, n):
        d, self.fdepth = self.fdepth, 0
        self.fname.append(n.name)
        self.generic_visit(n)
        self.fname.pop()
        self.fdepth = d
        return n

    def touches(self, n, targets):
        """stores into objects are logged (loops must not change objects that exist outside of them)"""
        self.generic_visit(n)
        if not self.fdepth:
            return n
        import copy
        out = [n]
        st = list(targets)
        while st:
            t = st.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                st += t.elts
            elif isinstance(t, ast.Starred):
                st.append(t.value)
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                b = copy.deepcopy(t.value)
                if any(isinstance(x, ast.Call) for x in ast.walk(b)):
                    continue
                init = self.fname and self.fname[-1] == "__init__" and isinstance(b, ast.Name) and b.id == "self"
                e = ast.Expr(_call("_vp_touch", b, ast.Constant(bool(init))))
                out.append(ast.fix_missing_locations(ast.copy_location(e, n)))
        return out

    def visit_Assign(self, n):
        return self.touches(n, n.targets)

    def visit_AugAssign(self, n):
        return self.touches(n, [n.target])

    def visit_AnnAssign(self, n):
        return self.touches(n, [n.target] if n.value is not None else [])

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fdepth and isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call("_vp_born", n), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.fdepth and n.attr == "append" and isinstance(n.ctx, ast.Load):
            # the bound method itself, outside of a call
            n.value = ast.copy_location(_call("_vp_unbound", n.value), n.value)
        return n

    def visit_Call(self, n):
        if self.fdepth and isinstance(n.func, ast.Attribute) and n.func.attr == "append":
            f = n.func
            f.value = self.visit(f.value)
            n.func = ast.Constant(None)
            self.generic_visit(n)
            f.value = ast.copy_location(_call("_vp_appended", f.value), f.value)
            n.func = f
            return n
        self.generic_visit(n)
        if self.fdepth and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "update", "setdefault", "pop", "popitem", "clear", "add", "remove", "insert", "extend", "discard", "__setitem__", "__setattr__"):
            n.func.value = ast.copy_location(_call("_vp_touched", n.func.value), n.func.value)
        if self.fdepth and isinstance(n.func, ast.Name) and n.func.id in ("float", "int", "list", "tuple", "complex", "bool"):
            n.func = ast.copy_location(ast.Name("_vp_" + n.func.id, ast.Load()), n.func)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.fdepth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = _call("_vp_in", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, n)
        if self.fdepth and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            n.left = ast.copy_location(_call("_vp_seen", n.left), n.left)
            n.comparators = [c if isinstance(c, ast.Constant) else ast.copy_location(_call("_vp_seen", c), c) for c in n.comparators]
        return n

    def attrlists(self, n):
        """a loop that appends to a list a.b: through a local name, stored back after the loop"""
        stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        attrs = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        hit = {}
        for x in ast.walk(n):
            if (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Attribute)
                    and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id not in stored and x.func.value.attr not in attrs):
                v = x.func.value
                hit.setdefault((v.value.id, v.attr), "_vp_l%d" % (self.n * 100 + len(hit)))

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.value, ast.Name) and (x.value.id, x.attr) in hit:
                    return ast.copy_location(ast.Name(hit[x.value.id, x.attr], x.ctx), x)
                return x
        if not hit or not self.locs:
            return None
        n.body = [R().visit(s) for s in n.body]
        out = [n]
        for (a, b), t in hit.items():
            self.locs[-1].add(t)
            out.insert(0, ast.Assign([ast.Name(t, ast.Store())], ast.Attribute(ast.Name(a, ast.Load()), b, ast.Load())))
            out.append(ast.Assign([ast.Attribute(ast.Name(a, ast.Load()), b, ast.Store())], ast.Name(t, ast.Load())))
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out

    def visit_For(self, n):
        if not self.fdepth:
            self.generic_visit(n)
            return n
        l = self.attrlists(n)
        if l:
            self.n += 1
            n._detach = [x.value for x in l if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute)]
            return self.block(l)
        nm = Names()
        nm.visit(n.target)
        for s in n.body:
            nm.visit(s)
        flow = nm.flow or n.orelse or any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
        inner = loadcount([n])
        tot = self.loads[-1] if self.loads else {}
        live = [x for x in nm.names if tot.get(x, 0) > inner.get(x, 0)]
        apps = sorted({x.func.value.id for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                       and x.func.attr == "append" and isinstance(x.func.value, ast.Name)
                       and self.locs and x.func.value.id in self.locs[-1]})
        nm.names |= set(apps)
        names = sorted(nm.names)
        it = self.visit(n.iter)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        self.n += 1
        k = self.n
        iv, xv = "_vp_it%d" % k, "_vp_x%d" % k
        assign = ast.Assign([ast.Name(iv, ast.Store())], _call("_vp_iter", it))
        concrete = ast.For(n.target, _call("_vp_conc", ast.Name(iv, ast.Load())), body, orelse)
        if flow:
            return [ast.copy_location(ast.fix_missing_locations(assign), n),
                    ast.copy_location(ast.fix_missing_locations(concrete), n)]
        import copy
        cbody = [Cont().visit(copy.deepcopy(s)) for s in body]
        tgt = copy.deepcopy(n.target)
        fn_ = ast.FunctionDef(
            "_vp_body%d" % k, ast.arguments([], [ast.arg(xv)], None, [], [], None, []),
            ([ast.Nonlocal(names)] if names else []) +
            [ast.Assign([tgt], _call("_vp_unpack", ast.Name(xv, ast.Load()), ast.Constant(len(tgt.elts) if isinstance(tgt, (ast.Tuple, ast.List)) else 0)))] + cbody,
            [], None, None)
        getf = ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                          _call("_vp_locals", *[ast.Tuple([ast.Constant(x), ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load()))], ast.Load()) for x in names]))
        sets = []
        for x in names:
            sets.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name("_vp_d", ast.Load())]),
                               [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Name("_vp_d", ast.Load()), ast.Constant(x), ast.Load()))],
                               [ast.Assign([ast.Name(x, ast.Store())], ast.Constant(None)), ast.Delete([ast.Name(x, ast.Del())])]))
        setf = ast.FunctionDef("_vp_set%d" % k, ast.arguments([], [ast.arg("_vp_d")], None, [], [], None, []),
                               ([ast.Nonlocal(names)] if names else []) + (sets or [ast.Pass()]), [], None, None)
        where = ".".join(self.fname)
        iff = ast.If(_call("_vp_issymit", ast.Name(iv, ast.Load())),
                     [ast.Expr(_call("_vp_detach", ast.Name(x.value.id, ast.Load()), ast.Constant(x.attr))) for x in getattr(n, "_detach", [])] +
                     [fn_, setf, ast.Expr(_call("_vp_loop", ast.Name(iv, ast.Load()), ast.Name(fn_.name, ast.Load()), getf,
                                                ast.Name(setf.name, ast.Load()), ast.Constant(where), ast.Constant(tuple(sorted(live))), ast.Constant(tuple(apps))))],
                     [concrete])
        r = [assign, iff]
        for s in r:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return r

    def comp(self, n, kind):
        self.generic_visit(n)
        if not self.fdepth or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        g = n.generators[0]
        tgt = g.target
        if isinstance(tgt, ast.Name):
            mk_ = lambda e: ast.Lambda(ast.arguments([], [ast.arg(tgt.id)], None, [], [], None, []), e)
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            mk_ = lambda e: ast.Lambda(
                ast.arguments([], [ast.arg("_vp_x")], None, [], [], None, []),
                ast.Call(ast.Lambda(ast.arguments([], [ast.arg(e2.id) for e2 in tgt.elts], None, [], [], None, []), e),
                         [ast.Starred(_call("_vp_unpack", ast.Name("_vp_x", ast.Load()), ast.Constant(len(tgt.elts))), ast.Load())], []))
        else:
            return n
        elt = n.elt if kind != "dict" else ast.Tuple([n.key, n.value], ast.Load())
        cond = ast.Constant(None) if not g.ifs else mk_(ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0])
        r = _call("_vp_comp", ast.Constant(kind), mk_(elt), g.iter, cond)
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")


# --------------------------------------------------------------------------- builtins
def vlen(x):
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, SArr):
        if not x.vshape:
            raise TypeError("len() of unsized object")
        return wrap(dimsize(x.vshape[0])) if not isinstance(x.vshape[0], tuple) else CDim(x.vshape[0])
    if isinstance(x, SList):
        return wrap(x.n)
    if isinstance(x, (SRange, loops.SZip, loops.SEnum)):
        return wrap(x.length())
    return len(x)


def vrange(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [x if isinstance(x, (Sym, int)) else x for x in a]
        for x in a:
            if isinstance(x, SReal):
                raise TypeError("'float' object cannot be interpreted as an integer")
        r = SRange(*a)
        if isconst(r.length()):
            return [r.get(ic(k)) for k in range(int(cval(r.length())))]
        return r
    return range(*a)


def symit(x):
    if isinstance(x, SRange) or isinstance(x, (loops.SZip, loops.SEnum)):
        return not isconst(x.length())
    if isinstance(x, SList):
        return not isconst(x.n)
    if isinstance(x, SArr):
        return bool(x.vshape) and (isinstance(x.vshape[0], tuple) or not isconst(x.vshape[0]))
    return False


def vzip(*a, strict=False):
    a = [x.resolve() if isinstance(x, Choice) else x for x in a]
    if any(symit(x) for x in a):
        return loops.SZip(a)
    return zip(*[conc(x) for x in a])


def venumerate(x, start=0):
    if isinstance(x, Choice):
        x = x.resolve()
    if symit(x) or isinstance(start, Sym):
        return loops.SEnum(x, start)
    return enumerate(conc(x), start)


def conc(x):
    if isinstance(x, SRange):
        n = x.length()
        if isconst(n):
            return [x.get(ic(k)) for k in range(int(cval(n)))]
        return loops.unroll(x)
    if symit(x):
        return loops.unroll(x)
    return x


def viter(x):
    if isinstance(x, Choice):
        x = x.resolve()
    return x


def vmax(*a, key=None, default=None):
    if len(a) == 1 and key is None:
        x = a[0]
        if isinstance(x, SArr):
            return reduce_("max", x)
        a = list(conc(x))
    if any(isinstance(x, Sym) for x in a) and key is None:
        r = a[0]
        for y in a[1:]:
            r = wrap(tmax(term(r), term(y)))
        return r
    return max(a, key=key) if key else max(*a) if len(a) > 1 else max(a)


def vmin(*a, key=None, default=None):
    if len(a) == 1 and key is None:
        x = a[0]
        if isinstance(x, SArr):
            return reduce_("min", x)
        a = list(conc(x))
    if any(isinstance(x, Sym) for x in a) and key is None:
        r = a[0]
        for y in a[1:]:
            r = wrap(tmin(term(r), term(y)))
        return r
    return min(a, key=key) if key else min(*a) if len(a) > 1 else min(a)


def vsum(x, start=0):
    if isinstance(x, SArr):
        return start + reduce_("sum", x, 0)
    if symit(x):
        return start + reduce_("sum", darr(x if not isinstance(x, (loops.SZip, loops.SEnum)) else loops.tolist(x)), 0)
    return sum(conc(x), start)


def vabs(x):
    return abs(x)


def visinstance(x, cs):
    if not isinstance(cs, tuple):
        cs = (cs,)
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, SBool):
        return any(c in (bool, int, object, _np.bool_) for c in cs)
    if isinstance(x, (SInt, CDim)):
        return any(c in (int, object) or getattr(c, "__name__", "") in ("Integral", "Number", "Real") for c in cs)
    if isinstance(x, SReal):
        k = getattr(x, "t", None)
        return any(c in (float, object) or getattr(c, "__name__", "") in ("Number", "Real") for c in cs)
    if isinstance(x, SArr):
        return any(c in (_np.ndarray, object) for c in cs)
    if isinstance(x, SList):
        return any(c in (list, object) for c in cs)
    if isinstance(x, Str):
        return any(c in (str, object) for c in cs)
    return isinstance(x, cs)


class Str:
    """arbitrary string: equality with literals forks"""

    def __init__(self, name):
        self.name = name
        self.eqs = {}

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str):
            return wrap(var("%s==%r" % (self.name, o), "B"))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    __hash__ = object.__hash__

    def __repr__(self):
        return "<any string %s>" % self.name

    def __format__(self, s):
        return repr(self)


def vin(x, c):
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(c, Choice):
        c = c.resolve()
    if isinstance(x, Str):
        if isinstance(c, (list, tuple, set)):
            for y in c:
                if isinstance(y, str) and bool(x == y):
                    return True
            return False
        if isinstance(c, dict) and type(c).__contains__ is dict.__contains__:
            for y in c:
                if isinstance(y, str) and bool(x == y):
                    return True
            return False
    if isinstance(x, Sym) and isinstance(c, (list, tuple, set)):
        for y in c:
            if isinstance(y, str) or y is None:
                continue
            if bool(x == y):
                return True
        return False
    if isinstance(c, SRange) and isinstance(x, (Sym, int)):
        if c.step is not I1:
            raise Unsupported("in range with step")
        return wrap(and_(le(c.start, term(x)), lt(term(x), c.stop)))
    if isinstance(c, SArr):
        return reduce_("any", c == x)
    if isinstance(c, SList):
        if isinstance(x, (Sym, int, float)):
            return reduce_("any", darr(c) == x)
        raise Unsupported("membership in a list of symbolic length")
    return x in c


def vlist(x=()):
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, SList):
        return x.copy()
    if symit(x):
        return loops.tolist(x)
    if isinstance(x, Sym):
        raise TypeError("object is not iterable")
    return list(conc(x))


def vtuple(x=()):
    if symit(x):
        return vlist(x)
    return tuple(conc(x))


def vfloat(x=0.0):
    if isinstance(x, SArr) and x.ndim == 0:
        return wrap(toR(x.at()))
    if isinstance(x, Sym):
        return wrap(toR(x.t))
    return float(x)


def vint(x=0, *a):
    if isinstance(x, (SInt, CDim)):
        return wrap(x.t)
    if isinstance(x, SBool):
        return wrap(tm.toI(x.t))
    if isinstance(x, SReal):
        t = todt(x.t, "i")
        if t.op == "app" and t.args[0] == "trunc":
            r = t.args[1]
            sym.S.assume(implies(le(R0, r), and_(le(toR(t), r), lt(r, add(toR(t), R1)))))
            sym.S.assume(implies(lt(r, R0), and_(le(r, toR(t)), lt(toR(t), add(r, R1)))))
        return wrap(t)
    return int(x, *a)


def vbool(x=False):
    return bool(x)


def vcomplex(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return wrap(toR(a[0].t))
        return wrap(add(toR(term(a[0])), mul(IMAG, toR(term(a[1])))))
    return complex(*a)


def vany(x):
    if isinstance(x, SArr):
        return reduce_("any", x)
    if symit(x):
        return reduce_("any", darr(x))
    for y in conc(x):
        if y:
            return True
    return False


def vall(x):
    if isinstance(x, SArr):
        return reduce_("all", x)
    if symit(x):
        return reduce_("all", darr(x))
    for y in conc(x):
        if not y:
            return False
    return True


def vreversed(x):
    if isinstance(x, SRange):
        n = x.length()
        return mklist(n, lambda k: x.get(sub(sub(n, I1), k)))
    if isinstance(x, SList):
        return mklist(x.n, lambda k: x.get(sub(sub(x.n, I1), k)))
    if isinstance(x, SArr):
        return x[::-1]
    return reversed(x)


def vunpack(x, n):
    if isinstance(x, Choice):
        x = x.resolve()
    if isinstance(x, (SArr, SList)) and n:
        d = x.vshape[0] if isinstance(x, SArr) else x.n
        if not isconst(d):
            if not sym.S.decide(eq(d, ic(n))):
                raise ValueError("unpack: wrong number of values")
        return [x[k] for k in range(n)]
    return x


def vmap(f, *its):
    if len(its) == 1 and symit(its[0]):
        return loops.comp("list", f, its[0], None)
    return map(f, *[conc(i) for i in its])


def touched(x):
    if not isinstance(x, (type, types.ModuleType)):
        sym.touch(x)
    return x


def appended(x):
    if isinstance(x, list):
        sym.touch(x)
    return x


def unbound(x):
    if sym.S is not None and isinstance(x, (list, sym.SList)):
        raise Unsupported("the method append as a value")
    return x


def detach(o, name):
    setattr(o, name, loops.GONE)


def born(x):
    return sym.born(x)


def vsorted(x, **k):
    if isinstance(x, SArr) and not k:
        return sym.sort(x).tolist()
    return sorted(conc(x), **k)


# --------------------------------------------------------------------------- world
class World:
    """a fresh instance of the package, with its own module objects"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.shims = shim.build()
        self.files = {}
        b = dict(_b.__dict__)
        b.update({
            "len": vlen, "range": vrange, "zip": vzip, "enumerate": venumerate, "max": vmax, "min": vmin,
            "sum": vsum, "isinstance": visinstance, "any": vany, "all": vall, "reversed": vreversed,
            "map": vmap, "sorted": vsorted,
            "_vp_float": vfloat, "_vp_int": vint, "_vp_list": vlist, "_vp_tuple": vtuple,
            "_vp_complex": vcomplex, "_vp_bool": vbool,
            "__import__": self.imp, "_vp_iter": viter, "_vp_issymit": symit, "_vp_loop": loops.loop,
            "_vp_conc": conc, "_vp_locals": loops.getlocals, "_vp_comp": loops.comp, "_vp_unpack": vunpack,
            "_vp_in": vin, "_vp_seen": loops.seen, "_vp_touch": sym.touch, "_vp_touched": touched, "_vp_appended": appended, "_vp_unbound": unbound, "_vp_born": born, "_vp_detach": detach, "__build_class__": _b.__build_class__, "print": lambda *a, **k: None,
        })
        self.builtins = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            parts = pkg.split(".")
            parts = parts[:len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if root == "qmat":
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.module(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.module(root)
        if name in self.shims:
            m = self.shims[name]
            if fromlist or "." not in name:
                return m
            return self.shims[root]
        if root in ("numpy", "scipy"):
            import importlib
            real = importlib.import_module(name)
            if name not in self.shims:
                self.shims[name] = shim.ModShim(name, {}, real)
            return self.shims[name] if fromlist else self.shims[root]
        return _b.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.module(parent)
            if name in self.mods:
                return self.mods[name]
        p, ispkg = self.path(name)
        if not os.path.exists(p):
            raise ModuleNotFoundError("No module named %r" % name)
        src = open(p, encoding="utf-8").read()
        self.files[name] = p
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        tree = Instr().visit(ast.parse(src, p))
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        old = shim.SYMBOLIC[0]
        shim.SYMBOLIC[0] = 0
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            shim.SYMBOLIC[0] = old
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m


class symbolic:
    def __enter__(self):
        shim.SYMBOLIC[0] += 1

    def __exit__(self, *a):
        shim.SYMBOLIC[0] -= 1
