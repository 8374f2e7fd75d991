"""Symbolic interpreter over the AST of the real functions.

Paths are explored by re-execution; loops over symbolic collections are
summarised pointwise, or handled by an invariant supplied by a contract.
"""
import ast
import builtins
import dataclasses
import enum
import functools
import inspect
import itertools
import logging
import math
import operator
import os
import textwrap
import types
import typing
from collections import defaultdict, Counter, OrderedDict

import z3

from .values import *

class _NoVal(V):
    def __repr__(s): return "NOVAL"


_NOVAL = _NoVal()
_SKIP = _NoVal()
_BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
           ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
           ast.MatMult: operator.matmul}
_CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
_DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}
_quant_cache = {}


def has_quant(t):
    k = t.get_id()
    if k in _quant_cache: return _quant_cache[k][1]
    seen = set()
    stack = [t]
    r = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _quant_cache[k] = (t, r)
    return r


def subst_v(eng, v, pairs):
    if isinstance(v, CRef):
        for k in v.path: pass
        return CRef(v.root, tuple(subst(k, pairs) for k in v.path))
    if isinstance(v, tuple): return tuple(subst_v(eng, x, pairs) for x in v)
    if isinstance(v, ObjV): return v
    if isinstance(v, _NoVal): return v
    return subst(v, pairs)


SRC_ROOTS = [os.environ.get("PLANNER_REPO", "/repo") + "/terragraph_planner/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/contracts"]
MAXDEPTH = 40


class PyRaise(Exception):
    def __init__(self, cls, info=""):
        self.cls = cls
        self.info = info
        Exception.__init__(self, f"{cls.__name__}: {info}")


class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class _Infeasible(Exception):
    "the current path's condition became false"


class State:
    def __init__(self):
        self.pc = []
        self.facts = []
        self.store = {}
        self.vars = {}
        self.taint = []
        self.moved = set()

    def clone(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.store = dict(self.store)
        s.vars = {k: dict(v) for k, v in self.vars.items()}
        s.taint = list(self.taint)
        s.moved = set(self.moved)
        return s


class Frame:
    _n = Numbers()

    def __init__(self, gl, parent=None, locals_=None, closure=None, name="", globals_decl=(), cls=None, owner=None):
        self.id = next(Frame._n)
        self.gl = gl
        self.parent = parent
        self.locals = locals_      # names local to this frame (None: any)
        self.closure = closure or {}
        self.name = name
        self.cls = cls
        self.owner = owner         # function qualname for loop invariants
        self.loopno = 0
        self.nonlocal_ = set()


class Path:
    __slots__ = ("conds", "facts", "kind", "val", "st", "journal", "taint")

    def __init__(s, conds, facts, kind, val, st, journal, taint):
        s.conds = conds; s.facts = facts; s.kind = kind; s.val = val
        s.st = st; s.journal = journal; s.taint = taint

    @property
    def cond(s): return zand(*s.conds)


_fn_ast_cache = {}


def fn_ast(fn):
    """AST of a real Python function, read from its source file."""
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, fn.__name__)
    if key not in _fn_ast_cache:
        fnm = code.co_filename
        tkey = ("file", fnm)
        if tkey not in _fn_ast_cache:
            with open(fnm, encoding="utf-8") as f:
                _fn_ast_cache[tkey] = ast.parse(f.read())
        tree = _fn_ast_cache[tkey]
        best = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                l0 = n.lineno
                if isinstance(n, ast.FunctionDef):
                    if n.name != fn.__name__: continue
                    l0 = min([n.lineno] + [d.lineno for d in n.decorator_list])
                elif fn.__name__ != "<lambda>": continue
                if l0 == code.co_firstlineno:
                    best = n
                    break
        if best is None:
            raise Unsupported(f"source of {fn.__qualname__} not found")
        _fn_ast_cache[key] = best
    return _fn_ast_cache[key]


def assigned_names(node):
    out = set()

    def go(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr): out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n): go(c)
    go(node, True)
    a = getattr(node, "args", None)
    if isinstance(a, ast.arguments):
        for x in a.posonlyargs + a.args + a.kwonlyargs: out.add(x.arg)
        if a.vararg: out.add(a.vararg.arg)
        if a.kwarg: out.add(a.kwarg.arg)
    return out


def from_src(fn):
    try:
        f = fn.__code__.co_filename
    except AttributeError:
        return False
    return any(f.startswith(r) for r in SRC_ROOTS)


def match(pat, t, vs, m=None):
    """values of the constants vs that make the term pat the term t, or None"""
    m = {} if m is None else m
    ids = {v.get_id() for v in vs}

    def go(p, t):
        if p.get_id() in ids:
            if p.get_id() in m: return m[p.get_id()].eq(t)
            if p.sort() != t.sort(): return False
            m[p.get_id()] = t
            return True
        if p.eq(t): return True
        if z3.is_quantifier(p) or z3.is_quantifier(t) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()): return False
        return all(go(x, y) for x, y in zip(p.children(), t.children()))
    return m if go(pat, t) else None


class Engine:
    def __init__(self, reg):
        self.reg = reg                 # contract registry
        self.st = State()
        self.bound = []                # z3 consts currently bound
        self.dec = []
        self.pos = 0
        self.alts = None
        self.journal = None
        self.outer_roots = []          # containers known when each enclosing loop body was entered
        self.depth = 0
        self.fresh_no = Numbers()
        self.loc_no = Numbers()
        self.counters = (self.fresh_no, self.loc_no, Frame._n, BOUND_NO)
        self.memo = None
        self.nexp = 0
        self.sums = []                 # registered sum terms
        self.steps = []                # elements a loop with an invariant is at
        self.obls = []                 # obligations produced during execution (callee pre, invariants)
        self.assumed_contracts = set()
        self.inlined = set()
        self.uf = {}
        self.ctx_name = ""
        self.no_contract = set()
        self.target = None
        self.loop_entry = []
        self.nfeas = 0
        self.used_models = set()
        self.frames = []
        self.ghost_alloc = []
        self.in_spec = 0
        self.total = False
        self.key_steps = False

    # ----------------------------------------------------------- basics
    def taint(self, why):
        if why not in self.st.taint: self.st.taint.append(why)

    def fresh(self, sort, name="v"):
        nm = f"{name}!{next(self.fresh_no)}"
        if self.bound:
            return z3.Function(nm, *[b.sort() for b in self.bound], sort)(*self.bound)
        return z3.Const(nm, sort)

    def fact(self, f):
        f = zbool(f)
        if not z3.is_true(f): self.st.facts.append(f)

    def under(self, cs, f, guard=None):
        """run f() with cs bound; facts it creates are closed over cs"""
        n = len(self.st.facts)
        self.bound = self.bound + list(cs)
        try: r = f()
        finally: self.bound = self.bound[:len(self.bound) - len(cs)]
        if cs:
            new = self.st.facts[n:]
            del self.st.facts[n:]
            for x in new: self.st.facts.append(zforall(list(cs), zimp(guard if guard is not None else True, x)))
        return r

    def func(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        if key not in self.uf:
            self.uf[key] = z3.Function(name, *sorts)
        return self.uf[key]

    def mk(self, ty, name, args=()):
        """symbolic value of type ty named name, depending on z3 terms args"""
        args = list(args)
        srt = [a.sort() for a in args]

        def ap(nm, sort):
            if not args: return z3.Const(nm, sort)
            return self.func(nm, *srt, sort)(*args)
        if isinstance(ty, SCALAR): return Sym(ap(name, sort_of(ty)), ty)
        if isinstance(ty, TXReal):
            tag = ap(name + ".tag", z3.IntSort())
            return XR(tag, ap(name + ".r", z3.RealSort()))
        if isinstance(ty, TNone): return None
        if isinstance(ty, TGrid):
            return SGrid(ap(name + ".h", z3.IntSort()), ap(name + ".w", z3.IntSort()),
                         lambda j, i: self.func(name + ".cell", *srt, z3.IntSort(), z3.IntSort(), z3.RealSort())(*args, j, i))
        if isinstance(ty, TFun): return FunV(name, ty, args)
        if isinstance(ty, TOpt): return Opt(ap(name + ".none", z3.BoolSort()), self.mk(ty.t, name + ".val", args))
        if isinstance(ty, TTup): return tuple(self.mk(t, f"{name}.{i}", args) for i, t in enumerate(ty.ts))
        if isinstance(ty, TRec): return Rec(ty.cls, {k: self.mk(t, f"{name}.{k}", args) for k, t in ty.fields})
        if isinstance(ty, TSeq):
            n = ap(name + ".len", z3.IntSort())
            return SSeq(n, lambda i: self.mk(ty.t, name + ".at", args + [i]), ty.t)
        if isinstance(ty, TSet):
            return SSet(ty.t, lambda k: self.func(name + ".mem", *srt, *flat_sorts(ty.t), z3.BoolSort())(*args, *flat(k, ty.t)))
        if isinstance(ty, TMap):
            return SMap(ty.k,
                        lambda k: self.func(name + ".dom", *srt, *flat_sorts(ty.k), z3.BoolSort())(*args, *flat(k, ty.k)),
                        lambda k: self.mk(ty.v, name + ".at", args + flat(k, ty.k)), ty.default, ty.v)
        raise Unsupported(f"cannot make a symbolic {ty}")

    def wf_len(self, v):
        "type facts of a made value"
        if isinstance(v, SSeq): self.fact(v.n >= 0)
        if isinstance(v, XR): self.fact(z3.And(v.tag >= -1, v.tag <= 2))

    def bvar(self, ty, name="b"):
        """value of type ty made of fresh bound constants; returns (value, consts)"""
        cs = [fresh_const(s, name) for s in flat_sorts(ty)]
        return unflat(ty, list(cs)), cs

    def alloc(self, val):
        root = ("c", next(self.loc_no))
        self.st.store[root] = val
        return CRef(root)

    def new_obj(self, cls, fields=None):
        loc = next(self.loc_no)
        o = ObjV(cls, loc)
        self.st.store[("of", loc)] = True
        for k, v in (fields or {}).items():
            self.st.store[("o", loc, k)] = v
        return o

    # ------------------------------------------------------- store access
    def log(self, *e):
        if self.journal is not None: self.journal.append(e)

    def rd(self, c):
        """container value behind a handle"""
        if not isinstance(c, CRef): return c
        if c.root in self.st.moved: raise Unsupported("alias of a moved container")
        if c.root not in self.st.store: raise Unsupported(f"unknown location {c.root}")
        v = self.st.store[c.root]
        for k in c.path:
            v = self.cget(v, k)
        if isinstance(v, CRef): return self.rd(v)
        return v

    def cget(self, v, k):
        if isinstance(v, CRef): v = self.rd(v)
        if isinstance(v, SMap): return v.get(k)
        if isinstance(v, CDict):
            for a, b in v.items:
                if self.ceq(a, k): return b
            raise Unsupported("path lookup in concrete dict")
        if isinstance(v, CList): return v.items[k]
        if isinstance(v, SGrid): return v.row(k if not isinstance(k, Sym) else k.t)
        if isinstance(v, SSeq): return v.get(k if not isinstance(k, Sym) else k.t)
        raise Unsupported(f"path lookup in {type(v).__name__}")

    def ceq(self, a, b):
        r = self.eq(a, b)
        return r is True or (not isinstance(r, bool) and z3.is_true(r))

    def wr(self, c, newval):
        """replace the container value behind handle c"""
        if c.root in self.st.moved: raise Unsupported("alias of a moved container")
        v = self.st.store[c.root]
        self.st.store[c.root] = self._wrp(v, c.path, newval)

    def _wrp(self, v, path, newval):
        if not path:
            if isinstance(v, CRef):
                self.wr(v, newval)
                return v
            return newval
        if isinstance(v, CRef):
            self.wr(CRef(v.root, v.path + tuple(path)), newval)
            return v
        k, rest = path[0], path[1:]
        if isinstance(v, SMap):
            inner = newval if not rest else self._wrp(v.get(k), rest, newval)
            return self.map_put(v, k, inner)
        if isinstance(v, CDict):
            return CDict([(a, (self._wrp(b, rest, newval) if self.ceq(a, k) else b)) for a, b in v.items], v.default)
        if isinstance(v, CList):
            it = list(v.items)
            it[k] = self._wrp(it[k], rest, newval)
            return CList(it)
        if isinstance(v, SGrid):
            kt = term(k, TInt())
            row = self._wrp(v.row(kt), rest, newval)
            return SGrid(v.h, v.w, lambda j, i: zite(zeq(j, kt), term(row.get(i), TReal()), v.at(j, i)))
        raise Unsupported(f"nested update of {type(v).__name__}")

    def map_put(self, m, k, v):
        kty = m.kty

        def dom(x): return zor(self.eqz(x, k, kty), m.dom(x))

        def get(x):
            c = self.eqz(x, k, kty)
            if z3.is_true(c): return v
            if z3.is_false(c): return m.get(x)
            return self.ite(c, v, m.get(x))
        return SMap(kty, dom, get, m.default, m.vty)

    def eqz(self, a, b, ty=None):
        fa, fb = flat(a, ty), flat(b, ty)
        r = []
        for x, y in zip(fa, fb):
            if x.sort() != y.sort():
                if x.sort() == z3.IntSort() and y.sort() == z3.RealSort(): x = z3.ToReal(x)
                elif y.sort() == z3.IntSort() and x.sort() == z3.RealSort(): y = z3.ToReal(y)
                else: raise Unsupported("key sorts differ")
            r.append(zeq(x, y))
        return zand(*r)

    # -------------------------------------------------------------- ite
    def ite(self, c, a, b):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)): return a
        if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
        if a is b: return a
        if isinstance(a, CRef) and isinstance(b, CRef) and a.root == b.root and a.path == b.path: return a
        if isinstance(a, CRef): a = self.rd(a)
        if isinstance(b, CRef): b = self.rd(b)
        if isinstance(a, (Opt, type(None))) or isinstance(b, (Opt, type(None))):
            if a is None and b is None: return None
            an, av = (z3.BoolVal(True), None) if a is None else ((a.none, a.val) if isinstance(a, Opt) else (z3.BoolVal(False), a))
            bn, bv = (z3.BoolVal(True), None) if b is None else ((b.none, b.val) if isinstance(b, Opt) else (z3.BoolVal(False), b))
            if av is None: val = bv
            elif bv is None: val = av
            else: val = self.ite(c, av, bv)
            return Opt(zite(c, an, bn), val)
        if isinstance(a, XR) or isinstance(b, XR) or (is_num(a) and not math.isfinite(a)) or (is_num(b) and not math.isfinite(b)):
            if is_num(a) and is_num(b) and (a == b): return a
            xa, xb = self.to_xr(a), self.to_xr(b)
            return XR(zite(c, xa.tag, xb.tag), zite(c, xa.r, xb.r))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
            return Rec(a.cls, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, CONT) or isinstance(b, CONT):
            return self.ite_cont(c, a, b)
        if not isinstance(a, V) and not isinstance(b, V):
            try:
                if type(a) is type(b) and a == b: return a
            except Exception: pass
        ta, tb = ty_of(a), ty_of(b)
        if ta is None or tb is None:
            raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")
        if type(ta) is not type(tb):
            num = (TInt, TReal, TBool)
            if isinstance(ta, num) and isinstance(tb, num):
                if isinstance(ta, TReal) or isinstance(tb, TReal): ty = TReal()
                else: ty = TInt()
                return Sym(zite(c, term(a, ty), term(b, ty)), ty)
            raise Unsupported(f"cannot merge {ta} and {tb}")
        if not isinstance(ta, SCALAR) or sort_of(ta) != sort_of(tb): raise Unsupported(f"cannot merge {ta} and {tb}")
        return Sym(zite(c, term(a), term(b)), ta)

    def to_xr(self, v):
        if isinstance(v, XR): return v
        if is_num(v):
            if v != v: return XR(z3.IntVal(2), z3.RealVal(0))
            if v == math.inf: return XR(z3.IntVal(1), z3.RealVal(0))
            if v == -math.inf: return XR(z3.IntVal(-1), z3.RealVal(0))
        return XR(z3.IntVal(0), term(v, TReal()))

    def ite_cont(self, c, a, b):
        if isinstance(a, SGrid) and isinstance(b, SGrid):
            return SGrid(zite(c, a.h, b.h), zite(c, a.w, b.w), lambda j, i: zite(c, a.at(j, i), b.at(j, i)))
        if isinstance(a, (CList, SSeq, SBag)) and isinstance(b, (CList, SSeq, SBag)):
            if isinstance(a, CList) and isinstance(b, CList) and len(a.items) == len(b.items):
                try: return CList(self.ite(c, x, y) for x, y in zip(a.items, b.items))
                except Unsupported: pass
            if isinstance(a, CList) and not a.items and isinstance(b, SBag):
                return SBag(self.guard_parts(b.parts, znot(zbool(c))))
            if isinstance(b, CList) and not b.items and isinstance(a, SBag):
                return SBag(self.guard_parts(a.parts, zbool(c)))
            a, b = self.to_seq(a), self.to_seq(b)
            return SSeq(zite(c, a.n, b.n), lambda i: self.ite(c, a.get(i), b.get(i)) if a.ety is not None and b.ety is not None else (a.get(i) if b.ety is None else b.get(i)), a.ety or b.ety)
        if isinstance(a, (SSet, FSet)) and isinstance(b, (SSet, FSet)):
            if isinstance(a, FSet) and isinstance(b, FSet):
                return FSet([(zand(zbool(c), zbool(g)), x) for g, x in a.items] + [(zand(znot(zbool(c)), zbool(g)), x) for g, x in b.items])
            kty = a.kty if isinstance(a, SSet) else b.kty
            return SSet(kty, lambda k: zite(c, zbool(self.mem(a, k)), zbool(self.mem(b, k))))
        if isinstance(a, (SMap, CDict)) and isinstance(b, (SMap, CDict)):
            if isinstance(a, CDict) and isinstance(b, CDict):
                ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
                if not any(isinstance(k, V) for k in ka + kb) and ka == kb:
                    return CDict([(k, self.ite(c, x, y)) for (k, x), (_, y) in zip(a.items, b.items)], a.default)
            sa = a if isinstance(a, SMap) else None
            sb = b if isinstance(b, SMap) else None
            like = sa or sb
            if like is None: raise Unsupported("merge of concrete dicts with different keys")
            a, b = self.to_smap(a, like), self.to_smap(b, like)

            def get(k):
                va, vb = a.get(k), b.get(k)
                if va is _NOVAL: return vb
                if vb is _NOVAL: return va
                return self.ite(c, va, vb)
            return SMap(like.kty, lambda k: zite(c, zbool(a.dom(k)), zbool(b.dom(k))), get, like.default, like.vty)
        raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")

    def to_smap(self, d, like=None, kty=None):
        if isinstance(d, SMap): return d
        if isinstance(d, CDict):
            kty = kty or (like.kty if like else None)
            if kty is None:
                if not d.items: raise Unsupported("untyped empty dict")
                kty = ty_of(d.items[0][0])
            items = d.items
            vty = like.vty if like else (ty_of(self.deref(items[0][1])) if items else None)

            def dom(k): return zor(*[self.eqz(k, a, kty) for a, _ in items])

            def get(k):
                r = _NOVAL if not (vty is not None and isinstance(vty, SCALAR)) else self.mk(vty, "undef")
                for a, b in items:
                    b = self.deref(b)
                    c = self.eqz(k, a, kty)
                    r = b if r is _NOVAL else self.ite(c, b, r)
                return r
            return SMap(kty, dom, get, d.default, vty)
        raise Unsupported("not a map")

    def deref(self, v):
        return self.rd(v) if isinstance(v, CRef) else v

    def to_seq(self, v):
        if isinstance(v, SSeq): return v
        if isinstance(v, SBag): return self.bag_seq(v)
        if isinstance(v, CList):
            items = v.items
            if not items: return SSeq(z3.IntVal(0), lambda i: _NOVAL, None)

            def get(i):
                if isinstance(i, z3.IntNumRef) : return items[i.as_long()]
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = self.ite(i == j, items[j], r)
                return r
            return SSeq(z3.IntVal(len(items)), get, ty_of(items[0]))
        raise Unsupported(f"not a sequence: {type(v).__name__}")

    def guard_parts(self, parts, g):
        out = []
        for p in parts:
            if isinstance(p, One): out.append(One(zand(g, zbool(p.guard)), p.val))
            else:
                def fresh(p=p):
                    bs, gg, e, i = p.fresh()
                    return bs, zand(g, gg), e, None
                out.append(SIter(fresh, False))
        return out

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python bool or z3 Bool"""
        if isinstance(a, CRef) and isinstance(b, CRef) and a.root == b.root and not a.path and not b.path: return True
        a, b = self.deref(a), self.deref(b)
        if a is b and not isinstance(a, XR): return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Opt): return o.none
            return False
        if isinstance(a, Opt) or isinstance(b, Opt):
            if not isinstance(a, Opt): a, b = b, a
            if isinstance(b, Opt):
                return zor(zand(a.none, b.none), zand(znot(a.none), znot(b.none), zbool(self.eq(a.val, b.val))))
            return zand(znot(a.none), zbool(self.eq(a.val, b)))
        if isinstance(a, (tuple, Rec)) and isinstance(b, (tuple, Rec)):
            xa = list(a) if isinstance(a, tuple) else list(a.f.values())
            xb = list(b) if isinstance(b, tuple) else list(b.f.values())
            if len(xa) != len(xb): return False
            return self.allz([self.eq(x, y) for x, y in zip(xa, xb)])
        if isinstance(a, XR) or isinstance(b, XR):
            if not isinstance(a, (XR, Sym)) and not is_num(a): return False
            if not isinstance(b, (XR, Sym)) and not is_num(b): return False
            x, y = self.to_xr(a), self.to_xr(b)
            return zand(zeq(x.tag, y.tag), x.tag != 2, zor(x.tag != 0, zeq(x.r, y.r)))
        if isinstance(a, CONT) or isinstance(b, CONT): return self.eq_cont(a, b)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            if isinstance(a, ObjV) and isinstance(b, ObjV):
                if self.has_custom_eq(a.cls): raise Unsupported("custom __eq__")
                return a.loc == b.loc
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported("comparison of opaque value")
        if not isinstance(a, V) and not isinstance(b, V):
            return bool(a == b)
        ta, tb = ty_of(a), ty_of(b)
        if ta is None or tb is None: raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        num = (TInt, TReal, TBool, TXReal)
        if isinstance(ta, num) and isinstance(tb, num):
            if isinstance(ta, TXReal) or isinstance(tb, TXReal):
                return False  # non-finite literal against a finite symbol
            if isinstance(ta, TReal) or isinstance(tb, TReal): return zeq(term(a, TReal()), term(b, TReal()))
            if isinstance(ta, TInt) or isinstance(tb, TInt): return zeq(term(a, TInt()), term(b, TInt()))
            return zeq(term(a), term(b))
        for x, tx, y in ((a, ta, b), (b, tb, a)):
            if isinstance(tx, TEnum) and tx.cls in UNIONS and isinstance(x, Sym) and not (isinstance(ty_of(y), TEnum) and ty_of(y).cls is tx.cls):
                if isinstance(y, V): raise Unsupported("comparison of a union with a value of another type")
                m = UNIONS[tx.cls].get(y)
                return False if m is None else zeq(term(x), term(m))
        if type(ta) is not type(tb): return False
        if isinstance(ta, TEnum) and ta.cls is not tb.cls: return False
        if isinstance(ta, TRef):
            if ta.cls is not tb.cls: return False
            if self.has_custom_eq(ta.cls): raise Unsupported("custom __eq__")
        return zeq(term(a), term(b))

    def has_custom_eq(self, cls):
        return isinstance(cls, type) and cls.__eq__ is not object.__eq__ and cls not in self.reg.identity_eq

    def allz(self, xs):
        if any(x is False for x in xs): return False
        ys = [x for x in xs if x is not True]
        return zand(*ys) if ys else True

    def eq_cont(self, a, b):
        if isinstance(a, SGrid) and isinstance(b, SGrid):
            i, j = fresh_int("i"), fresh_int("j")
            return zand(a.h == b.h, a.w == b.w, zforall([j, i], zimp(z3.And(0 <= j, j < a.h, 0 <= i, i < a.w), a.at(j, i) == b.at(j, i))))
        if isinstance(a, (CList, SSeq, SBag)) and isinstance(b, (CList, SSeq, SBag)):
            if isinstance(a, CList) and isinstance(b, CList):
                if len(a.items) != len(b.items): return False
                return self.allz([self.eq(x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, CList) and not a.items: a, b = b, a
            if isinstance(b, CList) and not b.items: return znot(self.truth(a))
            a, b = self.to_seq(a), self.to_seq(b)
            i = fresh_int("i")
            return zand(zeq(a.n, b.n), zforall([i], zimp(zand(i >= 0, i < a.n), zbool(self.under([i], lambda: self.eq(a.get(i), b.get(i)))))))
        if isinstance(a, (SSet, FSet)) and isinstance(b, (SSet, FSet)):
            if isinstance(a, FSet) and isinstance(b, FSet):
                r = [zimp(zbool(g), zbool(self.mem(b, x))) for g, x in a.items] + \
                    [zimp(zbool(g), zbool(self.mem(a, x))) for g, x in b.items]
                return zand(*r)
            kty = a.kty if isinstance(a, SSet) else b.kty
            k, cs = self.bvar(kty, "k")
            return zforall(cs, self.under(cs, lambda: zbool(self.mem(a, k)) == zbool(self.mem(b, k))))
        if isinstance(a, (SMap, CDict)) and isinstance(b, (SMap, CDict)):
            if isinstance(a, CDict) and isinstance(b, CDict):
                da = [k for k, _ in a.items]
                if not any(isinstance(k, V) for k in da + [k for k, _ in b.items]):
                    db = dict(b.items)
                    if set(da) != set(db): return False
                    return self.allz([self.eq(v, db[k]) for k, v in a.items])
            if isinstance(b, CDict) and not b.items: return znot(self.truth(a))
            if isinstance(a, CDict) and not a.items: return znot(self.truth(b))
            like = a if isinstance(a, SMap) else b
            if not isinstance(like, SMap): like = None
            a, b = self.to_smap(a, like), self.to_smap(b, like)
            k, cs = self.bvar(a.kty, "k")
            return zand(zforall(cs, self.under(cs, lambda: zbool(a.dom(k)) == zbool(b.dom(k)))),
                        zforall(cs, self.under(cs, lambda: zimp(zand(a.dom(k), b.dom(k)), zbool(self.eq(a.get(k), b.get(k)))))))
        return False

    # ---------------------------------------------------------- membership
    def whole(self, k, ty):
        "a key tuple with optional parts: the conditions under which one is None (then it is no such key), and its values"
        if not isinstance(k, tuple) or not isinstance(ty, TTup) or len(k) != len(ty.ts): return [], k
        no, out = [], []
        for x, t in zip(k, ty.ts):
            if isinstance(x, Opt) and not isinstance(t, TOpt):
                no.append(x.none)
                x = x.val
            elif x is None and not isinstance(t, TOpt):
                no.append(z3.BoolVal(True))
                x = unflat(t, flat_default(t))
            out.append(x)
        return no, tuple(out)

    def mem(self, s, k):
        s = self.deref(s)
        if isinstance(s, FSet): return self.anyz([self.andg(g, self.eq(x, k)) for g, x in s.items])
        if isinstance(s, SSet):
            if isinstance(k, Opt) and not isinstance(s.kty, TOpt):
                return zand(znot(k.none), s.mem(k.val))
            if k is None and not isinstance(s.kty, TOpt): return False
            no, k = self.whole(k, s.kty)
            return zand(*[znot(x) for x in no], s.mem(k)) if no else s.mem(k)
        if isinstance(s, SMap):
            if isinstance(k, Opt) and not isinstance(s.kty, TOpt):
                return zand(znot(k.none), s.dom(k.val))
            if k is None and not isinstance(s.kty, TOpt): return False
            no, k = self.whole(k, s.kty)
            return zand(*[znot(x) for x in no], s.dom(k)) if no else s.dom(k)
        if isinstance(s, CDict): return self.anyz([self.eq(x, k) for x, _ in s.items])
        if isinstance(s, (CList, tuple)): return self.anyz([self.eq(x, k) for x in (s.items if isinstance(s, CList) else s)])
        if isinstance(s, SSeq):
            i = fresh_int("i")
            return zexists([i], zand(i >= 0, i < s.n, self.under([i], lambda: zbool(self.eq(s.get(i), k)))))
        if isinstance(s, SBag): return self.mem(Iterable(s.parts), k)
        if isinstance(s, Iterable):
            r = []
            for p in s.parts:
                if isinstance(p, One): r.append(self.andg(p.guard, self.eq(p.val, k)))
                else:
                    bs, g, e, _ = p.fresh()
                    r.append(zexists(bs, zand(g, self.under(bs, lambda: zbool(self.eq(e, k))))))
            return self.anyz(r)
        if not isinstance(s, V) and not isinstance(k, V):
            return k in s
        if isinstance(s, type) and issubclass(s, enum.Enum):
            return True
        if isinstance(s, (set, frozenset, list, dict)): return self.anyz([self.eq(x, k) for x in s])
        raise Unsupported(f"membership in {type(s).__name__}")

    def andg(self, g, x):
        if x is False or g is False: return False
        if g is True: return x
        if x is True: return g
        return zand(g, x)

    def anyz(self, xs):
        if any(x is True for x in xs): return True
        ys = [x for x in xs if x is not False]
        return zor(*ys) if ys else False

    # --------------------------------------------------------------- truth
    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, Sym):
            if isinstance(v.ty, TBool): return v.t
            if isinstance(v.ty, (TInt, TReal)): return v.t != 0
            if isinstance(v.ty, TStr): return v.t != strlit("")
            if isinstance(v.ty, (TRef, TEnum)): return True
            raise Unsupported(f"truth of {v.ty}")
        if isinstance(v, Opt):
            return zand(znot(v.none), zbool(self.truth(v.val)))
        if isinstance(v, CList): return bool(v.items)
        if isinstance(v, CDict): return bool(v.items)
        if isinstance(v, SSeq): return v.n > 0
        if isinstance(v, FSet): return self.anyz([g for g, _ in v.items])
        if isinstance(v, SSet):
            k, cs = self.bvar(v.kty)
            return zexists(cs, zbool(v.mem(k)))
        if isinstance(v, SMap):
            k, cs = self.bvar(v.kty)
            return zexists(cs, zbool(v.dom(k)))
        if isinstance(v, SBag):
            r = []
            for p in v.parts:
                if isinstance(p, One): r.append(p.guard)
                else:
                    bs, g, _, _ = p.fresh()
                    r.append(zexists(bs, g))
            return self.anyz(r)
        if isinstance(v, XR): return zor(v.tag != 0, v.r != 0)
        if isinstance(v, ObjV):
            if hasattr(v.cls, "__len__") or hasattr(v.cls, "__bool__"): raise Unsupported("truth of object")
            return True
        if isinstance(v, (Closure, Bound, Iterable)): return True
        if isinstance(v, Rec): return True
        if isinstance(v, Opaque): raise Unsupported("truth of opaque value")
        return bool(v)

    # ----------------------------------------------------------- branching
    def feasible(self, c):
        self.nfeas += 1
        s = z3.Solver()
        s.set("timeout", 250)
        for f in self.st.pc + self.st.facts:
            if not has_quant(f): s.add(f)
        for a in strlit_axioms(): s.add(a)
        if not has_quant(c): s.add(c)
        return s.check() != z3.unsat

    def branch(self, c):
        """decide a condition on the current path"""
        if isinstance(c, bool): return c
        c = z3.simplify(c) if not has_quant(c) else c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        cid, nid = c.get_id(), znot(c).get_id()
        for p in self.st.pc:
            i = p.get_id()
            if i == cid: return True
            if i == nid: return False
        if self.alts is None: raise Unsupported("branch outside exploration")
        if self.pos < len(self.dec):
            d, jump = self.dec[self.pos]
            self.pos += 1
            if jump is not None:
                for k, n in zip(self.counters, jump): k.n = n
            if d in ("T", "F"):
                self.st.pc.append(c if d == "T" else znot(c))
                return d == "T"
            return d == "t"
        ft = self.feasible(c)
        ff = self.feasible(znot(c)) if ft else True
        if ft and ff:
            self.alts.append(self.dec[:] + [("F", None)])
            self.dec = self.dec + [("T", None)]
            self.pos += 1
            self.st.pc.append(c)
            return True
        self.dec = self.dec + [("t" if ft else "f", None)]
        self.pos += 1
        return ft

    def explore(self, thunk, binders=(), guard=None, journal=False, limit=400):
        """run thunk on all paths from the current state; returns list of Path"""
        # a run repeats the prefix of an earlier one up to its last decision: what was explored there is kept
        memo, key = self.memo, None
        if memo is not None:
            key = (tuple(d for d, _ in self.dec[:self.pos]), self.nexp)
            self.nexp += 1
            hit = memo.get(key)
            if hit is not None:
                out, after = hit
                for k, n in zip(self.counters, after): k.n = n
                if not journal and self.journal is not None:
                    for p in out: self.journal.extend(p.journal)
                return out
        base = self.st
        saved = (self.dec, self.pos, self.alts, self.journal, list(self.bound), self.depth, list(self.frames))
        saved_loop = [(f, f.loopno) for f in self.frames]
        saved_exp = (self.memo, self.nexp)
        self.bound = self.bound + list(binders)
        npc, nf = len(base.pc), len(base.facts)
        out = []
        work = [[]]
        start = [k.n for k in self.counters]
        self.memo = {}
        try:
            while work:
                if len(out) > limit: raise Unsupported("too many paths")
                self.dec = work.pop()
                if self.dec:
                    self.dec[-1] = (self.dec[-1][0], [k.top() for k in self.counters])
                    for k, n in zip(self.counters, start): k.n = n
                self.pos = 0
                self.nexp = 0
                self.alts = []
                self.st = base.clone()
                self.depth = saved[5]
                self.frames = list(saved[6])
                for f, l in saved_loop: f.loopno = l
                if guard is not None and not z3.is_true(guard): self.st.pc.append(guard)
                g0 = len(self.st.pc)
                self.journal = [] if (journal or saved[3] is not None) else None
                try:
                    v = thunk()
                    kind = "ok"
                except PyRaise as e:
                    kind, v = "raise", e
                except _Return as e:
                    kind, v = "return", e.v
                except _Break:
                    kind, v = "break", None
                except _Continue:
                    kind, v = "continue", None
                except _Infeasible:
                    kind, v = None, None
                for k in self.counters: k.top()
                work.extend(self.alts)
                if kind is not None:
                    out.append(Path(self.st.pc[g0:], self.st.facts[nf:], kind, v, self.st, self.journal,
                                    self.st.taint[len(base.taint):]))
        finally:
            self.st = base
            self.dec, self.pos, self.alts, self.journal, self.bound, self.depth, self.frames = saved
            self.memo, self.nexp = saved_exp
            for f, l in saved_loop: f.loopno = l
            for k in self.counters: k.n = k.top()
        if key is not None: memo[key] = (out, [k.n for k in self.counters])
        if not journal and self.journal is not None:
            for p in out: self.journal.extend(p.journal)
        return out

    def absorb_facts(self, paths, binders=(), guard=None):
        g = guard if guard is not None else z3.BoolVal(True)
        for p in paths:
            for f in p.facts:
                self.st.facts.append(zforall(list(binders), zimp(zand(g, *p.conds), f)))
            for t in p.taint: self.taint(t)

    def merged(self, thunk, binders=(), guard=None, what="value"):
        """value of thunk merged over its paths; (value, raise_cond, raise_cls)"""
        paths = self.explore(thunk, binders, guard)
        self.absorb_facts(paths, binders, guard)
        val = _NOVAL
        rc = []
        for p in paths:
            if p.kind == "raise": rc.append((p.cond, p.val))
        ok = [p for p in paths if p.kind == "ok"]
        for p in paths:
            if p.kind not in ("ok", "raise"): raise Unsupported("control flow in an expression")
        for p in reversed(ok):
            v = self.snap(p.val, p.st)
            val = v if val is _NOVAL else self.ite(p.cond, v, val)
        return val, rc

    def snap(self, v, st):
        """snapshot handles of another state so they can be used in this one"""
        if isinstance(v, CRef):
            if v.root in self.st.store and v.root[0] != "c": return v
            if v.root in self.st.store and self.st.store[v.root] is st.store.get(v.root): return v
            sv = self.st
            self.st = st
            try: r = self.rd(v)
            finally: self.st = sv
            return self.snap(r, st)
        if isinstance(v, tuple): return tuple(self.snap(x, st) for x in v)
        if isinstance(v, CList): return CList(self.snap(x, st) for x in v.items)
        if isinstance(v, CDict): return CDict(((k, self.snap(x, st)) for k, x in v.items), v.default)
        if isinstance(v, Rec): return Rec(v.cls, {k: self.snap(x, st) for k, x in v.f.items()})
        if isinstance(v, ObjV):
            if ("of", v.loc) not in self.st.store:
                for k, x in st.store.items():
                    if (k[0] == "o" or k[0] == "of") and k[1] == v.loc:
                        self.st.store[k] = self.snap(x, st) if k[0] == "o" else x
            return v
        return v

    def raise_if(self, cond, exc):
        if self.branch(cond): raise exc

    # -------------------------------------------------------------- force
    def force(self, v, what=""):
        """resolve optionals and extended reals by branching"""
        if isinstance(v, Opt):
            if self.branch(v.none): return None
            return self.force(v.val)
        if isinstance(v, XR):
            if self.branch(v.tag == 0): return Sym(v.r, TReal())
            if self.branch(v.tag == 1): return math.inf
            if self.branch(v.tag == -1): return -math.inf
            return math.nan
        return v

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """list of parts"""
        v = self.force(v)
        if isinstance(v, CRef): self.log("readall", v.root, v.path)
        v = self.deref(v)
        if isinstance(v, Iterable): return v.parts
        if isinstance(v, SBag): return v.parts
        if isinstance(v, CList): return [One(True, x) for x in v.items]
        if isinstance(v, tuple): return [One(True, x) for x in v]
        if isinstance(v, Rec): return [One(True, x) for x in v.f.values()]
        if isinstance(v, CDict): return [One(True, k) for k, _ in v.items]
        if isinstance(v, FSet):
            out = []
            for j, (g, x) in enumerate(v.items):
                dup = self.anyz([self.andg(h, self.eq(x, y)) for h, y in v.items[:j]])
                if dup is True: continue
                out.append(One(g if dup is False else zand(zbool(g), znot(dup)), x))
            return out
        if isinstance(v, SSeq):
            def fresh():
                i = fresh_int("i")
                return [i], z3.And(i >= 0, i < v.n), v.get(i), i
            it = SIter(fresh, True)
            it.dense = True
            it.n = v.n
            return [it]
        if isinstance(v, SSet):
            if isinstance(v.kty, TEnum):
                return [One(v.mem(m), m) for m in v.kty.cls]

            def fresh():
                k, cs = self.bvar(v.kty)
                return cs, zbool(v.mem(k)), k, None
            return [SIter(fresh)]
        if isinstance(v, SMap):
            if isinstance(v.kty, TEnum):
                return [One(v.dom(m), m) for m in v.kty.cls]

            def fresh():
                k, cs = self.bvar(v.kty)
                return cs, zbool(v.dom(k)), k, None
            return [SIter(fresh)]
        if isinstance(v, type) and issubclass(v, enum.Enum): return [One(True, m) for m in v]
        if isinstance(v, (list, tuple, set, frozenset, dict, range, str, types.GeneratorType)) or hasattr(v, "__iter__") and not isinstance(v, V):
            return [One(True, x) for x in v]
        if v is None: raise PyRaise(TypeError, "None is not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def map_parts(self, v, kind):
        """keys/values/items parts of a mapping handle or value"""
        if isinstance(v, CRef): self.log("readall", v.root, v.path)
        m = self.deref(v)
        handle = v if isinstance(v, CRef) else None
        if isinstance(m, CDict):
            return [One(True, {"keys": k, "values": x, "items": (k, x)}[kind]) for k, x in m.items]
        if isinstance(m, SMap):
            if isinstance(m.kty, TEnum):
                ks = list(m.kty.cls)
                return [One(m.dom(k), {"keys": lambda: k, "values": lambda: self.view(handle, m, k), "items": lambda: (k, self.view(handle, m, k))}[kind]()) for k in ks]

            def fresh():
                k, cs = self.bvar(m.kty)
                g = zbool(m.dom(k))
                if kind == "keys": return cs, g, k, None
                val = self.view(handle, m, k)
                return cs, g, (val if kind == "values" else (k, val)), None
            return [SIter(fresh)]
        raise Unsupported(f".{kind}() of {type(m).__name__}")

    def view(self, handle, m, k):
        val = m.get(k)
        if isinstance(val, CONT):
            if handle is None: return val
            return CRef(handle.root, handle.path + (k,))
        return val

    def map_iter(self, parts, f, filt=None):
        """apply f (value -> value) and optional filter (value -> cond) lazily; used for comprehensions.
        Evaluated eagerly per part under binders; raising branches the outer path."""
        out = []
        for p in parts:
            if isinstance(p, One):
                g = p.guard
                if g is True:
                    keep = True
                else:
                    keep = g
                if filt is None and keep is True:
                    out.append(One(True, f(p.val)))
                    continue
                def body(p=p):
                    c = filt(p.val) if filt else True
                    if not self.branch(c): return _SKIP
                    return f(p.val)
                paths = self.explore(body, (), None if keep is True else zbool(keep))
                self._comp_paths(paths, [], zbool(keep))
                for q in paths:
                    if q.kind == "ok" and q.val is not _SKIP:
                        out.append(One(zand(zbool(keep), *q.conds) if (q.conds or keep is not True) else True, self.snap(q.val, q.st)))
            else:
                bs, g, e, idx = p.fresh()

                def body(e=e):
                    c = filt(e) if filt else True
                    if not self.branch(c): return _SKIP
                    return f(e)
                paths = self.explore(body, bs, g)
                self._comp_paths(paths, bs, g)
                keepc = [q for q in paths if q.kind == "ok" and q.val is not _SKIP]
                if not keepc: continue
                kc = z3.simplify(zor(*[q.cond for q in keepc])) if len(keepc) > 1 else keepc[0].cond
                val = _NOVAL
                for q in reversed(keepc):
                    w = self.snap(q.val, q.st)
                    val = w if val is _NOVAL else self.ite(q.cond, w, val)
                gg = zand(g, kc)
                total = len(keepc) == len([q for q in paths if q.kind == "ok"])
                out.append(self.siter_of(bs, gg, val, idx, p.ordered, p if total else None))
        return out

    def siter_of(self, bs, g, val, idx, ordered, dense_src=None):
        def fresh():
            cs = [fresh_const(b.sort(), "b") for b in bs]
            pr = list(zip(bs, cs))
            return cs, z3.substitute(g, *pr) if pr else g, subst_v(self, val, pr), (z3.substitute(idx, *pr) if idx is not None else None)
        s = SIter(fresh, ordered)
        s.dense = dense_src is not None and getattr(dense_src, "dense", True)
        if s.dense and getattr(dense_src, "n", None) is not None: s.n = dense_src.n
        return s

    def _comp_paths(self, paths, bs, g):
        """facts and possible exceptions of element evaluation"""
        self.absorb_facts(paths, bs, g)
        for q in paths:
            if q.kind == "raise":
                if self.branch(zexists(list(bs), zand(g, *q.conds))): raise q.val
            elif q.kind != "ok": raise Unsupported("control flow in comprehension")

    def flat_parts(self, parts, f):
        """nested generators: f(value)-> parts"""
        out = []
        for p in parts:
            if isinstance(p, One):
                if p.guard is True: out.extend(f(p.val))
                else:
                    paths = self.explore(lambda: f(p.val), (), zbool(p.guard))
                    self._comp_paths(paths, [], zbool(p.guard))
                    for q in paths:
                        if q.kind == "ok":
                            out.extend(self.guard_parts(q.val, zand(zbool(p.guard), *q.conds)))
            else:
                bs, g, e, idx = p.fresh()
                paths = self.explore(lambda: f(e), bs, g)
                self._comp_paths(paths, bs, g)
                for q in paths:
                    if q.kind != "ok": continue
                    for r in q.val:
                        if isinstance(r, One):
                            out.append(self.siter_of(bs, zand(g, *q.conds, zbool(r.guard)), self.snap(r.val, q.st), None, False))
                        else:
                            def fresh(r=r, bs=bs, g=g, q=q):
                                cs, gg, ee, _ = r.fresh()
                                bb = [fresh_const(b.sort(), "b") for b in bs]
                                pr = list(zip(bs, bb))
                                return bb + cs, z3.substitute(zand(g, *q.conds, gg), *pr), subst_v(self, self.snap(ee, q.st), pr), None
                            out.append(SIter(fresh))
        return out

    # ------------------------------------------------- sequences from bags
    def bag_seq(self, bag):
        """materialise a bag as a sequence with unknown (or source) order"""
        if bag.seq is not None: return bag.seq
        parts = bag.parts
        if all(isinstance(p, One) for p in parts):
            if all(p.guard is True for p in parts): return self.to_seq(CList([p.val for p in parts]))
            raise Unsupported("sequence of guarded elements")
        if len(parts) != 1: raise Unsupported("sequence of several symbolic parts")
        p = parts[0]
        if p.ordered and getattr(p, "dense", False):
            bs, g, e, idx = p.fresh()
            lo = offset(bs[0], idx) if len(bs) == 1 and idx is not None else None
            if lo is not None:
                n = getattr(p, "n", None)
                # length equals source length: 0<=i<n  <=> guard(i)
                i = fresh_int("i")
                if n is None:
                    n = self.fresh(z3.IntSort(), "n")
                    self.fact(n >= 0)
                    self.fact(z3.ForAll([i], z3.And(i >= 0, i < n) == z3.substitute(g, (bs[0], z3.simplify(i + lo)))))

                def get(j): return subst_v(self, e, [(bs[0], z3.simplify(j + lo))])
                bag.seq = SSeq(n, get, ty_of(e))
                return bag.seq
        bs, g, e, idx = p.fresh()
        n = self.fresh(z3.IntSort(), "n")
        tag = next(self.fresh_no)
        bound = list(self.bound)
        bsorts = [b.sort() for b in bound]
        src = [z3.Function(f"src{tag}_{j}", *bsorts, z3.IntSort(), b.sort()) for j, b in enumerate(bs)]
        inv = z3.Function(f"idx{tag}", *bsorts, *[b.sort() for b in bs], z3.IntSort())
        i = fresh_int("i")
        S = [(b, s(*bound, i)) for b, s in zip(bs, src)]
        self.fact(n >= 0)
        self.fact(z3.ForAll([i], zimp(z3.And(i >= 0, i < n), zand(z3.substitute(g, *S), inv(*bound, *[s for _, s in S]) == i))))
        self.fact(z3.ForAll(bs, zimp(g, z3.And(inv(*bound, *bs) >= 0, inv(*bound, *bs) < n,
                                               *[s(*bound, inv(*bound, *bs)) == b for b, s in zip(bs, src)]))))
        if p.ordered and idx is not None:
            j = fresh_int("j")
            oi = z3.substitute(idx, *S)
            oj = z3.substitute(oi, (i, j))
            self.fact(z3.ForAll([i, j], zimp(z3.And(0 <= i, i < j, j < n), oi < oj)))
        else:
            self.taint("unknown list order")

        def get(j):
            return subst_v(self, e, [(b, s(*bound, j)) for b, s in zip(bs, src)])
        bag.seq = SSeq(n, get, ty_of(e))
        return bag.seq

    # ---------------------------------------------------------------- sums
    def sum_parts(self, parts, f=None, ty=None):
        """sum over parts of f(elem); list of terms"""
        tot = None
        for p in parts:
            if isinstance(p, One):
                v = f(p.val) if f else p.val
                if p.guard is not True: v = self.ite(zbool(p.guard), v, 0)
            else:
                bs, g, e, _ = p.fresh()
                v = f(e) if f else e
                v = self.sum_term(bs, g, v)
            tot = v if tot is None else self.binop(ast.Add(), tot, v)
        return 0 if tot is None else tot

    def sum_term(self, bs, g, v):
        v = self.force_pure(v)
        ty = TReal() if isinstance(ty_of(v), TReal) else TInt()
        t = term(v, ty)
        g = z3.simplify(g) if not has_quant(g) else g
        # merge with an identical sum
        for s in self.sums:
            if s["ty"] == ty and [b.sort() for b in s["bs"]] == [b.sort() for b in bs] and s["nb"] == [str(b) for b in self.bound]:
                pr = list(zip(s["bs"], bs))
                if z3.substitute(s["g"], *pr).eq(g) and z3.substitute(s["e"], *pr).eq(t): return Sym(s["S"], ty)
        S = self.fresh(sort_of(ty), "sum")
        self.sums.append({"S": S, "bs": list(bs), "g": g, "e": t, "ty": ty, "nb": [str(b) for b in self.bound], "bound": list(self.bound)})
        self.taint("sum abstraction")
        return Sym(S, ty)

    def force_pure(self, v):
        if isinstance(v, (Opt, XR)): raise Unsupported("optional value in an aggregate")
        return v

    def step_at(self, v):
        """a container changes at v: sums over it may differ there"""
        if not self.key_steps or self.in_spec: return
        flat = lambda x: [y for c in x for y in flat(c)] if isinstance(x, tuple) else [term(x, ty_of(x))]
        try: w = flat(v)
        except Exception: return
        if not any(len(x) == len(w) and all(a.eq(b) for a, b in zip(x, w)) for x in self.steps): self.steps.append(w)

    def sum_lemmas(self):
        """congruence, sign and emptiness lemmas for the registered sums"""
        out = []
        if self.sums and "pow10" in self.used_models:
            x, f = z3.Real("x!pow"), self.func("pow10", z3.RealSort(), z3.RealSort())
            out.append(z3.ForAll([x], f(x) > 0, patterns=[f(x)]))
        for s in self.sums:
            S, bs, g, e = s["S"], s["bs"], s["g"], s["e"]
            z = z3.IntVal(0) if isinstance(s["ty"], TInt) else z3.RealVal(0)
            out.append(zforall(s["bound"], zimp(zforall(bs, zimp(g, e >= z)), S >= z)))
            out.append(zforall(s["bound"], zimp(zforall(bs, znot(zand(g, e != z))), S == z)))
            if s.get("len"):
                # two elements make two
                ys = [z3.Const(f"{b}!2", b.sort()) for b in bs]
                g2 = z3.substitute(g, *zip(bs, ys))
                out.append(zforall(s["bound"] + list(bs) + ys, zimp(zand(g, g2, znot(zand(*[x == y for x, y in zip(bs, ys)]))), S >= 2)))
            # nonneg elements and a positive one: positive
            out.append(zforall(s["bound"], zimp(zand(zforall(bs, zimp(g, e >= z)), zexists(bs, zand(g, e > z))), S > z)))
        for a, b in itertools.permutations(self.sums, 2):
            # a sum that is an instance of a sum under bound variables
            if len(b["bound"]) <= len(a["bound"]) or a["ty"] != b["ty"] or [x.sort() for x in a["bs"]] != [x.sort() for x in b["bs"]]: continue
            pr = list(zip(b["bs"], a["bs"]))
            g2, e2 = z3.substitute(b["g"], *pr), z3.substitute(b["e"], *pr)
            m = match(e2, a["e"], b["bound"])
            if m is None or len(m) < len(b["bound"]): m = match(g2, a["g"], b["bound"])
            if m is None or len(m) < len(b["bound"]): continue
            pr = [(x, m[x.get_id()]) for x in b["bound"]]
            za = z3.IntVal(0) if isinstance(a["ty"], TInt) else z3.RealVal(0)
            wa, wb = zite(a["g"], a["e"], za), zite(z3.substitute(g2, *pr), z3.substitute(e2, *pr), za)
            out.append(zforall(a["bound"], zimp(zforall(a["bs"], wa == wb), a["S"] == z3.substitute(b["S"], *pr))))
        for a, b in itertools.combinations(self.sums, 2):
            if [x.sort() for x in a["bs"]] != [x.sort() for x in b["bs"]] or [x.sort() for x in a["bound"]] != [x.sort() for x in b["bound"]]: continue
            pr = list(zip(b["bs"], a["bs"])) + list(zip(b["bound"], a["bound"]))
            g2, e2 = z3.substitute(b["g"], *pr), z3.substitute(b["e"], *pr)
            za = z3.IntVal(0) if isinstance(a["ty"], TInt) else z3.RealVal(0)
            Sa, ea, Sb, eb = a["S"], a["e"], z3.substitute(b["S"], *pr), e2
            if a["ty"] != b["ty"]:
                if isinstance(a["ty"], TInt): Sa, ea = z3.ToReal(Sa), z3.ToReal(ea)
                else: Sb, eb = z3.ToReal(Sb), z3.ToReal(eb)
                za = z3.RealVal(0)
            wa, wb = zite(a["g"], ea, za), zite(g2, eb, za)
            out.append(zforall(a["bound"], zimp(zforall(a["bs"], wa == wb), Sa == Sb)))
            out.append(zforall(a["bound"], zimp(zforall(a["bs"], wa <= wb), Sa <= Sb)))
            out.append(zforall(a["bound"], zimp(zforall(a["bs"], wa >= wb), Sa >= Sb)))
            # sums that agree except at one element differ by that element
            for w in self.steps:
                if [x.sort() for x in w] != [x.sort() for x in a["bs"]]: continue
                at = list(zip(a["bs"], w))
                same = zor(zand(*[x == y for x, y in at]), wa == wb)
                out.append(zforall(a["bound"], zimp(zforall(a["bs"], same), Sa - Sb == z3.substitute(wa, *at) - z3.substitute(wb, *at))))
        return out

    def count(self, v):
        """len() of a symbolic container"""
        v = self.deref(v)
        if isinstance(v, CList): return len(v.items)
        if isinstance(v, tuple): return len(v)
        if isinstance(v, Rec): return len(v.f)
        if isinstance(v, CDict): return len(v.items)
        if isinstance(v, SSeq): return Sym(v.n, TInt())
        if isinstance(v, FSet):
            parts = self.iterate(v)
            if all(p.guard is True for p in parts): return len(parts)
            return self.sum_parts(parts, lambda x: 1)
        if isinstance(v, (SSet, SMap, SBag, Iterable)):
            if isinstance(v, SBag) and len(v.parts) == 1 and isinstance(v.parts[0], SIter) and (v.parts[0].ordered or self.in_spec or v.seq is not None):
                return Sym(self.bag_seq(v).n, TInt())
            n = len(self.sums)
            r = self.sum_parts(self.iterate(v), lambda x: 1)
            if not self.in_spec:
                for x in self.sums[n:]: x["len"] = True
            return r
        if isinstance(v, Sym) and isinstance(v.ty, TStr):
            f = self.func("strlen", StrSort, z3.IntSort())
            self.fact(z3.And(f(v.t) >= 0, (f(v.t) == 0) == (v.t == strlit(""))))
            return Sym(f(v.t), TInt())
        if not isinstance(v, V): return len(v)
        raise Unsupported(f"len of {type(v).__name__}")

    def extremum(self, parts, is_max, key=None, default=None, has_default=False, what="max"):
        if all(isinstance(p, One) and p.guard is True for p in parts):
            vals = [p.val for p in parts]
            if not vals:
                if has_default: return default
                raise PyRaise(ValueError, f"{what}() of empty sequence")
            best = vals[0]
            kb = key(best) if key else best
            for v in vals[1:]:
                kv = key(v) if key else v
                c = self.compare(ast.Gt() if is_max else ast.Lt(), kv, kb)
                if isinstance(c, bool):
                    if c: best, kb = v, kv
                elif key is None and ty_of(v) is not None and isinstance(v, (Sym, int, float)) and isinstance(best, (Sym, int, float)):
                    best = kb = self.ite(c, v, best)
                else:
                    if self.branch(c): best, kb = v, kv
            return best
        nonempty = self.truth(SBag(parts))
        if not self.branch(nonempty):
            if has_default: return default
            raise PyRaise(ValueError, f"{what}() of empty sequence")
        # attained at some element of some part, and bounding all
        kfun = (lambda x: x) if key is None else key
        evs = []
        for p in parts:
            if isinstance(p, One):
                evs.append(([], zbool(p.guard), p.val, self.pure_call(kfun, p.val), None))
            else:
                bs, g, e, idx = p.fresh()
                k = self.pure_call(kfun, e, bs, g)
                evs.append((bs, g, e, k, idx if p.ordered else None))
        # choose the part attaining it
        n = len(evs)
        pick = 0
        while pick < n - 1 and not self.branch(self.fresh(z3.BoolSort(), "part")): pick += 1
        bs, g, e, k, idx = evs[pick]
        w = [self.fresh(b.sort(), "wit") for b in bs]
        pr = list(zip(bs, w))
        val, kv = subst_v(self, e, pr), subst_v(self, k, pr)
        self.fact(z3.substitute(g, *pr) if pr else g)
        for bs2, g2, e2, k2, idx2 in evs:
            c = self.compare(ast.LtE() if is_max else ast.GtE(), k2, kv)
            self.fact(zforall(bs2, zimp(g2, zbool(c))))
        if idx is not None and key is not None and n == 1:
            c = self.compare(ast.Lt() if is_max else ast.Gt(), k, kv)
            self.fact(zforall(bs, zimp(zand(g, idx < z3.substitute(idx, *pr)), zbool(c))))
        elif key is not None:
            self.taint("arbitrary extremal element")
        return val

    def pure_call(self, f, x, bs=(), g=None):
        val, rc = self.merged(lambda: f(x), bs, g)
        for c, exc in rc:
            if self.branch(zexists(list(bs), zand(g if g is not None else True, c))): raise exc
        return val

    # ----------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, CRef) or isinstance(b, CRef) or isinstance(a, CONT) or isinstance(b, CONT):
            return self.cont_op(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add): return a + b
        if isinstance(a, tuple) and isinstance(b, int) and isinstance(op, ast.Mult): return a * b
        if not isinstance(a, V) and not isinstance(b, V):
            try: return _BINOPS[type(op)](a, b)
            except ZeroDivisionError: raise PyRaise(ZeroDivisionError, "division by zero")
            except TypeError as e: raise PyRaise(TypeError, str(e))
            except ValueError as e: raise PyRaise(ValueError, str(e))
            except OverflowError as e: raise PyRaise(OverflowError, str(e))
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque()
        ta, tb = ty_of(a), ty_of(b)
        if isinstance(ta, TStr) and isinstance(tb, TStr) and isinstance(op, ast.Add):
            f = self.func("strcat", StrSort, StrSort, StrSort)
            return Sym(f(term(a), term(b)), TStr())
        if isinstance(op, ast.Mod) and isinstance(ta, TStr): return Opaque("formatted string")
        # user-defined operators on objects
        dn = _DUNDER.get(type(op))
        if isinstance(a, (ObjV,)) or (isinstance(a, Sym) and isinstance(a.ty, TRef)):
            if dn: return self.call(self.getattr(a, dn), [b], {})
        num = (TInt, TReal, TBool, TXReal)
        if not isinstance(ta, num) or not isinstance(tb, num):
            if a is None or b is None: raise PyRaise(TypeError, "operand None")
            raise Unsupported(f"operator {type(op).__name__} on {ta} and {tb}")
        # infinities
        if isinstance(ta, TXReal) or isinstance(tb, TXReal):
            if isinstance(op, ast.Add): return a if isinstance(ta, TXReal) else b
            if isinstance(op, ast.Sub): return a if isinstance(ta, TXReal) else -b
            if isinstance(op, (ast.Mult, ast.Div)) and isinstance(ta, TXReal):
                bt = term(b, TReal())
                if a != a: return a
                if self.branch(bt > 0): return a
                if self.branch(bt < 0): return -a
                if isinstance(op, ast.Div): raise PyRaise(ZeroDivisionError)
                return math.nan
            if isinstance(op, ast.Mult): return self.binop(op, b, a)
            if isinstance(op, ast.Div) and b == b: return 0.0
            raise Unsupported("arithmetic on non-finite value")
        real = isinstance(ta, TReal) or isinstance(tb, TReal)
        ty = TReal() if real else TInt()
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = term(a, ty), term(b, ty)
            r = x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
            return Sym(z3.simplify(r), ty)
        if isinstance(op, ast.Div):
            x, y = term(a, TReal()), term(b, TReal())
            self.raise_if(y == 0, PyRaise(ZeroDivisionError, "division by zero"))
            if "sum!" in x.sexpr()[:200]: self.fact(zimp(zand(x >= 0, y > 0), x / y >= 0))
            return Sym(x / y, TReal())
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            x, y = term(a, ty), term(b, ty)
            self.raise_if(y == 0, PyRaise(ZeroDivisionError, "modulo by zero"))
            q = self.fresh(z3.IntSort(), "q")
            qq = z3.ToReal(q) if real else q
            r = self.fresh(sort_of(ty), "r")
            self.fact(x == qq * y + r)
            self.fact(z3.If(y > 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y)))
            return Sym(r, ty) if isinstance(op, ast.Mod) else (Sym(qq, ty))
        if isinstance(op, ast.Pow):
            if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
                x = term(a, ty if not real else TReal())
                r = z3.RealVal(1) if real else z3.IntVal(1)
                for _ in range(b): r = r * x
                return Sym(r, ty)
            if is_num(a) and a == 10: return self.model_pow10(term(b, TReal()))
            self.taint("pow")
            f = self.func("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
            x, y = term(a, TReal()), term(b, TReal())
            r = f(x, y)
            self.fact(zimp(x > 0, r > 0))
            self.fact(zimp(zand(x >= 0), r >= 0))
            return Sym(r, TReal())
        raise Unsupported(f"operator {type(op).__name__}")

    def cont_op(self, op, a, b):
        va, vb = self.deref(a), self.deref(b)
        if isinstance(a, CRef): self.log("readall", a.root, a.path)
        if isinstance(b, CRef): self.log("readall", b.root, b.path)
        if isinstance(va, SGrid) and isinstance(vb, SGrid) and isinstance(op, (ast.Add, ast.Sub)):
            self.raise_if(znot(z3.And(va.h == vb.h, va.w == vb.w)), PyRaise(ValueError, "shapes differ"))   # broadcasting is not modelled
            return self.alloc(SGrid(va.h, va.w, (lambda j, i: va.at(j, i) + vb.at(j, i)) if isinstance(op, ast.Add) else (lambda j, i: va.at(j, i) - vb.at(j, i))))
        if isinstance(va, (CList, SSeq, SBag)) and isinstance(vb, (CList, SSeq, SBag)) and isinstance(op, ast.Add):
            return self.alloc(self.concat(va, vb))
        if isinstance(va, CList) and isinstance(op, ast.Mult) and isinstance(b, int): return self.alloc(CList(va.items * b))
        if isinstance(va, CList) and len(va.items) == 1 and isinstance(op, ast.Mult):
            n = self.fresh(z3.IntSort(), "n")
            bt = term(b, TInt())
            return self.alloc(SSeq(zite(bt > 0, bt, z3.IntVal(0)), lambda i: va.items[0], ty_of(va.items[0])))
        sets = (FSet, SSet)
        if isinstance(va, Iterable): va = self.to_set(va.parts)
        if isinstance(vb, Iterable): vb = self.to_set(vb.parts)
        if isinstance(va, (set, frozenset)): va = FSet([(True, x) for x in va])
        if isinstance(vb, (set, frozenset)): vb = FSet([(True, x) for x in vb])
        if isinstance(va, sets) and isinstance(vb, sets): return self.alloc(self.set_op(op, va, vb))
        if isinstance(va, CDict) and isinstance(vb, CDict) and isinstance(op, ast.BitOr):
            raise Unsupported("dict union")
        raise Unsupported(f"operator {type(op).__name__} on containers")

    def concat(self, va, vb):
        if isinstance(va, CList) and isinstance(vb, CList): return CList(va.items + vb.items)
        if isinstance(va, CList) and not va.items: return vb
        if isinstance(vb, CList) and not vb.items: return va
        return SBag(self.iterate(va) + self.iterate(vb))

    def set_op(self, op, va, vb):
        if isinstance(op, ast.BitAnd):
            if isinstance(va, FSet): return FSet([(self.andg(g, self.mem(vb, x)), x) for g, x in va.items if self.mem(vb, x) is not False])
            if isinstance(vb, FSet): return self.set_op(op, vb, va)
            return SSet(va.kty, lambda k: zand(va.mem(k), zbool(self.mem(vb, k))))
        if isinstance(op, ast.BitOr):
            if isinstance(va, FSet) and isinstance(vb, FSet): return FSet(va.items + vb.items)
            kty = va.kty if isinstance(va, SSet) else vb.kty
            return SSet(kty, lambda k: zor(zbool(self.mem(va, k)), zbool(self.mem(vb, k))))
        if isinstance(op, ast.Sub):
            if isinstance(va, FSet):
                return FSet([(self.andg(g, znot(zbool(self.mem(vb, x)))), x) for g, x in va.items])
            return SSet(va.kty, lambda k: zand(va.mem(k), znot(zbool(self.mem(vb, k)))))
        if isinstance(op, ast.BitXor):
            return self.set_op(ast.BitOr(), self.set_op(ast.Sub(), va, vb), self.set_op(ast.Sub(), vb, va))
        raise Unsupported("set operator")

    def to_set(self, parts):
        if all(isinstance(p, One) for p in parts): return FSet([(p.guard, p.val) for p in parts])
        kty = None
        fs = []
        for p in parts:
            if isinstance(p, One):
                kty = kty or ty_of(p.val)
                fs.append(lambda k, p=p: self.andg(p.guard, self.eq(p.val, k)))
            else:
                bs, g, e, _ = p.fresh()
                kty = kty or ty_of(e)
                fe = None
                try: fe = flat(e, ty_of(e))
                except Unsupported: pass
                if fe is not None and len(fe) == len(bs) and all(any(x.eq(b) for x in fe) for b in bs):
                    # element is exactly a permutation of the bound variables: no quantifier needed
                    def m(k, bs=bs, g=g, fe=fe, e=e):
                        ks = flat(k, ty_of(e))
                        return z3.substitute(g, *[(x, y) for x, y in zip(fe, ks)])
                    fs.append(m)
                else:
                    fs.append(lambda k, bs=bs, g=g, e=e: zexists(bs, zand(g, zbool(self.eq(e, k)))))
        if kty is None: raise Unsupported("set of untyped elements")
        return SSet(kty, lambda k: zor(*[zbool(f(k)) for f in fs]))

    def to_dict(self, parts):
        """mapping from (key, value) parts, later ones winning"""
        if all(isinstance(p, One) and p.guard is True for p in parts):
            items = []
            for p in parts: items = self.cdict_put(items, p.val[0], p.val[1])
            return CDict(items)
        base = None
        for p in parts:
            if isinstance(p, One):
                k, v = p.val
                if base is None:
                    base = SMap(ty_of(k), lambda x: z3.BoolVal(False), lambda x, v=v: v, None, ty_of(v))
                new = self.map_put(base, k, self.deref(v))
                if p.guard is not True: new = self.ite_cont(p.guard, new, base)
                base = new
            else:
                m = self.dict_of_iter(p)
                base = m if base is None else self.map_over(base, m)
        return base

    def map_over(self, a, b):
        "b's entries override a's"
        if isinstance(a, CDict) and not a.items:
            return SMap(b.kty, b.dom, b.get, a.default if a.default is not None else b.default, b.vty)
        a = self.to_smap(a, b)

        def get(k):
            va = a.get(k)
            if va is _NOVAL: return b.get(k)
            return self.ite(zbool(b.dom(k)), b.get(k), va)
        return SMap(b.kty, lambda k: zor(zbool(a.dom(k)), zbool(b.dom(k))), get, a.default, b.vty)

    def pick(self, bs, g, keyterms, keysorts, idx, name="pick"):
        """functions choosing for a key the (last, if ordered) source element"""
        tag = next(self.fresh_no)
        bound = list(self.bound)
        bsorts = [b.sort() for b in bound]
        fs = [z3.Function(f"{name}{tag}_{j}", *bsorts, *keysorts, b.sort()) for j, b in enumerate(bs)]

        def at(ks): return [(b, f(*bound, *ks)) for b, f in zip(bs, fs)]
        # every source element's key has a chosen element with the same key
        pr = at(keyterms)
        body = zand(z3.substitute(g, *pr), *[z3.substitute(t, *pr) == t for t in keyterms])
        if idx is not None: body = zand(body, idx <= z3.substitute(idx, *pr))
        self.fact(zforall(bs, zimp(g, body)))
        if idx is None: self.taint("arbitrary writer")
        return at

    def dict_of_iter(self, p):
        bs, g, e, idx = p.fresh()
        k, v = e
        v = self.deref(v)
        kty = ty_of(k)
        if kty is None: raise Unsupported("dict key type")
        ks = flat(k, kty)
        if len(ks) == len(bs) and all(any(x.eq(b) for x in ks) for b in bs):
            def sub(x):
                return list(zip(ks, flat(x, kty)))
            return SMap(kty, lambda x: z3.substitute(g, *sub(x)), lambda x: subst_v(self, v, sub(x)), None, ty_of(v))
        at = self.pick(bs, g, ks, [t.sort() for t in ks], idx if p.ordered else None)

        def dom(x):
            xs = flat(x, kty)
            return zand(z3.substitute(g, *at(xs)), *[z3.substitute(t, *at(xs)) == y for t, y in zip(ks, xs)])
        return SMap(kty, dom, lambda x: subst_v(self, v, at(flat(x, kty))), None, ty_of(v))

    def cdict_put(self, items, k, v):
        out, done = [], False
        for a, b in items:
            r = self.eq(a, k)
            if r is True or (not isinstance(r, bool) and z3.is_true(r)):
                out.append((a, v))
                done = True
            elif r is False or z3.is_false(r): out.append((a, b))
            else: raise Unsupported("symbolic key in concrete dict")
        if not done: out.append((k, v))
        return out

    # ----------------------------------------------------------- comparison
    def compare(self, op, a, b):
        """Python bool or z3 Bool"""
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else znot(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, (bool, Opt)) or isinstance(b, (bool, Opt)) or \
                    isinstance(a, (enum.Enum, Sym, type, ObjV)) or isinstance(b, (enum.Enum, Sym, type, ObjV)):
                va, vb = a, b
                if isinstance(va, Sym) and isinstance(va.ty, TRef) and isinstance(vb, Sym) and isinstance(vb.ty, TRef):
                    r = zeq(va.t, vb.t) if va.ty.cls is vb.ty.cls else False
                else: r = self.eq(a, b)
            elif isinstance(a, CRef) and isinstance(b, CRef): r = a.root == b.root and a.path == b.path
            elif not isinstance(a, V) and not isinstance(b, V): r = a is b
            else: raise Unsupported("identity comparison")
            if isinstance(op, ast.Is): return r
            return (not r) if isinstance(r, bool) else znot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, CRef): self.log("readkey", b.root, b.path, a)
            b = self.force(b)
            if b is None: raise PyRaise(TypeError, "argument of type None is not iterable")
            r = self.mem(b, a)
            if isinstance(op, ast.In): return r
            return (not r) if isinstance(r, bool) else znot(r)
        a, b = self.force(a), self.force(b)
        if a is None or b is None: raise PyRaise(TypeError, "ordering of None")
        if not isinstance(a, V) and not isinstance(b, V) and not (isinstance(a, tuple) or isinstance(b, tuple)):
            try: return bool(_CMPOPS[type(op)](a, b))
            except TypeError as e: raise PyRaise(TypeError, str(e))
        if isinstance(a, CRef) or isinstance(b, CRef) or isinstance(a, (FSet, SSet)) or isinstance(b, (FSet, SSet)):
            return self.set_cmp(op, self.deref(a), self.deref(b))
        if isinstance(a, (tuple, Rec)) and isinstance(b, (tuple, Rec)):
            xa = list(a) if isinstance(a, tuple) else list(a.f.values())
            xb = list(b) if isinstance(b, tuple) else list(b.f.values())
            return self.lexi(op, xa, xb)
        ta, tb = ty_of(a), ty_of(b)
        num = (TInt, TReal, TBool, TXReal)
        if isinstance(ta, num) and isinstance(tb, num):
            if isinstance(ta, TXReal) or isinstance(tb, TXReal):
                x = a if is_num(a) else 0.0
                y = b if is_num(b) else 0.0
                return bool(_CMPOPS[type(op)](x, y))
            ty = TReal() if isinstance(ta, TReal) or isinstance(tb, TReal) else TInt()
            return _CMPOPS[type(op)](term(a, ty), term(b, ty))
        if isinstance(ta, TStr) and isinstance(tb, TStr):
            lt = self.func("str_lt", StrSort, StrSort, z3.BoolSort())
            x, y = term(a), term(b)
            self.fact(zand(znot(zand(lt(x, y), lt(y, x))), zor(lt(x, y), lt(y, x), x == y), znot(zand(x == y, lt(x, y)))))
            if isinstance(op, ast.Lt): return lt(x, y)
            if isinstance(op, ast.Gt): return lt(y, x)
            if isinstance(op, ast.LtE): return znot(lt(y, x))
            return znot(lt(x, y))
        raise Unsupported(f"ordering of {ta} and {tb}")

    def lexi(self, op, xa, xb):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        sop = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if not xa or not xb:
            r = _CMPOPS[type(op)](len(xa), len(xb))
            return r
        h = zbool(self.compare(sop, xa[0], xb[0]))
        e = zbool(self.eq(xa[0], xb[0]))
        return zor(h, zand(e, zbool(self.lexi(op, xa[1:], xb[1:]))))

    def set_cmp(self, op, a, b):
        if isinstance(op, (ast.GtE, ast.Gt)): a, b = b, a
        le = self.subset(a, b)
        if isinstance(op, (ast.LtE, ast.GtE)): return le
        return zand(zbool(le), znot(zbool(self.subset(b, a))))

    def subset(self, a, b):
        a = self.deref(a)
        if isinstance(a, Iterable): a = self.to_set(a.parts)
        if isinstance(a, FSet): return self.allz([zimp(zbool(g), zbool(self.mem(b, x))) for g, x in a.items])
        if isinstance(a, SMap): a = SSet(a.kty, a.dom)
        if isinstance(a, SSet):
            k, cs = self.bvar(a.kty)
            return zforall(cs, self.under(cs, lambda: zimp(zbool(a.mem(k)), zbool(self.mem(b, k)))))
        raise Unsupported("subset")

    # model of 10**x
    def model_pow10(self, x):
        self.taint("10**x")
        f = self.func("pow10", z3.RealSort(), z3.RealSort())
        lg = self.func("log10", z3.RealSort(), z3.RealSort())
        self.fact(z3.And(f(x) > 0, lg(f(x)) == x))
        self.used_models.add("pow10")
        return Sym(f(x), TReal())

    # the statement/expression part is in interp.py
