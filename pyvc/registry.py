"""Contracts: declaration, evaluation, application, and obligation generation."""
import importlib
import re
import sys
import time
import traceback

from .builtins_ import *
from .builtins_ import MODELS
from .interp import Interp, Obl, Poison, is_full
from .engine import _NOVAL


class Contract:
    def __init__(self, target, spec):
        self.target = target
        mod, qn = target.split(":")
        self.mod, self.qn = mod, qn
        self.spec = spec
        g = lambda n, d=None: spec.__dict__.get(n, d)
        f = lambda n: spec.__dict__[n] if n in spec.__dict__ else None
        self.prop = g("prop")
        self.pre, self.post, self.raises, self.may_raise = f("pre"), f("post"), f("raises"), f("may_raise")
        self.types = g("types", {})
        self.ghost = g("ghost", {})
        self.modifies = g("modifies")
        self.loops = g("loops", {})
        self.modular = g("modular", False)
        self.pure = g("pure", False)      # a function of its parameters alone: callers and specifications see one abstract function
        self.reads = g("reads", ())       # fields of self a pure method reads: it is used only where none of them can be modified
        self.ret = g("ret")
        self.timeout = g("timeout")
        self.trusted = g("trusted", False)
        self.name = g("name", spec.__name__)
        self.note = g("note", "")
        self.setup = f("setup")
        self.frame_free = g("frame_free", ())
        self.only_normal = g("only_normal", False)
        self.key_steps = g("key_steps", False)    # sum laws of one step for elements added to sets and keys put into maps too
        self.total = g("total", False)    # lookups in specifications of keys that may be absent read some value
        self.fixed = g("fixed", {})

    def fn(self):
        o = importlib.import_module(self.mod)
        owner = None
        for p in self.qn.split("."):
            owner = o
            x = inspect.getattr_static(o, p)
            o = x
        if isinstance(o, (staticmethod, classmethod)): o = o.__func__
        if isinstance(o, property): o = o.fset if self.spec.__dict__.get("setter") else o.fget
        return inspect.unwrap(o)


class Inv:
    """loop invariant: function over the loop's variables returning {name: condition};
    `types` declares shapes of containers that are empty at loop entry"""
    def __init__(self, fn, types=None, variant=None): self.fn = fn; self.types = types or {}; self.variant = variant


def _marker(name):
    def f(*a, **k): raise RuntimeError(f"{name} is a specification construct")
    f.__name__ = f.__qualname__ = name
    return f


old = _marker("old")
before = _marker("before")
forall = _marker("forall")
exists = _marker("exists")
allocated = _marker("allocated")
fresh_ref = _marker("fresh_ref")
same_map_except = _marker("same_map_except")
unchanged = _marker("unchanged")
use = _marker("use")


def nothing(): pass


def implies(a, b): raise RuntimeError
def iff(a, b): raise RuntimeError


class Registry:
    def __init__(self):
        self.identity_eq = set()
        self.entities = set()
        self.abstract = {}
        self.types = {}
        self.contracts = []
        self.by_fn = {}
        self.models = dict(MODELS)
        self.models[old] = self.m_old
        self.models[before] = self.m_before
        self.models[forall] = self.m_forall
        self.models[exists] = self.m_exists
        self.models[implies] = self.m_implies
        self.models[iff] = self.m_iff
        self.models[allocated] = self.m_allocated
        self.models[fresh_ref] = self.m_fresh_ref
        self.models[unchanged] = self.m_unchanged
        self.models[use] = self.m_use
        self.lemmas = {}
        self.goals_only = False
        self.invs = {}
        self._ft = {}
        self.fmt_inj = set()
        self.ax_fns = []
        self.ext_models = {}

    # ------------------------------------------------------- declarations
    def contract(self, target):
        def deco(spec):
            c = Contract(target, spec)
            self.contracts.append(c)
            return spec
        return deco

    def lemma(self, spec):
        """a fact about its parameters alone, proved like a contract of an empty function; a clause may use() it"""
        spec.ghost = spec.types
        spec.types = {}
        c = Contract("pyvc.registry:nothing", spec)
        self.contracts.append(c)
        self.lemmas[spec] = c
        return spec

    def model(self, fn):
        try: return self.models.get(fn)
        except TypeError: return None

    def contract_for(self, fn):
        if not self.by_fn:
            for c in self.contracts:
                if c.modular:
                    try: self.by_fn[c.fn()] = c
                    except Exception: pass
            self.by_fn[None] = None
        return self.by_fn.get(inspect.unwrap(fn))

    def invariant(self, owner, no):
        return self.invs.get((owner, no))

    def inv_types(self, inv): return inv.types

    def eval_inv(self, eng, inv, ns, extra):
        return self.clauses(eng, inv.fn, {**getattr(eng, 'entry_args', {}), **ns, **extra})

    def eval_variant(self, eng, inv, ns):
        if inv.variant is None: return None
        return self.call_spec(eng, inv.variant, {**getattr(eng, 'entry_args', {}), **ns})

    def note_fmt(self, eng, t, f, sorts):
        eng.fmts = getattr(eng, "fmts", {})
        eng.fmts[t] = (f, sorts)

    def axioms(self, eng):
        out = list(getattr(eng, "type_ax", []))
        for t, (f, sorts) in getattr(eng, "fmts", {}).items():
            if t in self.fmt_inj:
                xs = [fresh_const(s, "x") for s in sorts]
                for i, (s, x) in enumerate(zip(sorts, xs)):
                    inv = eng.func(f"inv{i}:{t}", StrSort, s)
                    out.append(z3.ForAll(xs, inv(f(*xs)) == x, patterns=[f(*xs)]))
        for g in self.ax_fns: out.extend(g(eng))
        return out

    # ------------------------------------------------------------- types
    def ty(self, ann, gl=None):
        if isinstance(ann, Ty): return ann
        if isinstance(ann, str):
            try: ann = eval(ann, dict(vars(typing)), gl or {})
            except Exception: return TOpaque("Opaque")
        if ann is int: return TInt()
        if ann is float: return TReal()
        if ann is bool: return TBool()
        if ann is str: return TStr()
        if ann is type(None) or ann is None: return TNone()
        org, args = typing.get_origin(ann), typing.get_args(ann)
        if org is typing.Union:
            rest = [a for a in args if a is not type(None)]
            if len(rest) == 1: return TOpt(self.ty(rest[0], gl)) if len(args) > 1 else self.ty(rest[0], gl)
            if set(rest) == {int, float}: return TReal()
            return TOpaque("Union")
        if org in (list, collections.abc.Sequence, collections.abc.Iterable, collections.abc.Collection, collections.deque): return TSeq(self.ty(args[0], gl))
        if org in (set, frozenset, collections.abc.Set): return TSet(self.ty(args[0], gl))
        if org in (dict, collections.abc.Mapping, collections.defaultdict, collections.OrderedDict): return TMap(self.ty(args[0], gl), self.ty(args[1], gl))
        if org is tuple:
            if len(args) == 2 and args[1] is Ellipsis: return TSeq(self.ty(args[0], gl))
            return TTup([self.ty(a, gl) for a in args])
        if isinstance(ann, type):
            if issubclass(ann, enum.Enum): return TEnum(ann)
            if issubclass(ann, tuple) and hasattr(ann, "_fields"):
                h = typing.get_type_hints(ann)
                return TRec(ann, tuple((f, self.types.get((ann, f)) or self.ty(h[f])) for f in ann._fields))
            for c in ann.__mro__:
                if c in self.entities: return TRef(c)
            if ann.__module__.startswith("terragraph_planner"): return TObj(ann)
        return TOpaque(getattr(ann, "__name__", "Opaque"))

    def fields(self, cls):
        """field name -> type, from annotations and __init__ of the real class"""
        if cls in self._ft: return self._ft[cls]
        out = {}
        for c in reversed(cls.__mro__):
            if c is object: continue
            mod = sys.modules.get(c.__module__)
            gl = vars(mod) if mod else {}
            if dataclasses.is_dataclass(c):
                try: h = typing.get_type_hints(c)
                except Exception: h = c.__dict__.get("__annotations__", {})
                for f in dataclasses.fields(c): out[f.name] = self.ty(h.get(f.name, f.type), gl)
            i = c.__dict__.get("__init__")
            if isinstance(i, types.FunctionType) and from_src(i):
                node = fn_ast(i)
                ptys = {}
                for a in node.args.args + node.args.kwonlyargs:
                    if a.annotation is not None: ptys[a.arg] = a.annotation
                selfn = node.args.args[0].arg
                for x in ast.walk(node):
                    tgt, ann, val = None, None, None
                    if isinstance(x, ast.AnnAssign): tgt, ann, val = x.target, x.annotation, x.value
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1: tgt, val = x.targets[0], x.value
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == selfn:
                        t = None
                        if ann is not None: t = self.ev_ann(ann, gl)
                        elif isinstance(val, ast.Name) and val.id in ptys: t = self.ev_ann(ptys[val.id], gl)
                        elif isinstance(val, ast.Constant) and val.value is not None: t = self.ty(type(val.value))
                        if t is not None or tgt.attr not in out: out[tgt.attr] = t
        for c in cls.__mro__:
            for (k, f), t in self.types.items():
                if k is c: out[f] = t
        self._ft[cls] = out
        return out

    def ev_ann(self, node, gl):
        try: return self.ty(eval(compile(ast.Expression(node), "<ann>", "eval"), gl))
        except Exception: return None

    def field_type(self, cls, field):
        return self.fields(cls).get(field)

    # ---------------------------------------------------- symbolic inputs
    def type_facts(self, eng, v, ty, isalloc=True):
        """z3 formula: v is a well-typed pre-existing value"""
        if isinstance(ty, TRef) and isinstance(v, Sym):
            return eng.func("alloc_" + self.rname(ty.cls), ref_sort(ty.cls), z3.BoolSort())(v.t)
        if isinstance(ty, TOpt) and isinstance(v, Opt): return zimp(znot(v.none), self.type_facts(eng, v.val, ty.t))
        if isinstance(ty, TXReal) and isinstance(v, XR): return z3.And(v.tag >= -1, v.tag <= 2)
        if isinstance(ty, TTup): return zand(*[self.type_facts(eng, x, t) for x, t in zip(v, ty.ts)])
        if isinstance(ty, TRec): return zand(*[self.type_facts(eng, v.f[k], t) for k, t in ty.fields])
        if isinstance(ty, TSeq) and isinstance(v, SSeq):
            i = fresh_int("i")
            f = self.type_facts(eng, v.get(i), ty.t)
            return zand(v.n >= 0, zforall([i], zimp(z3.And(i >= 0, i < v.n), f)))
        if isinstance(ty, TGrid) and isinstance(v, SGrid): return z3.And(v.h >= 0, v.w >= 0)
        if isinstance(ty, TSet) and isinstance(v, SSet):
            k, cs = eng.bvar(ty.t)
            return zforall(cs, zimp(zbool(v.mem(k)), self.type_facts(eng, k, ty.t)))
        if isinstance(ty, TMap) and isinstance(v, SMap):
            k, cs = eng.bvar(ty.k)
            return zforall(cs, zimp(zbool(v.dom(k)), zand(self.type_facts(eng, k, ty.k), self.type_facts(eng, v.get(k), ty.v))))
        return z3.BoolVal(True)

    def rname(self, c): return c if isinstance(c, str) else c.__name__

    def make(self, eng, ty, name):
        if isinstance(ty, TObj):
            fs = {}
            o = eng.new_obj(ty.cls)
            for f, t in self.fields(ty.cls).items():
                if t is None: continue
                eng.st.store[("o", o.loc, f)] = self.make_field(eng, t, f"{name}.{f}")
            return o
        v = eng.mk(ty, name)
        eng.fact(self.type_facts(eng, v, ty))
        if isinstance(v, CONT): return eng.alloc(v)
        return v

    def make_field(self, eng, t, name):
        if isinstance(t, TObj): return self.make(eng, t, name)
        v = eng.mk(t, name)
        eng.fact(self.type_facts(eng, v, t))
        return v

    # ------------------------------------------------------ spec evaluation
    def spec_env(self, eng, fn, env):
        node = fn_ast(fn)
        names = [a.arg for a in node.args.args]
        missing = [n for n in names if n not in env]
        if missing: raise Unsupported(f"contract parameter {missing} of {fn.__qualname__} is not available in the code")
        return node, {n: env[n] for n in names}

    def frame_for(self, eng, fn, env):
        from .engine import Frame
        fr = Frame(fn.__globals__, None, None, {}, fn.__name__)
        if fn.__closure__:
            for nme, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try: fr.closure[nme] = c.cell_contents
                except ValueError: pass
        eng.st.vars[fr.id] = dict(env)
        return fr

    def call_spec(self, eng, fn, env):
        node, e = self.spec_env(eng, fn, env)
        eng.in_spec += 1
        try:
            val, rc = eng.merged(lambda: self._run(eng, fn, node, e))
            return val
        finally: eng.in_spec -= 1

    def _run(self, eng, fn, node, e):
        from .engine import _Return
        fr = self.frame_for(eng, fn, e)
        if isinstance(node, ast.Lambda): return eng.ev(node.body, fr)
        try: eng.block(node.body, fr)
        except _Return as r: return r.v
        return None

    def clauses(self, eng, fn, env, prefix=""):
        """[(name, z3 Bool)] of a clause function"""
        eng.in_spec += 1
        try: return self._clauses(eng, fn, env, prefix)
        finally: eng.in_spec -= 1

    def _clauses(self, eng, fn, env, prefix=""):
        node, e = self.spec_env(eng, fn, env)
        body = [ast.Return(node.body)] if isinstance(node, ast.Lambda) else node.body
        ret = body[-1]
        if not isinstance(ret, ast.Return): raise Unsupported("clause function must end in return")
        out = []
        if isinstance(ret.value, ast.Call):      # return helper(x): the clauses of the helper
            ret = ast.Return(ast.Dict(keys=[None], values=[ret.value]))
        if not isinstance(ret.value, ast.Dict):
            return [(prefix or fn.__name__, self.clause(eng, fn, e, body[:-1], ret.value))]
        for k, v in zip(ret.value.keys, ret.value.values):
            if k is None:
                if not isinstance(v, ast.Call): raise Unsupported("** in clauses must be a call")
                fr = self.frame_for(eng, fn, e)
                eng.block(body[:-1], fr)
                sub = eng.ev(v.func, fr)
                args = [eng.ev(a, fr) for a in v.args]
                names = [a.arg for a in fn_ast(sub).args.args]
                out.extend(self._clauses(eng, sub, dict(zip(names, args)), prefix))
                continue
            nm = k.value if isinstance(k, ast.Constant) else "clause"
            if self.goals_only and nm.startswith(("use", "lemma")): continue
            out.append((prefix + str(nm), self.clause(eng, fn, e, body[:-1], v)))
        return out

    def clause(self, eng, fn, e, pre, expr):
        def thunk():
            fr = self.frame_for(eng, fn, e)
            eng.block(pre, fr)
            return zbool(eng.cond(expr, fr))
        paths = eng.explore(thunk)
        eng.absorb_facts(paths)
        r = []
        for p in paths:
            if p.kind == "raise": r.append(znot(p.cond))
            elif p.kind == "ok": r.append(zimp(p.cond, p.val))
            else: raise Unsupported("control flow in a clause")
        return zand(*r)

    # spec constructs
    def m_before(self, eng, a, kw):
        """the value when the loop (of the invariant) was entered"""
        if not eng.loop_entry: raise Unsupported("before() outside an invariant")
        return self.m_old(eng, a, kw, eng.loop_entry[-1][0])

    def m_old(self, eng, a, kw, then=None):
        st = eng.st
        cur, moved = st.store, st.moved
        if then is None: then = eng.old_store
        st.store, st.moved = dict(then), set()
        try:
            v = eng.call(a[0], [], {})
            v = self.deep(eng, v)
            extra = {k: x for k, x in st.store.items() if k not in cur and k not in then}
        finally:
            st.store, st.moved = cur, moved
        for k, x in extra.items():
            if k[0] == "c": cur[k] = x
        return v

    def deep(self, eng, v):
        if isinstance(v, CRef): return self.deep(eng, eng.rd(v))
        if isinstance(v, tuple): return tuple(self.deep(eng, x) for x in v)
        if isinstance(v, CList): return CList(self.deep(eng, x) for x in v.items)
        if isinstance(v, CDict): return CDict(((k, self.deep(eng, x)) for k, x in v.items), v.default)
        return v

    def quant(self, eng, a, uni):
        ty, f = a[0], a[1]
        k, cs = eng.bvar(ty if isinstance(ty, Ty) else self.ty(ty))
        extra = []
        val, rc = eng.merged(lambda: _z(eng, eng.call(f, list(k) if isinstance(ty, TTup) else [k], {})), cs, None)
        bad = zor(*[c for c, _ in rc]) if rc else z3.BoolVal(False)
        t = z3.BoolVal(False) if val is _NOVAL else (zbool(val) if isinstance(val, bool) else (val.t if isinstance(val, Sym) else val))
        if uni: return Sym(zforall(cs, zand(znot(bad), t)), TBool())
        return Sym(zexists(cs, zand(znot(bad), t)), TBool())

    def m_forall(self, eng, a, kw): return self.quant(eng, a, True)
    def m_exists(self, eng, a, kw): return self.quant(eng, a, False)

    def m_implies(self, eng, a, kw): return Sym(zimp(_z0(eng, a[0]), _z0(eng, a[1])), TBool())
    def m_iff(self, eng, a, kw): return Sym(_z0(eng, a[0]) == _z0(eng, a[1]), TBool())

    def m_allocated(self, eng, a, kw):
        v = a[0]
        return Sym(eng.func("alloc_" + self.rname(v.ty.cls), ref_sort(v.ty.cls), z3.BoolSort())(v.t), TBool())

    def m_use(self, eng, a, kw):
        c = self.lemmas[a[0]]
        env = dict(zip(c.ghost, [eng.force(x) for x in a[1:]]))
        pre = zand(*[x for _, x in self._clauses(eng, c.pre, env)]) if c.pre is not None else z3.BoolVal(True)
        post = zand(*[x for _, x in self._clauses(eng, c.post, env)])
        tag = fresh_bool("use")
        eng.lemma_uses[tag.decl().name()] = (pre, post)
        return Sym(tag, TBool())

    def m_fresh_ref(self, eng, a, kw):
        v = a[0]
        return Sym(znot(self.m_allocated(eng, a, kw).t), TBool())

    def m_unchanged(self, eng, a, kw):
        "unchanged(Class, 'field', except=[refs])"
        cls, field = a[0], a[1]
        exc = [eng.deref(x) for x in a[2:]]
        root = eng.heap(cls, field)
        cur = eng.st.store[root]
        oldm = eng.old_store.get(root)
        if oldm is cur: return True
        if oldm is None: raise Unsupported("unchanged() of a field first seen during execution")
        k, cs = eng.bvar(TRef(cls))
        al = eng.func("alloc_" + self.rname(cls), ref_sort(cls), z3.BoolSort())(k.t)
        same = zbool(eng.under(cs, lambda: eng.eq(cur.get(k), oldm.get(k))))
        return Sym(zforall(cs, zor(znot(al), same, *[zeq(k.t, x.t) for x in exc])), TBool())

    # ------------------------------------------------------- application
    def apply(self, eng, ct, fn, args, kw):
        node = fn_ast(fn)
        env = eng.bind(node.args, args, kw, [eng.native(d) for d in (fn.__defaults__ or ())],
                       {k: eng.native(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn.__name__)
        eng.assumed_contracts.add(ct.name)
        try: hints = typing.get_type_hints(fn)
        except Exception: hints = {}
        pure = None
        if ct.pure:
            own = self.own_reads(eng, ct, node)
            pure = [t for n, v in env.items() if n != "self" or own for t in flat(eng.force(v) if isinstance(v, Opt) else v, TRef(v.ty.cls) if n == "self" else ct.types.get(n) or self.ty(hints[n]))]
            rt = ct.ret or self.ty(hints.get("return"), fn.__globals__)
            if eng.in_spec: return eng.mk(rt, f"pure_{ct.name}", pure)
        if ct.pre is not None:
            for nm, c in self.clauses(eng, ct.pre, env): eng.obligation(f"call {ct.qn}: pre {nm}", c, "precondition")
        saved = getattr(eng, "old_store", None)
        eng.old_store = dict(eng.st.store)
        try:
            if ct.raises is not None:
                for exc, c in self.raise_conds(eng, ct.raises, env):
                    if eng.branch(c): raise PyRaise(exc, f"{ct.qn} contract")
            if ct.may_raise is not None:
                for exc, c in self.raise_conds(eng, ct.may_raise, env):
                    if eng.branch(zand(zbool(c), eng.fresh(z3.BoolSort(), "raised"))): raise PyRaise(exc, f"{ct.qn} contract")
            for m in ct.modifies or ():
                self.havoc_spec(eng, m, env)
            rt = ct.ret or self.ty(hints.get("return"), fn.__globals__)
            if pure is not None: res = eng.mk(rt, f"pure_{ct.name}", pure)
            else: res = None if isinstance(rt, TNone) else eng.mk(rt, f"ret_{ct.name}!{next(eng.fresh_no)}", eng.bound)
            if res is not None: eng.fact(self.type_facts_ret(eng, res, rt))
            if isinstance(res, CONT): res = eng.alloc(res)
            if ct.post is not None:
                self.goals_only = True      # the steps of the callee's own proof are of no use here
                genv = {**env, "result": res}
                if ct.ghost:
                    gv = {}
                    allcs = []
                    for g, t in ct.ghost.items():
                        v, cs = eng.bvar(t, g)
                        gv[g] = v
                        allcs += cs
                    def f():
                        for nm, c in self.clauses(eng, ct.post, {**genv, **gv}): eng.fact(c)
                    eng.under(allcs, f)
                else:
                    for nm, c in self.clauses(eng, ct.post, genv): eng.fact(c)
            return res
        finally:
            eng.old_store = saved
            self.goals_only = False

    def own_reads(self, eng, ct, node):
        "whether the pure method reads self; its fields then have to be constant in the function being verified"
        at = {id(x.value): x.attr for b in node.body for x in ast.walk(b) if isinstance(x, ast.Attribute)}
        own = [x for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == "self"]
        if not own: return False
        if any(at.get(id(x)) not in ct.reads for x in own): raise Unsupported(f"{ct.qn} is declared pure but reads more of self than {ct.reads}")
        mod = eng.ct.modifies
        if mod is None or any(m.rsplit(".", 1)[-1] in (*ct.reads, "*") for m in mod): raise Unsupported(f"{ct.qn} is declared pure, and {eng.ct.name} may modify what it reads")
        return True

    def type_facts_ret(self, eng, v, ty):
        if isinstance(ty, (TSeq,)): return v.n >= 0
        return z3.BoolVal(True)

    def raise_conds(self, eng, fn, env):
        node, e = self.spec_env(eng, fn, env)
        ret = node.body[-1].value
        out = []
        for k, v in zip(ret.keys, ret.values):
            fr = self.frame_for(eng, fn, e)
            exc = eng.ev(k, fr)
            eng.in_spec += 1
            try: out.append((exc, self.clause(eng, fn, e, node.body[:-1], v)))
            finally: eng.in_spec -= 1
        return out

    def havoc_spec(self, eng, m, env):
        parts = m.split(".")
        if parts[0] in env:
            o = env[parts[0]]
            if isinstance(o, ObjV):
                root = ("o", o.loc, parts[1])
                if root not in eng.st.store and (o.cls, parts[1]) in self.types:
                    eng.log("ra", root, ())
                    eng.log("w", root, (), "replace", None)
                    eng.st.store[root] = self.make(eng, self.types[(o.cls, parts[1])], f"hv{next(eng.fresh_no)}_{parts[1]}")
                    return
                eng.log("ra", root, ())
                eng.log("w", root, (), "replace", None)
                eng.havoc_root(root)
                return
            if isinstance(o, CRef) and len(parts) == 1:
                eng.log("ra", o.root, o.path)
                eng.log("w", o.root, o.path, "replace", None)
                eng.wr(o, eng.havoc_value(eng.rd(o), f"hv{next(eng.fresh_no)}"))
                return
        for c in self.entities:
            if self.rname(c) == parts[0]:
                root = eng.heap(c, parts[1])
                eng.log("ra", root, ())
                eng.log("w", root, (), "replace", None)
                eng.havoc_root(root)
                return
        raise Unsupported(f"modifies {m}")


def _z(eng, v):
    v = eng.force(v) if isinstance(v, Opt) else v
    t = eng.truth(v)
    return Sym(zbool(t), TBool())


def _z0(eng, v):
    return zbool(eng.truth(v))


REG = Registry()


# ------------------------------------------------------------------ verifier
class FnResult:
    def __init__(self, ct):
        self.ct = ct
        self.obls = []
        self.error = None       # tool limit
        self.vacuous = None
        self.paths = 0
        self.inlined = []
        self.models = []
        self.assumed = []
        self.seconds = 0.0
        self.axioms = []


def gen(reg, ct):
    """obligations of one contract, generated from the current source"""
    t0 = time.time()
    res = FnResult(ct)
    try:
        fn = ct.fn()
    except Exception as e:
        res.error = f"target not found: {ct.target} ({type(e).__name__}: {e})"
        return res
    eng = Interp(reg)
    eng.type_ax = []
    eng.ctx_name = ct.name
    eng.ct = ct
    eng.no_contract = {fn}
    eng.total = ct.total
    eng.key_steps = ct.key_steps
    eng.old_store = {}
    try:
        node = fn_ast(fn)
        try: hints = typing.get_type_hints(fn)
        except Exception: hints = {}
        env = {}
        eng.alts = []
        for c in sorted(reg.entities, key=reg.rname):
            for f, t in reg.fields(c).items():
                try: eng.heap(c, f)
                except Unsupported: pass
        a = node.args
        owner = ct.qn.rsplit(".", 1)[0] if "." in ct.qn else None
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            nm = x.arg
            if nm in ct.fixed:
                env[nm] = eng.native(ct.fixed[nm])
                continue
            if nm in ct.types: t = ct.types[nm]
            elif nm == "self" and owner: t = reg.ty(getattr(importlib.import_module(ct.mod), owner))
            elif nm == "cls" and owner:
                env[nm] = getattr(importlib.import_module(ct.mod), owner)
                continue
            elif nm in hints: t = reg.ty(hints[nm])
            else: raise Unsupported(f"no type for parameter {nm}")
            env[nm] = reg.make(eng, t, nm)
        genv = {}
        for g, t in ct.ghost.items():
            genv[g] = reg.make(eng, t, "ghost_" + g)
        for k, inv in ct.loops.items():
            reg.invs[(f"{fn.__module__}:{fn.__qualname__}" if isinstance(k, int) else k[0], k if isinstance(k, int) else k[1])] = inv
        senv = {**env, **genv}
        eng.entry_args = {**{k + '_0': v for k, v in env.items()}, **genv}
        if ct.setup is not None: eng.call_function(ct.setup, [senv[x.arg] for x in fn_ast(ct.setup).args.args], {})
        if ct.pre is not None:
            for nm, c in reg.clauses(eng, ct.pre, senv): eng.st.pc.append(c)
        if eng.obls: raise Unsupported("obligations while evaluating a precondition")
        eng.old_store = dict(eng.st.store)
        # vacuity: is the precondition satisfiable
        res.pre = list(eng.st.pc) + list(eng.st.facts)
        raises = []
        if ct.raises is not None: raises = [(e, c, True) for e, c in reg.raise_conds(eng, ct.raises, senv)]
        if ct.may_raise is not None: raises += [(e, c, False) for e, c in reg.raise_conds(eng, ct.may_raise, senv)]
        args = [env[x.arg] for x in a.posonlyargs + a.args]
        kws = {x.arg: env[x.arg] for x in a.kwonlyargs}
        eng.target = f"{fn.__module__}:{fn.__qualname__}"
        paths = eng.explore(lambda: eng.call_function(fn, args, kws))
        eng.target = None
        res.paths = len(paths)
        base_st = eng.st
        pn = 0
        for p in paths:
            pn += 1
            eng.st = p.st.clone()
            hyps = lambda: list(eng.st.pc) + list(eng.st.facts)
            if p.kind == "raise":
                exc = p.val.cls
                if ct.only_normal: continue
                conds = [c for e, c, _ in raises if issubclass(exc, e)]
                goal = zor(*conds) if conds else z3.BoolVal(False)
                res.obls.append(Obl(f"{ct.name}/p{pn}/raises {exc.__name__} only when allowed", hyps(), goal, list(eng.st.taint), "raises"))
                continue
            for e, c, exact in raises:
                if exact: res.obls.append(Obl(f"{ct.name}/p{pn}/returns although {e.__name__} required", hyps(), znot(c), list(eng.st.taint), "raises"))
            rv = p.val
            if ct.post is not None:
                eng.lemma_uses = {}
                known = []    # a clause named "lemma ..." is an obligation like any other, and the later clauses may use it
                # local_x in a clause is the value of the local variable x on return
                ended = {"local_" + k: v for k, v in eng.st.vars.get(eng.st.vars.get("target", {}).get("id"), {}).items()}
                for nm, c in reg.clauses(eng, ct.post, {**ended, **senv, "result": rv}):
                    if nm.startswith("use"):
                        u = [t for t in _bools(c) if t in eng.lemma_uses]
                        pre = [(z3.Bool(t), eng.lemma_uses[t][0]) for t in u]
                        res.obls.append(Obl(f"{ct.name}/p{pn}/{nm}", hyps() + known, z3.substitute(c, *pre), list(eng.st.taint), "post"))
                        known.append(z3.substitute(c, *[(z3.Bool(t), eng.lemma_uses[t][1]) for t in u]))
                        continue
                    # "... from the lemmas": fewer hypotheses keep the arithmetic small
                    res.obls.append(Obl(f"{ct.name}/p{pn}/{nm}", (list(known) if nm.endswith("from the lemmas") else hyps() + known), c, list(eng.st.taint), "post"))
                    if nm.startswith("lemma"): known.append(c)
            if ct.modifies is not None:
                for nm, c in frame_obls(reg, eng, ct, env):
                    res.obls.append(Obl(f"{ct.name}/p{pn}/frame {nm}", hyps(), c, list(eng.st.taint), "frame"))
        eng.st = base_st
        seen = set()
        for o in eng.obls:
            k = (o.name, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
            if k not in seen:
                seen.add(k)
                res.obls.append(o)
        res.axioms = reg.axioms(eng) + strlit_axioms() + eng.sum_lemmas()
    except Unsupported as e:
        res.error = f"outside the verifier's reach: {e}"
        res.obls = []
    except PyRaise as e:
        res.error = f"exception in specification: {e}"
        res.obls = []
    except z3.Z3Exception as e:
        res.error = f"z3: {e}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        res.obls = []
    except RecursionError:
        res.error = "recursion limit"
        res.obls = []
    except (_Infeasible, AttributeError, KeyError, TypeError, IndexError, AssertionError, ValueError) as e:
        res.error = f"internal: {type(e).__name__}: {e}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        res.obls = []
    res.inlined = sorted(eng.inlined)
    res.models = sorted(eng.used_models)
    res.assumed = sorted(eng.assumed_contracts)
    res.seconds = time.time() - t0
    return res


def _bools(c):
    seen, out, todo = set(), [], [c]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x.decl().name())
        todo.extend(x.children())
    return out


def frame_obls(reg, eng, ct, env):
    allowed = set()
    for m in ct.modifies:
        parts = m.split(".")
        if parts[0] in env:
            o = env[parts[0]]
            if isinstance(o, ObjV) and len(parts) > 1: allowed.add(("o", o.loc, parts[1]))
            elif isinstance(o, CRef): allowed.add(o.root)
        for c in reg.entities:
            if reg.rname(c) == parts[0]: allowed.add(("h", c, parts[1]))
    out = []
    for root, cur in list(eng.st.store.items()):
        if root in allowed: continue
        if root[0] == "h":
            oldm = eng.old_store.get(root)
            if oldm is cur: continue
            cls, field = root[1], root[2]
            if oldm is None:
                ty = reg.field_type(cls, field)
                oldm = SMap(TRef(cls), lambda k: z3.BoolVal(True), lambda k, ty=ty, cls=cls, field=field: eng.mk(ty, f"{cls.__name__}.{field}", [term(k)]), None, ty)
            k, cs = eng.bvar(TRef(cls))
            al = eng.func("alloc_" + reg.rname(cls), ref_sort(cls), z3.BoolSort())(k.t)
            same = zbool(eng.under(cs, lambda: eng.eq(cur.get(k), oldm.get(k))))
            g = zforall(cs, zimp(al, same))
            if z3.is_true(z3.simplify(g)): continue
            out.append((f"{cls.__name__}.{field}", g))
        elif root in eng.old_store and eng.old_store[root] is not cur:
            g = zbool(eng.eq(eng.old_store[root], cur))
            if not z3.is_true(g): out.append((str(root[-1]), g))
    return out


from .engine import _Infeasible, fn_ast, from_src   # noqa: E402
