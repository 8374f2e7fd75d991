"""Statements, expressions, calls."""
import collections

from .engine import *
from .engine import _NOVAL, _SKIP, _Return, _Break, _Continue, _Infeasible, _BINOPS, _CMPOPS, _NoVal


class CMeth(V):
    def __init__(s, obj, name): s.obj = obj; s.name = name


class Poison(V):
    def __init__(s, why): s.why = why


class TypeCtor(V):
    "typing alias or similar; only its origin matters"


def hashable(x):
    try: hash(x)
    except TypeError: return False
    return True


class Interp(Engine):
    # ---------------------------------------------------------- frames
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            vs = self.st.vars.get(f.id)
            if vs is not None and name in vs:
                self.log("rv", f.id, name)
                v = vs[name]
                if isinstance(v, Poison): raise Unsupported(f"{name}: {v.why}")
                return v
            if f.locals is not None and name in f.locals and name not in f.nonlocal_ and f.parent is None:
                raise PyRaise(UnboundLocalError, name)
            if name in f.closure: return self.native(f.closure[name])
            f = f.parent
        if name in fr.gl: return self.native(fr.gl[name])
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyRaise(NameError, name)

    def setvar(self, fr, name, v):
        f = fr
        if name in fr.nonlocal_:
            f = fr.parent
            while f is not None and name not in self.st.vars.get(f.id, {}): f = f.parent
            if f is None: raise Unsupported("global assignment")
        self.log("wv", f.id, name, v)
        self.st.vars.setdefault(f.id, {})[name] = v

    def native(self, v):
        "wrap a native mutable container as a constant"
        if isinstance(v, (list, dict, set)) and not isinstance(v, V):
            return self.alloc(self.native_cont(v))
        if isinstance(v, frozenset): return FSet([(True, x) for x in v])
        return v

    def native_cont(self, v):
        if isinstance(v, list): return CList([self.native_item(x) for x in v])
        if isinstance(v, dict):
            d = None
            if isinstance(v, defaultdict): d = v.default_factory
            if isinstance(v, Counter): d = int
            return CDict([(k, self.native_item(x)) for k, x in v.items()], d)
        if isinstance(v, (set, frozenset)): return FSet([(True, x) for x in sorted(v, key=repr)])
        return v

    def native_item(self, v):
        if isinstance(v, (list, dict, set)): return self.alloc(self.native_cont(v))
        return v

    # -------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts: self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def st_Pass(self, s, fr): pass
    def st_Global(self, s, fr): raise Unsupported("global")
    def st_Nonlocal(self, s, fr): fr.nonlocal_.update(s.names)

    def st_Import(self, s, fr): raise Unsupported("import")
    def st_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names: self.setvar(fr, a.asname or a.name, getattr(m, a.name))

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)

    def st_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if not self.branch(c): raise PyRaise(AssertionError, "assert")

    def st_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr): raise _Break()
    def st_Continue(self, s, fr): raise _Continue()

    def st_If(self, s, fr):
        c = self.cond(s.test, fr)
        if self.branch(c): self.block(s.body, fr)
        else: self.block(s.orelse, fr)

    def st_FunctionDef(self, s, fr):
        if s.decorator_list: raise Unsupported("decorated local function")
        self.setvar(fr, s.name, self.mkclosure(s, fr, s.name))

    def mkclosure(self, n, fr, name):
        a = n.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(n, fr, name, defaults, kwd, fr.gl, fr.owner)

    def st_Raise(self, s, fr):
        if s.exc is None: raise Unsupported("bare raise")
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.ev(e.func, fr)
            if isinstance(c, type) and issubclass(c, BaseException): raise PyRaise(c, "raised")
            v = self.ev(e, fr)
        else:
            v = self.ev(e, fr)
        if isinstance(v, type) and issubclass(v, BaseException): raise PyRaise(v, "raised")
        if isinstance(v, ExcV): raise PyRaise(v.cls, "raised")
        raise Unsupported("raise of a non-exception")

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(issubclass(e.cls, x) for x in ts)
                    if ok:
                        if h.name: self.setvar(fr, h.name, ExcV(e.cls))
                        self.block(h.body, fr)
                        break
                else: raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody: self.block(s.finalbody, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is None: return
        v = self.ev(s.value, fr)
        v = self.annotate(v, s.annotation, fr)
        self.assign(s.target, v, fr)

    def annotate(self, v, ann, fr):
        return v

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            root = self.varhome(fr, t.id)
            cur = self.st.vars[root][t.id]
            if isinstance(cur, Poison): raise Unsupported(cur.why)
            d = self.ev(s.value, fr)
            if isinstance(cur, CRef):
                self.log("rv", root, t.id)
                self.inplace(s.op, cur, d, lambda v: self.setvar(fr, t.id, v))
                return
            if isinstance(s.op, (ast.Add, ast.Sub)) and self.isnum(cur) and self.isnum(d):
                if isinstance(s.op, ast.Sub): d2 = self.unop(ast.USub(), d)
                else: d2 = d
                self.log("augv", root, t.id, d2)
            else:
                self.log("rv", root, t.id)
                self.log("wv", root, t.id, None)
            self.st.vars[root][t.id] = self.binop(s.op, cur, d)
            return
        if isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, fr))
            loc = self.field_loc(o, t.attr)
            d_ = None
            if loc is not None:
                d_ = self.ev(s.value, fr)
                root, key = loc
                j, self.journal = self.journal, None
                try: cur = self.getattr(o, t.attr)
                finally: self.journal = j
                if isinstance(s.op, (ast.Add, ast.Sub)) and self.isnum(cur) and self.isnum(d_):
                    self.journal = None
                    try: self.setattr(o, t.attr, self.binop(s.op, cur, d_))
                    finally: self.journal = j
                    self.log("aug", root, (), key, d_ if isinstance(s.op, ast.Add) else self.unop(ast.USub(), d_))
                    return
            cur = self.getattr(o, t.attr)
            d = d_ if d_ is not None else self.ev(s.value, fr)
            if isinstance(cur, CRef):
                self.inplace(s.op, cur, d, lambda v: self.setattr(o, t.attr, v))
                return
            self.setattr(o, t.attr, self.binop(s.op, cur, d))
            return
        if isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, fr))
            k = self.ev(t.slice, fr)
            d = None
            if isinstance(o, CRef) and isinstance(s.op, (ast.Add, ast.Sub)):
                d = self.ev(s.value, fr)
                c = self.rd(o)
                if isinstance(c, (SMap, CDict)) and self.isnum(d):
                    j, self.journal = self.journal, None
                    try:
                        cur = self.getitem(o, k)
                        if self.isnum(cur): self.setitem(o, k, self.binop(s.op, cur, d))
                    finally: self.journal = j
                    if self.isnum(cur):
                        self.log("aug", o.root, o.path, k, d if isinstance(s.op, ast.Add) else self.unop(ast.USub(), d))
                        return
            cur = self.getitem(o, k)
            if d is None: d = self.ev(s.value, fr)
            if isinstance(cur, CRef):
                self.inplace(s.op, cur, d, lambda v: self.setitem(o, k, v))
                return
            self.setitem(o, k, self.binop(s.op, cur, d))
            return
        raise Unsupported("augmented assignment target")

    def isnum(self, v):
        return isinstance(ty_of(v), (TInt, TReal, TBool)) if isinstance(v, (Sym, int, float)) and not isinstance(v, enum.Enum) else False

    def varhome(self, fr, name):
        f = fr
        while f is not None:
            if name in self.st.vars.get(f.id, {}): return f.id
            f = f.parent
        raise PyRaise(UnboundLocalError, name)

    def inplace(self, op, cref, d, back):
        v = self.rd(cref)
        if isinstance(v, (FSet, SSet)):
            if isinstance(op, ast.BitOr):
                self.call_meth(cref, "update", [d], {})
                return
            self.log("ra", cref.root, cref.path)
            self.log("w", cref.root, cref.path, "replace", None)
            r = self.set_op(op, v, self.as_set(d))
            self.wr(cref, r)
            return
        if isinstance(v, (CList, SSeq, SBag)) and isinstance(op, ast.Add):
            self.call_meth(cref, "extend", [d], {})
            return
        raise Unsupported("in-place operator")

    def as_set(self, v):
        v = self.deref(self.force(v))
        if isinstance(v, (FSet, SSet)): return v
        return self.to_set(self.iterate(v))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, fr))
                k = self.ev(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                self.log("wv", fr.id, t.id, None)
                del self.st.vars[fr.id][t.id]
            else: raise Unsupported("del target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): return self.setvar(fr, t.id, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            d = self.deref(v)
            if isinstance(d, tuple): items = list(d)
            elif isinstance(d, CList): items = list(d.items)
            elif isinstance(d, Rec): items = list(d.f.values())
            elif isinstance(d, SSeq):
                n = len(t.elts)
                self.raise_if(d.n != n, PyRaise(ValueError, "unpack"))
                items = [self.item_view(v, d, z3.IntVal(i)) for i in range(n)]
            elif not isinstance(d, V): items = list(d)
            else: raise Unsupported("unpacking")
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("starred")
            if len(items) != len(t.elts): raise PyRaise(ValueError, "unpack")
            for a, b in zip(t.elts, items): self.assign(a, b, fr)
            return
        if isinstance(t, ast.Attribute):
            return self.setattr(self.force(self.ev(t.value, fr)), t.attr, v)
        if isinstance(t, ast.Subscript):
            return self.setitem(self.force(self.ev(t.value, fr)), self.ev(t.slice, fr), v)
        raise Unsupported(f"assignment to {type(t).__name__}")

    # ------------------------------------------------------------- loops
    def st_While(self, s, fr):
        no = fr.loopno
        fr.loopno += 1
        inv = self.reg.invariant(fr.owner, no)
        if inv is not None: return self.inv_while(s, fr, inv)
        for it in range(64):
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if not (z3.is_true(c) or z3.is_false(c)):
                    ft = self.feasible(c)
                    if ft and self.feasible(znot(c)): raise Unsupported("while loop without invariant")
                    c = z3.BoolVal(ft)
                c = z3.is_true(c)
            if not c:
                self.block(s.orelse, fr)
                return
            sub = fr.loopno
            try: self.block(s.body, fr)
            except _Continue: pass
            except _Break: return
            fr.loopno = sub
        raise Unsupported("while loop does not unroll")

    def st_For(self, s, fr):
        no = fr.loopno
        fr.loopno += 1
        itv = self.ev(s.iter, fr)
        inv = self.reg.invariant(fr.owner, no)
        parts = self.iterate(itv)
        if inv is not None and any(isinstance(p, SIter) for p in parts):
            return self.inv_for(s, fr, inv, itv, parts)
        base = fr.loopno
        for p in parts:
            fr.loopno = base
            if isinstance(p, One):
                if not self.branch(p.guard): continue
                self.assign(s.target, p.val, fr)
                try: self.block(s.body, fr)
                except _Continue: pass
                except _Break:
                    fr.loopno = base + nloops(s.body)
                    return
            else:
                if self.loop_summary(s, fr, p):
                    fr.loopno = base + nloops(s.body)
                    return
        fr.loopno = base + nloops(s.body)
        self.block(s.orelse, fr)

    def loop_summary(self, s, fr, part):
        """effect of one symbolic part of a for loop; True if the loop was left by break"""
        bs, g, e, idx = part.fresh()
        base_loop = fr.loopno

        def thunk():
            fr.loopno = base_loop
            self.assign(s.target, e, fr)
            try: self.block(s.body, fr)
            except _Continue: pass
            return None
        self.outer_roots.append(set(self.st.store))
        try: paths = self.explore(thunk, bs, g, journal=True)
        finally: self.outer_roots.pop()
        for p in paths:         # additions to a variable set earlier in the same iteration are plain writes
            own = set()
            for n, ev in enumerate(p.journal):
                if ev[0] == "wv": own.add((ev[1], ev[2]))
                elif ev[0] == "augv" and (ev[1], ev[2]) in own: p.journal[n] = ("wv", ev[1], ev[2], None)
        self.absorb_facts(paths, bs, g)
        exits = [p for p in paths if p.kind in ("raise", "return", "break")]
        normal = [p for p in paths if p.kind == "ok"]
        has_w = any(ev[0] == "w" or ev[0].startswith("aug") for p in normal for ev in p.journal)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        wvars = {}
        for p in paths:
            for ev in p.journal:
                if ev[0] == "wv": wvars.setdefault((ev[1], ev[2]), []).append(p)
        # loop-carried variables
        for p in paths:
            seen = set()
            for ev in p.journal:
                if ev[0] == "wv": seen.add((ev[1], ev[2]))
                elif ev[0] == "rv" and (ev[1], ev[2]) in wvars and (ev[1], ev[2]) not in seen and ev[1] in self.st.vars:
                    raise Unsupported(f"loop-carried variable {ev[2]}")
        self.check_conflicts(paths, bs, g, idx)
        # early exits
        for p in exits:
            c = zexists(bs, zand(g, *p.conds))
            if self.branch(c):
                if has_w and p.kind != "raise": raise Unsupported("early exit after effects")
                if has_w:
                    self.taint("exception after partial loop effects")
                    self.havoc_written(paths)
                    raise p.val
                w = [self.fresh(b.sort(), "wit") for b in bs]
                pr = list(zip(bs, w))
                self.fact(z3.substitute(zand(g, *p.conds), *pr))
                others = [q.cond for q in exits]
                if idx is not None:
                    wi = z3.substitute(idx, *pr)
                    self.fact(zforall(bs, zimp(zand(g, idx < wi), znot(zor(*others)))))
                elif any(q.kind != p.kind or q.kind == "return" for q in exits) and len(exits) > 1:
                    self.taint("unordered early exit")
                # run the body on the witness; the path follows from its condition
                fr.loopno = base_loop
                self.assign(s.target, subst_v(self, e, pr), fr)
                try: self.block(s.body, fr)
                except _Break: return True
                except _Continue: raise _Infeasible()
                raise _Infeasible()
        ex = zor(*[p.cond for p in exits])
        if exits: self.fact(zforall(bs, zimp(g, znot(ex))))
        if len(exits) and normal:
            # no exit is taken and the paths cover the iteration: what all other paths share holds in every iteration
            common = set.intersection(*[{c.get_id() for c in p.conds if not isinstance(c, bool)} for p in normal])
            normal = [Path([c for c in p.conds if isinstance(c, bool) or c.get_id() not in common], p.facts, p.kind, p.val, p.st, p.journal, p.taint) for p in normal]
        self.apply_effects(normal, bs, g, idx, part.ordered, part)
        # variables written in the body
        for (fid, name), _ in wvars.items():
            if fid not in self.st.vars: continue
            old = self.st.vars[fid].get(name, _NOVAL)
            self.log("wv", fid, name, None)
            self.st.vars[fid][name] = self.last_write(fid, name, old, normal, bs, g, idx)
        return False

    def last_write(self, fid, name, old, normal, bs, g, idx):
        ws = []
        for p in normal:
            if any(ev[0] == "wv" and ev[1] == fid and ev[2] == name for ev in p.journal):
                ws.append((p.cond, p.st.vars.get(fid, {}).get(name, _NOVAL), p))
        try:
            if not ws: return old
            if any(isinstance(v, (Poison, _NoVal, ObjV, Closure)) for _, v, _ in ws): return Poison("written in a loop")
            val = _NOVAL
            for c, v, p in reversed(ws):
                v = self.snap(v, p.st)
                val = v if val is _NOVAL else self.ite(c, v, val)
            anyc = zand(g, zor(*[c for c, _, _ in ws]))
            ex = zexists(bs, anyc)
            if not self.mentions(val, bs):
                if old is _NOVAL: return Poison("conditionally bound in a loop")
                return self.ite(ex, val, old)
            w = [self.fresh(b.sort(), "lastw") for b in bs]
            pr = list(zip(bs, w))
            self.fact(zimp(ex, z3.substitute(anyc, *pr)))
            if idx is not None:
                self.fact(zforall(bs, zimp(anyc, idx <= z3.substitute(idx, *pr))))
            else: self.taint("last iteration of an unordered loop")
            v = subst_v(self, val, pr)
            if old is _NOVAL: return Poison("conditionally bound in a loop")
            return self.ite(ex, v, old)
        except Unsupported as e:
            return Poison(f"written in a loop ({e})")

    def mentions(self, v, bs):
        ids = {b.get_id() for b in bs}

        def ment(t):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if x.get_id() in ids: return True
                st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
            return False
        if isinstance(v, Sym): return ment(v.t)
        if isinstance(v, Opt): return ment(zbool(v.none)) or self.mentions(v.val, bs)
        if isinstance(v, tuple): return any(self.mentions(x, bs) for x in v)
        if isinstance(v, Rec): return any(self.mentions(x, bs) for x in v.f.values())
        if isinstance(v, XR): return ment(v.tag) or ment(v.r)
        if not isinstance(v, V): return False
        return True

    def check_conflicts(self, paths, bs, g, idx):
        """iterations must not observe each other's writes"""
        writes = {}
        for p in paths:
            for ev in p.journal:
                if ev[0] == "w": writes.setdefault(ev[1], []).append((ev, p))
                elif ev[0] == "aug": writes.setdefault(ev[1], []).append((ev, p))
                elif ev[0] == "augv": writes.setdefault(("v", ev[1], ev[2]), []).append((ev, p))
        inj = []
        for p in paths:
            mine = set()
            for n, ev in enumerate(p.journal):
                if ev[0] in ("readall", "ra") and ev[1] in writes and ev[1] in self.st.store:
                    # reading a container written by the loop (own iteration writes only are not distinguishable)
                    raise Unsupported(f"loop reads container it modifies: {ev[1]}")
                if ev[0] in ("rk", "readkey") and ev[1] in writes and ev[1] in self.st.store:
                    key = tuple(ev[2]) + ((ev[3],) if len(ev) > 3 else ())
                    for (wv, q) in writes[ev[1]]:
                        # reaching a container at this key; what is written lies inside of it and reads of that are logged on their own
                        if wv[0] == "w" and wv[3] in ("append", "extend", "add", "update", "discard", "remove", "put", "del", "setdefault") and len(wv[2]) >= len(key): continue
                        wk = self.wkey(wv)
                        if wk is None or not self.prefix_same(key, wk):
                            raise Unsupported(f"loop reads another element of what it modifies: {ev[1]}")
                        inj.append((wk, key))
                if ev[0] == "rv" and ("v", ev[1], ev[2]) in writes:
                    raise Unsupported(f"loop reads accumulator {ev[2]}")
        done = []
        for wk, key in inj:
            k = key[:len(wk)]
            terms = [t for x in k for t in flat(x)]
            sig = tuple(t.get_id() for t in terms)
            if sig in done: continue
            done.append(sig)
            if self.covers(terms, bs): continue
            cs = [fresh_const(b.sort(), "b2") for b in bs]
            pr = list(zip(bs, cs))
            g2 = z3.substitute(g, *pr)
            same = zand(*[z3.substitute(t, *pr) == t for t in terms])
            if not self.prove(zforall(list(bs) + cs, zimp(zand(g, g2, same), zand(*[a == b for a, b in pr])))):
                raise Unsupported("loop elements may alias")

    def covers(self, terms, bs):
        return all(any(t.eq(b) for t in terms) for b in bs)

    def prove(self, goal, ms=4000):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.st.pc, *self.st.facts, *strlit_axioms(), *self.reg.axioms(self))
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def wkey(self, ev):
        if ev[0] == "aug": return tuple(ev[2]) + (() if ev[3] is None else (ev[3],))
        _, root, path, op, data = ev
        if op in ("put", "del", "setdefault"): return tuple(path) + (data[0],)
        if path: return tuple(path)
        return None

    def prefix_same(self, a, b):
        n = min(len(a), len(b))
        if n == 0: return False
        try:
            return all(all(x.eq(y) for x, y in zip(flat(p), flat(q))) and len(flat(p)) == len(flat(q)) for p, q in zip(a[:n], b[:n]))
        except Unsupported:
            return False

    def havoc_written(self, paths):
        for p in paths:
            for ev in p.journal:
                if ev[0] in ("w", "aug") and ev[1] in self.st.store:
                    self.havoc_root(ev[1])
                elif ev[0] == "augv" and ev[1] in self.st.vars: self.st.vars[ev[1]][ev[2]] = Poison("partial loop")

    def havoc_root(self, root, name="hv"):
        old = self.st.store[root]
        try: self.st.store[root] = self.havoc_value(old, f"{name}{next(self.fresh_no)}")
        except Unsupported:
            if root[0] != "c": raise
            del self.st.store[root]      # a later use of it is outside the verifier's reach

    def havoc_value(self, old, nm):
        if isinstance(old, SMap):
            vty = old.vty
            if vty is None: raise Unsupported("havoc of untyped map")
            m = self.mk(TMap(old.kty, vty, old.default), nm, self.bound)
            if is_full(old): m = SMap(old.kty, lambda k: z3.BoolVal(True), m.get, old.default, vty); m.full = True
            return m
        if isinstance(old, SGrid):     # an array never changes its shape
            g = self.mk(TGrid(), nm, self.bound)
            return SGrid(old.h, old.w, g.at)
        if isinstance(old, SSet): return self.mk(TSet(old.kty), nm, self.bound)
        if isinstance(old, SSeq):
            v = self.mk(TSeq(old.ety), nm, self.bound)
            self.fact(v.n >= 0)
            return v
        t = ty_of(old)
        if t is None: raise Unsupported(f"havoc of {type(old).__name__}")
        v = self.mk(t, nm, self.bound)
        self.wf_len(v)
        return v

    # effects ----------------------------------------------------------
    def apply_effects(self, normal, bs, g, idx, ordered, part=None):
        groups = {}
        order = []
        for p in normal:
            c = zand(g, *p.conds)
            for ev in p.journal:
                if ev[0] == "w": root, path, op, data = ev[1:]
                elif ev[0] == "aug": root, path, op, data = ev[1], ev[2], "aug", (ev[3], ev[4])
                elif ev[0] == "augv": root, path, op, data = ("v", ev[1], ev[2]), (), "aug", (None, ev[3])
                else: continue
                if root[0] == "v":
                    if root[1] not in self.st.vars: continue
                elif root not in self.st.store:
                    if root[0] == "h": raise Unsupported("field first written inside a loop")
                    continue       # object local to the iteration
                if root not in groups:
                    groups[root] = []
                    order.append(root)
                groups[root].append(Eff(bs, c, idx if ordered else None, list(path), op, self.snapdata(data, p.st)))
        for root in order:
            effs = groups[root]
            if root[0] == "v":
                old = self.st.vars[root[1]][root[2]]
                tot = old
                for ef in effs: tot = self.binop(ast.Add(), tot, self.sum_term(ef.bs, ef.g, self.force_pure(ef.data[1])))
                self.st.vars[root[1]][root[2]] = tot
                for ef in effs: self.log("augv", root[1], root[2], self.sum_of_eff(ef))
                continue
            old = self.st.store[root]
            if isinstance(old, CRef): raise Unsupported("loop writes through a pointer field")
            effs = self.one_append(effs, normal, bs, g, idx if ordered else None, part)
            new = self.summ(old, effs)
            self.st.store[root] = new
            if self.journal is not None: self.relog(root, effs)

    def one_append(self, effs, normal, bs, g, idx, part):
        """every path of the iteration appends exactly once to the same list: one element per iteration, in order"""
        if idx is None or len(effs) != len(normal) or any(ef.op != "append" or ef.path for ef in effs): return effs
        cs = [zand(g, *p.conds) for p in normal]
        if any(not (ef.g is c or zbool(ef.g).eq(zbool(c))) for ef, c in zip(effs, cs)): return effs
        try:
            val = effs[-1].data[0]
            for ef in reversed(effs[:-1]): val = self.ite(zbool(ef.g), ef.data[0], val)
        except Unsupported: return effs
        ef = Eff(bs, g, idx, [], "append", (val,))
        ef.part = part
        return [ef]

    def sum_of_eff(self, ef):
        return self.sum_term(ef.bs, ef.g, ef.data[1])

    def relog(self, root, effs):
        """make the effects of an inner summarised loop visible to the outer loop"""
        ops = {ef.op for ef in effs}
        if self.outer_roots and root not in self.outer_roots[-1]: return       # made in this iteration of the outer loop
        if not any(ef.path for ef in effs) and (ops <= {"append", "extend"} or ops <= {"add", "update"}):
            parts = []
            for ef in effs:
                if ef.op in ("append", "add"): parts.append(self.eff_iter(ef, ef.data[0]))
                else: parts.extend(self.eff_iter_parts(ef, ef.data[0]))
            if len(parts) > 1:
                for p in parts: p.ordered = False
            self.journal.append(("w", root, (), "extend" if ops <= {"append", "extend"} else "update", (SBag(parts),)))
            return
        self.journal.append(("w", root, (), "replace", None))      # a loop with an invariant forgets it, a summary refuses it

    def snapdata(self, data, st):
        if data is None: return None
        if isinstance(data, tuple): return tuple(self.snap(x, st) if not isinstance(x, tuple) else tuple(self.snap(y, st) for y in x) for x in data)
        return self.snap(data, st)

    def summ(self, old, effs):
        old = self.deref(old)
        ops = {ef.op for ef in effs}
        deep = [ef for ef in effs if ef.path]
        flat_ = [ef for ef in effs if not ef.path]
        if deep:
            # updates below a key: only together with setdefault at that key
            if any(ef.op not in ("setdefault",) for ef in flat_): raise Unsupported("mixed nested updates")
            return self.summ_deep(old, flat_, deep)
        if ops <= {"append", "extend"}:
            parts = []
            for ef in effs:
                if ef.op == "append": parts.append(self.eff_iter(ef, ef.data[0]))
                else:
                    parts.extend(self.eff_iter_parts(ef, ef.data[0]))
            if len(parts) > 1:
                for p in parts: p.ordered = False
            bag = SBag(parts)
            if isinstance(old, CList) and not old.items: return bag
            return SBag(self.iterate(old) + parts)
        if ops <= {"add", "update"}:
            parts = []
            for ef in effs:
                if ef.op == "add": parts.append(self.eff_iter(ef, ef.data[0]))
                else: parts.extend(self.eff_iter_parts(ef, ef.data[0]))
            s = self.to_set(parts)
            if isinstance(old, FSet) and not old.items: return s
            return self.set_op(ast.BitOr(), old, s)
        if ops == {"put"}:
            return self.summ_put(old, effs)
        if ops <= {"del", "discard", "remove"}:
            parts = [self.eff_iter(ef, ef.data[0]) for ef in effs]
            s = self.to_set(parts)
            if isinstance(old, (SSet, FSet)): return self.set_op(ast.Sub(), old, s)
            if isinstance(old, SMap): return SMap(old.kty, lambda k: zand(zbool(old.dom(k)), znot(zbool(self.mem(s, k)))), old.get, old.default, old.vty)
            raise Unsupported("removal loop")
        if ops == {"aug"}:
            return self.summ_aug(old, effs)
        if ops == {"setdefault"}:
            raise Unsupported("setdefault loop")
        if ops == {"set"}:
            vals = [ef for ef in effs]
            if all(not self.mentions(ef.data[0], ef.bs) for ef in vals):
                r = old
                same = all(self.ceq(ef.data[0], vals[0].data[0]) for ef in vals)
                if not same: raise Unsupported("several scalar writes in a loop")
                ex = zor(*[zexists(ef.bs, ef.g) for ef in vals])
                return self.ite(ex, vals[0].data[0], old)
            raise Unsupported("scalar field written in a loop")
        raise Unsupported(f"loop effects {sorted(ops)}")

    def eff_iter(self, ef, val):
        bs, g, idx = ef.bs, ef.g, ef.idx
        p = getattr(ef, "part", None)
        return self.siter_of(bs, g, val, idx, idx is not None, p if getattr(p, "dense", False) else None)

    def eff_iter_parts(self, ef, val):
        return self.flat_parts([self.siter_of(ef.bs, ef.g, val, None, False)], lambda v: self.iterate(v))

    def summ_put(self, old, effs):
        # merge writes with the same key expression (different paths of one iteration)
        k0 = effs[0].data[0]
        bs = effs[0].bs
        kf = flat(k0)
        for ef in effs[1:]:
            f2 = flat(ef.data[0])
            if len(f2) != len(kf) or not all(x.eq(y) for x, y in zip(kf, f2)): raise Unsupported("loop writes at several keys")
        val, gs = _NOVAL, []
        last = {}
        for ef in effs:      # later writes on the same path override
            last[ef.g.get_id() if not isinstance(ef.g, bool) else ef.g] = ef
        effs = list(last.values())
        for ef in reversed(effs):
            v = ef.data[1]
            val = v if val is _NOVAL else self.ite(ef.g, v, val)
            gs.append(ef.g)
        g = zor(*gs)
        p = self.siter_of(bs, g, (k0, val), effs[0].idx, effs[0].idx is not None)
        m = self.dict_of_iter(p)
        if isinstance(old, SMap) and is_full(old):
            r = SMap(old.kty, old.dom, lambda k: self.ite(zbool(m.dom(k)), m.get(k), old.get(k)), old.default, old.vty)
            r.full = True
            return r
        return self.map_over(old, m)

    def summ_aug(self, old, effs):
        if all(ef.data[0] is None for ef in effs):
            tot = old
            for ef in effs: tot = self.binop(ast.Add(), tot, self.sum_term(ef.bs, ef.g, ef.data[1]))
            return tot
        kty = ty_of(effs[0].data[0])
        if isinstance(old, CDict): old = self.to_smap(old, None, kty)
        kv, ks = self.bvar(kty, "key")
        sums = []

        def mk(ef):
            return self.sum_term(ef.bs, zand(ef.g, self.eqz(ef.data[0], kv, kty)), ef.data[1])
        sums = self.under(ks, lambda: [mk(ef) for ef in effs])
        doms = [zexists(ef.bs, zand(ef.g, self.eqz(ef.data[0], kv, kty))) for ef in effs]
        dom1 = zor(*doms)
        full = is_full(old)
        dflt = old.default

        def get(k):
            pr = list(zip(ks, flat(k, kty)))
            cur = old.get(k)
            if cur is _NOVAL: cur = 0
            elif not full: cur = self.ite(zbool(old.dom(k)), cur, 0)
            for s in sums: cur = self.binop(ast.Add(), cur, subst(s, pr))
            return cur

        def dom(k):
            if full: return z3.BoolVal(True)
            return zor(zbool(old.dom(k)), z3.substitute(dom1, *zip(ks, flat(k, kty))))
        r = SMap(old.kty, dom, get, dflt, old.vty)
        if full: r.full = True
        return r

    def summ_deep(self, old, sets, deep):
        """loops of the form d.setdefault(k, EMPTY) <op> / d[k] <op>"""
        kty = ty_of(deep[0].path[0])
        if isinstance(old, CDict):
            if not old.items:
                ov = SMap(kty, lambda k: z3.BoolVal(False), lambda k: _NOVAL, old.default, None)
            else: ov = self.to_smap(old, None, kty)
        else: ov = old
        empty = None
        for ef in sets:
            if self.deref(ef.data[1]) is not None: empty = self.deref(ef.data[1])
        if empty is None and ov.default is not None: empty = self.default_value(ov.default)
        kv, ks = self.bvar(kty, "key")

        def keyed(ef, key): return zand(ef.g, self.eqz(key, kv, kty))

        def body():
            sub = [Eff(ef.bs, keyed(ef, ef.path[0]), ef.idx, ef.path[1:], ef.op, ef.data) for ef in deep]
            cur = ov.get(kv)
            if cur is _NOVAL or empty is not None:
                start = empty if cur is _NOVAL else self.ite(zbool(ov.dom(kv)), cur, empty)
            else: start = cur
            if start is None: raise Unsupported("nested update of unknown container")
            return self.summ(start, sub)
        inner = self.under(ks, body)
        touched = zor(*[zexists(ef.bs, keyed(ef, ef.path[0])) for ef in deep],
                      *[zexists(ef.bs, keyed(ef, ef.data[0])) for ef in sets])
        if isinstance(inner, SBag):
            pass

        def get(k):
            pr = list(zip(ks, flat(k, kty)))
            new = self.subst_any(inner, pr)
            cur = ov.get(k)
            if cur is _NOVAL: return new
            return self.ite(z3.substitute(touched, *pr), new, cur)
        return SMap(kty, lambda k: zor(zbool(ov.dom(k)), z3.substitute(touched, *zip(ks, flat(k, kty)))), get, ov.default, ov.vty)

    def subst_any(self, v, pr):
        if isinstance(v, SBag):
            parts = []
            for p in v.parts:
                if isinstance(p, One): parts.append(One(z3.substitute(zbool(p.guard), *pr), subst_v(self, p.val, pr)))
                else:
                    def fresh(p=p):
                        cs, g, e, i = p.fresh()
                        return cs, z3.substitute(g, *pr), subst_v(self, e, pr), None
                    parts.append(SIter(fresh))
            return SBag(parts)
        return subst(v, pr)

    def default_value(self, d):
        if d is set: return FSet()
        if d is list: return CList()
        if d is dict: return CDict()
        if d is int: return 0
        if d is float: return 0.0
        if isinstance(d, (Closure, types.FunctionType)): return self.deref(self.call(d, [], {}))
        raise Unsupported("default factory")

    # invariants ---------------------------------------------------------
    def modified(self, paths):
        roots, vars_ = [], []
        for p in paths:
            for ev in p.journal:
                if ev[0] in ("w", "aug") and ev[1] in self.st.store and ev[1] not in roots: roots.append(ev[1])
                if ev[0] in ("wv", "augv") and ev[1] in self.st.vars and (ev[1], ev[2]) not in vars_: vars_.append((ev[1], ev[2]))
        return roots, vars_

    def loop_types(self, inv, vars_, paths):
        """type of each local a loop assigns: declared by the invariant, else wide enough for its value before and after an iteration"""
        out, decl = {}, self.reg.inv_types(inv)
        for fid, n in vars_:
            if n in decl:
                out[fid, n] = decl[n]
                continue
            v = self.st.vars[fid].get(n, _NOVAL)
            if v is _NOVAL or isinstance(v, (CRef, Poison)): continue
            t = ty_of(v)
            for p in paths:
                w = p.st.vars.get(fid, {}).get(n, _NOVAL) if p.kind == "ok" else _NOVAL
                if w is _NOVAL or isinstance(w, (CRef, Poison)): continue
                t = wider(t, ty_of(w))
            out[fid, n] = t
        return out

    def havoc_vars(self, vars_, vtys):
        for fid, n in vars_:
            v = self.st.vars[fid].get(n, _NOVAL)
            if v is _NOVAL: continue
            if isinstance(v, CRef): continue     # contents havocked through the root
            t = vtys.get((fid, n))
            try:
                if t is None or isinstance(t, TNone): raise Unsupported("loop variable of several types")
                same = type(t) is type(ty_of(v)) and not isinstance(t, (TOpt, TTup))
                self.st.vars[fid][n] = self.havoc_value(v, f"inv{next(self.fresh_no)}_{n}") if same else self.mk(t, f"inv{next(self.fresh_no)}_{n}", self.bound)
            except Unsupported: self.st.vars[fid][n] = Poison("loop variable")
            self.log("rv", fid, n); self.log("wv", fid, n, None)

    def check_vars(self, vars_, vtys):
        """an iteration leaves in each local a value of the type assumed for it"""
        for fid, n in vars_:
            t = vtys.get((fid, n))
            v = self.st.vars[fid].get(n, _NOVAL)
            if t is None or v is _NOVAL or isinstance(v, (CRef, Poison)): continue
            u = wider(t, ty_of(v))
            if u is None or type(u) is not type(t) or (isinstance(t, TOpt) and type(u.t) is not type(t.t)): raise Unsupported(f"loop variable {n} changes its type")

    def inv_env(self, fr):
        ns = {}
        f = fr
        while f is not None:
            for k, v in self.st.vars.get(f.id, {}).items(): ns.setdefault(k, v)
            f = f.parent
        return ns

    def inv_eval(self, inv, fr, extra):
        ns = self.inv_env(fr)
        if self.loop_entry: ns.update({k + "_before": v for k, v in self.loop_entry[-1][1].items() if not isinstance(v, CRef)})
        return self.reg.eval_inv(self, inv, ns, extra)

    def obligation(self, name, goal, kind="obligation"):
        self.obls.append(Obl(f"{self.ctx_name}/{name}", list(self.st.pc) + list(self.st.facts), zbool(goal), list(self.st.taint), kind))

    def inv_for(self, s, fr, inv, itv, parts):
        if len(parts) != 1: raise Unsupported("invariant over several parts")
        part = parts[0]
        bs, g, e, idx = part.fresh()
        bound = list(self.bound)
        no = fr.loopno
        self.loop_entry.append((dict(self.st.store), self.inv_env(fr)))
        try: self.inv_for_(s, fr, inv, itv, part, bs, g, e, idx, bound, no)
        finally: self.loop_entry.pop()

    def inv_for_(self, s, fr, inv, itv, part, bs, g, e, idx, bound, no):
        # ghost: done-set as predicate over the binders (unordered) or prefix length (ordered)
        dfun = z3.Function(f"done{next(self.fresh_no)}", *[b.sort() for b in bound], *[b.sort() for b in bs], z3.BoolSort())

        def ghost(pred):
            # iterable of processed elements
            def fresh():
                cs, gg, ee, ii = part.fresh()
                return cs, zand(gg, pred(cs)), ee, ii
            return Iterable([SIter(fresh, False)])
        seqv = self.deref(itv) if isinstance(itv, (CRef, SSeq)) else None
        total = seqv.n if isinstance(seqv, SSeq) else getattr(part, "n", None)
        def prefix(k): return {"done_n": Sym(k, TInt())} if total is not None else {}
        for nm, c in self.inv_eval(inv, fr, {"done": ghost(lambda cs: z3.BoolVal(False)), **prefix(z3.IntVal(0))}):
            self.obligation(f"loop{no}-entry:{nm}", c, "invariant")
        # discover what the body modifies
        entry = self.st.clone()

        def probe():
            fr.loopno = no
            self.assign(s.target, e, fr)
            try: self.block(s.body, fr)
            except _Continue: pass
        nob = len(self.obls)
        pp = self.explore(probe, bs, g, journal=True)
        del self.obls[nob:]
        roots, vars_ = self.modified(pp)
        vtys = self.loop_types(inv, vars_, pp)
        tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def havoc():
            for r in roots:
                self.st.store[r] = self.havoc_value(self.inv_coerce(inv, r, self.st.store[r], fr), f"inv{next(self.fresh_no)}")
                self.log("ra", r, ())
                self.log("w", r, (), "replace", None)
            self.havoc_vars([(fid, n) for fid, n in vars_ if n not in tn], vtys)

        def arbitrary():
            havoc()
            w = [self.fresh(b.sort(), "cur") for b in bs]
            if not any(len(w) == len(x) and all(a.eq(b) for a, b in zip(w, x)) for x in self.steps): self.steps.append(w)
            pr = list(zip(bs, w))
            D = lambda cs: dfun(*bound, *cs)
            cur_e = subst_v(self, e, pr)
            self.st.pc.append(z3.substitute(g, *pr))
            self.st.pc.append(znot(D(w)))
            if idx is not None and part.ordered:
                wi = z3.substitute(idx, *pr)
                self.fact(zforall(bs, zimp(g, D(bs) == (idx < wi))))
            for nm, c in self.inv_eval(inv, fr, {"done": ghost(D), **(prefix(wi) if idx is not None and part.ordered else {})}): self.st.pc.append(zbool(c))
            fr.loopno = no
            self.assign(s.target, cur_e, fr)
            try: self.block(s.body, fr)
            except _Continue: pass
            except _Break: raise
            self.check_vars([(fid, n) for fid, n in vars_ if n not in tn], vtys)
            D2 = lambda cs: zor(D(cs), zand(*[a == b for a, b in zip(cs, w)]))
            for nm, c in self.inv_eval(inv, fr, {"done": ghost(D2), **(prefix(wi + 1) if idx is not None and part.ordered else {})}):
                self.obligation(f"loop{no}-preserved:{nm}", c, "invariant")
        qs = self.explore(arbitrary, (), None, journal=True)
        # exits
        fr.loopno = no + nloops(s.body)
        leaving = [q for q in qs if q.kind in ("raise", "return", "break")]
        choice = self.fresh(z3.IntSort(), "exit")
        for n, q in enumerate(leaving):
            if self.branch(choice == n + 1):
                # continue from that state
                self.adopt(q)
                if q.kind == "raise": raise q.val
                if q.kind == "return": raise _Return(q.val)
                return
        havoc()
        for nm, c in self.inv_eval(inv, fr, {"done": ghost(lambda cs: z3.BoolVal(True)), **(prefix(total) if total is not None else {})}): self.fact(c)
        for n in tn:
            if fr.id in self.st.vars: self.st.vars[fr.id][n] = Poison("loop target after loop")
        self.block(s.orelse, fr)

    def inv_coerce(self, inv, root, v, fr):
        """empty concrete containers get the type the invariant declares"""
        if isinstance(v, (CList, CDict, FSet, SBag)) and ty_of(v) is None:
            t = self.reg.inv_types(inv)
            name = None
            for fid in [fr.id]:
                for n, x in self.st.vars.get(fid, {}).items():
                    if isinstance(x, CRef) and x.root == root and not x.path: name = n
            if name in t: return self.mk(t[name], "tmp")
            raise Unsupported("invariant needs a declared type")
        return v

    def adopt(self, q):
        pc, facts, taint = list(self.st.pc), list(self.st.facts), list(self.st.taint)
        self.st = q.st.clone()
        have = {x.get_id() for x in self.st.pc}
        for x in pc:
            if x.get_id() not in have: self.st.pc.append(x)

    def inv_while(self, s, fr, inv):
        self.loop_entry.append((dict(self.st.store), self.inv_env(fr)))
        try: self.inv_while_(s, fr, inv)
        finally: self.loop_entry.pop()

    def inv_while_(self, s, fr, inv):
        no = fr.loopno
        for nm, c in self.inv_eval(inv, fr, {}):
            self.obligation(f"loop{no}-entry:{nm}", c, "invariant")

        def probe():
            fr.loopno = no
            c = self.truth(self.ev(s.test, fr))
            self.branch(c)
            try: self.block(s.body, fr)
            except _Continue: pass
        nob = len(self.obls)
        pp = self.explore(probe, (), None, journal=True)
        del self.obls[nob:]
        roots, vars_ = self.modified(pp)
        vtys = self.loop_types(inv, vars_, pp)

        def havoc():
            for r in roots:
                self.st.store[r] = self.havoc_value(self.inv_coerce(inv, r, self.st.store[r], fr), f"inv{next(self.fresh_no)}")
                self.log("ra", r, ()); self.log("w", r, (), "replace", None)
            self.havoc_vars(vars_, vtys)

        def arbitrary():
            havoc()
            for nm, c in self.inv_eval(inv, fr, {}): self.st.pc.append(zbool(c))
            fr.loopno = no
            if not self.branch(self.truth(self.ev(s.test, fr))): raise _Infeasible()
            v0 = self.reg.eval_variant(self, inv, self.inv_env(fr))
            try: self.block(s.body, fr)
            except _Continue: pass
            self.check_vars(vars_, vtys)
            for nm, c in self.inv_eval(inv, fr, {}):
                self.obligation(f"loop{no}-preserved:{nm}", c, "invariant")
            if v0 is not None:
                v1 = self.reg.eval_variant(self, inv, self.inv_env(fr))
                self.obligation(f"loop{no}-decreases", zand(term(v0) >= 0, term(v1) < term(v0)), "variant")
        qs = self.explore(arbitrary, (), None, journal=True)
        leaving = [q for q in qs if q.kind in ("raise", "return", "break")]
        fr.loopno = no + nloops(s.body)
        choice = self.fresh(z3.IntSort(), "exit")
        for n, q in enumerate(leaving):
            if self.branch(choice == n + 1):
                self.adopt(q)
                if q.kind == "raise": raise q.val
                if q.kind == "return": raise _Return(q.val)
                return
        havoc()
        for nm, c in self.inv_eval(inv, fr, {}): self.fact(c)
        if self.branch(self.truth(self.ev(s.test, fr))): raise _Infeasible()
        self.block(s.orelse, fr)

    # -------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None: raise Unsupported(f"expression {type(n).__name__}")
        return m(n, fr)

    def ev_Constant(self, n, fr): return n.value
    def ev_Name(self, n, fr): return self.lookup(fr, n.id)
    def ev_Tuple(self, n, fr): return tuple(self.elts(n.elts, fr))
    def ev_List(self, n, fr): return self.alloc(CList(self.elts(n.elts, fr)))
    def ev_Set(self, n, fr): return self.alloc(FSet([(True, x) for x in self.elts(n.elts, fr)]))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                ps = self.iterate(self.ev(x.value, fr))
                if not all(isinstance(p, One) and p.guard is True for p in ps): raise Unsupported("starred symbolic")
                out.extend(p.val for p in ps)
            else: out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.deref(self.ev(v, fr))
                if isinstance(d, CDict):
                    for a, b in d.items: items = self.cdict_put(items, a, b)
                    continue
                raise Unsupported("dict unpacking")
            kk = self.ev(k, fr)
            items = self.cdict_put(items, kk, self.ev(v, fr)) if not isinstance(kk, V) else items + [(kk, self.ev(v, fr))]
        return self.alloc(CDict(items))

    def ev_JoinedStr(self, n, fr):
        tmpl, args = [], []
        for p in n.values:
            if isinstance(p, ast.Constant): tmpl.append(str(p.value).replace("{", "{{").replace("}", "}}"))
            else:
                if p.format_spec is not None or p.conversion not in (-1,): return Opaque("formatted string")
                v = self.force(self.ev(p.value, fr))
                if not isinstance(v, V) and not isinstance(v, tuple):
                    tmpl.append(str(v).replace("{", "{{"))
                elif isinstance(v, Sym):
                    tmpl.append("{}")
                    args.append(v)
                else: return Opaque("formatted string")
        t = "".join(tmpl)
        if not args: return t.replace("{{", "{").replace("}}", "}")
        f = self.func("fmt:" + t, *[a.t.sort() for a in args], StrSort)
        self.reg.note_fmt(self, t, f, [a.t.sort() for a in args])
        return Sym(f(*[a.t for a in args]), TStr())

    def ev_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            c = self.cond(n.operand, fr)
            return (not c) if isinstance(c, bool) else Sym(znot(c), TBool())
        return self.unop(n.op, self.ev(n.operand, fr))

    def unop(self, op, v):
        v = self.force(v)
        if isinstance(v, Sym):
            if isinstance(op, ast.USub):
                if isinstance(v.ty, TBool): return Sym(-term(v, TInt()), TInt())
                return Sym(-v.t, v.ty)
            if isinstance(op, ast.UAdd): return v
            raise Unsupported("unary operator")
        if isinstance(v, V): raise Unsupported("unary operator")
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)](v)

    def ev_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def cond(self, n, fr):
        """boolean value of a test: Python bool or z3 Bool"""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            acc = None
            for i, x in enumerate(n.values):
                if acc is None: r = self.cond(x, fr)
                else:
                    cut = acc if is_and else znot(acc)
                    r = self.guarded_cond(x, fr, cut)
                if isinstance(r, bool) or z3.is_true(r) or z3.is_false(r):
                    b = r if isinstance(r, bool) else z3.is_true(r)
                    if b != is_and:
                        return b if acc is None else (zand(acc, z3.BoolVal(False)) if is_and else z3.BoolVal(True))
                    continue
                acc = r if acc is None else (zand(acc, r) if is_and else zor(acc, r))
            return is_and if acc is None else acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.cond(n.operand, fr)
            return (not c) if isinstance(c, bool) else znot(c)
        return self.truth(self.ev(n, fr))

    def guarded_cond(self, x, fr, guard):
        """condition x evaluated only where guard holds, as one formula"""
        paths = self.explore(lambda: self.cond(x, fr), (), guard)
        if any(p.kind != "ok" for p in paths):
            # may raise: decide the guard on the outer path
            if self.branch(guard): return self.cond(x, fr)
            return z3.BoolVal(True)      # irrelevant under the negated guard
        self.absorb_facts(paths, (), guard)
        if len(paths) == 1 and not paths[0].conds:
            return paths[0].val
        return z3.simplify(zor(*[zand(*p.conds, zbool(p.val)) for p in paths]))

    def ev_BoolOp(self, n, fr):
        # boolean-valued operands: build a formula; otherwise Python's value semantics
        v = self.ev(n.values[0], fr)
        is_and = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values[1:], 1):
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and: return v
                v = self.ev(x, fr)
                continue
            if isinstance(v, Sym) and isinstance(v.ty, TBool):
                rest = ast.BoolOp(n.op, n.values[i:]) if len(n.values) - i > 1 else x
                paths = self.explore(lambda: self.ev(rest, fr), (), t if is_and else znot(t))
                if all(p.kind == "ok" and (isinstance(p.val, bool) or isinstance(p.val, Sym) and isinstance(p.val.ty, TBool)) for p in paths):
                    self.absorb_facts(paths, (), t if is_and else znot(t))
                    r = zor(*[zand(*p.conds, zbool(p.val if isinstance(p.val, bool) else p.val.t)) for p in paths])
                    return Sym(zand(t, r) if is_and else zor(t, r), TBool())
            if self.branch(t) != is_and: return v
            v = self.ev(x, fr)
        return v

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        acc = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rn, fr)
            r = self.compare(op, left, right)
            acc = r if acc is None else (self.allz([acc, r]))
            if acc is False: return False
            left = right
        return acc if isinstance(acc, bool) else Sym(acc, TBool())

    def ev_IfExp(self, n, fr):
        c = self.cond(n.test, fr)
        return self.ev(n.body, fr) if self.branch(c) else self.ev(n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        self.setvar(f, n.target.id, v)
        return v

    def ev_Lambda(self, n, fr): return self.mkclosure(n, fr, "<lambda>")
    def ev_Starred(self, n, fr): raise Unsupported("starred")

    def ev_Attribute(self, n, fr): return self.getattr(self.ev(n.value, fr), n.attr)

    def ev_Subscript(self, n, fr):
        o = self.force(self.ev(n.value, fr))
        if isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts) and isinstance(o, (CRef, SGrid)):
            return self.grid_window(o, n.slice.elts, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr) if n.slice.upper else None
            st = self.ev(n.slice.step, fr) if n.slice.step else None
            return self.slice(o, lo, hi, st)
        return self.getitem(o, self.ev(n.slice, fr))

    def grid_window(self, o, sl, fr):
        d = self.deref(o)
        if not isinstance(d, SGrid) or len(sl) != 2 or not all(isinstance(x, ast.Slice) and x.step is None for x in sl): raise Unsupported("array window")
        if isinstance(o, CRef): self.log("ra", o.root, o.path)

        def bound(e, n, dflt):
            if e is None: return dflt
            x = term(self.force(self.ev(e, fr)), TInt())
            x = zite(x < 0, x + n, x)
            return zite(x < 0, z3.IntVal(0), zite(x > n, n, x))
        j0, j1 = bound(sl[0].lower, d.h, z3.IntVal(0)), bound(sl[0].upper, d.h, d.h)
        i0, i1 = bound(sl[1].lower, d.w, z3.IntVal(0)), bound(sl[1].upper, d.w, d.w)
        return self.alloc(SGrid(zite(j1 > j0, j1 - j0, z3.IntVal(0)), zite(i1 > i0, i1 - i0, z3.IntVal(0)), lambda j, i: d.at(j + j0, i + i0)))

    def grid_index(self, n, k):
        kt = term(self.force(k), TInt())
        self.raise_if(znot(z3.And(kt >= -n, kt < n)), PyRaise(IndexError))
        if isinstance(k, int): return kt if k >= 0 else n + kt
        if self.in_spec or not self.feasible(kt < 0): return kt
        return zite(kt < 0, kt + n, kt)

    def slice(self, o, lo, hi, st):
        d = self.deref(o)
        if not any(isinstance(x, V) for x in (lo, hi, st)):
            if isinstance(d, CList): return self.alloc(CList(d.items[lo:hi:st]))
            if isinstance(d, tuple): return d[lo:hi:st]
            if not isinstance(d, V): return self.native(d[lo:hi:st])
        if isinstance(d, SSeq) and st is None and isinstance(lo, (int, type(None))) and hi is None and (lo or 0) >= 0:
            lo = lo or 0
            return self.alloc(SSeq(zite(d.n > lo, d.n - lo, z3.IntVal(0)), lambda i: d.get(i + lo), d.ety))
        raise Unsupported("slice")

    # comprehensions
    def comp(self, n, fr, mk):
        cf = Frame(fr.gl, fr, None, {}, "<comp>", owner=fr.owner)

        def level(i):
            gen = n.generators[i]
            if gen.is_async: raise Unsupported("async")
            it = self.ev(gen.iter, fr if i == 0 else cf)
            parts = self.iterate(it)

            def bind(v):
                self.st.vars.setdefault(cf.id, {})
                self.assign(gen.target, v, cf)

            def filt(v):
                bind(v)
                c = True
                for x in gen.ifs:
                    r = self.cond(x, cf) if c is True else self.guarded_cond(x, cf, c)
                    if isinstance(r, bool):
                        if not r: return False
                        continue
                    c = r if c is True else zand(c, r)
                return c
            if i == len(n.generators) - 1:
                def f(v):
                    bind(v)
                    return mk(cf)
                return self.map_iter(parts, f, filt if gen.ifs else None)

            def sub(v):
                if gen.ifs and not self.branch(filt(v)): return []
                bind(v)
                return level(i + 1)
            return self.flat_parts(parts, sub)
        return level(0)

    def ev_ListComp(self, n, fr):
        parts = self.comp(n, fr, lambda cf: self.ev(n.elt, cf))
        if all(isinstance(p, One) and p.guard is True for p in parts): return self.alloc(CList([p.val for p in parts]))
        return self.alloc(SBag(parts))

    def ev_GeneratorExp(self, n, fr):
        return Iterable(self.comp(n, fr, lambda cf: self.ev(n.elt, cf)))

    def ev_SetComp(self, n, fr):
        parts = self.comp(n, fr, lambda cf: self.ev(n.elt, cf))
        return self.alloc(self.named_set(parts, self.to_set(parts)))

    def named_set(self, parts, s):
        """a set whose membership needs a quantifier, under a name with its definition as two facts"""
        if self.bound or not isinstance(s, SSet) or all(isinstance(p, One) for p in parts): return s
        try: sorts = flat_sorts(s.kty)
        except Unsupported: return s
        ks = [fresh_const(x, "k") for x in sorts]
        body = zbool(s.mem(unflat(s.kty, list(ks))))
        if not has_quant(body): return s
        m = z3.Function(f"set!{next(self.fresh_no)}", *sorts, z3.BoolSort())
        self.fact(zforall(ks, zimp(m(*ks), body)))
        for p in parts:
            if isinstance(p, One): self.fact(zimp(zbool(p.guard), m(*flat(p.val, s.kty))))
            else:
                bs, g, e, _ = p.fresh()
                self.fact(zforall(bs, zimp(g, m(*flat(e, s.kty)))))
        return SSet(s.kty, lambda k: m(*flat(k, s.kty)))

    def ev_DictComp(self, n, fr):
        parts = self.comp(n, fr, lambda cf: (self.ev(n.key, cf), self.ev(n.value, cf)))
        return self.alloc(self.to_dict(parts))

    # ---------------------------------------------------------- attributes
    def heap(self, cls, field):
        root = ("h", cls, field)
        if root not in self.st.store:
            ty = self.reg.field_type(cls, field)
            if ty is None: raise Unsupported(f"unknown field {cls.__name__}.{field}")
            m = SMap(TRef(cls), lambda k: z3.BoolVal(True), lambda k: self.mk(ty, f"{cls.__name__}.{field}", [term(k)]), None, ty)
            m.full = True
            self.st.store[root] = m
        return root

    def base_cls(self, cls):
        for c in cls.__mro__:
            if c in self.reg.entities: return c
        return cls

    def field_loc(self, o, name):
        """(root, key) of a plain instance field, or None"""
        if isinstance(o, Sym) and isinstance(o.ty, TRef):
            st = inspect.getattr_static(o.ty.cls, name, None)
            if isinstance(st, property) or (o.ty.cls, name) in self.reg.abstract: return None
            try: return self.heap(o.ty.cls, name), o
            except Unsupported: return None
        if isinstance(o, ObjV):
            st = inspect.getattr_static(o.cls, name, None)
            if isinstance(st, property): return None
            return ("o", o.loc, name), None
        return None

    def getattr(self, v, name):
        v = self.force(v)
        if v is None: raise PyRaise(AttributeError, name)
        if isinstance(v, Poison): raise Unsupported(v.why)
        if isinstance(v, (CRef, SGrid)) and isinstance(self.deref(v), SGrid):
            d = self.deref(v)
            if name == "shape": return (Sym(d.h, TInt()), Sym(d.w, TInt()))
            if name == "size": return Sym(d.h * d.w, TInt())
            if name == "dtype": return Opaque("array element type")
            raise Unsupported(f"array attribute {name}")
        if isinstance(v, CRef) or isinstance(v, CONT + (Iterable,)): return CMeth(v, name)
        if isinstance(v, tuple) and not hasattr(v, "_fields"): return CMeth(v, name)
        if isinstance(v, Sym):
            if isinstance(v.ty, TRef): return self.ref_getattr(v, v.ty.cls, name)
            if isinstance(v.ty, TEnum): return self.enum_getattr(v, name)
            if isinstance(v.ty, TStr): return CMeth(v, name)
            if isinstance(v.ty, (TInt, TReal)): return CMeth(v, name)
            raise Unsupported(f"attribute {name} of {v.ty}")
        if isinstance(v, Rec):
            if name in v.f: return v.f[name]
            st = inspect.getattr_static(v.cls, name, None)
            if isinstance(st, property): return self.call(st.fget, [v], {})
            if isinstance(st, types.FunctionType): return Bound(st, v)
            if name in ("_replace", "_asdict"): return CMeth(v, name)
            raise Unsupported(f"attribute {name} of {v.cls.__name__}")
        if isinstance(v, ObjV):
            st = inspect.getattr_static(v.cls, name, None)
            if (v.cls, name) in self.reg.abstract and ("o", v.loc, name) in self.st.store:
                x = self.st.store[("o", v.loc, name)]
                return CRef(("o", v.loc, name)) if isinstance(x, CONT) else x
            if isinstance(st, property): return self.call(st.fget, [v], {})
            root = ("o", v.loc, name)
            if root in self.st.store:
                x = self.st.store[root]
                if isinstance(x, CONT): return CRef(root)
                self.log("ra", root, ())
                return x
            if isinstance(st, types.FunctionType): return Bound(st, v)
            if isinstance(st, classmethod): return Bound(st.__func__, v.cls)
            if isinstance(st, staticmethod): return st.__func__
            if st is not None and not isinstance(st, types.MemberDescriptorType): return self.native(st)
            if name == "__class__": return v.cls
            raise PyRaise(AttributeError, f"{v.cls.__name__}.{name}")
        if isinstance(v, SuperV):
            mro = v.cls_mro
            for c in mro:
                if name in c.__dict__:
                    st = c.__dict__[name]
                    if isinstance(st, types.FunctionType): return Bound(st, v.obj)
                    if isinstance(st, property): return self.call(st.fget, [v.obj], {})
                    if isinstance(st, classmethod): return Bound(st.__func__, v.obj)
            raise Unsupported(f"super().{name}")
        if isinstance(v, ExcV): return Opaque("exception attribute")
        if isinstance(v, Opaque): return Opaque(v.why)
        if isinstance(v, V): raise Unsupported(f"attribute {name} of {type(v).__name__}")
        try: x = inspect.getattr_static(v, name)
        except AttributeError: x = None
        if isinstance(v, type):
            for c in v.__mro__:
                if name in c.__dict__:
                    st = c.__dict__[name]
                    if isinstance(st, classmethod) and from_src(st.__func__): return Bound(st.__func__, v)
                    break
        elif isinstance(v, enum.Enum):
            st = inspect.getattr_static(type(v), name, None)
            if isinstance(st, types.FunctionType) and from_src(st): return Bound(st, v)
        try: return self.native(getattr(v, name))
        except AttributeError: raise PyRaise(AttributeError, name)

    def ref_getattr(self, v, cls, name):
        if (cls, name) in self.reg.abstract:
            ty = self.reg.abstract[(cls, name)]
            self.used_models.add(f"{cls.__name__}.{name} is an abstract attribute")
            return self.mk(ty, f"{cls.__name__}.{name}", [v.t])
        st = inspect.getattr_static(cls, name, None)
        if isinstance(st, property): return self.call(st.fget, [v], {})
        if isinstance(st, types.FunctionType) or callable(st) and hashable(st) and st in self.reg.models: return Bound(st, v)
        if isinstance(st, classmethod): return Bound(st.__func__, cls)
        if isinstance(st, staticmethod): return st.__func__
        if name == "__class__": raise Unsupported("__class__")
        root = self.heap(cls, name)
        self.log("rk", root, (), v)
        m = self.st.store[root]
        x = m.get(v)
        if isinstance(x, CONT): return CRef(root, (v,))
        return x

    def enum_getattr(self, v, name):
        cls = v.ty.cls
        if name in ("value", "name", "_value_", "_name_"):
            vals = [(m, getattr(m, name)) for m in cls]
            r = vals[-1][1]
            for m, x in reversed(vals[:-1]):
                r = self.ite(zeq(v.t, term(m)), x, r)
            return r
        st = inspect.getattr_static(cls, name, None)
        if isinstance(st, types.FunctionType): return Bound(st, v)
        if isinstance(st, classmethod): return Bound(st.__func__, cls)
        if isinstance(st, property): return self.call(st.fget, [v], {})
        raise Unsupported(f"enum attribute {name}")

    def setattr(self, o, name, v):
        if isinstance(v, (Iterable,)): raise Unsupported("storing an iterator")
        if isinstance(o, Sym) and isinstance(o.ty, TRef):
            cls = o.ty.cls
            st = inspect.getattr_static(cls, name, None)
            if isinstance(st, property):
                if st.fset is None: raise PyRaise(AttributeError, name)
                self.call(st.fset, [o, v], {})
                return
            root = self.heap(cls, name)
            v = self.coerce(self.deref_move(v), self.reg.field_type(cls, name))
            m = self.st.store[root]
            new = self.map_put(m, o, v)
            new.full = True
            self.st.store[root] = new
            self.log("w", root, (), "put", (o, v))
            return
        if isinstance(o, ObjV):
            st = inspect.getattr_static(o.cls, name, None)
            if isinstance(st, property):
                if st.fset is None: raise PyRaise(AttributeError, name)
                self.call(st.fset, [o, v], {})
                return
            root = ("o", o.loc, name)
            if isinstance(v, CONT): v = self.alloc(v)
            self.st.store[root] = v
            self.log("w", root, (), "set", (v,))
            return
        if o is None: raise PyRaise(AttributeError, name)
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def coerce(self, v, ty):
        "make a stored value have the declared shape"
        if isinstance(ty, TReal) and isinstance(v, int) and not isinstance(v, bool): return Sym(term(v, ty), ty)
        if isinstance(ty, TReal) and isinstance(v, Sym) and isinstance(v.ty, TInt): return Sym(z3.ToReal(v.t), ty)
        if isinstance(ty, TReal) and isinstance(v, float) and not math.isfinite(v): return v
        if isinstance(v, CDict) and isinstance(ty, TMap) and not v.items:
            return SMap(ty.k, lambda k: z3.BoolVal(False), lambda k: self.mk(ty.v, "undef"), v.default, ty.v)
        if isinstance(v, FSet) and isinstance(ty, TSet) and not v.items:
            return SSet(ty.t, lambda k: z3.BoolVal(False))
        return v

    def deref_move(self, v):
        if isinstance(v, CRef) and v.root[0] == "c":
            r = self.rd(v)
            self.st.moved.add(v.root)
            return r
        return self.deref(v)

    # --------------------------------------------------------------- items
    def item_view(self, handle, d, i):
        x = d.get(i)
        if isinstance(x, CONT): return CRef(handle.root, handle.path + (Sym(i, TInt()),)) if isinstance(handle, CRef) else x
        return x

    def getitem(self, o, k):
        o = self.force(o)
        if o is None: raise PyRaise(TypeError, "None is not subscriptable")
        d = self.deref(o)
        k = self.deref(k) if isinstance(k, CRef) else k
        if isinstance(d, (SMap, CDict)): return self.dict_get(o, d, k)
        if isinstance(d, SGrid):
            if isinstance(o, CRef): self.log("ra", o.root, o.path)
            if isinstance(k, tuple):
                if len(k) != 2: raise Unsupported("array index")
                j, i = self.grid_index(d.h, k[0]), self.grid_index(d.w, k[1])
                return Sym(d.at(j, i), TReal())
            j = self.grid_index(d.h, k)
            return CRef(o.root, o.path + (Sym(j, TInt()),)) if isinstance(o, CRef) else d.row(j)
        if isinstance(d, (tuple,)) or isinstance(d, Rec):
            items = d if isinstance(d, tuple) else tuple(d.f.values())
            k = self.force(k)
            if isinstance(k, int): 
                try: return items[k]
                except IndexError: raise PyRaise(IndexError)
            raise Unsupported("symbolic tuple index")
        if isinstance(d, (CList, SSeq, SBag)):
            if isinstance(o, CRef): self.log("ra", o.root, o.path)
            k = self.force(k)
            if isinstance(d, CList) and isinstance(k, int):
                try: return d.items[k]
                except IndexError: raise PyRaise(IndexError)
            if isinstance(d, SBag): d = self.bag_seq(d)
            if isinstance(d, CList): d = self.to_seq(d)
            kt = term(k, TInt())
            i = kt
            if isinstance(k, int):
                i = d.n + k if k < 0 else kt
            else:
                if self.branch(kt < 0): i = d.n + kt
            self.raise_if(znot(zand(i >= 0, i < d.n)), PyRaise(IndexError))
            return self.item_view(o, d, z3.simplify(i))
        if isinstance(d, Opaque): return Opaque()
        if isinstance(d, V): raise Unsupported(f"subscript of {type(d).__name__}")
        if isinstance(d, type) and issubclass(d, enum.Enum) and not isinstance(k, V):
            try: return d[k]
            except KeyError: raise PyRaise(KeyError, str(k))
        if isinstance(d, type) or getattr(d, "__module__", "") == "typing": return d
        if isinstance(k, V): raise Unsupported("symbolic index into a native value")
        try: return self.native(d[k])
        except (KeyError, IndexError, TypeError) as e: raise PyRaise(type(e), str(e))

    def dict_get(self, o, d, k):
        if isinstance(o, CRef): self.log("rk", o.root, o.path, k)
        if isinstance(d, CDict):
            if isinstance(k, (Opt, XR)): k = self.force(k)
            for a, b in d.items:
                c = self.eq(a, k)
                if self.branch(c): return b
            if d.default is not None:
                v = self.default_value(d.default)
                if isinstance(v, CONT): v = self.alloc(v)
                if isinstance(o, CRef): self.setitem(o, k, v)
                return self.getitem(o, k) if isinstance(o, CRef) else v
            raise PyRaise(KeyError, str(k))
        if isinstance(k, Opt) and not isinstance(d.kty, TOpt): k = self.force(k)
        if k is None and not isinstance(d.kty, TOpt): raise PyRaise(KeyError, "None")
        no, k = self.whole(k, d.kty)
        if no and not (self.in_spec and self.total): self.raise_if(z3.Or(*no), PyRaise(KeyError))
        if d.default is not None:
            if not self.branch(zbool(d.dom(k))):
                v = self.default_value(d.default)
                self.setitem(o, k, v)
                d = self.rd(o)
        elif not (self.in_spec and self.total):      # in a specification read totally: some value
            self.raise_if(znot(zbool(d.dom(k))), PyRaise(KeyError))
        x = d.get(k)
        if isinstance(x, CONT) and isinstance(o, CRef): return CRef(o.root, o.path + (k,))
        if isinstance(x, CRef): return x
        if isinstance(x, _NoVal): raise _Infeasible()
        return x

    def setitem(self, o, k, v):
        if not isinstance(o, CRef): raise Unsupported("item assignment")
        d = self.rd(o)
        k = self.deref(k) if isinstance(k, CRef) else k
        self.step_at(k)
        if isinstance(d, CDict):
            try:
                if not isinstance(k, V) and not (isinstance(k, tuple) and any(isinstance(x, V) for x in k)) and all(not isinstance(a, V) for a, _ in d.items):
                    new = CDict(self.cdict_put(list(d.items), k, v), d.default)
                    self.log("w", o.root, o.path, "put", (k, v))
                    self.wr(o, new)
                    return
            except Unsupported: pass
            kty = ty_of(k)
            if kty is None: raise Unsupported("dict key")
            v2 = self.deref_move(v)
            if not d.items:
                m = SMap(kty, lambda x: z3.BoolVal(False), lambda x: _NOVAL, d.default, ty_of(v2))
                new = SMap(kty, lambda x: self.eqz(x, k, kty), lambda x: v2, d.default, ty_of(v2))
            else:
                m = self.to_smap(d, None, kty)
                new = self.map_put(m, k, v2)
            self.log("w", o.root, o.path, "put", (k, v2))
            self.wr(o, new)
            return
        if isinstance(d, SGrid):
            if not isinstance(k, tuple) or len(k) != 2: raise Unsupported("array assignment")
            j, i = self.grid_index(d.h, k[0]), self.grid_index(d.w, k[1])
            v = term(self.force(v), TReal())
            self.log("ra", o.root, o.path)
            self.log("w", o.root, o.path, "replace", None)
            self.wr(o, SGrid(d.h, d.w, lambda a, b: zite(z3.And(a == j, b == i), v, d.at(a, b))))
            return
        if isinstance(d, SMap):
            v = self.coerce(self.deref_move(v), d.vty)
            if isinstance(k, Opt) and not isinstance(d.kty, TOpt): k = self.force(k)
            self.log("w", o.root, o.path, "put", (k, v))
            self.wr(o, self.map_put(d, k, v))
            return
        if isinstance(d, CList):
            if isinstance(k, int):
                it = list(d.items)
                try: it[k] = v
                except IndexError: raise PyRaise(IndexError)
                self.log("ra", o.root, o.path)
                self.log("w", o.root, o.path, "replace", None)
                self.wr(o, CList(it))
                return
            if d.items: d = self.to_seq(d)
        if isinstance(d, (SSeq, SBag)):
            d = self.to_seq(d)
            kt = term(self.force(k), TInt())
            if self.branch(kt < 0): kt = d.n + kt
            self.raise_if(znot(zand(kt >= 0, kt < d.n)), PyRaise(IndexError))
            self.log("ra", o.root, o.path)
            self.log("w", o.root, o.path, "replace", None)
            v = self.deref_move(v)
            self.wr(o, SSeq(d.n, lambda i: self.ite(zeq(i, kt), v, d.get(i)), d.ety))
            return
        raise Unsupported("item assignment")

    def delitem(self, o, k):
        if not isinstance(o, CRef): raise Unsupported("item deletion")
        d = self.rd(o)
        if isinstance(d, SMap):
            self.log("rk", o.root, o.path, k)
            self.raise_if(znot(zbool(d.dom(k))), PyRaise(KeyError))
            kty = d.kty
            self.log("w", o.root, o.path, "del", (k,))
            self.wr(o, SMap(kty, lambda x: zand(znot(self.eqz(x, k, kty)), zbool(d.dom(x))), d.get, d.default, d.vty))
            return
        if isinstance(d, CDict):
            for i, (a, b) in enumerate(d.items):
                if self.branch(self.eq(a, k)):
                    self.log("ra", o.root, o.path)
                    self.log("w", o.root, o.path, "replace", None)
                    self.wr(o, CDict(d.items[:i] + d.items[i + 1:], d.default))
                    return
            raise PyRaise(KeyError)
        raise Unsupported("item deletion")

    # --------------------------------------------------------------- calls
    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and f.cls is None: f = f.parent
            if f is None: raise Unsupported("super")
            self_ = self.st.vars[f.id][f.selfname]
            s = SuperV(f.cls, self_)
            ocls = self_.cls if isinstance(self_, ObjV) else (self_.ty.cls if isinstance(self_, Sym) else type(self_))
            mro = list(ocls.__mro__) if f.cls in ocls.__mro__ else list(f.cls.__mro__)
            s.cls_mro = mro[mro.index(f.cls) + 1:]
            return s
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            try: base = self.lookup(fr, n.func.value.id)
            except PyRaise: base = None
            if isinstance(base, logging.Logger): return None
        fn = self.ev(n.func, fr)
        drop = self.is_message_sink(fn)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                ps = self.iterate(self.ev(a.value, fr))
                if not all(isinstance(p, One) and p.guard is True for p in ps): raise Unsupported("*args")
                args.extend(p.val for p in ps)
            elif drop and isinstance(a, (ast.JoinedStr, ast.BinOp)): args.append(Opaque("message"))
            else: args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.deref(self.ev(k.value, fr))
                if not isinstance(d, CDict): raise Unsupported("**kwargs")
                for a, b in d.items: kw[a] = b
            elif drop and isinstance(k.value, (ast.JoinedStr, ast.BinOp)): kw[k.arg] = Opaque("message")
            else: kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def is_message_sink(self, fn):
        if isinstance(fn, types.FunctionType) and fn.__name__ == "planner_assert": return True
        return isinstance(fn, type) and issubclass(fn, BaseException)

    def call(self, fn, args, kw=None):
        kw = kw or {}
        if isinstance(fn, Bound): return self.call(fn.fn, [fn.self] + list(args), kw)
        if isinstance(fn, PartialV): return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, CMeth): return self.call_meth(fn.obj, fn.name, args, kw)
        if isinstance(fn, Closure): return self.call_closure(fn, args, kw)
        if isinstance(fn, Opaque): return Opaque(fn.why)
        if isinstance(fn, FunV):
            if kw or len(args) != len(fn.ty.args): raise Unsupported("call of an abstract function")
            return self.mk(fn.ty.ret, fn.name + ".call", list(fn.at) + [x for a, t in zip(args, fn.ty.args) for x in flat(self.force(a), t)])
        if isinstance(fn, V): raise Unsupported(f"call of {type(fn).__name__}")
        h = self.reg.model(fn)
        if h is not None:
            self.used_models.add(getattr(fn, "__qualname__", str(fn)))
            return h(self, args, kw)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kw)
        if isinstance(fn, functools.partial): return self.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kw})
        if isinstance(fn, types.FunctionType):
            ct = self.reg.contract_for(fn)
            if ct is not None and fn not in self.no_contract and (not self.in_spec or ct.pure): return self.apply_contract(ct, fn, args, kw)
            fn2 = inspect.unwrap(fn)
            if from_src(fn2): return self.call_function(fn2, args, kw)
        if isinstance(fn, type): return self.construct(fn, args, kw)
        if self.all_concrete(args, kw):
            return self.call_native(fn, args, kw)
        if isinstance(fn, types.BuiltinMethodType) and isinstance(getattr(fn, "__self__", None), str): return self.call(CMeth(fn.__self__, fn.__name__), args, kw)
        raise Unsupported(f"external call {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)}")

    def all_concrete(self, args, kw):
        return all(self.is_conc(a) for a in args) and all(self.is_conc(a) for a in kw.values())

    def is_conc(self, a):
        if isinstance(a, tuple): return all(self.is_conc(x) for x in a)
        return not isinstance(a, V)

    def call_native(self, fn, args, kw):
        mod = getattr(fn, "__module__", None) or ""
        if not (mod in ("math", "builtins", "_operator", "operator", "enum", "typing", "itertools", "collections", "re", "numpy") or
                isinstance(fn, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodWrapperType)) or mod.startswith("terragraph_planner")):
            raise Unsupported(f"native call {mod}.{getattr(fn, '__qualname__', fn)}")
        try: return self.native(fn(*args, **kw))
        except Exception as e: raise PyRaise(type(e), str(e))

    def bind(self, a, args, kw, defaults, kwdefaults, name):
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise(TypeError, f"{name}: too many arguments")
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for nme, v in zip(names, args): env[nme] = v
        kw = dict(kw)
        for nme in names[len(args):]:
            if nme in kw: env[nme] = kw.pop(nme)
        for x in a.kwonlyargs:
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults: env[x.arg] = kwdefaults[x.arg]
            else: raise PyRaise(TypeError, f"{name}: missing {x.arg}")
        nd = len(defaults)
        for nme, d in zip(names[len(names) - nd:], defaults):
            if nme not in env: env[nme] = d
        for nme in names:
            if nme not in env: raise PyRaise(TypeError, f"{name}: missing {nme}")
        if a.kwarg is not None: env[a.kwarg.arg] = self.alloc(CDict(list(kw.items())))
        elif kw: raise PyRaise(TypeError, f"{name}: unexpected {list(kw)}")
        return env

    def call_function(self, fn, args, kw):
        node = fn_ast(fn)
        self.inlined.add(f"{fn.__module__}:{fn.__qualname__}")
        defaults = [self.native(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.native(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        clos = {}
        if fn.__closure__:
            for nme, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try: clos[nme] = c.cell_contents
                except ValueError: pass
        cls = clos.get("__class__") or self.owner_class(fn)
        qn = f"{fn.__module__}:{fn.__qualname__}"
        return self.run_body(node, fn.__globals__, None, clos, args, kw, defaults, kwd, fn.__name__, cls, qn)

    def owner_class(self, fn):
        parts = fn.__qualname__.split(".")
        if len(parts) < 2 or "<locals>" in parts: return None
        c = fn.__globals__.get(parts[0])
        return c if isinstance(c, type) else None

    def call_closure(self, c, args, kw):
        return self.run_body(c.node, c.gl, c.frame, {}, args, kw, c.defaults, c.kwdefaults, c.name, None, f"{c.qual}.{c.name}")

    def run_body(self, node, gl, parent, clos, args, kw, defaults, kwd, name, cls, owner):
        self.depth += 1
        if self.depth > MAXDEPTH: raise Unsupported("recursion")
        env = self.bind(node.args, args, kw, defaults, kwd, name)
        locs = assigned_names(node) if not isinstance(node, ast.Lambda) else set(env)
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)) and not isinstance(node, ast.Lambda): raise Unsupported("generator function")
        fr = Frame(gl, parent, locs, clos, name, cls=cls, owner=owner)
        a = node.args
        fr.selfname = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
        self.frames.append(fr)
        self.st.vars[fr.id] = {}
        for k, v in env.items(): self.st.vars[fr.id][k] = v
        if owner == self.target: self.st.vars["target"] = {"id": fr.id}
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
                return None
            except _Return as r:
                return r.v
        finally:
            self.depth -= 1
            if self.frames and self.frames[-1] is fr: self.frames.pop()

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException): return ExcV(cls)
        if issubclass(cls, Ty): return cls(*[self.deref(a) for a in args])
        if issubclass(cls, enum.Enum):
            if self.all_concrete(args, kw):
                try: return cls(*args)
                except ValueError as e: raise PyRaise(ValueError, str(e))
            v = args[0]
            if isinstance(v, Sym) and isinstance(v.ty, TEnum) and v.ty.cls is cls: return v
            raise Unsupported("enum lookup by symbolic value")
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            f = {}
            names = list(cls._fields)
            if len(args) > len(names): raise PyRaise(TypeError, "too many fields")
            for nme, v in zip(names, args): f[nme] = v
            for k, v in kw.items():
                if k not in names: raise PyRaise(TypeError, k)
                f[k] = v
            for nme in names:
                if nme not in f:
                    if nme in cls._field_defaults: f[nme] = self.native(cls._field_defaults[nme])
                    else: raise PyRaise(TypeError, f"missing {nme}")
            return Rec(cls, {nme: f[nme] for nme in names})
        mod = getattr(cls, "__module__", "")
        if cls in self.reg.entities:
            # fresh identity, distinct from every allocated object
            o = Sym(self.fresh(ref_sort(cls), "new_" + cls.__name__), TRef(cls))
            self.fact(znot(self.func("alloc_" + cls.__name__, ref_sort(cls), z3.BoolSort())(o.t)))
            for q in self.ghost_alloc:
                if q.ty == o.ty: self.fact(o.t != q.t)
            self.ghost_alloc.append(o)
        elif mod.startswith("terragraph_planner") or mod.startswith("contracts"):
            o = self.new_obj(cls)
        else:
            if self.all_concrete(args, kw): return self.call_native(cls, args, kw)
            raise Unsupported(f"construction of {mod}.{cls.__name__}")
        if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and not from_src_init(cls):
            fields = dataclasses.fields(cls)
            vals = {}
            names = [f.name for f in fields if f.init]
            if len(args) > len(names): raise PyRaise(TypeError, "too many arguments")
            for nme, v in zip(names, args): vals[nme] = v
            for k, v in kw.items():
                if k not in names: raise PyRaise(TypeError, k)
                vals[k] = v
            for f in fields:
                if not f.init:
                    continue
                if f.name not in vals:
                    if f.default is not dataclasses.MISSING: vals[f.name] = self.native(f.default)
                    elif f.default_factory is not dataclasses.MISSING: vals[f.name] = self.call(f.default_factory, [], {})
                    else: raise PyRaise(TypeError, f"missing {f.name}")
                self.setattr(o, f.name, vals[f.name])
            if hasattr(cls, "__post_init__"):
                self.call(inspect.getattr_static(cls, "__post_init__"), [o], {})
            return o
        init = None
        for c in cls.__mro__:
            if "__init__" in c.__dict__:
                init = c.__dict__["__init__"]
                break
        if isinstance(init, types.FunctionType): self.call(init, [o] + list(args), kw)
        elif args or kw: raise PyRaise(TypeError, "no __init__")
        return o

    # contract application at a call site
    def apply_contract(self, ct, fn, args, kw):
        return self.reg.apply(self, ct, fn, args, kw)

    # ------------------------------------------------------ container methods
    def call_meth(self, o, name, args, kw):
        from .builtins_ import container_method
        return container_method(self, o, name, args, kw)


class Eff:
    def __init__(s, bs, g, idx, path, op, data):
        s.bs = bs; s.g = g; s.idx = idx; s.path = path; s.op = op; s.data = data


class Obl:
    def __init__(s, name, hyps, goal, taint, kind="post"):
        s.name = name; s.hyps = hyps; s.goal = goal; s.taint = taint; s.kind = kind
        s.result = None


class ExcV(V):
    def __init__(s, cls): s.cls = cls


def is_full(m): return getattr(m, "full", False)


def from_src_init(cls):
    i = cls.__dict__.get("__init__")
    return isinstance(i, types.FunctionType) and from_src(i)


def nloops(stmts):
    n = 0
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.For, ast.While)): n += 1
    return n
