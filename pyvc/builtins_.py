"""Models of Python builtins, container methods and math functions."""
import collections
import copy
import itertools as _it

from .interp import *
from .interp import CMeth, ExcV, is_full, Poison
from .engine import _NOVAL, _SKIP


# ------------------------------------------------------------------ helpers
def _conc(eng, *xs):
    return all(not isinstance(x, V) for x in xs)


def _real(v):
    return term(v, TReal())


def _num(eng, v, what="number"):
    v = eng.force(v)
    if v is None: raise PyRaise(TypeError, f"{what} is None")
    return v


# -------------------------------------------------------- container methods
def container_method(eng, o, name, args, kw):
    d = eng.deref(o)
    if isinstance(d, (CList, SSeq, SBag)): return list_method(eng, o, d, name, args, kw)
    if isinstance(d, (CDict, SMap)): return dict_method(eng, o, d, name, args, kw)
    if isinstance(d, (FSet, SSet)): return set_method(eng, o, d, name, args, kw)
    if isinstance(d, Sym) and isinstance(d.ty, TStr) or isinstance(d, str): return str_method(eng, d, name, args, kw)
    if isinstance(d, Rec):
        if name == "_replace":
            bad = set(kw) - set(d.f)
            if bad: raise PyRaise(ValueError, "unexpected field names")
            return Rec(d.cls, {**d.f, **kw})
        if name == "_asdict": return eng.alloc(CDict(list(d.f.items())))
    if isinstance(d, tuple):
        if name == "index":
            for i, x in enumerate(d):
                if eng.branch(eng.eq(x, args[0])): return i
            raise PyRaise(ValueError)
        if name == "count":
            return eng.sum_parts([One(True, x) for x in d], lambda x: eng.ite(eng.eq(x, args[0]), 1, 0))
    if isinstance(d, Iterable):
        if name in ("isdisjoint", "union", "intersection", "difference"):
            return set_method(eng, eng.to_set(d.parts), eng.to_set(d.parts), name, args, kw)
    if isinstance(d, Sym) and name == "is_integer":
        return Sym(z3.IsInt(term(d, TReal())), TBool())
    raise Unsupported(f"method {name} of {type(d).__name__}")


def _wlog(eng, o, op, data):
    if isinstance(o, CRef): eng.log("w", o.root, o.path, op, data)


def _need(o):
    if not isinstance(o, CRef): raise Unsupported("mutation of a temporary")


def _store(eng, d, v):
    "value form in which v is stored into container d"
    if isinstance(d, (CList, CDict, FSet)): return v
    return eng.deref_move(v)


def list_method(eng, o, d, name, args, kw):
    if name == "append":
        _need(o)
        x = _store(eng, d, args[0])
        _wlog(eng, o, "append", (x,))
        if isinstance(d, CList): new = CList(d.items + (x,))
        elif isinstance(d, SSeq):
            new = SSeq(d.n + 1, lambda i: eng.ite(zeq(i, d.n), x, d.get(i)), d.ety)
        else: new = SBag(d.parts + [One(True, x)])
        eng.wr(o, new)
        return None
    if name == "extend":
        _need(o)
        parts = eng.iterate(args[0])
        it = Iterable(parts)
        _wlog(eng, o, "extend", (it,))
        if isinstance(d, CList) and all(isinstance(p, One) and p.guard is True for p in parts):
            eng.wr(o, CList(d.items + tuple(p.val for p in parts)))
        elif isinstance(d, CList) and not d.items:
            eng.wr(o, SBag(parts))
        else:
            eng.wr(o, SBag(eng.iterate(d) + parts))
        return None
    if isinstance(o, CRef): eng.log("ra", o.root, o.path)
    if name == "copy": return eng.alloc(d)
    if name == "clear":
        _need(o)
        _wlog(eng, o, "replace", None)
        eng.wr(o, CList())
        return None
    if name == "count":
        return eng.sum_parts(eng.iterate(d), lambda x: eng.ite(eng.eq(x, args[0]), 1, 0))
    if isinstance(d, CList):
        it = list(d.items)
        if name == "pop":
            _need(o)
            i = args[0] if args else -1
            if isinstance(i, V): raise Unsupported("pop at symbolic index")
            try: x = it.pop(i)
            except IndexError: raise PyRaise(IndexError)
            _wlog(eng, o, "replace", None)
            eng.wr(o, CList(it))
            return x
        if name == "popleft":
            _need(o)
            if not it: raise PyRaise(IndexError)
            _wlog(eng, o, "replace", None)
            eng.wr(o, CList(it[1:]))
            return it[0]
        if name == "insert":
            _need(o)
            it.insert(args[0], args[1])
            _wlog(eng, o, "replace", None)
            eng.wr(o, CList(it))
            return None
        if name == "reverse":
            _need(o)
            _wlog(eng, o, "replace", None)
            eng.wr(o, CList(it[::-1]))
            return None
        if name == "remove":
            _need(o)
            for j, x in enumerate(it):
                if eng.branch(eng.eq(x, args[0])):
                    _wlog(eng, o, "replace", None)
                    eng.wr(o, CList(it[:j] + it[j + 1:]))
                    return None
            raise PyRaise(ValueError)
        if name == "index":
            for j, x in enumerate(it):
                if eng.branch(eng.eq(x, args[0])): return j
            raise PyRaise(ValueError)
        if name == "sort":
            _need(o)
            r = sort_items(eng, it, kw.get("key"), kw.get("reverse", False))
            _wlog(eng, o, "replace", None)
            eng.wr(o, r)
            return None
    if name == "sort":
        _need(o)
        _wlog(eng, o, "replace", None)
        eng.wr(o, sorted_value(eng, eng.iterate(d), kw.get("key"), kw.get("reverse", False)))
        return None
    if name == "remove":
        # remove one occurrence: exact when at most one element equals the argument
        _need(o)
        x = args[0]
        s = eng.to_seq(d)
        k = eng.fresh(z3.IntSort(), "rm")
        present = eng.mem(s, x)
        eng.raise_if(znot(zbool(present)), PyRaise(ValueError))
        i = fresh_int("i")
        eng.fact(zand(k >= 0, k < s.n, zbool(eng.eq(s.get(k), x))))
        eng.fact(zforall([i], zimp(zand(i >= 0, i < k), znot(zbool(eng.under([i], lambda: eng.eq(s.get(i), x)))))))
        _wlog(eng, o, "replace", None)
        eng.wr(o, SSeq(s.n - 1, lambda i: eng.ite(i < k, s.get(i), s.get(i + 1)), s.ety))
        return None
    if name == "pop" and not args:
        _need(o)
        s = eng.to_seq(d)
        eng.raise_if(s.n <= 0, PyRaise(IndexError))
        _wlog(eng, o, "replace", None)
        x = s.get(s.n - 1)
        eng.wr(o, SSeq(s.n - 1, s.get, s.ety))
        return x
    if name in ("pop", "popleft"):
        _need(o)
        if name == "pop" and args[0] != 0: raise Unsupported("pop index")
        s = eng.to_seq(d)
        eng.raise_if(s.n <= 0, PyRaise(IndexError))
        _wlog(eng, o, "replace", None)
        x = s.get(z3.IntVal(0))
        eng.wr(o, SSeq(s.n - 1, lambda i: s.get(i + 1), s.ety))
        return x
    raise Unsupported(f"list.{name}")


def dict_method(eng, o, d, name, args, kw):
    if name in ("keys", "values", "items"):
        return Iterable(eng.map_parts(o, name), name)
    if name == "get":
        k = args[0]
        dflt = args[1] if len(args) > 1 else kw.get("default")
        if isinstance(o, CRef): eng.log("rk", o.root, o.path, k)
        if isinstance(d, CDict):
            for a, b in d.items:
                if eng.branch(eng.eq(a, k)): return b
            return dflt
        if isinstance(k, Opt) and not isinstance(d.kty, TOpt): k = eng.force(k)
        if k is None and not isinstance(d.kty, TOpt): return dflt
        c = zbool(d.dom(k))
        v = d.get(k)
        if isinstance(v, CONT) or isinstance(v, (CRef, ObjV)) or isinstance(eng.deref(dflt), CONT):
            if eng.branch(c): return eng.view(o if isinstance(o, CRef) else None, d, k)
            return dflt
        return eng.ite(c, v, dflt)
    if name == "setdefault":
        _need(o)
        k = args[0]
        dv = args[1] if len(args) > 1 else None
        if isinstance(d, CDict):
            for a, b in d.items:
                r = eng.eq(a, k)
                if isinstance(r, bool):
                    if r: return b
                elif eng.branch(r): return b
            if not isinstance(k, V) and not any(isinstance(a, V) for a, _ in d.items):
                eng.log("w", o.root, o.path, "put", (k, dv))
                eng.wr(o, CDict(d.items + ((k, dv),), d.default))
                return dv
            dv0 = eng.deref(dv)
            kty = ty_of(k)
            eng.log("w", o.root, o.path, "setdefault", (k, dv0))
            if not d.items: m = SMap(kty, lambda x: z3.BoolVal(False), lambda x: dv0, d.default, ty_of(dv0))
            else: m = eng.to_smap(d, None, kty)
            eng.wr(o, eng.map_put(m, k, dv0))
            return CRef(o.root, o.path + (k,)) if isinstance(dv0, CONT) else dv0
        dv0 = eng.coerce(eng.deref(dv), d.vty)
        eng.log("w", o.root, o.path, "setdefault", (k, dv0))
        c = zbool(d.dom(k))
        cur = d.get(k)
        new = dv0 if cur is _NOVAL else eng.ite(c, cur, dv0)
        eng.wr(o, eng.map_put(d, k, new))
        if isinstance(new, CONT): return CRef(o.root, o.path + (k,))
        return new
    if name == "pop":
        _need(o)
        k = args[0]
        if isinstance(d, CDict):
            for i, (a, b) in enumerate(d.items):
                if eng.branch(eng.eq(a, k)):
                    eng.log("ra", o.root, o.path)
                    _wlog(eng, o, "replace", None)
                    eng.wr(o, CDict(d.items[:i] + d.items[i + 1:], d.default))
                    return b
            if len(args) > 1: return args[1]
            raise PyRaise(KeyError)
        eng.log("rk", o.root, o.path, k)
        c = zbool(d.dom(k))
        if len(args) > 1:
            if not eng.branch(c): return args[1]
        else: eng.raise_if(znot(c), PyRaise(KeyError))
        v = d.get(k)
        kty = d.kty
        eng.log("w", o.root, o.path, "del", (k,))
        eng.wr(o, SMap(kty, lambda x: zand(znot(eng.eqz(x, k, kty)), zbool(d.dom(x))), d.get, d.default, d.vty))
        return v
    if name == "update":
        _need(o)
        src = eng.deref(args[0]) if args else CDict()
        if isinstance(src, (Iterable, SBag, CList)): src = eng.to_dict(eng.iterate(src))
        items = list(src.items) if isinstance(src, CDict) else None
        if items is not None: items += list(kw.items())
        if isinstance(d, CDict) and items is not None:
            cur = list(d.items)
            for k, v in items: cur = eng.cdict_put(cur, k, v)
            eng.log("ra", o.root, o.path)
            _wlog(eng, o, "replace", None)
            eng.wr(o, CDict(cur, d.default))
            return None
        if items is not None:
            for k, v in items: eng.setitem(o, k, v)
            return None
        eng.log("ra", o.root, o.path)
        _wlog(eng, o, "replace", None)
        eng.wr(o, eng.map_over(d, src))
        return None
    if name == "copy":
        if isinstance(o, CRef): eng.log("ra", o.root, o.path)
        return eng.alloc(d)
    if name == "clear":
        _need(o)
        eng.log("ra", o.root, o.path)
        _wlog(eng, o, "replace", None)
        if isinstance(d, CDict): eng.wr(o, CDict((), d.default))
        else: eng.wr(o, SMap(d.kty, lambda k: z3.BoolVal(False), d.get, d.default, d.vty))
        return None
    if name == "__getitem__": return eng.getitem(o, args[0])
    if name == "__contains__": return _b(eng.mem(o, args[0]))
    raise Unsupported(f"dict.{name}")


def _b(x):
    return x if isinstance(x, bool) else Sym(x, TBool())


def set_method(eng, o, d, name, args, kw):
    if name == "add":
        _need(o)
        x = args[0]
        eng.step_at(x)
        _wlog(eng, o, "add", (x,))
        if isinstance(d, FSet): eng.wr(o, FSet(d.items + ((True, x),)))
        else:
            if isinstance(x, Opt) and not isinstance(d.kty, TOpt): x = eng.force(x)
            eng.wr(o, SSet(d.kty, lambda k: zor(eng.eqz(k, x, d.kty), zbool(d.mem(k)))))
        return None
    if name in ("discard", "remove"):
        _need(o)
        x = args[0]
        if name == "remove":
            eng.log("rk", o.root, o.path, x)
            c = eng.mem(d, x)
            eng.raise_if(znot(zbool(c)), PyRaise(KeyError))
        _wlog(eng, o, "discard", (x,))
        if isinstance(d, FSet):
            eng.wr(o, FSet([(eng.andg(g, znot(zbool(eng.eq(y, x)))), y) for g, y in d.items if eng.eq(y, x) is not True]))
        else:
            eng.wr(o, SSet(d.kty, lambda k: zand(znot(eng.eqz(k, x, d.kty)), zbool(d.mem(k)))))
        return None
    if name == "update":
        _need(o)
        for a in args:
            parts = eng.iterate(a)
            _wlog(eng, o, "update", (Iterable(parts),))
            s = eng.deref(a)
            if not isinstance(s, (FSet, SSet)): s = eng.to_set(parts)
            eng.wr(o, eng.set_op(ast.BitOr(), eng.rd(o), s))
        return None
    if isinstance(o, CRef): eng.log("ra", o.root, o.path)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}[name]()
        r = d
        for a in args: r = eng.set_op(op, r, eng.as_set(a))
        return eng.alloc(r)
    if name in ("intersection_update", "difference_update"):
        _need(o)
        op = ast.BitAnd() if name == "intersection_update" else ast.Sub()
        r = d
        for a in args: r = eng.set_op(op, r, eng.as_set(a))
        _wlog(eng, o, "replace", None)
        eng.wr(o, r)
        return None
    if name == "issubset": return _b(eng.subset(d, eng.as_set(args[0])))
    if name == "issuperset": return _b(eng.subset(eng.as_set(args[0]), d))
    if name == "isdisjoint":
        t = eng.truth(eng.set_op(ast.BitAnd(), d, eng.as_set(args[0])))
        return (not t) if isinstance(t, bool) else Sym(znot(t), TBool())
    if name == "copy": return eng.alloc(d)
    if name == "clear":
        _need(o)
        _wlog(eng, o, "replace", None)
        eng.wr(o, FSet() if isinstance(d, FSet) else SSet(d.kty, lambda k: z3.BoolVal(False)))
        return None
    if name == "pop":
        _need(o)
        c = eng.truth(d)
        eng.raise_if(znot(zbool(c)), PyRaise(KeyError))
        if isinstance(d, FSet):
            its = eng.iterate(d)
            if len(its) == 1 and its[0].guard is True:
                _wlog(eng, o, "replace", None)
                eng.wr(o, FSet())
                return its[0].val
            raise Unsupported("set.pop")
        k = eng.mk(d.kty, f"popped{next(eng.fresh_no)}", eng.bound)
        eng.fact(zbool(d.mem(k)))
        _wlog(eng, o, "replace", None)
        eng.wr(o, SSet(d.kty, lambda x: zand(znot(eng.eqz(x, k, d.kty)), zbool(d.mem(x)))))
        eng.taint("arbitrary popped element")
        return k
    raise Unsupported(f"set.{name}")


def str_method(eng, d, name, args, kw):
    if isinstance(d, str) and _conc(eng, *args):
        return eng.native(getattr(d, name)(*args, **kw))
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold"):
        return Sym(eng.func("str." + name, StrSort, StrSort)(term(d)), TStr())
    if name in ("startswith", "endswith"):
        return Sym(eng.func("str." + name, StrSort, StrSort, z3.BoolSort())(term(d), term(args[0])), TBool())
    if name == "join" and len(args) == 1:
        x = eng.deref(args[0]) if isinstance(args[0], CRef) else args[0]
        if isinstance(x, CList) and all(isinstance(y, (Sym, str)) for y in x.items):
            ts = [term(d)] + [term(y) for y in x.items]
            return Sym(eng.func(f"join{len(x.items)}", *[StrSort] * len(ts), StrSort)(*ts), TStr())
    if name in ("format", "join"): return Opaque("formatted string")
    raise Unsupported(f"str.{name}")


# ------------------------------------------------------------------- sorting
def sort_items(eng, items, key, reverse):
    r = sorted_value(eng, [One(True, x) for x in items], key, reverse)
    return r


def sorted_value(eng, parts, key, reverse):
    if all(isinstance(p, One) and p.guard is True for p in parts):
        items = [p.val for p in parts]
        if len(items) <= 1: return CList(items)
        keys = [eng.call(key, [x], {}) if key is not None else x for x in items]
        if len(items) <= 5 or all(eng.is_conc(k) for k in keys):
            # insertion sort by branching
            if isinstance(reverse, V): raise Unsupported("symbolic reverse")
            out = []
            for x, k in zip(items, keys):
                pos = len(out)
                while pos > 0:
                    kk = out[pos - 1][1]
                    c = eng.compare(ast.Lt(), k, kk) if not reverse else eng.compare(ast.Gt(), k, kk)
                    if not eng.branch(c): break
                    pos -= 1
                out.insert(pos, (x, k))
            return CList([x for x, _ in out])
    # a permutation, sorted by key
    if len(parts) == 1 and isinstance(parts[0], SIter) and not isinstance(reverse, V):
        p = parts[0]
        q = SIter(lambda: (lambda r: (r[0], r[1], r[2], None))(p.fresh()), False)
        bag = SBag([q])
        n0 = len(eng.st.taint)
        seq = eng.bag_seq(bag)
        del eng.st.taint[n0:]
        kf = (lambda x: x) if key is None else (lambda x: eng.call(key, [x], {}))
        i, j = fresh_int("i"), fresh_int("j")
        ki = eng.under([i, j], lambda: eng.pure_call(kf, seq.get(i), [], None))
        kj = eng.under([i, j], lambda: eng.pure_call(kf, seq.get(j), [], None))
        if isinstance(ki, tuple) and len(ki) == len(kj) and any(isinstance(ty_of(x), TRef) for x in ki[1:]):
            # objects without an order: fine as long as the components before them are never equal
            m = next(n for n, x in enumerate(ki) if n and isinstance(ty_of(x), TRef))
            ki, kj = ki[:m], kj[:m]
            if eng.branch(zexists([i, j], z3.And(0 <= i, i < j, j < seq.n, zbool(eng.eq(ki, kj))))): raise PyRaise(TypeError, "'<' not supported between instances")
        c = eng.compare(ast.GtE() if reverse else ast.LtE(), ki, kj)
        eng.fact(zforall([i, j], zimp(z3.And(0 <= i, i < j, j < seq.n), zbool(c))))
        eng.taint("order of equal keys")
        return seq
    eng.taint("order of sorted elements")
    return SBag(eng.guard_parts(parts, z3.BoolVal(True)))


# ------------------------------------------------------------------ builtins
def m_np_zeros(eng, a, kw):
    sh = eng.force(a[0])
    if not isinstance(sh, tuple) or len(sh) != 2: raise Unsupported("np.zeros")
    h, w = term(eng.force(sh[0]), TInt()), term(eng.force(sh[1]), TInt())
    eng.raise_if(z3.Or(h < 0, w < 0), PyRaise(ValueError, "negative dimensions"))
    return eng.alloc(SGrid(h, w, lambda j, i: z3.RealVal(0)))


def m_np_array(eng, a, kw):
    v = eng.deref(a[0])
    rows = [eng.deref(x) for x in v.items] if isinstance(v, CList) else None
    if rows and all(isinstance(r, CList) and len(r.items) == 1 for r in rows) and len(rows) == 1:
        x = term(eng.force(rows[0].items[0]), TReal())
        return eng.alloc(SGrid(z3.IntVal(1), z3.IntVal(1), lambda j, i: x))
    raise Unsupported("np.array")


def m_len(eng, a, kw):
    v = eng.force(a[0])
    if isinstance(eng.deref(v), SGrid): return Sym(eng.deref(v).h, TInt())
    if v is None: raise PyRaise(TypeError, "len of None")
    if isinstance(v, CRef): eng.log("readall", v.root, v.path)
    if isinstance(v, ObjV): return eng.call(eng.getattr(v, "__len__"), [], {})
    return eng.count(v)


def m_any(eng, a, kw):
    r = []
    for p in eng.iterate(a[0]):
        if isinstance(p, One): r.append(eng.andg(p.guard, eng.truth(p.val)))
        else:
            bs, g, e, _ = p.fresh()
            r.append(zexists(bs, zand(g, zbool(eng.truth(e)))))
    return _b(eng.anyz(r))


def m_all(eng, a, kw):
    r = []
    for p in eng.iterate(a[0]):
        if isinstance(p, One):
            t = eng.truth(p.val)
            if p.guard is True: r.append(t)
            else: r.append(zimp(zbool(p.guard), zbool(t)))
        else:
            bs, g, e, _ = p.fresh()
            r.append(zforall(bs, zimp(g, zbool(eng.truth(e)))))
    return _b(eng.allz(r))


def m_sum(eng, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    r = eng.sum_parts(eng.iterate(a[0]), lambda x: eng.force(x) if isinstance(x, (Opt,)) else x)
    return r if start == 0 and not isinstance(start, V) else eng.binop(ast.Add(), start, r)


def m_minmax(is_max):
    def h(eng, a, kw):
        key = kw.get("key")
        kf = None if key is None else (lambda x: eng.call(key, [x], {}))
        if len(a) > 1: parts = [One(True, eng.force(x)) for x in a]
        else: parts = eng.iterate(a[0])
        return eng.extremum(parts, is_max, kf, kw.get("default"), "default" in kw, "max" if is_max else "min")
    return h


def m_sorted(eng, a, kw):
    return eng.alloc(sorted_value(eng, eng.iterate(a[0]), kw.get("key"), kw.get("reverse", False)))


def m_list(eng, a, kw):
    if not a: return eng.alloc(CList())
    v = eng.deref(eng.force(a[0]))
    if isinstance(a[0], CRef): eng.log("readall", a[0].root, a[0].path)
    if isinstance(v, (CList, SSeq, SBag)): return eng.alloc(v)
    parts = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True for p in parts): return eng.alloc(CList([p.val for p in parts]))
    return eng.alloc(SBag(parts))


def m_tuple(eng, a, kw):
    if not a: return ()
    parts = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True for p in parts): return tuple(p.val for p in parts)
    raise Unsupported("tuple of symbolic length")


def m_set(eng, a, kw):
    if not a: return eng.alloc(FSet())
    v = eng.deref(eng.force(a[0]))
    if isinstance(v, (FSet, SSet)):
        eng.iterate(a[0])
        return eng.alloc(v)
    if isinstance(v, SMap):
        eng.iterate(a[0])
        return eng.alloc(SSet(v.kty, v.dom))
    return eng.alloc(eng.to_set(eng.iterate(a[0])))


def m_dict(eng, a, kw):
    if not a: return eng.alloc(CDict(list(kw.items())))
    v = eng.deref(eng.force(a[0]))
    if isinstance(v, (CDict, SMap)):
        eng.iterate(a[0])
        if isinstance(v, CDict) and kw:
            its = list(v.items)
            for k, x in kw.items(): its = eng.cdict_put(its, k, x)
            return eng.alloc(CDict(its))
        return eng.alloc(v)
    return eng.alloc(eng.to_dict(eng.iterate(a[0])))


def m_defaultdict(eng, a, kw):
    f = a[0] if a else None
    items = ()
    if len(a) > 1: items = eng.deref(a[1]).items
    return eng.alloc(CDict(items, f))


def m_range(eng, a, kw):
    if _conc(eng, *a): return Iterable([One(True, i) for i in range(*a)], "range") if len(range(*a)) <= 4096 else range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2] if len(a) > 2 else 1
    if isinstance(st, Sym) or st > 1:
        l, h, k = term(eng.force(lo), TInt()), term(eng.force(hi), TInt()), term(st, TInt())
        eng.raise_if(k == 0, PyRaise(ValueError, "range() arg 3 must not be zero"))
        if eng.feasible(k < 0): raise Unsupported("range step")

        def stepped():
            i = fresh_int("i")
            return [i], z3.And(i >= 0, l + i * k < h), Sym(z3.simplify(l + i * k), TInt()), i
        s = SIter(stepped, True)
        s.dense = True
        return Iterable([s], "range")
    if isinstance(st, V) or st not in (1, -1): raise Unsupported("range step")
    l, h = term(eng.force(lo), TInt()), term(eng.force(hi), TInt())

    def fresh():
        i = fresh_int("i")
        if st == 1: return [i], z3.And(i >= l, i < h), Sym(i, TInt()), z3.simplify(i - l)
        return [i], z3.And(i >= 0, i < l - h), Sym(z3.simplify(l - i), TInt()), i
    s = SIter(fresh, True)
    s.dense = True
    s.n = z3.simplify(z3.If(h > l, h - l, 0) if st == 1 else z3.If(l > h, l - h, 0))
    return Iterable([s], "range")


def _seq_parts(eng, v):
    return eng.iterate(v)


def m_enumerate(eng, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    parts = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True for p in parts):
        return Iterable([One(True, (eng.binop(ast.Add(), start, i), p.val)) for i, p in enumerate(parts)])
    if len(parts) == 1 and isinstance(parts[0], SIter):
        p = parts[0]
        bs, g, e, idx = p.fresh()
        if p.ordered and idx is not None and len(bs) == 1 and offset(bs[0], idx) is not None:
            # positions of a sequence
            v = eng.deref(a[0])
            dense = isinstance(v, SSeq) or getattr(p, "dense", False)
            if dense:
                def fresh():
                    bs, g, e, idx = p.fresh()
                    return bs, g, (eng.binop(ast.Add(), start, Sym(idx, TInt())), e), idx
                s = SIter(fresh, True)
                s.dense = True
                return Iterable([s])
        seq = eng.bag_seq(SBag(parts))

        def fresh2():
            i = fresh_int("i")
            return [i], z3.And(i >= 0, i < seq.n), (eng.binop(ast.Add(), start, Sym(i, TInt())), seq.get(i)), i
        s = SIter(fresh2, True)
        s.dense = True
        return Iterable([s])
    raise Unsupported("enumerate")


def m_zip(eng, a, kw):
    ps = [eng.iterate(x) for x in a]
    if all(isinstance(p, One) and p.guard is True for q in ps for p in q):
        return Iterable([One(True, tuple(x.val for x in t)) for t in zip(*ps)])
    seqs = []
    for x, q in zip(a, ps):
        v = eng.deref(x)
        if isinstance(v, (CList, SSeq, SBag)): seqs.append(eng.to_seq(v))
        else: seqs.append(eng.bag_seq(SBag(q)))

    def fresh():
        i = fresh_int("i")
        return [i], zand(i >= 0, *[i < s.n for s in seqs]), tuple(s.get(i) for s in seqs), i
    s = SIter(fresh, True)
    s.dense = True
    return Iterable([s])


def m_map(eng, a, kw):
    if len(a) != 2: raise Unsupported("map with several iterables")
    return Iterable(eng.map_iter(eng.iterate(a[1]), lambda x: eng.call(a[0], [x], {})))


def m_filter(eng, a, kw):
    f = a[0]
    return Iterable(eng.map_iter(eng.iterate(a[1]), lambda x: x,
                                 lambda x: eng.truth(x if f is None else eng.call(f, [x], {}))))


def m_chain(eng, a, kw):
    return Iterable([p for x in a for p in eng.iterate(x)])


def m_product(eng, a, kw):
    ps = [eng.iterate(x) for x in a]
    if all(isinstance(p, One) and p.guard is True for q in ps for p in q):
        return Iterable([One(True, tuple(x.val for x in t)) for t in _it.product(*ps)])
    if len(a) == 2:
        return Iterable(eng.flat_parts(ps[0], lambda x: eng.map_iter(ps[1], lambda y: (x, y))))
    raise Unsupported("product")


def m_combinations(eng, a, kw):
    ps = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True for p in ps):
        return Iterable([One(True, tuple(x.val for x in t)) for t in _it.combinations(ps, a[1])])
    if a[1] == 2:
        seq = eng.bag_seq(SBag(ps)) if not isinstance(eng.deref(a[0]), SSeq) else eng.deref(a[0])

        def fresh():
            i, j = fresh_int("i"), fresh_int("j")
            return [i, j], zand(i >= 0, i < j, j < seq.n), (seq.get(i), seq.get(j)), None
        return Iterable([SIter(fresh)])
    raise Unsupported("combinations")


def m_reversed(eng, a, kw):
    v = eng.deref(a[0])
    parts = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True for p in parts): return Iterable(parts[::-1])
    if isinstance(v, (SSeq, SBag)):
        s = eng.to_seq(v)

        def fresh():
            i = fresh_int("i")
            return [i], z3.And(i >= 0, i < s.n), s.get(s.n - 1 - i), i
        q = SIter(fresh, True)
        q.dense = True
        return Iterable([q])
    raise Unsupported("reversed")


def m_next(eng, a, kw):
    parts = eng.iterate(a[0])
    if parts and isinstance(parts[0], One) and parts[0].guard is True: return parts[0].val
    if all(isinstance(p, One) for p in parts):
        for p in parts:
            if eng.branch(p.guard): return p.val
        if len(a) > 1: return a[1]
        raise PyRaise(StopIteration)
    if len(parts) == 1:
        p = parts[0]
        bs, g, e, idx = p.fresh()
        if not eng.branch(zexists(bs, g)):
            if len(a) > 1: return a[1]
            raise PyRaise(StopIteration)
        w = [eng.fresh(b.sort(), "nx") for b in bs]
        pr = list(zip(bs, w))
        eng.fact(z3.substitute(g, *pr))
        if idx is not None and p.ordered: eng.fact(zforall(bs, zimp(g, idx >= z3.substitute(idx, *pr))))
        else: eng.taint("arbitrary first element")
        return subst_v(eng, e, pr)
    raise Unsupported("next")


def m_iter(eng, a, kw): return Iterable(eng.iterate(a[0]))


def m_abs(eng, a, kw):
    v = _num(eng, a[0])
    if not isinstance(v, V): return abs(v)
    t = term(v)
    if isinstance(v.ty, TBool): t = term(v, TInt())
    return Sym(z3.If(t >= 0, t, -t), v.ty if not isinstance(v.ty, TBool) else TInt())


def m_round(eng, a, kw):
    v = _num(eng, a[0])
    nd = a[1] if len(a) > 1 else kw.get("ndigits")
    if _conc(eng, v, nd): return round(v, nd) if nd is not None else round(v)
    if isinstance(v.ty, TInt): return v
    x = term(v, TReal())
    if nd is None:
        r = eng.func("round", z3.RealSort(), z3.IntSort())(x)
        d = x - z3.ToReal(r)
        half = z3.RealVal("1/2")
        eng.fact(zand(d <= half, d >= -half))
        eng.fact(zimp(zor(d == half, d == -half), r % 2 == 0))
        return Sym(r, TInt())
    if isinstance(nd, V): raise Unsupported("symbolic ndigits")
    eng.taint("decimal rounding")
    f = eng.func(f"round{nd}", z3.RealSort(), z3.RealSort())
    sc = z3.RealVal(10 ** abs(nd)) if nd >= 0 else z3.RealVal(1) / z3.RealVal(10 ** -nd)
    r = f(x)
    k = eng.fresh(z3.IntSort(), "rk")
    eng.fact(zand(r * sc == z3.ToReal(k), 2 * (x - r) * sc <= 1, 2 * (x - r) * sc >= -1))
    return Sym(r, TReal())


def m_int(eng, a, kw):
    if not a: return 0
    v = _num(eng, a[0])
    if not isinstance(v, V):
        try: return int(*[eng.force(x) for x in a])
        except Exception as e: raise PyRaise(type(e), str(e))
    if isinstance(v.ty, TInt): return v
    if isinstance(v.ty, TBool): return Sym(term(v, TInt()), TInt())
    if isinstance(v.ty, TReal):
        x = v.t
        return Sym(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), TInt())
    if isinstance(v.ty, TStr):
        ok = eng.func("str.is_int", StrSort, z3.BoolSort())(v.t)
        eng.raise_if(znot(ok), PyRaise(ValueError))
        return Sym(eng.func("str.to_int", StrSort, z3.IntSort())(v.t), TInt())
    raise Unsupported("int()")


def m_float(eng, a, kw):
    if not a: return 0.0
    v = eng.force(a[0])
    if v is None: raise PyRaise(TypeError)
    if not isinstance(v, V):
        try: return float(v)
        except Exception as e: raise PyRaise(type(e), str(e))
    if isinstance(v.ty, (TInt, TBool, TReal)): return Sym(term(v, TReal()), TReal())
    if isinstance(v.ty, TStr):
        ok = eng.func("str.is_float", StrSort, z3.BoolSort())(v.t)
        eng.raise_if(znot(ok), PyRaise(ValueError))
        return Sym(eng.func("str.to_float", StrSort, z3.RealSort())(v.t), TReal())
    raise Unsupported("float()")


def m_bool(eng, a, kw):
    if not a: return False
    return _b(eng.truth(a[0]))


def m_str(eng, a, kw):
    if not a: return ""
    v = eng.force(a[0])
    if not isinstance(v, V) and not isinstance(v, tuple): return str(v)
    if isinstance(v, Sym):
        if isinstance(v.ty, TStr): return v
        return Sym(eng.func("str_of", v.t.sort(), StrSort)(v.t), TStr())
    return Opaque("str()")


def isinst(eng, v, c):
    if isinstance(c, tuple): return eng.anyz([isinst(eng, v, x) for x in c])
    org = typing.get_origin(c)
    if org is not None: c = org
    if not isinstance(c, type): raise Unsupported(f"isinstance against {c}")
    v = eng.deref(v)
    if c is object: return True
    if v is None: return c is type(None)
    if isinstance(v, Opt):
        return zand(znot(v.none), zbool(isinst(eng, v.val, c))) if c is not type(None) else v.none
    if isinstance(v, Sym):
        t = v.ty
        if isinstance(t, TBool): return c in (bool, int)
        if isinstance(t, TInt): return c is int
        if isinstance(t, TReal): return c is float
        if isinstance(t, TStr): return c is str
        if isinstance(t, TEnum): return issubclass(t.cls, c)
        if isinstance(t, TRef):
            if issubclass(t.cls, c): return True
            if issubclass(c, t.cls): return eng.func("isa_" + c.__name__, ref_sort(t.cls), z3.BoolSort())(v.t)
            return False
        raise Unsupported(f"isinstance of {t}")
    if isinstance(v, XR): return c is float
    if isinstance(v, (CList, SSeq, SBag)): return issubclass(list, c)
    if isinstance(v, (CDict, SMap)): return issubclass(dict, c)
    if isinstance(v, (FSet, SSet)): return issubclass(set, c)
    if isinstance(v, (ObjV, Rec)): return issubclass(v.cls, c)
    if isinstance(v, V): raise Unsupported(f"isinstance of {type(v).__name__}")
    return isinstance(v, c)


def m_isinstance(eng, a, kw): return _b(isinst(eng, a[0], a[1]))


def m_issubclass(eng, a, kw): return issubclass(a[0], a[1])


def m_hasattr(eng, a, kw):
    o = eng.force(a[0])
    if isinstance(o, ObjV):
        return ("o", o.loc, a[1]) in eng.st.store or inspect.getattr_static(o.cls, a[1], None) is not None
    if isinstance(o, V): raise Unsupported("hasattr")
    return hasattr(o, a[1])


def m_getattr(eng, a, kw):
    try: return eng.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError): return a[2]
        raise


def m_setattr(eng, a, kw): eng.setattr(a[0], a[1], a[2])


def m_none_throws(eng, a, kw):
    v = a[0]
    if isinstance(v, Opt):
        eng.raise_if(v.none, PyRaise(AssertionError, "none_throws"))
        return v.val
    if v is None: raise PyRaise(AssertionError, "none_throws")
    return v


def m_cast(eng, a, kw): return a[1]


def m_partial(eng, a, kw): return PartialV(a[0], a[1:], kw)


def m_print(eng, a, kw): return None


def m_hash(eng, a, kw):
    v = a[0]
    if isinstance(v, V) or isinstance(v, tuple):
        ts = flat(v)
        f = eng.func("hash", *[t.sort() for t in ts], z3.IntSort())
        eng.taint("hash")
        return Sym(f(*ts), TInt())
    raise Unsupported("hash of a concrete value")


def m_id(eng, a, kw): raise Unsupported("id()")


def m_copy(eng, a, kw):
    v = a[0]
    d = eng.deref(v)
    if isinstance(v, CRef): return eng.alloc(d)
    if not isinstance(d, V): return copy.copy(d)
    if isinstance(d, (Sym, Rec, Opt)) and not (isinstance(d, Sym) and isinstance(d.ty, TRef)): return d
    raise Unsupported("copy")


# ------------------------------------------------------------------- math
def _uf1(name, pre=None, post=None, exc=ValueError, taint=True):
    pyf = getattr(math, name)

    def h(eng, a, kw):
        v = _num(eng, a[0])
        if not isinstance(v, V):
            try: return pyf(v)
            except Exception as e: raise PyRaise(type(e), str(e))
        x = term(v, TReal())
        if pre is not None: eng.raise_if(znot(pre(x)), PyRaise(exc, name))
        f = eng.func(name, z3.RealSort(), z3.RealSort())
        r = f(x)
        if taint: eng.taint(name)
        if post is not None:
            for t in post(eng, x, r): eng.fact(t)
        return Sym(r, TReal())
    return h


PI = realval(math.pi)


def _log10_post(eng, x, r):
    p = eng.func("pow10", z3.RealSort(), z3.RealSort())
    return [p(r) == x, zimp(x >= 1, r >= 0), zimp(x <= 1, r <= 0)]


m_sqrt = _uf1("sqrt", lambda x: x >= 0, lambda e, x, r: [r >= 0, r * r == x], taint=False)
m_log10 = _uf1("log10", lambda x: x > 0, _log10_post)
m_log = _uf1("log", lambda x: x > 0, lambda e, x, r: [zimp(x >= 1, r >= 0), zimp(x <= 1, r <= 0)])
m_exp = _uf1("exp", None, lambda e, x, r: [r > 0])
m_sin = _uf1("sin", None, lambda e, x, r: [r <= 1, r >= -1])
m_cos = _uf1("cos", None, lambda e, x, r: [r <= 1, r >= -1])
m_tan = _uf1("tan")
m_asin = _uf1("asin", lambda x: z3.And(x >= -1, x <= 1), lambda e, x, r: [r <= PI / 2, r >= -PI / 2, zimp(x >= 0, r >= 0), zimp(x <= 0, r <= 0)])
m_acos = _uf1("acos", lambda x: z3.And(x >= -1, x <= 1), lambda e, x, r: [r >= 0, r <= PI])
m_atan = _uf1("atan", None, lambda e, x, r: [r < PI / 2, r > -PI / 2, (x > 0) == (r > 0), (x == 0) == (r == 0)])


_m_ln = m_log


def m_log(eng, a, kw):
    if len(a) > 1:
        if a[1] == 10 and not isinstance(a[1], V): return m_log10(eng, a[:1], kw)
        if _conc(eng, *a): return eng.call_native(math.log, a, kw)
        raise Unsupported("logarithm base")
    return _m_ln(eng, a, kw)


def m_radians(eng, a, kw):
    v = _num(eng, a[0])
    if not isinstance(v, V): return math.radians(v)
    return Sym(term(v, TReal()) * PI / 180, TReal())


def m_degrees(eng, a, kw):
    v = _num(eng, a[0])
    if not isinstance(v, V): return math.degrees(v)
    return Sym(term(v, TReal()) * 180 / PI, TReal())


def m_atan2(eng, a, kw):
    y, x = _num(eng, a[0]), _num(eng, a[1])
    if _conc(eng, x, y): return math.atan2(y, x)
    f = eng.func("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    yt, xt = term(y, TReal()), term(x, TReal())
    r = f(yt, xt)
    eng.taint("atan2")
    eng.fact(zand(r <= PI, r >= -PI, zimp(yt > 0, r > 0), zimp(yt < 0, r < 0), zimp(zand(yt == 0, xt >= 0), r == 0), zimp(xt >= 0, zand(2 * r <= PI, 2 * r >= -PI))))
    return Sym(r, TReal())


def m_floor(eng, a, kw):
    v = _num(eng, a[0])
    if not isinstance(v, V): return math.floor(v)
    if isinstance(v.ty, TInt): return v
    return Sym(z3.ToInt(term(v, TReal())), TInt())


def m_ceil(eng, a, kw):
    v = _num(eng, a[0])
    if not isinstance(v, V): return math.ceil(v)
    if isinstance(v.ty, TInt): return v
    return Sym(-z3.ToInt(-term(v, TReal())), TInt())


def m_isclose(eng, a, kw):
    x, y = _num(eng, a[0]), _num(eng, a[1])
    if _conc(eng, x, y): return math.isclose(x, y, **kw)
    rt, at = kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)
    xa, ya = term(x, TReal()), term(y, TReal())
    ab = lambda t: z3.If(t >= 0, t, -t)
    d = ab(xa - ya)
    return Sym(zor(d <= realval(at), d <= realval(rt) * ab(xa), d <= realval(rt) * ab(ya)), TBool())


def m_isfin(kind):
    def h(eng, a, kw):
        v = a[0]
        if isinstance(v, Opt): v = eng.force(v)
        if isinstance(v, XR):
            t = v.tag
            return Sym({"isnan": t == 2, "isinf": z3.Or(t == 1, t == -1), "isfinite": t == 0}[kind], TBool())
        if isinstance(v, Sym): return kind == "isfinite"
        if v is None: raise PyRaise(TypeError)
        return getattr(math, kind)(v)
    return h


def m_fabs(eng, a, kw):
    v = m_abs(eng, a, kw)
    return m_float(eng, [v], {})


def m_pow(eng, a, kw): return eng.binop(ast.Pow(), a[0], a[1])


def m_hypot(eng, a, kw):
    x, y = _num(eng, a[0]), _num(eng, a[1])
    if _conc(eng, x, y): return math.hypot(x, y)
    return m_sqrt(eng, [eng.binop(ast.Add(), eng.binop(ast.Mult(), x, x), eng.binop(ast.Mult(), y, y))], {})


def m_counter(eng, a, kw):
    """how often each element occurs; absent ones 0 times"""
    if kw or len(a) > 1: raise Unsupported("Counter with keywords")
    if not a: return eng.alloc(CDict([], int))
    v = eng.deref(eng.force(a[0]))
    if isinstance(v, (CDict, SMap)): raise Unsupported("Counter of a mapping")
    parts = eng.iterate(a[0])
    if all(isinstance(p, One) and p.guard is True and not isinstance(p.val, V) for p in parts): return eng.alloc(CDict(list(collections.Counter(p.val for p in parts).items()), int))
    rows = []
    for p in parts:
        if isinstance(p, One): rows.append(([], zbool(p.guard), p.val))
        else:
            bs, g, e, _ = p.fresh()
            rows.append((bs, g, e))
    kty = ty_of(rows[0][2])
    if kty is None: raise Unsupported("Counter of unknown elements")

    def dom(k): return zor(*[zexists(bs, zand(g, eng.eqz(e, k, kty))) for bs, g, e in rows])

    def get(k):
        tot = 0
        for bs, g, e in rows:
            hit = zand(g, eng.eqz(e, k, kty))
            x = eng.ite(hit, 1, 0) if not bs else eng.sum_term(bs, hit, 1)
            tot = x if isinstance(tot, int) and tot == 0 else eng.binop(ast.Add(), tot, x)
        return tot
    return eng.alloc(SMap(kty, dom, get, int, TInt()))


MODELS = {
    collections.Counter: m_counter,
    len: m_len, any: m_any, all: m_all, sum: m_sum, min: m_minmax(False), max: m_minmax(True), sorted: m_sorted,
    list: m_list, tuple: m_tuple, set: m_set, frozenset: m_set, dict: m_dict, defaultdict: m_defaultdict,
    range: m_range, enumerate: m_enumerate, zip: m_zip, map: m_map, filter: m_filter, reversed: m_reversed,
    next: m_next, iter: m_iter, abs: m_abs, round: m_round, int: m_int, float: m_float, bool: m_bool, str: m_str,
    isinstance: m_isinstance, issubclass: m_issubclass, hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr,
    print: m_print, hash: m_hash, id: m_id, pow: m_pow, collections.deque: m_list,
    math.sqrt: m_sqrt, math.log10: m_log10, math.log: m_log, math.exp: m_exp, math.sin: m_sin, math.cos: m_cos,
    math.tan: m_tan, math.asin: m_asin, math.acos: m_acos, math.atan: m_atan, math.atan2: m_atan2,
    math.radians: m_radians, math.degrees: m_degrees, math.floor: m_floor, math.ceil: m_ceil, math.isclose: m_isclose,
    math.isnan: m_isfin("isnan"), math.isinf: m_isfin("isinf"), math.isfinite: m_isfin("isfinite"),
    math.fabs: m_fabs, math.pow: m_pow, math.hypot: m_hypot,
    _it.chain: m_chain, _it.product: m_product, _it.combinations: m_combinations,
    typing.cast: m_cast, functools.partial: m_partial, copy.copy: m_copy,
}
def m_fromiter(eng, a, kw):
    return m_list(eng, [a[0]], {})


def m_interp(eng, a, kw):
    x = _num(eng, a[0])
    xs, ys = eng.deref(a[1]), eng.deref(a[2])
    if not (isinstance(xs, CList) and isinstance(ys, CList)) or not all(_conc(eng, v) for v in xs.items + ys.items):
        raise Unsupported("np.interp over a symbolic table")
    px, py = [realval(v) for v in xs.items], [term(v, TReal()) for v in ys.items]
    if list(xs.items) != sorted(xs.items): raise Unsupported("np.interp over unsorted abscissae")
    t = term(x, TReal())
    left = term(kw.get("left", ys.items[0]), TReal())
    right = term(kw.get("right", ys.items[-1]), TReal())
    r = right
    r = z3.If(t == px[-1], py[-1], r)
    for i in range(len(px) - 2, -1, -1):
        r = z3.If(t < px[i + 1], py[i] + (py[i + 1] - py[i]) * (t - px[i]) / (px[i + 1] - px[i]), r)
    r = z3.If(t < px[0], left, r)
    return Sym(r, TReal())


try:
    import numpy as _np
    MODELS[_np.interp] = m_interp
    MODELS[_np.fromiter] = m_fromiter
    MODELS[_np.zeros] = m_np_zeros
    MODELS[_np.array] = m_np_array
    for _n, _h in [("log10", m_log10), ("sqrt", m_sqrt), ("abs", m_abs), ("isnan", m_isfin("isnan")), ("isinf", m_isfin("isinf")),
                   ("floor", m_floor), ("ceil", m_ceil), ("sin", m_sin), ("cos", m_cos), ("radians", m_radians), ("deg2rad", m_radians), ("degrees", m_degrees), ("rad2deg", m_degrees),
                   ("arcsin", m_asin), ("arccos", m_acos), ("arctan", m_atan), ("arctan2", m_atan2), ("exp", m_exp), ("hypot", m_hypot)]:
        MODELS[getattr(_np, _n)] = _h
except ImportError:
    pass
try:
    import pyre_extensions as _pe
    MODELS[_pe.none_throws] = m_none_throws
except ImportError:
    pass
