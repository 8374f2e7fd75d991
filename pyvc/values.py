"""Value domain of the symbolic interpreter.

Concrete Python scalars, enum members, classes, functions and modules are
themselves.  Everything else is one of the classes below.  Container *values*
(CList .. FSet) are immutable snapshots; mutable containers are CRef handles
into the interpreter's store.
"""
import enum
from fractions import Fraction

import z3


class Numbers:
    """numbers for fresh names; a replayed path prefix gets the numbers of its first run"""
    def __init__(self): self.n = self.hi = 0
    def __next__(self):
        n = self.n
        self.n += 1
        return n
    def top(self):
        self.hi = max(self.hi, self.n)
        return self.hi


BOUND_NO = Numbers()
def fresh_const(sort, name="b"): return z3.Const(f"{name}?{next(BOUND_NO)}", sort)
def fresh_int(name="i"): return fresh_const(z3.IntSort(), name)
def fresh_bool(name="b"): return fresh_const(z3.BoolSort(), name)


class Unsupported(Exception):
    """The construct is outside the verifier's reach (a tool limit)."""


# ----------------------------------------------------------------- types
class Ty:
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash((type(self).__name__, str(sorted(self.__dict__.items(), key=lambda x: x[0]))))

    def __repr__(self):
        return type(self).__name__ + "".join(f"[{v}]" for v in self.__dict__.values())


class TInt(Ty): pass
class TReal(Ty): pass
class TBool(Ty): pass
class TStr(Ty): pass
class TXReal(Ty):
    "float that may also be +inf, -inf or nan"
class TNone(Ty): pass


class TEnum(Ty):
    def __init__(s, cls): s.cls = cls
class TRef(Ty):
    def __init__(s, cls): s.cls = cls
class TObj(Ty):
    "a single concrete-shaped instance with symbolic fields"
    def __init__(s, cls): s.cls = cls
class TOpt(Ty):
    def __init__(s, t): s.t = t
class TSeq(Ty):
    def __init__(s, t): s.t = t
class TSet(Ty):
    def __init__(s, t): s.t = t
class TMap(Ty):
    def __init__(s, k, v, default=None): s.k = k; s.v = v; s.default = default
class TTup(Ty):
    def __init__(s, ts): s.ts = tuple(ts)
class TRec(Ty):
    def __init__(s, cls, fields): s.cls = cls; s.fields = tuple(fields)
class TGrid(Ty):
    "two-dimensional array of numbers"
class TFun(Ty):
    "a function without side effects that always returns"
    def __init__(s, args, ret): s.args = tuple(args); s.ret = ret
class TOpaque(Ty):
    "a value the code only passes around"
    def __init__(s, name="Opaque"): s.name = name


StrSort = z3.DeclareSort("Str")
_sorts = {}
_enums = {}


def enum_sort(cls):
    if cls not in _enums:
        ms = list(cls)
        s, cs = z3.EnumSort("E_" + cls.__name__, [f"{cls.__name__}.{m.name}" for m in ms])
        _enums[cls] = (s, dict(zip(ms, cs)))
    return _enums[cls]


def ref_sort(cls):
    name = "R_" + (cls if isinstance(cls, str) else cls.__name__)
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


def sort_of(t):
    if isinstance(t, TInt): return z3.IntSort()
    if isinstance(t, TReal): return z3.RealSort()
    if isinstance(t, TBool): return z3.BoolSort()
    if isinstance(t, TStr): return StrSort
    if isinstance(t, TEnum): return enum_sort(t.cls)[0]
    if isinstance(t, TRef): return ref_sort(t.cls)
    if isinstance(t, TOpaque): return ref_sort(t.name)
    raise Unsupported(f"no scalar sort for {t}")


SCALAR = (TInt, TReal, TBool, TStr, TEnum, TRef, TOpaque)


# ---------------------------------------------------------------- values
class V:
    pass


class Sym(V):
    __slots__ = ("t", "ty")

    def __init__(s, t, ty): s.t = t; s.ty = ty
    def __repr__(s): return f"<{s.ty}:{s.t}>"


class Opt(V):
    def __init__(s, none, val): s.none = none; s.val = val
    def __repr__(s): return f"Opt({s.none},{s.val})"


class XR(V):
    "extended real: tag 0 finite, 1 +inf, -1 -inf, 2 nan"
    def __init__(s, tag, r): s.tag = tag; s.r = r


class FunV(V):
    def __init__(s, name, ty, at): s.name = name; s.ty = ty; s.at = at


class Rec(V):
    def __init__(s, cls, f): s.cls = cls; s.f = dict(f)
    def __repr__(s): return f"{s.cls.__name__}({s.f})"


class ObjV(V):
    "object with identity `loc`; its fields live in the store under ('o', loc, name)"
    def __init__(s, cls, loc): s.cls = cls; s.loc = loc
    def __repr__(s): return f"obj<{s.cls.__name__}#{s.loc}>"


class CRef(V):
    "handle of a mutable container: store root plus path of keys"
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def __repr__(s): return f"ref<{s.root},{s.path}>"


class CList(V):
    def __init__(s, items=()): s.items = tuple(items)
    def __repr__(s): return f"CList{s.items}"


class SSeq(V):
    def __init__(s, n, get, ety=None): s.n = n; s.get = get; s.ety = ety


class SBag(V):
    "list given by iteration parts (order within unordered parts unknown)"
    def __init__(s, parts): s.parts = list(parts); s.seq = None


class CDict(V):
    def __init__(s, items=(), default=None): s.items = tuple(items); s.default = default


class SMap(V):
    def __init__(s, kty, dom, get, default=None, vty=None):
        s.kty = kty; s.dom = dom; s.get = get; s.default = default; s.vty = vty


class SSet(V):
    def __init__(s, kty, mem): s.kty = kty; s.mem = mem


class FSet(V):
    def __init__(s, items=()): s.items = tuple(items)   # (guard, value)


class SGrid(V):
    "two-dimensional array: h rows, w columns, at(row term, column term) -> z3 Real"
    def __init__(s, h, w, at): s.h = h; s.w = w; s.at = at

    def row(s, j): return SSeq(s.w, lambda i: Sym(s.at(j, i), TReal()), TReal())


CONT = (CList, SSeq, SBag, CDict, SMap, SSet, FSet, SGrid)


class SIter(V):
    """Symbolic iterable: fresh() -> (bound z3 consts, guard, element value, index term or None)"""
    def __init__(s, fresh, ordered=False): s.fresh = fresh; s.ordered = ordered


class One(V):
    "a single guarded element of an iteration"
    def __init__(s, guard, val): s.guard = guard; s.val = val


class Iterable(V):
    "lazy iterable (generator, view): list of SIter / One parts"
    def __init__(s, parts, kind="iter"): s.parts = list(parts); s.kind = kind


class Closure(V):
    def __init__(s, node, frame, name, defaults=(), kwdefaults=None, gl=None, qual=""):
        s.node = node; s.frame = frame; s.name = name; s.defaults = defaults
        s.kwdefaults = kwdefaults or {}; s.gl = gl; s.qual = qual


class Bound(V):
    def __init__(s, fn, self_): s.fn = fn; s.self = self_


class SuperV(V):
    def __init__(s, cls, obj): s.cls = cls; s.obj = obj


class Opaque(V):
    "value that must not be inspected (exception message, logger result)"
    def __init__(s, why=""): s.why = why


class PartialV(V):
    def __init__(s, fn, args, kw): s.fn = fn; s.args = args; s.kw = kw


def offset(b, idx):
    "c with idx = b - c, c free of b; None if there is no such term"
    c = z3.simplify(b - idx)
    st, ok = [c], set()
    while st:
        x = st.pop()
        if x.get_id() in ok: continue
        ok.add(x.get_id())
        if x.eq(b): return None
        st.extend(x.children())
    return c


# --------------------------------------------------------------- helpers
_strlits = {}


def strlit(s):
    if s not in _strlits:
        _strlits[s] = z3.Const("str_" + repr(s), StrSort)
    return _strlits[s]


def strlit_axioms():
    cs = list(_strlits.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


def realval(x):
    if isinstance(x, bool): x = int(x)
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, enum.Enum)


def ty_of(v):
    if isinstance(v, Sym): return v.ty
    if isinstance(v, bool): return TBool()
    if isinstance(v, int) and not isinstance(v, enum.Enum): return TInt()
    if isinstance(v, float): return TReal() if v == v and abs(v) != float("inf") else TXReal()
    if isinstance(v, str): return TStr()
    if isinstance(v, enum.Enum): return TEnum(type(v))
    if isinstance(v, Opt): return TOpt(ty_of(v.val))
    if v is None: return TNone()
    if isinstance(v, tuple): return TTup([ty_of(x) for x in v])
    if isinstance(v, Rec): return TRec(v.cls, tuple((k, ty_of(x)) for k, x in v.f.items()))
    if isinstance(v, XR): return TXReal()
    if isinstance(v, SMap): return TMap(v.kty, v.vty, v.default)
    if isinstance(v, SSet): return TSet(v.kty)
    if isinstance(v, SSeq): return TSeq(v.ety)
    if isinstance(v, SGrid): return TGrid()
    return None


def wider(a, b):
    """a type for the values of both, None when there is none"""
    if a is None or b is None: return None
    if isinstance(a, TNone) and isinstance(b, TNone): return a
    if isinstance(a, TNone): return b if isinstance(b, TOpt) else TOpt(b)
    if isinstance(b, TNone): return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        t = wider(a.t if isinstance(a, TOpt) else a, b.t if isinstance(b, TOpt) else b)
        return t and TOpt(t)
    for ts in ((TInt, TReal, TXReal), (TBool, TInt), (TBool, TReal)):
        if isinstance(a, ts) and isinstance(b, ts): return a if ts.index(type(a)) >= ts.index(type(b)) else b
    if type(a) is not type(b): return None
    if isinstance(a, (TEnum, TRef)) and a.cls is not b.cls: return None
    if isinstance(a, TTup):
        ts = [wider(x, y) for x, y in zip(a.ts, b.ts)]
        return TTup(ts) if len(a.ts) == len(b.ts) and all(t is not None for t in ts) else None
    return a


UNIONS = {}    # enumeration that stands for a finite union of constants (enum members, strings): {value: member}


def term(v, ty=None):
    """z3 term of a scalar value (coerced to ty when given)"""
    if isinstance(v, Sym):
        t = v.t
        if ty is not None:
            if isinstance(ty, TReal) and isinstance(v.ty, TInt): return z3.ToReal(t)
            if isinstance(ty, TReal) and isinstance(v.ty, TBool): return z3.If(t, z3.RealVal(1), z3.RealVal(0))
            if isinstance(ty, TInt) and isinstance(v.ty, TBool): return z3.If(t, z3.IntVal(1), z3.IntVal(0))
            if type(ty) is not type(v.ty): raise Unsupported(f"cannot view {v.ty} as {ty}")
        return t
    if isinstance(ty, TEnum) and ty.cls in UNIONS and type(v) is not ty.cls:
        if v not in UNIONS[ty.cls]: raise Unsupported(f"{v!r} is not among the values of {ty}")
        v = UNIONS[ty.cls][v]
    if isinstance(v, enum.Enum):
        return enum_sort(type(v))[1][v]
    if isinstance(v, bool):
        if isinstance(ty, TInt): return z3.IntVal(int(v))
        if isinstance(ty, TReal): return z3.RealVal(int(v))
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.RealVal(v) if isinstance(ty, TReal) else z3.IntVal(v)
    if isinstance(v, float):
        if v != v or abs(v) == float("inf"): raise Unsupported("non-finite literal as a real")
        return realval(v)
    if isinstance(v, str):
        return strlit(v)
    raise Unsupported(f"no term for {type(v).__name__}")


def flat(v, ty=None):
    """flatten a key value to a list of z3 terms"""
    if isinstance(v, tuple):
        tys = ty.ts if isinstance(ty, TTup) else [None] * len(v)
        return [x for a, t in zip(v, tys) for x in flat(a, t)]
    if isinstance(v, Rec):
        tys = dict(ty.fields) if isinstance(ty, TRec) else {}
        return [x for k, a in v.f.items() for x in flat(a, tys.get(k))]
    if isinstance(ty, TOpt):
        if v is None:
            return [z3.BoolVal(True)] + flat_default(ty.t)
        if isinstance(v, Opt):
            return [v.none] + flat(v.val, ty.t)
        return [z3.BoolVal(False)] + flat(v, ty.t)
    if isinstance(v, Opt):
        return [v.none] + flat(v.val)
    return [term(v, ty)]


def flat_default(ty):
    return [z3.Const("dflt", s) for s in flat_sorts(ty)]


def flat_sorts(ty):
    if isinstance(ty, TTup): return [s for t in ty.ts for s in flat_sorts(t)]
    if isinstance(ty, TRec): return [s for _, t in ty.fields for s in flat_sorts(t)]
    if isinstance(ty, TOpt): return [z3.BoolSort()] + flat_sorts(ty.t)
    return [sort_of(ty)]


def unflat(ty, terms):
    """inverse of flat: consumes terms (a list, popped from the front)"""
    if isinstance(ty, TTup): return tuple(unflat(t, terms) for t in ty.ts)
    if isinstance(ty, TRec): return Rec(ty.cls, {k: unflat(t, terms) for k, t in ty.fields})
    if isinstance(ty, TOpt):
        n = terms.pop(0)
        return Opt(n, unflat(ty.t, terms))
    return Sym(terms.pop(0), ty)


def zand(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return z3.BoolVal(False)
        if z3.is_true(x): continue
        if z3.is_false(x): return x
        r.append(x)
    if not r: return z3.BoolVal(True)
    return r[0] if len(r) == 1 else z3.And(*r)


def zor(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return z3.BoolVal(True)
        if z3.is_false(x): continue
        if z3.is_true(x): return x
        r.append(x)
    if not r: return z3.BoolVal(False)
    return r[0] if len(r) == 1 else z3.Or(*r)


def znot(x):
    if x is True: return z3.BoolVal(False)
    if x is False: return z3.BoolVal(True)
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zimp(a, b):
    return zor(znot(a), b)


def zite(c, a, b):
    if c is True or (not isinstance(c, bool) and z3.is_true(c)): return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
    if a.eq(b): return a
    return z3.If(c, a, b)


def zeq(a, b):
    if a.eq(b): return z3.BoolVal(True)
    if z3.is_const(a) and z3.is_const(b) and a.sort().kind() == z3.Z3_DATATYPE_SORT and \
            a.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and b.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return z3.BoolVal(False)
    return a == b


def zforall(bs, body):
    if not bs or z3.is_true(body): return body
    return z3.ForAll(list(bs), body)


def zexists(bs, body):
    if not bs or z3.is_false(body): return body
    return z3.Exists(list(bs), body)


def subst(v, pairs):
    """substitute z3 constants inside a value"""
    if not pairs: return v
    if isinstance(v, Sym): return Sym(z3.substitute(v.t, *pairs), v.ty)
    if isinstance(v, Opt): return Opt(z3.substitute(zbool(v.none), *pairs), subst(v.val, pairs))
    if isinstance(v, XR): return XR(z3.substitute(v.tag, *pairs), z3.substitute(v.r, *pairs))
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Rec): return Rec(v.cls, {k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, CList): return CList(subst(x, pairs) for x in v.items)
    if isinstance(v, CDict): return CDict(((k, subst(x, pairs)) for k, x in v.items), v.default)
    if isinstance(v, FSet): return FSet((z3.substitute(zbool(g), *pairs), subst(x, pairs)) for g, x in v.items)
    # closures: the argument may itself mention the substituted constants, so
    # evaluate at fresh constants first
    if isinstance(v, SSeq):
        def get(i, v=v):
            c = fresh_int("si")
            return subst(subst(v.get(c), pairs), [(c, i)])
        return SSeq(z3.substitute(v.n, *pairs), get, v.ety)
    if isinstance(v, SMap):
        def mk(f, v=v):
            def g(k):
                ts = flat(k, v.kty)
                cs = [fresh_const(t.sort(), "sk") for t in ts]
                r = f(unflat(v.kty, list(cs)))
                back = list(zip(cs, ts))
                if isinstance(r, z3.BoolRef):
                    return z3.substitute(z3.substitute(r, *pairs), *back)
                return subst(subst(r, pairs), back)
            return g
        return SMap(v.kty, mk(lambda k: zbool(v.dom(k))), mk(v.get), v.default, v.vty)
    if isinstance(v, SSet):
        def mem(k, v=v):
            ts = flat(k, v.kty)
            cs = [fresh_const(t.sort(), "sk") for t in ts]
            r = zbool(v.mem(unflat(v.kty, list(cs))))
            return z3.substitute(z3.substitute(r, *pairs), *zip(cs, ts))
        return SSet(v.kty, mem)
    if isinstance(v, SGrid):
        def at(j, i, v=v):
            a, b = fresh_int("sj"), fresh_int("si")
            return z3.substitute(z3.substitute(v.at(a, b), *pairs), (a, j), (b, i))
        return SGrid(z3.substitute(v.h, *pairs), z3.substitute(v.w, *pairs), at)
    if isinstance(v, One): return One(v.guard if isinstance(v.guard, bool) else z3.substitute(v.guard, *pairs), subst(v.val, pairs))
    if isinstance(v, SIter):
        def fresh(v=v):
            bs, g, e, idx = v.fresh()
            return bs, z3.substitute(zbool(g), *pairs), subst(e, pairs), None if idx is None else z3.substitute(idx, *pairs)
        r = SIter(fresh, v.ordered)
        if getattr(v, "dense", False): r.dense = v.dense
        if getattr(v, "n", None) is not None: r.n = z3.substitute(v.n, *pairs)
        return r
    if isinstance(v, SBag) and v.seq is None: return SBag([subst(x, pairs) for x in v.parts])
    if isinstance(v, Iterable): return Iterable([subst(x, pairs) for x in v.parts], v.kind)
    if isinstance(v, (CRef, ObjV, SBag)):
        raise Unsupported(f"substitution in {type(v).__name__}")
    return v
