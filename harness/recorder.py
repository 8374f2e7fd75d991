"""Stand-in for the solver library xpress (absent here): variables and linear expressions are kept, the
constraints handed to a problem are recorded, nothing is solved.  compare() decides with z3, for all values
of the variables, whether the recorded constraints and a list of rules have the same solutions."""
import itertools
import sys

import z3

NUMS = itertools.count()
binary, continuous, integer = "binary", "continuous", "integer"
minimize, maximize = "minimize", "maximize"
INF = float("inf")


class Lin:
    def __init__(self, terms=None, const=0):
        self.terms, self.const = dict(terms or {}), const

    def __hash__(self): return id(self)

    def __add__(self, o):
        o = lin(o)
        if o is None: return NotImplemented
        t = dict(self.terms)
        for k, v in o.terms.items(): t[k] = t.get(k, 0) + v
        return Lin(t, self.const + o.const)

    __radd__ = __add__

    def __neg__(self): return self * -1
    def __sub__(self, o): return self + lin(o) * -1
    def __rsub__(self, o): return lin(o) + self * -1

    def __mul__(self, k):
        if isinstance(k, Lin):
            if not k.terms: k = k.const
            elif not self.terms: return k * self.const
            else: raise TypeError("product of variables")
        return Lin({v: c * k for v, c in self.terms.items()}, self.const * k)

    __rmul__ = __mul__

    def __truediv__(self, k): return self * (1 / k)
    def __le__(self, o): return Con(self - o, "<=")
    def __ge__(self, o): return Con(lin(o) - self, "<=")
    def __eq__(self, o): return Con(self - o, "==")
    def __ne__(self, o): raise TypeError("!= between expressions")


class var(Lin):
    def __init__(self, name=None, lb=0, ub=INF, vartype=continuous, threshold=None):
        self.id = next(NUMS)
        self.name, self.vartype = name or f"v{self.id}", vartype
        self.lb, self.ub = (max(lb, 0), min(ub, 1)) if vartype == binary else (lb, ub)
        VARS[self.id] = self
        super().__init__({self.id: 1.0}, 0)


VARS = {}


def lin(x):
    if isinstance(x, Lin): return x
    if isinstance(x, (int, float)): return Lin({}, x)
    return None


class Con:
    """expression <= 0 or == 0"""

    def __init__(self, e, op, name=""):
        self.e, self.op, self.name = e, op, name

    def __bool__(self): raise TypeError("a constraint has no truth value")

    def key(self):
        t = {k: c for k, c in self.e.terms.items() if abs(c) > 1e-12}
        if not t: return (self.op, bool(abs(self.e.const) <= 1e-9 if self.op == "==" else self.e.const <= 1e-9))
        s = abs(t[min(t)]) if self.op == "<=" else t[min(t)]
        return (self.op, frozenset((k, float(f"{c / s:.9g}")) for k, c in t.items()), float(f"{self.e.const / s:.9g}") + 0.0)

    def z(self, zv, slack=None):
        """slack: the condition is missed by more than a rounding error"""
        x = z3.RealVal(repr(float(self.e.const)))
        x = z3.Sum([x] + [z3.RealVal(repr(float(c))) * zv(k) for k, c in self.e.terms.items()])
        if slack is None: return x <= 0 if self.op == "<=" else x == 0
        s = z3.RealVal("0.000001") * z3.RealVal(repr(max([1.0, abs(self.e.const)] + [abs(c) for c in self.e.terms.values()])))
        return x > s if self.op == "<=" else z3.Or(x > s, x < -s)

    def __str__(self):
        return " + ".join(f"{c:g}*{VARS[k].name}" for k, c in self.e.terms.items()) + f" + {self.e.const:g} {self.op} 0"


class Bin:
    def __init__(self, v): self.v, self.name = v, f"{v.name} is 0 or 1"
    def key(self): return ("bin", self.v.id)
    def z(self, zv, slack=None):
        b = z3.Or(zv(self.v.id) == 0, zv(self.v.id) == 1)
        return b if slack is None else z3.Not(b)
    def __str__(self): return self.name


def flat(x):
    if isinstance(x, dict):
        for y in x.values(): yield from flat(y)
    elif isinstance(x, (Lin, Con, bool, int, float)): yield x
    else:
        for y in x: yield from flat(y)


def Sum(*xs):
    r = Lin()
    for x in xs:
        for y in flat(x): r = r + y
    return r


class problem:
    def __init__(self, *a, **k):
        self.vars, self.cons, self.objective, self.sense = {}, [], None, minimize

    def addVariable(self, *vs):
        for v in flat(list(vs)): self.vars[v.id] = v

    def addConstraint(self, *cs): self.cons += [c if isinstance(c, Con) else Con(Lin({}, 0 if c else 1), "==") for c in flat(list(cs))]

    def delConstraint(self, *cs):
        ids = {id(c) for c in flat(list(cs))}
        self.cons = [c for c in self.cons if id(c) not in ids]

    def delVariable(self, *vs):
        for v in flat(list(vs)): self.vars.pop(v.id, None)

    def setObjective(self, e, sense=minimize): self.objective, self.sense = lin(e), sense
    def setprobname(self, *a): pass
    def setControl(self, *a, **k): pass
    def reset(self): self.__init__()
    def write(self, *a): pass


def install():
    m = sys.modules.get("xpress")
    if m is None:
        import types
        m = sys.modules["xpress"] = types.ModuleType("xpress")
    for n in ("var", "Sum", "problem", "binary", "continuous", "integer", "minimize", "maximize"): setattr(m, n, globals()[n])


def domain(vs):
    out = []
    for v in vs:
        if v.vartype == binary: out.append(Bin(v))
        if v.vartype == binary and (v.lb, v.ub) == (0, 1): continue
        if v.lb > -INF: out.append(v >= v.lb)
        if v.ub < INF: out.append(v <= v.ub)
    return out


def compare(cons, rules, ms=6000, forth=True, back=True):
    """None, or what is wrong: a solution of cons that breaks a rule, or a solution of the rules that cons excludes.
    rules: list of (name, Con | Bin)"""
    rules = [(n, r if isinstance(r, (Con, Bin, Formula)) else Con(Lin({}, 0 if r else 1), "==")) for n, r in rules]
    kc, kr = {c.key() for c in cons}, {r.key() for _, r in rules}

    def trivial(k): return k[1] is True
    zs = {}

    def zv(k):
        if k not in zs: zs[k] = z3.Real(f"x{k}")
        return zs[k]

    def entails(facts, goals, what):
        s = None
        for name, g in goals:
            if s is None:
                s = z3.Solver()
                s.set("timeout", ms)
                for f in facts: s.add(f.z(zv))
            s.push()
            s.add(g.z(zv, True))
            r = s.check()
            if r == z3.sat:
                m = s.model()
                vals = {VARS[k].name: str(m[v]) for k, v in zs.items() if m[v] is not None and str(m[v]) != "0"}
                return what(name, g) + f" at {vals}"
            s.pop()
        return None

    todo = [(n, r) for n, r in rules if r.key() not in kc and not trivial(r.key())]
    bad = forth and entails(cons, todo, lambda n, g: f"a solution of the model breaks the rule '{n}' ({g})")
    if bad: return bad
    if not back: return None
    todo = [("", c) for c in cons if c.key() not in kr and not trivial(c.key())]
    return entails([r for _, r in rules], todo, lambda n, g: f"a plan that keeps the rules is excluded by the constraint {g}")


class Formula:
    """any condition; f(zv, slack) gives it, or (with slack) its clear violation"""

    def __init__(self, name, f): self.name, self.f = name, f
    def key(self): return ("formula", id(self))
    def z(self, zv, slack=None): return self.f(zv, slack)
    def __str__(self): return self.name


def zexpr(e, zv): return z3.Sum([z3.RealVal(repr(float(e.const)))] + [z3.RealVal(repr(float(c))) * zv(k) for k, c in e.terms.items()])
