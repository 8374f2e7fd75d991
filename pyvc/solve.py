"""Discharge obligations: z3 in forked workers, cvc5 as a second back end."""
import itertools
import os
import select
import signal
import subprocess
import tempfile
import time

import z3


def ground_math(fs):
    """ground instances of the monotonicity and inverse laws of log10 / pow10, and of sin / cos parity, over the terms that occur"""
    logs, pows, seen = {}, {}, set()
    trig = {"sin": {}, "cos": {}, "asin": {}}
    stack = list(fs)

    def bound(e):
        st, ok = [e], set()
        while st:
            x = st.pop()
            if x.get_id() in ok: continue
            ok.add(x.get_id())
            if z3.is_var(x): return True
            st.extend(x.children())
        return False
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            n = e.decl().name()
            if n in ("log10", "pow10") and e.num_args() == 1 and not bound(e):
                (logs if n == "log10" else pows)[e.arg(0).get_id()] = e
            if n in trig and e.num_args() == 1 and not bound(e): trig[n][e.arg(0).get_id()] = e
            stack.extend(e.children())
    tr = []
    if sum(len(d) for d in trig.values()) <= 24:
        for n, d in trig.items():
            es = list(d.values())
            for i, x in enumerate(es):
                for y in es[i + 1:]:
                    tr.append(z3.Implies(x.arg(0) == -y.arg(0), x == (y if n == "cos" else -y)))
        for k in set(trig["sin"]) & set(trig["cos"]):
            x, y = trig["sin"][k], trig["cos"][k]
            tr.append(x * x + y * y == 1)
    if not logs and not pows or len(logs) + len(pows) > 24: return tr
    R = z3.RealSort()
    lg, pw = z3.Function("log10", R, R), z3.Function("pow10", R, R)
    out = tr
    args = [e.arg(0) for e in logs.values()]
    have = {a.get_id() for a in args}
    for e in pows.values():
        out.append(e > 0)
        out.append(lg(e) == e.arg(0))
        if e.get_id() not in have and not (z3.is_app(e.arg(0)) and e.arg(0).decl().name() == "log10"): args.append(e)
    for i, x in enumerate(args):
        out.append(z3.Implies(x == 1, lg(x) == 0))
        for y in args[i + 1:]:
            out.append(z3.Implies(z3.And(x > 0, y > 0), (x < y) == (lg(x) < lg(y))))
            out.append(z3.Implies(z3.And(x > 0, y > 0), (x == y) == (lg(x) == lg(y))))
    return out


def build(hyps, axioms, goal):
    s = z3.Solver()
    for m in ground_math(list(hyps) + [goal]): s.add(m)
    for h in hyps: s.add(h)
    for a in axioms: s.add(a)
    s.add(z3.Not(goal))
    return s


def ghosts(fs):
    """constants introduced for the values a specification quantifies over (names starting with ghost_)"""
    out, seen, stack = {}, set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and "ghost_" in e.decl().name(): out[e.get_id()] = e
            stack.extend(e.children())
    return list(out.values())


def instances(hyps, cands):
    """instances of universal hypotheses over the constants the goal is about"""
    out = []
    for h in hyps:
        if not z3.is_quantifier(h) or not h.is_forall(): continue
        vs = [[c for c in cands if c.sort().eq(h.var_sort(i))] for i in range(h.num_vars())]
        n = 1
        for v in vs: n *= len(v)
        if 0 < n <= 16:
            for c in itertools.product(*vs): out.append(z3.substitute_vars(h.body(), *reversed(c)))
    return out


_symbols = {}


def symbols(e):
    """names of the uninterpreted symbols of e"""
    k = _symbols.get(e.get_id())
    if k is not None and k[0].eq(e): return k[1]
    r = symbols_(e)
    _symbols[e.get_id()] = (e, r)
    return r


def symbols_(e):
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            stack.extend(x.children())
    return out


def strengthen(g, cands, pos=True):
    """g with each positive existential replaced by its instances over cands (a stronger formula); None when nothing changed"""
    if z3.is_quantifier(g):
        if g.is_exists() == pos and not g.is_lambda():
            vs = [[c for c in cands if c.sort().eq(g.var_sort(i))] for i in range(g.num_vars())]
            n = 1
            for v in vs: n *= len(v)
            if not 0 < n <= 40: return None
            insts = [z3.substitute_vars(g.body(), *reversed(c)) for c in itertools.product(*vs)]
            return z3.Or(insts) if pos else z3.And(insts)
        if not g.is_lambda():
            cs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(g.num_vars())]
            b = z3.substitute_vars(g.body(), *reversed(cs))
            return strengthen(b, cands + cs, pos)
        return None
    if z3.is_not(g):
        r = strengthen(g.arg(0), cands, not pos)
        return None if r is None else z3.Not(r)
    if z3.is_implies(g):
        a, b = strengthen(g.arg(0), cands, not pos), strengthen(g.arg(1), cands, pos)
        return None if a is None and b is None else z3.Implies(g.arg(0) if a is None else a, g.arg(1) if b is None else b)
    if z3.is_and(g) or z3.is_or(g):
        cs = [strengthen(c, cands, pos) for c in g.children()]
        if all(c is None for c in cs): return None
        cs = [o if c is None else c for o, c in zip(g.children(), cs)]
        return z3.And(cs) if z3.is_and(g) else z3.Or(cs)
    return None


def opaque_products(fs):
    """the formulas with every product and quotient of two unknowns as a value of an unknown function: fewer facts, so a proof from them is a proof"""
    R = z3.RealSort()
    mul = {}
    cache = {}

    def f(op, sort):
        if (op, sort) not in mul: mul[(op, sort)] = z3.Function(f"{op}_{sort}", sort, sort, sort)
        return mul[(op, sort)]

    def numeral(e): return z3.is_int_value(e) or z3.is_rational_value(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS and numeral(e.arg(0)))

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k][1]
        if z3.is_quantifier(e):
            if e.is_lambda(): return e
            vs = [z3.FreshConst(e.var_sort(i), "q") for i in range(e.num_vars())]
            b = go(z3.substitute_vars(e.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b)
        elif z3.is_var(e) or not e.children(): r = e
        else:
            cs = [go(c) for c in e.children()]
            kd = e.decl().kind()
            if kd == z3.Z3_OP_MUL:
                nums = [c for c in cs if numeral(c)]
                rest = sorted([c for c in cs if not numeral(c)], key=lambda c: c.get_id())
                if len(rest) < 2: r = e.decl()(*cs)
                else:
                    r = rest[0]
                    for c in rest[1:]: r = f("mul", e.sort())(r, c)
                    for c in nums: r = c * r
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not numeral(cs[1]): r = f("op%d" % kd, e.sort())(*cs)
            else: r = e.decl()(*cs)
        cache[k] = (e, r)
        return r
    return [go(z3.simplify(x)) for x in fs]


def denominators(g):
    out, seen, stack = {}, set(), [g]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return None
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))): out[x.arg(1).get_id()] = x.arg(1)
            stack.extend(x.children())
    return list(out.values())


def by_inverses(hyps, axioms, goal, ms):
    """quotients in the goal as products with an inverse, once each denominator is shown not to be zero; then normal forms decide identities"""
    ds = denominators(goal)
    if not ds or len(ds) > 6: return False
    for d in ds:
        syms = symbols(d)
        s = z3.Solver()
        s.set("timeout", max(ms // 4, 500))
        for h in hyps:
            if symbols(h) & syms and not z3.is_quantifier(h): s.add(h)
        s.add(d == 0)
        if s.check() != z3.unsat: return False
    inv = {d.get_id(): z3.FreshReal("inv") for d in ds}
    cache = {}

    def go(e):
        k = e.get_id()
        if k not in cache:
            if not e.children(): r = e
            elif e.decl().kind() == z3.Z3_OP_DIV and e.arg(1).get_id() in inv: r = go(e.arg(0)) * inv[e.arg(1).get_id()]
            else: r = e.decl()(*[go(c) for c in e.children()])
            cache[k] = (e, r)
        return cache[k][1]
    g = go(goal)
    zero = z3.simplify(z3.And([z3.simplify(x.arg(0) - x.arg(1), som=True) == 0 if z3.is_eq(x) and x.arg(0).sort() == z3.RealSort() else x for x in ([g] if not z3.is_and(g) else g.children())]))
    if z3.is_true(zero): return True
    gs = symbols(goal)
    s = z3.Solver()
    s.set("timeout", ms)
    for h in hyps:
        if symbols(h) <= gs and not z3.is_quantifier(h) and not denominators(h): s.add(h)
    for d in ds: s.add(go(d) * inv[d.get_id()] == 1)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def witnesses(insts):
    """instances of existentials among the facts get a name each, so that other facts can be used about them"""
    new, out = [], []

    def go(g):
        if z3.is_quantifier(g) and g.is_exists() and not g.is_lambda():
            cs = [z3.FreshConst(g.var_sort(i), "wit") for i in range(g.num_vars())]
            new.extend(cs)
            return go(z3.substitute_vars(g.body(), *reversed(cs)))
        if z3.is_and(g) or z3.is_or(g): return (z3.And if z3.is_and(g) else z3.Or)([go(c) for c in g.children()])
        return g
    for g in insts: out.append(go(g))
    return out, new


def images(hyps, cands):
    """values of unary functions on integers at the given points"""
    fs, seen, stack = {}, set(), list(hyps)
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.range() == z3.IntSort() and d.domain(0) == z3.IntSort(): fs[d.name()] = d
            stack.extend(x.children())
    return [d(c) for d in fs.values() for c in cands if c.sort() == z3.IntSort()] if len(fs) <= 8 else []


def attempt(o, axioms, ms, seed):
    """one obligation: (status, backend, seconds, model)"""
    t0 = time.time()
    if z3.is_true(z3.simplify(o.goal)): return "unsat", "simplifier", time.time() - t0, ""
    plans = [("z3", {}, ms // 3), ("z3-mbqi-off", {"smt.mbqi": False, "smt.auto_config": False}, ms // 3), ("z3-seed", {"smt.random_seed": 7 + seed}, ms)]
    best = "unknown"
    reason = ""
    gh = ghosts(list(o.hyps) + [o.goal])
    strong = strengthen(o.goal, gh)
    inst = instances(o.hyps, gh) if gh else []
    if strong is None and inst: strong = o.goal
    wit, new = witnesses([h for h in o.hyps if not (z3.is_quantifier(h) and h.is_forall())] + inst)
    far = None
    if new and len(new) <= 12:
        pts = new + images(o.hyps, new)
        if len(pts) <= 40:
            wit2, new2 = witnesses(instances(o.hyps, pts))
            far = strengthen(o.goal, gh + pts + (new2 if len(new2) <= 40 else [])), wit + wit2
            if far[0] is None: far = strengthen(o.goal, gh + new + new2), wit + wit2
    if strong is not None: plans.insert(1, ("z3-instances", {"smt.mbqi": False, "smt.auto_config": False}, ms // 2))
    o.hyps = list({h.get_id(): h for h in o.hyps}.values())     # uniq
    gs = symbols(o.goal)
    near = [h for h in o.hyps if symbols(h) <= gs]
    if 0 < len(near) < len(o.hyps): plans[:0] = [("z3-near-hypotheses", {}, ms // 6)] + ([("z3-near-and-laws", {}, ms // 6)] if axioms else [])
    calm = [h for h in o.hyps if not any(n.startswith("lastw") for n in symbols(h))]      # without the facts on what loop variables hold after their loop
    if len(calm) < len(o.hyps) and not any(n.startswith("lastw") for n in gs): plans[:0] = [("z3-no-last-values", {"smt.mbqi": False, "smt.auto_config": False}, ms // 6), ("z3-no-last-values", {}, ms)]
    lean = leaner(o.hyps, axioms, o.goal) if any("sum!" in n for a in axioms for n in symbols(a)) else None
    if lean: plans[:0] = [("z3-no-sums", {}, ms // 2)]
    if any(n.startswith("sum!") for n in gs): plans[:0] = [("z3-sum-facts", {}, ms // 3), ("z3-sum-facts", {"smt.mbqi": False, "smt.auto_config": False}, ms // 3)]
    known = []
    if far is not None: plans.insert(2, ("z3-witnesses", {"smt.mbqi": False, "smt.auto_config": False}, ms // 3))
    plans.insert(-1, ("z3-opaque-products", {}, ms // 3))
    partial = ("z3-sum-facts", "z3-no-last-values", "z3-no-sums", "z3-instances", "z3-near-hypotheses", "z3-near-and-laws", "z3-witnesses", "z3-opaque-products")
    if denominators(o.goal): plans.insert(0, ("z3-inverses", {}, ms // 6))
    for nm, opts, lim in plans:
        if nm == "z3-inverses":
            if by_inverses(o.hyps, axioms, o.goal, int(lim)): return "unsat", nm, time.time() - t0, ""
            continue
        if nm == "z3-sum-facts":
            if not known: known.append(sum_facts(o.hyps, axioms, o.goal, ms // 8, ms / 500))
            if known[0] is None: continue
            s = build(*known[0], o.goal)
        elif nm == "z3-near-hypotheses": s = build(near, [], o.goal)
        elif nm == "z3-no-last-values": s = build(calm, axioms, o.goal)
        elif nm == "z3-no-sums": s = build(*lean, o.goal)
        elif nm == "z3-near-and-laws": s = build(near, axioms, o.goal)
        elif nm == "z3-instances": s = build(o.hyps + inst, axioms, strong)
        elif nm in ("z3-witnesses", "z3-opaque-products"):
            h, g = (o.hyps + far[1], far[0] if far[0] is not None else o.goal) if nm == "z3-witnesses" or far is not None else (o.hyps + inst, strong if strong is not None else o.goal)
            fs = opaque_products(h + list(axioms) + [g])
            s = z3.Solver()
            for x in fs[:-1]: s.add(x)
            s.add(z3.Not(fs[-1]))
        else: s = build(o.hyps, axioms, o.goal)
        s.set("timeout", int(lim))
        for k, v in opts.items():
            try: s.set(k, v)
            except z3.Z3Exception: pass
        r = s.check()
        if r == z3.unsat: return "unsat", nm, time.time() - t0, ""
        if r == z3.sat and nm not in partial:
            try: m = str(s.model())[:4000]
            except z3.Z3Exception: m = ""
            return "sat", nm, time.time() - t0, m
        reason = s.reason_unknown()
    # cvc5
    try:
        s = build(o.hyps, axioms, o.goal)
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + txt)
        try:
            r = subprocess.run(["cvc5", "--quiet", f"--tlimit={int(ms)}", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = r.stdout.strip().splitlines()
            if out and out[0] == "unsat": return "unsat", "cvc5", time.time() - t0, ""
        finally: os.unlink(f.name)
    except Exception as e:
        reason += f" cvc5: {e}"
    return best, "none", time.time() - t0, reason[:300]


def sum_facts(hyps, axioms, goal, ms, budget):
    """conclusions of the sum laws whose premise follows from the hypotheses, for the sums the goal can depend on"""
    issum = lambda n: n.startswith("sum!")
    laws = [a for a in axioms if any(issum(n) for n in symbols(a))]
    if not laws: return None
    flat = []
    for h in hyps:
        todo = [h]
        while todo:
            x = todo.pop()
            if z3.is_and(x): todo.extend(x.children())
            elif not has_quantifier(x): flat.append((x, symbols(x)))
    reach = set(numbers(goal))
    for _ in range(3):
        for x, sy in flat:
            if any(issum(n) for n in sy):
                ns = numbers(x)
                if ns & reach: reach |= ns
    mine = {n for n in reach if issum(n)}
    if not mine: return None
    calm = [h for h in hyps if not any(issum(n) for n in symbols(h))]
    base = calm + [a for a in axioms if not any(issum(n) for n in symbols(a))]
    rest = [h for h in hyps if not any(issum(n) for n in symbols(h)) or {n for n in symbols(h) if issum(n)} <= mine]
    law0 = [a for a in axioms if not any(issum(n) for n in symbols(a))]
    facts, todo, t0 = [], [], time.time()
    for a in laws:
        sy = frozenset(n for n in symbols(a) if issum(n))
        if not sy <= mine: continue
        nots = [x for x in (a.children() if z3.is_or(a) else []) if z3.is_not(x) and not any(issum(n) for n in symbols(x))]
        if not nots:
            if not z3.is_or(a): facts.append(a)
            continue
        con = [x for x in a.children() if not any(x.eq(y) for y in nots)]
        kind = 2
        if len(con) == 1:
            con = con[0]
            if z3.is_eq(con): kind = 0 if len(sy) == 2 and con.arg(0).num_args() == 0 and con.arg(1).num_args() == 0 else 1
            elif len(sy) == 2: kind = 3
        else: con = z3.Or(con)
        todo.append((kind, len(todo), sy, z3.And([x.arg(0) for x in nots]), con))
    linked = set()
    for kind, _, sy, pre, con in sorted(todo, key=lambda x: x[:2]):
        if sy in linked: continue
        for opts in ({}, {"smt.mbqi": False, "smt.auto_config": False}):
            if time.time() - t0 > budget: return rest, law0 + facts
            s = build(base, [], pre)
            s.set("timeout", int(ms))
            for k, v in opts.items(): s.set(k, v)
            r = s.check()
            if r == z3.unsat:
                facts.append(con)
                if len(sy) == 2 and kind < 2: linked.add(sy)
                s = build(rest, law0 + facts, goal)
                s.set("timeout", int(ms))
                if s.check() == z3.unsat: return rest, law0 + facts
            if r != z3.unknown: break
    return rest, law0 + facts


def numbers(f):
    """names of the numeric constants in f"""
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_arith(x): out.add(x.decl().name())
            st.extend(x.children())
    return out


def has_quantifier(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False


def leaner(hyps, axioms, goal):
    """hypotheses and axioms without sums and without what loop variables hold after their loop, where the goal does not speak of them"""
    noise = lambda f: any("sum!" in n or n.startswith("lastw") for n in symbols(f))
    hy, ax = [h for h in hyps if not noise(h)], [a for a in axioms if not noise(a)]
    return None if noise(goal) or len(hy) + len(ax) == len(hyps) + len(axioms) else (hy, ax)


def insist(o, axioms, ms, seed):
    """other random seeds first (the search is often a matter of luck), then everything with more time"""
    t0 = time.time()
    lean = leaner(o.hyps, axioms, o.goal)
    for k in (23, 91, 5, 41, 67):
        for opts, (hy, ax) in [({}, (o.hyps, axioms)), ({"smt.mbqi": False, "smt.auto_config": False}, (o.hyps, axioms))] + ([({}, lean)] if lean else []):
            s = build(hy, ax, o.goal)
            s.set("timeout", int(ms / 2))
            s.set("smt.random_seed", k + seed)
            for a, v in opts.items(): s.set(a, v)
            if s.check() == z3.unsat: return "unsat", "z3-seed", time.time() - t0, ""
    return attempt(o, axioms, 3 * ms, seed)


def discharge(items, ms=12000, workers=8, seed=0, deadline=None, attempt=attempt):
    """items: list of (obligation, axioms). Fills o.result, o.backend, o.secs, o.model."""
    for ax in {id(ax): ax for _, ax in items}.values():
        if any("sum!" in str(a)[:2000] for a in ax[-3:]) or len(ax) > 40:
            for a in ax: symbols(a)      # once, before the processes part
    pending = list(range(len(items)))
    running = {}
    for i, (o, _) in enumerate(items):
        o.result, o.backend, o.secs, o.model = "unknown", "none", 0.0, ""
    hard = ms / 1000 * (20 if attempt is insist else 3) + 30
    while pending or running:
        while pending and len(running) < workers and not (deadline and time.time() > deadline):
            i = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    o, ax = items[i]
                    st, be, se, mo = attempt(o, ax, ms, seed)
                    data = "\x00".join([st, be, f"{se:.3f}", mo]).encode()
                    while data:
                        n = os.write(w, data)
                        data = data[n:]
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, time.time(), b"")
        if deadline and time.time() > deadline: pending = []
        if not running: break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            i, pid, t0, buf = running[r]
            d = os.read(r, 65536)
            if d:
                running[r] = (i, pid, t0, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            o = items[i][0]
            parts = buf.decode(errors="replace").split("\x00")
            if len(parts) == 4: o.result, o.backend, o.secs, o.model = parts[0], parts[1], float(parts[2]), parts[3]
        for r in list(running):
            i, pid, t0, buf = running[r]
            if time.time() - t0 > hard or (deadline and time.time() > deadline + 5):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]


def satisfiable(hyps, axioms, ms=5000):
    s = z3.Solver()
    s.set("timeout", ms)
    for h in hyps: s.add(h)
    for a in axioms: s.add(a)
    return str(s.check())
