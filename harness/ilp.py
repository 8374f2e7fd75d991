"""C30: the integer programmes built for a network have exactly the solutions that the planning rules allow.
The real classes build their model with the stand-in of recorder.py in place of the solver library; z3 decides
for all values of the variables that constraints and rules agree.  Bounded: the generated networks."""
from . import recorder
from .core import Broken, Missing, api, law, need
from .graph import params
from .recorder import Bin, Con, Lin, Sum, domain, lin
from .topo import ACTIVE, E, STATUS, gen_topology, topology

ILP = "terragraph_planner.optimization.ilp_models."
SRC = "SUPERSOURCE"
INACTIVE = {"UNAVAILABLE", "UNREACHABLE"}
REACH = {"PROPOSED", "EXISTING", "CANDIDATE"}


class Built(Exception):
    pass


def build(f, *a):
    """runs f up to the point where the finished model goes to the solver"""
    def stop(self): raise Built()
    recorder.install()
    recorder.problem.solve = stop
    try: f(*a)
    except Built: return True
    return False


class World:
    """what the rules are stated over, read off the network itself"""

    def __init__(self, t, p):
        self.t, self.p = t, p
        self.kind = {k: s.site_type.name for k, s in t.sites.items()}
        self.status = {k: s.status_type.name for k, s in t.sites.items()}
        self.links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
        self.demand = {}
        self.served = []
        for k, d in t.demand_sites.items():
            for n in range(d.num_sites):
                q = k if n == 0 else f"{k}_{n}"
                self.demand[q] = d.demand / p.oversubscription
                self.served += [(s.site_id, q) for s in d.connected_sites]
        self.total = sum(self.demand.values())
        big = max((l.capacity for l in t.links.values()), default=p.pop_capacity)
        self.cap = {ij: l.capacity for ij, l in self.links.items()}
        self.cap.update({(SRC, k): p.pop_capacity for k in self.kind if self.kind[k] == "POP"})
        self.cap.update({ij: big for ij in self.served})
        self.edges = list(self.cap)
        self.nodes = [SRC, *self.kind, *self.demand]
        self.into = {n: [e for e in self.edges if e[1] == n] for n in self.nodes}
        self.out = {n: [e for e in self.edges if e[0] == n] for n in self.nodes}
        self.wireless = {ij for ij, l in self.links.items() if l.is_wireless}
        self.lstatus = {ij: l.status_type.name for ij, l in self.links.items()}
        self.off = {ij for ij, l in self.links.items() if self.lstatus[ij] in INACTIVE or (l.is_wireless and (l.tx_sector is None or l.rx_sector is None))}
        self.on = {ij for ij in self.links if self.lstatus[ij] in ACTIVE}
        self.sec = {k: [] for k in self.kind}
        for x in t.sectors.values(): self.sec[x.site.site_id].append(x)
        self.ends = {ij: (l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id) for ij, l in self.links.items()}
        self.groups = {}
        for k, s in t.sites.items(): self.groups.setdefault((s.longitude, s.latitude, s.altitude), []).append(k)
        self.together = {k: g for g in self.groups.values() for k in g}
        self.active = {k for k in self.kind if self.status[k] in ACTIVE}

    def dist(self, k): return self.kind.get(k) in ("DN", "POP")

    def forced(self, members, active):
        """members of one place -> those that must not be chosen, given which of them are active"""
        act = [k for k in members if k in active]
        best = "POP" if any(self.kind[k] == "POP" for k in act) else "DN" if any(self.kind[k] == "DN" for k in act) else "CN"
        valid = {"CN", "DN", "POP"} if best == "CN" else {best}
        return best, [k for k in members if self.kind[k] not in valid or (self.kind[k] == best and k not in active)]

    def cost(self, S, V):
        """S of a site, V of a sector"""
        e = Lin()
        cs = {"POP": self.p.pop_site_capex, "DN": self.p.dn_site_capex, "CN": self.p.cn_site_capex}
        for k in self.kind:
            if self.status[k] == "EXISTING": continue
            e = e + cs[self.kind[k]] * S(k)
            seen = set()
            for x in self.sec[k]:
                if x.node_id in seen: continue
                seen.add(x.node_id)
                e = e + self.t.sites[k].device.node_capex * V(k, x)
        return e

    def reached(self, names, usable, skip=()):
        front = [k for k in self.kind if self.kind[k] == "POP" and self.status[k] in names and k not in skip]
        got = set(front)
        while front:
            front = [j for i in front for (a, j) in self.links if a == i and j not in got and usable((a, j)) and self.lstatus[(a, j)] in names and self.status[j] in names and j not in skip]
            got |= set(front)
        return {q for k, q in self.served if k in got}


def total(xs):
    e = Lin()
    for x in xs: e = e + x
    return e


def variables(o, name):
    if not hasattr(o, name): raise Missing(f"the model has no {name}")
    return getattr(o, name) or {}


def flow_rules(w, o, R, F, X, limit, site, shortage):
    """capacity and time division, points of presence, conservation, flow through chosen sites only"""
    for ij in w.edges:
        R.append((f"flow {ij} not negative", F(ij) >= 0))
        if ij in w.wireless: R.append((f"flow {ij} within capacity and time division", F(ij) <= w.cap[ij] * X(ij)))
        else: R.append((f"flow {ij} within capacity", F(ij) <= min(w.cap[ij], limit)))
    for n in w.nodes:
        i, u = total(F(e) for e in w.into[n]), total(F(e) for e in w.out[n])
        if w.kind.get(n) == "POP": R.append((f"load of {n}", u <= w.p.pop_capacity))
        if site is not None:
            R.append((f"flow into {n} only if chosen", i <= limit * site(n)))
            R.append((f"flow out of {n} only if chosen", u <= limit * site(n)))
        if shortage is None: continue
        if n in w.demand:
            if w.into[n]: R.append((f"demand {n}", i == w.demand[n] - shortage(n)))
        elif n == SRC: R.append(("all demand comes from the points of presence", u == w.total - total(shortage(q) for q in w.demand)))
        elif w.into[n] or w.out[n]: R.append((f"flow conserved at {n}", i == u))
    for ij in w.off: R.append((f"no flow on inactive link {ij}", lin(F(ij)) == 0))


def polarity_rules(w, R, O, used, on):
    """used(ij): expression positive when the link is used"""
    for ij in w.wireless:
        i, j = ij
        if not (w.dist(i) and w.dist(j)): continue
        if ij in on: R.append((f"opposite polarities on active link {ij}", O(i) + O(j) == 1))
        else:
            u = used(ij)
            R.append((f"link {ij} not between even sites", u <= O(i) + O(j)))
            R.append((f"link {ij} not between odd sites", u <= 2 - O(i) - O(j)))


def getter(d): return lambda k: d[k] if k in d else Lin()


def verdict(o, w, R, objective=None, known=None, sense="minimize"):
    pr = o.problem
    cons = list(pr.cons) + domain(pr.vars.values())
    for c in pr.cons:
        for k in c.e.terms: need(k in pr.vars, f"variable {recorder.VARS[k].name} of a constraint is not part of the problem")
    if known is not None:
        ids = {k for d in known for v in recorder.flat(d) if isinstance(v, Lin) for k in v.terms}
        part = [c for c in cons if (c.v.id in ids if isinstance(c, Bin) else all(k in ids for k in c.e.terms))]
    else: part = cons
    bad = recorder.compare(cons, R) if part is cons else (recorder.compare(cons, R, back=False) or recorder.compare(part, R, forth=False))
    need(bad is None, bad)
    if objective is not None and pr.objective is not None:
        want = objective if sense == "minimize" else objective * -1
        got = pr.objective if pr.sense == "minimize" else pr.objective * -1
        need(same_aim(got, want), f"objective {Con(got, '~')}; documented: {Con(want, '~')}")


def same_aim(a, b):
    """equal up to a positive factor and a constant"""
    ta, tb = [{k: c for k, c in e.terms.items() if abs(c) > 1e-9} for e in (a, b)]
    if set(ta) != set(tb): return False
    if not ta: return True
    k = max(tb, key=lambda q: abs(tb[q]))
    f = ta[k] / tb[k]
    return f > 0 and all(abs(ta[q] - f * tb[q]) <= 1e-6 * max(1, abs(ta[q])) for q in ta)


# ---------------------------------------------------------------- cases
def g_net(r, statuses=None, nmax=6, active=False):
    st = statuses or r.choice([["CANDIDATE"], ["CANDIDATE", "PROPOSED"], ["CANDIDATE", "PROPOSED", "EXISTING"], ["CANDIDATE", "CANDIDATE", "UNREACHABLE", "UNAVAILABLE", "PROPOSED"], sorted(STATUS)])
    spec = gen_topology(r, nmax=nmax, statuses=st, density=r.choice([.25, .45, .7]), bidir=1, pop=True, served=1, demands=3, sector_prob=.95, wired=r.choice([0, .2]), colocate=r.choice([0, .25]), types=r.choice([("CN", "DN", "DN", "POP"), ("DN", "DN", "POP"), ("CN", "DN")]))
    S, X = spec["sites"], spec["sectors"]
    for x in X: x["status"] = S[x["site"]]["status"] if S[x["site"]]["status"] != "EXISTING" or active else r.choice(["EXISTING", "EXISTING", "PROPOSED"])
    by = {}
    for l in spec["links"]:
        if S[l["rx"]]["type"] == "CN": l["wireless"] = True
        a, b = min(l["tx"], l["rx"]), max(l["tx"], l["rx"])
        if (a, b) in by: l["status"] = by[(a, b)]
        ends = [X[q]["status"] if q is not None else None for q in (l["ts"], l["rs"])]
        if l["status"] in ACTIVE and None in ends: l["status"] = "CANDIDATE"
        if l["status"] == "EXISTING" and set(ends) != {"EXISTING"}: l["status"] = "PROPOSED"
        if active and l["status"] == "CANDIDATE" and None not in ends and all(S[q]["status"] in ACTIVE for q in (l["tx"], l["rx"])) and r.random() < .8: l["status"] = "PROPOSED"
        by.setdefault((a, b), l["status"])
        l["status"] = by[(a, b)]
        if l["ts"] is not None and r.random() < .06 and S[l["rx"]]["type"] != "CN": l["wireless"] = None
    wired = {frozenset((l["tx"], l["rx"])) for l in spec["links"] if l["wireless"] is None}
    for l in spec["links"]:
        if frozenset((l["tx"], l["rx"])) in wired: l["wireless"] = False
    for d in spec["demands"]:
        d["demand"], d["num"] = r.choice([.025, .5, 1.0, 2.0]), r.choice([1, 1, 1, 2])
        if not d["sites"]: d["sites"] = [r.randrange(len(S))]
    if not spec["demands"]: spec["demands"] = [{"lat": 37.0, "lon": -122.0, "alt": None, "num": 1, "demand": .7, "sites": [r.randrange(len(S))]}]
    return spec


def g_params(r, **k):
    d = dict(pop_capacity=r.choice([.4, 1.0, 10.0]), oversubscription=r.choice([1.0, 1.0, 4.0]), budget=r.choice([1000.0, 4000.5, 300000.0]), pop_site_capex=r.choice([1500.0, 0.0, 700.0]), dn_site_capex=r.choice([1500.0, 900.0]), cn_site_capex=r.choice([1500.0, 50.0]),
             always_active_pops=r.random() < .6, number_of_extra_pops=r.choice([0, 1, 2]), dn_dn_sector_limit=r.choice([1, 2]), dn_total_sector_limit=r.choice([2, 3, 15]), number_of_channels=1)
    d.update(k)
    return d


def g_site(r): return {"spec": g_net(r), "p": g_params(r), "polarity": r.random() < .7, "common": r.random() < .25, "coverage": [r.choice([1.0, .5, .9, 0.0]) for _ in range(r.choice([1, 1, 2]))], "adv": r.choice([0, 0, 1, 2]), "which": r.choice(["cost", "cost", "coverage", "pops"])}


def make(c):
    recorder.install()
    t, ss, xs, ls, ds = topology(c["spec"])
    p = params(device_list=list({x.device.device_sku: x.device for x in ss}.values()), **c["p"])
    p.ignore_polarities = not c["polarity"]
    p.maximize_common_bandwidth = c.get("common", False)
    if p.maximize_common_bandwidth: p.ignore_polarities = True
    return t, p


def new(cls, *a):
    """the model object; None when the network is rejected as infeasible"""
    try: return api(ILP + cls)(*a)
    except api("terragraph_planner.common.exceptions:OptimizerException"): return None


def site_model_rules(o, t, p, adv, always):
    w = World(t, p)
    S_, F_, X_, O_, sh_ = (variables(o, n) for n in ("site_vars", "flow", "tdm", "odd", "shortage"))
    S, F, O, sh = getter(S_), getter(F_), getter(O_), getter(sh_)
    X = lambda ij: total(v for k, v in X_.items() if k[:2] == ij)
    R = []
    for k in S_: R.append((f"{k} chosen or not", Bin(S_[k])))
    flow_rules(w, o, R, F, X, w.total, lambda n: S(n) if n in w.kind else 1, sh)
    for ij in w.wireless: R += [("share of time", X(ij) >= 0), ("share of time", X(ij) <= 1)]
    for q in w.demand: R += [("shortage not negative", sh(q) >= 0), ("shortage within demand", sh(q) <= w.demand[q])]
    for k in w.kind:
        for x in w.sec[k]:
            R.append((f"time sent by sector {x.sector_id} within one, only if its site is chosen", total(X(e) for e in w.out[k] if e in w.wireless and w.ends[e][0] == x.sector_id) <= S(k)))
            R.append((f"time received by sector {x.sector_id} within one, only if its site is chosen", total(X(e) for e in w.into[k] if e in w.wireless and w.ends[e][1] == x.sector_id) <= S(k)))
    act = set(w.active) | {k for ij in w.on for k in ij}
    if always: act |= {k for k in w.kind if w.kind[k] == "POP" and w.status[k] not in INACTIVE}
    for g in w.groups.values():
        if len(g) == 1:
            if g[0] in w.active or (always and w.kind[g[0]] == "POP" and w.status[g[0]] not in INACTIVE): R.append((f"active site {g[0]} stays", S(g[0]) == 1))
        elif not any(k in act for k in g): R.append((f"at most one of {g}", total(S(k) for k in g) <= 1))
        else:
            R.append((f"one of {g}", total(S(k) for k in g) == 1))
            R += [(f"{k} does not replace an active site of its place", S(k) == 0) for k in w.forced(g, act)[1]]
    for k in w.kind:
        if w.status[k] in INACTIVE: R.append((f"inactive site {k} is not chosen", S(k) == 0))
    if not p.ignore_polarities:
        for k in O_: R.append((f"{k} odd or even", Bin(O_[k])))
        polarity_rules(w, R, O, X, w.on)
    for ij in adv: R.append((f"no flow on adversarial link {ij}", lin(F(ij)) == 0))
    return w, R, S, sh


@law("C30", g_site, n=500, thorough=10)
def choice_of_sites(c):
    t, p = make(c)
    which = c["which"]
    if which == "pops": p.maximize_common_bandwidth, c["common"] = False, False
    adv = set(sorted((l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values())[:c["adv"]]) if which == "coverage" else set()
    if which == "cost": o = new("cost_optimization:MinCostNetwork", t, p)
    elif which == "coverage": o = new("coverage_optimization:MaxCoverageNetwork", t, p, adv)
    else: o = new("pop_proposal_optimization:POPProposalNetwork", t, p)
    if o is None: return False
    done = False
    for cov in c["coverage"]:
        if not (build(o.solve, cov) if which == "cost" else build(o.solve) if which == "coverage" else build(o.propose_pops)): continue
        done = True
        net, always = t, p.always_active_pops
        if which == "pops":
            net, always = o.topology, False
            rp = api(ILP + "optimization_setup:OptimizationSetup")
            p.ignore_polarities = True
        w, R, S, sh = site_model_rules(o, net, p, adv, always)
        served = total(sh(q) for q in w.demand)
        if which == "cost":
            if c["common"]:
                con = connectable(o, w, adv)
                if con: R += [(f"share of demand {q}", w.demand[q] - sh(q) >= cov * min(w.demand[x] for x in con)) for q in con]
            else: R.append(("share of the demand", served <= (1 - cov) * w.total))
        elif which == "coverage": R.append(("budget", w.cost(S, lambda k, x: S(k)) <= p.budget))
        else:
            n = min(p.number_of_extra_pops + sum(1 for s in t.sites.values() if s.site_type.name == "POP" and s.status_type.name not in INACTIVE), sum(1 for k in w.kind if w.kind[k] == "POP" and w.status[k] not in INACTIVE))
            if n: R.append(("number of points of presence", total(S(k) for k in w.kind if w.kind[k] == "POP") == n))
        if which == "cost": aim = w.cost(S, lambda k, x: S(k))
        elif c["common"]:
            con = connectable(o, w, adv)
            aim = None
            if con:
                b = variables(o, "common_bandwidth")
                R += [(f"common bandwidth {q}", b <= w.demand[q] - sh(q)) for q in con] + [("common bandwidth", b >= 0), ("common bandwidth", b <= min(w.demand[q] for q in con))]
                aim = b * -1
        else: aim = served
        verdict(o, w, R, aim)
    return None if done else False


def connectable(o, w, adv):
    skip = {k for g in w.groups.values() if any(q in w.active for q in g) for k in w.forced(g, w.active)[1]}
    return w.reached(REACH, lambda ij: w.cap[ij] > 0 and ij not in adv, skip)


# ---------------------------------------------------------------- flow of a finished plan
def g_flow(r):
    spec = g_net(r, statuses=r.choice([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE"], ["EXISTING"]]), active=True, nmax=7)
    return {"spec": spec, "p": g_params(r), "polarity": True, "redundant": [r.random() < .1 for _ in spec["links"]]}


@law("C30", g_flow, n=300, thorough=10)
def flow_of_plan(c):
    recorder.install()
    t, ss, xs, ls, ds = topology(c["spec"])
    p = params(device_list=list({x.device.device_sku: x.device for x in ss}.values()), **c["p"])
    p.ignore_polarities = False
    for l, b in zip(ls, c["redundant"]): l.is_redundant = b
    o = new("flow_optimization:MaxFlowNetwork", t, p)
    if o is None or not build(o.solve): return False
    w = World(t, p)
    for ij, l in w.links.items():
        if l.is_redundant: w.cap[ij] = 0
        if w.status[ij[0]] == "CANDIDATE" or w.lstatus[ij] == "CANDIDATE": w.off.add(ij)
    F_, X_ = variables(o, "flow"), variables(o, "tdm")
    F, X = getter(F_), lambda ij: total(v for k, v in X_.items() if k[:2] == ij)
    limit = p.pop_capacity * sum(1 for k in w.kind if w.kind[k] == "POP")
    R = []
    w.off = {ij for ij in w.links if ij not in w.on or (ij in w.wireless and None in w.ends[ij])}
    flow_rules(w, o, R, F, X, limit, lambda n: (1 if n in w.active else 0) if n in w.kind else 1, None)
    for ij in w.wireless: R += [("share of time", X(ij) >= 0), ("share of time", X(ij) <= 1)]
    for k in w.kind:
        for x in w.sec[k]:
            v = 1 if x.status_type.name in ACTIVE else 0
            R.append((f"time sent by sector {x.sector_id}", total(X(e) for e in w.out[k] if e in w.wireless and w.ends[e][0] == x.sector_id) <= v))
            R.append((f"time received by sector {x.sector_id}", total(X(e) for e in w.into[k] if e in w.wireless and w.ends[e][1] == x.sector_id) <= v))
    con = w.reached(ACTIVE, lambda ij: w.cap[ij] > 0)
    b = variables(o, "buffer_var")
    R.append(("common amount not negative", b >= 0))
    for n in w.nodes:
        i, u = total(F(e) for e in w.into[n]), total(F(e) for e in w.out[n])
        if n in w.demand:
            if w.into[n]: R.append((f"demand {n} gets the common amount exactly if it is connected", i == (b if n in con else 0)))
        elif n == SRC: R.append(("the source only sends", u >= 0))
        elif w.into[n] or w.out[n]: R.append((f"flow conserved at {n}", i == u))
    verdict(o, w, R, b, sense="maximize")


# ---------------------------------------------------------------- links, sectors and channels of the chosen sites
def g_links(r):
    spec = g_net(r, statuses=r.choice([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE"]]), active=r.random() < .3, nmax=r.choice([4, 5, 6]))
    for l in spec["links"]: l["rsl_dbm"] = round(r.uniform(-75, -40), 1)
    n = len(spec["links"])
    pairs = [[i, j] for i in range(n) for j in range(i) if spec["links"][i]["tx"] == spec["links"][j]["tx"]]
    scan = r.choice([None, 70.0])
    if scan:
        for s in spec["sites"]:
            if s["type"] == "CN": s["sp"] = {"horizontal_scan_range": scan}
    return {"spec": spec, "p": g_params(r, number_of_channels=r.choice([1, 1, 2]), dn_dn_sector_limit=r.choice([1, 1, 2]), dn_total_sector_limit=r.choice([2, 3])), "polarity": r.random() < .8,
            "violating": [q for q in pairs if r.random() < .3], "interfering": [round(r.uniform(-90, -50), 1) if r.random() < .8 else None for _ in range(n)]}


@law("C30", g_links, n=400, thorough=10)
def choice_of_links(c):
    recorder.install()
    t, ss, xs, ls, ds = topology(c["spec"])
    p = params(device_list=list({x.device.device_sku: x.device for x in ss}.values()), **c["p"])
    p.ignore_polarities = not c["polarity"]
    ids = [(l.tx_site.site_id, l.rx_site.site_id) for l in ls]
    viol = [(ids[a][0], ids[a][1], ids[b][1]) for a, b in c["violating"]]
    rsl = {k: v for k, v in zip(ids, c["interfering"]) if v is not None}
    o = new("interference_optimization:MinInterferenceNetwork", t, p, viol, rsl)
    if o is None or not build(o.solve): return False
    w = World(t, p)
    chosen = set()
    for g in w.groups.values():
        act = [k for k in g if k in w.active]
        best = w.forced(g, w.active)[0]
        chosen |= {k for k in act if len(g) == 1 or w.kind[k] == best}
    ch = range(p.number_of_channels)
    F_, X_, O_, sh_, A_, V_, L_ = (variables(o, n) for n in ("flow", "tdm", "odd", "shortage", "active_link", "sector_vars", "deployment_link"))
    F, O, sh, A, V = getter(F_), getter(O_), getter(sh_), getter(A_), getter(V_)
    X = lambda ij: total(v for k, v in X_.items() if k[:2] == ij)
    U = lambda k, x: total(V((k, x, q)) for q in ch)
    on = {ij for ij in w.links if w.lstatus[ij] == "EXISTING"}
    R = [(f"{v.name}", Bin(v)) for d in (A_, V_) for v in d.values()]
    flow_rules(w, o, R, F, X, w.total, None, sh)
    R += [("share of time", lin(v) >= 0) for v in X_.values()] + [("share of time", lin(v) <= 1) for v in X_.values()]
    for q in w.demand: R += [("shortage not negative", sh(q) >= 0), ("shortage within demand", sh(q) <= w.demand[q])]
    able = {ij for ij in w.wireless if w.cap[ij] > 0 and None not in w.ends[ij]}
    for ij in A_: need(ij in able, f"the model decides on {ij}, which cannot be used")
    kind = {k: w.kind[k] for k in w.kind}
    for ij in able:
        i, j = ij
        a, b = w.ends[ij]
        R += [(f"flow only on used link {ij}", F(ij) <= w.cap[ij] * A(ij)), (f"time only on used link {ij}", X(ij) <= A(ij)), (f"sending sector of {ij}", A(ij) <= U(i, a)), (f"receiving sector of {ij}", A(ij) <= U(j, b))]
        if (j, i) in able: R.append((f"both directions of {ij}", A(ij) == A((j, i))))
        if kind[j] != "CN" and len(ch) > 1:
            for q in ch: R += [(f"one channel on {ij}", A(ij) <= V((i, a, q)) - V((j, b, q)) + 1), (f"one channel on {ij}", A(ij) <= V((j, b, q)) - V((i, a, q)) + 1)]
        if ij in w.off: R.append((f"inactive link {ij} unused", A(ij) == 0))
    for ij in on:
        if ij[0] in chosen and ij[1] in chosen:
            if ij in able: R.append((f"existing link {ij} used", A(ij) == 1))
            for k, x in zip(ij, w.ends[ij]):
                if x is not None: R.append((f"sector {x} of existing link used", U(k, x) == 1))
    for k in w.kind:
        for x in w.sec[k]:
            n = x.sector_id
            R.append((f"sector {n} only on a chosen site, on one channel", U(k, n) <= (1 if k in chosen else 0)))
            for y in w.sec[k]:
                if y is not x and y.node_id == x.node_id: R.append((f"sectors of a node {n}", U(k, n) == U(k, y.sector_id)))
            for q in ch:
                if (k, n, q) not in V_: continue
                R.append((f"time sent by {n}", total(X_[e + (q,)] for e in w.out[k] if e + (q,) in X_ and w.ends[e][0] == n) <= V((k, n, q))))
                R.append((f"time received by {n}", total(X_[e + (q,)] for e in w.into[k] if e + (q,) in X_ and w.ends[e][1] == n) <= V((k, n, q))))
            if w.dist(k):
                mine = [e for e in w.out[k] if e in able and w.ends[e][0] == n]
                R.append((f"distribution links of sector {n}", total(A(e) for e in mine if w.dist(e[1])) <= p.dn_dn_sector_limit))
                R.append((f"links of sector {n}", total(A(e) for e in mine) <= p.dn_total_sector_limit))
        if kind[k] == "CN": R.append((f"one link to client {k}", total(A(e) for e in w.into[k] if e in able) <= 1))
    if not p.ignore_polarities:
        R += [("polarity", Bin(v)) for v in O_.values()]
        polarity_rules(w, R, O, A, on)
    for i, j, k in viol:
        if not {(i, j), (i, k)} <= able or {(i, j), (i, k)} <= on: continue
        if len(ch) == 1: R.append((f"not both {i}-{j} and {i}-{k}", A((i, j)) + A((i, k)) <= 1))
        else:
            for q in ch:
                if (i, j, q) in L_ and (i, k, q) in L_: R.append(("not both on a channel", L_[(i, j, q)] + L_[(i, k, q)] <= 1))
                R.append((f"not both {i}-{j} and {i}-{k} on a channel", A((i, j)) + A((i, k)) + V((i, w.ends[(i, j)][0], q)) + V((i, w.ends[(i, k)][0], q)) <= 3))
    for (i, j, q), v in L_.items():
        a, b = w.ends[(i, j)]
        vr = V((j, b, q)) if (j, b, q) in V_ else V((j, b, 0))
        R += [("link on a channel", x) for x in (v <= A((i, j)), v <= V((i, a, q)), v <= vr, v >= A((i, j)) + V((i, a, q)) + vr - 2)] + [("link on a channel", Bin(v))]
    R += interference(w, p, able, chosen, rsl, ch, F, X_, O)
    far = max((l.distance for l in t.links.values()), default=1.0)
    aim = total(sh(q) for q in w.demand) * w.total - total((1 if far == 0 else 1 + (far - w.links[ij].distance) / far) * A(ij) for ij in able)
    verdict(o, w, R, aim, known=(F_, X_, O_, sh_, A_, V_, L_))


def interference(w, p, able, chosen, rsl, ch, F, X_, O):
    """the flow of a link is within the rate of a level whose threshold its signal reaches over noise and interference"""
    import z3
    power = lambda x: 10 ** (x / 10)
    tol = api("terragraph_planner.common.constants:SECTOR_LINK_ANGLE_TOLERANCE")
    out = []
    for (i, j) in able:
        if i not in chosen or j not in chosen: continue
        link = w.links[(i, j)]
        sp = w.t.sites[j].device.sector_params
        noise = power(sp.thermal_noise_power + sp.noise_figure)
        rows = [(m.mbps / 1000, 1 / power(m.snr)) for m in sp.mcs_map]
        terms = []
        for (k, j2) in able:
            if j2 != j or k == i or k not in chosen: continue
            path = w.links[(k, j)]
            if w.kind[j] != "CN":
                if w.ends[(k, j)][1] != w.ends[(i, j)][1]: continue
            elif sp.horizontal_scan_range < 360:
                d = abs(path.rx_beam_azimuth - link.rx_beam_azimuth) % 360
                if min(d, 360 - d) >= sp.horizontal_scan_range / 2 + tol: continue
            for (k2, l) in able:
                if k2 == k and l != j and l in chosen and w.ends[(k, l)][0] == w.ends[(k, j)][0]: terms.append((k, power(rsl[(k, j)]) if (k, j) in rsl else 0.0, (k, l)))

        def f(zv, slack, terms=terms, ij=(i, j), rows=rows, noise=noise, signal=power(link.rsl_dbm)):
            eps = z3.RealVal("0.000001") if slack else z3.RealVal(0)
            flow = recorder.zexpr(lin(F(ij)), zv)
            ok, bad = [flow <= 0], [flow > eps]
            for q in ch:
                t = z3.RealVal(repr(noise / signal))
                for k, g, e in terms:
                    x = recorder.zexpr(lin(X_[e + (q,)]), zv) * z3.RealVal(repr(g / signal))
                    t = t + (x if p.ignore_polarities else z3.If(recorder.zexpr(lin(O(ij[0])), zv) == recorder.zexpr(lin(O(k)), zv), x, 0))
                for rate, inv in rows:
                    r, v = z3.RealVal(repr(rate)), z3.RealVal(repr(inv))
                    ok.append(z3.And(flow <= r, t <= v))
                    bad.append(z3.Or(flow > r + eps, t > v * z3.RealVal("1.000001")))
            return z3.And(bad) if slack else z3.Or(ok)
        out.append((f"rate of {i}-{j} under interference", recorder.Formula(f"flow of {i}-{j} within the rate of the level it reaches", f)))
    return out


# ---------------------------------------------------------------- redundancy
def g_redundant(r):
    spec = g_net(r, statuses=r.choice([["PROPOSED", "CANDIDATE"], ["PROPOSED", "EXISTING", "CANDIDATE", "CANDIDATE"], ["PROPOSED", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]]), active=True, nmax=5)
    for l in spec["links"]: l["capacity"] = r.choice([1.8, 1.8, 1.8, 0.0])
    return {"spec": spec, "p": g_params(r), "polarity": r.random() < .8, "cap": [r.choice([1, 2]), r.choice([1, 2]), r.choice([1, 2])], "cost": r.random() < .5}


@law("C30", g_redundant, n=250, thorough=10)
def redundant_sites(c):
    recorder.install()
    t, ss, xs, ls, ds = topology(c["spec"])
    p = params(device_list=list({x.device.device_sku: x.device for x in ss}.values()), **c["p"])
    p.ignore_polarities = not c["polarity"]
    cp, cd, cs = c["cap"]
    o = new("redundancy_optimization:RedundantNetwork", t, p, api("terragraph_planner.optimization.structs:RedundancyParams")(pop_node_capacity=cp, dn_node_capacity=cd, sink_node_capacity=cs))
    if o is None or not build(o.shortage_solve): return False
    w = World(t, p)
    ends = {SRC} | {k for k in w.kind if w.dist(k)}
    edges = [e for e in w.edges if w.cap[e] > 0 and e[0] in ends and e[1] in ends]
    nodes = {k for e in edges for k in e}
    dns = [k for k in w.kind if w.kind[k] == "DN" and k in w.active]
    if c["cost"] and hasattr(o, "setup_problem_skeleton"):
        # the second model: the least shortage, here any, is given
        o.shortage = {k: n % (cs + 1) for n, k in enumerate(dns)}
        o.setup_problem_skeleton(shortage_decisions=False)
        o.create_cost_objective()
    else: c = dict(c, cost=False)
    S_, F_, O_, sh_ = (variables(o, n) for n in ("site_vars", "flow", "odd", "shortage"))
    S, F, O, sh = getter(S_), getter(F_), getter(O_), getter(sh_)
    R = [("chosen or not", Bin(v)) for v in S_.values()]
    for i, j in edges:
        for d in dns:
            f = F((i, j, d))
            R += [("flow not negative", f >= 0), ("flow per link", f <= (cp if i == SRC else 1))]
            if (i, j) in w.off: R.append((f"no flow on inactive link {i}-{j}", lin(f) == 0))
    for k in nodes - {SRC}:
        if k in w.active: R.append((f"active site {k} stays", S(k) == 1))
        elif w.status[k] in INACTIVE or w.kind[k] == "POP": R.append((f"site {k} cannot be added", S(k) == 0))
        for d in dns: R.append((f"flow into {k} only if chosen", total(F(e + (d,)) for e in edges if e[1] == k) <= (cp if w.kind[k] == "POP" else cs if k == d else cd) * S(k)))
    for g in w.groups.values():
        m = [k for k in g if k in nodes]
        if m: R.append((f"at most one of {m}", total(S(k) for k in m) <= 1))
    for d in dns:
        if not c["cost"]: R += [("shortage", sh(d) >= 0), ("shortage", sh(d) <= cs)]
        for k in nodes:
            i, u = total(F(e + (d,)) for e in edges if e[1] == k), total(F(e + (d,)) for e in edges if e[0] == k)
            R.append((f"flow towards {d} at {k}", u - i <= cs - sh(d) if k == SRC else i - u >= cs - sh(d) if k == d else i == u))
    if not p.ignore_polarities:
        R += [("polarity", Bin(v)) for v in O_.values()]
        for i, j in edges:
            if (i, j) not in w.wireless: continue
            if (i, j) in w.on: R.append((f"opposite polarities on active link {i}-{j}", O(i) + O(j) == 1))
            else:
                for d in dns: R += [("not both even", F((i, j, d)) <= O(i) + O(j)), ("not both odd", F((i, j, d)) <= 2 - O(i) - O(j))]
    part = World(t, p)
    part.kind = {k: v for k, v in w.kind.items() if k in nodes}
    verdict(o, w, R, part.cost(S, lambda k, x: S(k)) if c["cost"] else total(sh(d) for d in dns))
