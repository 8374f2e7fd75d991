"""C22 applying the optimiser's decisions, C26 pruning of circulating flow."""
from .core import Broken, Missing, api, close, law, need, raises
from .graph import bfs, params
from .topo import ACTIVE, E, STATUS, gen_topology, snapshot, topology

OPT = "terragraph_planner.optimization.topology_optimization:"
OPS = "terragraph_planner.optimization.topology_operations:"
ILP = "terragraph_planner.optimization.ilp_models."
FIXED = {"EXISTING", "UNAVAILABLE", "UNREACHABLE"}


# ---------------------------------------------------------------- C22
def g_decide(r):
    spec = gen_topology(r, nmax=r.choice([3, 5, 8, 12]), statuses=r.choice([STATUS, ["CANDIDATE", "PROPOSED"], ["CANDIDATE", "PROPOSED", "EXISTING"], ["CANDIDATE"]]), density=r.choice([.15, .3, .5]), pop=r.random() < .85, channels=r.choice([(0,), (-1, 0, 1)]))
    S, p = spec["sites"], r.choice([.5, .8, 1.0])
    for x in spec["sectors"]:
        if x["status"] == "EXISTING" and S[x["site"]]["status"] != "EXISTING": x["status"] = "CANDIDATE"
    pick = [r.random() < p for _ in S]
    up = [s["status"] == "EXISTING" or (s["status"] not in FIXED and k) for s, k in zip(S, pick)]
    sec = [bool(up[x["site"]] and r.random() < p) if x["status"] not in FIXED else r.random() < .5 for x in spec["sectors"]]
    lnk = [bool(up[l["tx"]] and up[l["rx"]] and r.random() < p) if l["status"] not in FIXED else r.random() < .5 for l in spec["links"]]
    pol = [r.choice(["ODD", "EVEN", None]) for _ in S]
    return {"spec": spec, "sites": pick, "sectors": sec, "links": lnk, "pol": pol, "both": r.randrange(len(S)) if r.random() < .05 else None,
            "chan": [r.choice([None, 0, 1, 2]) for _ in spec["sectors"]], "absent": r.random() < .4, "kind": r.choice(["Optimization", "Redundancy"])}


def solution(c, ss, xs, ls):
    val = lambda ks, bs: {k: int(b) for k, b in zip(ks, bs) if b or not c["absent"]}
    ids = [s.site_id for s in ss]
    sk = [(x.site.site_id, x.sector_id) for x in xs]
    d = dict(site_decisions=val(ids, c["sites"]), sector_decisions=val(sk, c["sectors"]), link_decisions=val([(l.tx_site.site_id, l.rx_site.site_id) for l in ls], c["links"]),
             odd_site_decisions=val(ids, [p == "ODD" or i == c["both"] for i, p in enumerate(c["pol"])]), even_site_decisions=val(ids, [p == "EVEN" or i == c["both"] for i, p in enumerate(c["pol"])]),
             channel_decisions={k: v for k, v in zip(sk, c["chan"]) if v is not None}, flow_decisions={}, shortage_decisions={}, objective_value=0.0, cost=0)
    if c["kind"] == "Optimization": d["tdm_decisions"] = {}
    return api(f"terragraph_planner.optimization.structs:{c['kind']}Solution")(**d)


@law("C22", g_decide, n=1200)
def decisions_applied(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    before = snapshot(t)
    f = api(OPT + "update_topology_with_solution")
    bad, _ = raises(api("terragraph_planner.common.exceptions:OptimizerException"), f, solution(c, ss, xs, ls), t)
    need(bad == (c["both"] is not None), f"rejected: {bad}; a site is both odd and even: {c['both'] is not None}")
    if bad: return
    now = lambda old, chosen: old if old in FIXED else "PROPOSED" if chosen else "CANDIDATE"
    st = [now(s["status"], k) for s, k in zip(spec["sites"], c["sites"])]
    sx = [now(x["status"], k) for x, k in zip(spec["sectors"], c["sectors"])]
    sl = [now(l["status"], k) for l, k in zip(spec["links"], c["links"])]
    d = bfs({"sites": [dict(s, status=q) for s, q in zip(spec["sites"], st)], "links": [dict(l, status=q) for l, q in zip(spec["links"], sl)]}, ACTIVE)
    st = ["CANDIDATE" if i not in d and q == "PROPOSED" else q for i, q in enumerate(st)]
    sx = ["CANDIDATE" if x["site"] not in d and q == "PROPOSED" else q for x, q in zip(spec["sectors"], sx)]
    sl = ["CANDIDATE" if q == "PROPOSED" and "CANDIDATE" in (st[l["tx"]], st[l["rx"]]) else q for l, q in zip(spec["links"], sl)]
    for i, o in enumerate(ss):
        need(o.status_type.name == st[i], f"site {i} was {spec['sites'][i]['status']}, chosen {c['sites'][i]}, {'connected' if i in d else 'without a path'}: {o.status_type.name}, expected {st[i]}")
        p = c["pol"][i] or "UNASSIGNED"
        need(o.polarity.name == p, f"site {i} has polarity {o.polarity.name}, decided {p}")
    for i, o in enumerate(xs):
        need(o.status_type.name == sx[i], f"sector {i} of site {spec['sectors'][i]['site']} was {spec['sectors'][i]['status']}, chosen {c['sectors'][i]}: {o.status_type.name}, expected {sx[i]}")
        w = -1 if c["chan"][i] is None else c["chan"][i]
        need(o.channel == w, f"sector {i} has channel {o.channel}, decided {w}")
    for i, o in enumerate(ls):
        l = spec["links"][i]
        need(o.status_type.name == sl[i], f"link {l['tx']}->{l['rx']} was {l['status']}, chosen {c['links'][i]}: {o.status_type.name}, expected {sl[i]}")
    after = snapshot(t)
    drop = {"sites": (0, 2), "sectors": (0, 2), "links": (0,)}
    strip = lambda s: {k: {i: tuple(w for n, w in enumerate(v) if n not in drop[k]) for i, v in s[k].items()} for k in drop}
    need(strip(before) == strip(after) and before["demands"] == after["demands"], "something other than status, polarity and channel changed")


def g_extra(r):
    spec = gen_topology(r, nmax=r.choice([3, 5, 8]), types=("DN", "DN", "DN", "CN", "POP"), statuses=r.choice([["CANDIDATE"], ["CANDIDATE", "EXISTING"], STATUS]), colocate=0, density=r.choice([.3, .6]), bidir=r.choice([.3, .8]), wired=.2, demands=3, served=.9)
    return {"spec": spec, "pick": [s["status"] not in ("UNAVAILABLE", "UNREACHABLE") and r.random() < .5 for s in spec["sites"]]}


@law("C22", g_extra, n=500)
def extra_points_of_presence(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    before, old = snapshot(t), (set(t.sites), set(t.sectors), set(t.links))
    add = api(ILP + "pop_proposal_optimization:add_duplicate_pop_to_dn_site")
    S = api("terragraph_planner.optimization.structs:OptimizationSolution")
    sol = S(site_decisions={s.site_id: int(c["pick"][i]) for i, s in enumerate(ss)}, sector_decisions={}, link_decisions={}, odd_site_decisions={}, even_site_decisions={}, channel_decisions={}, flow_decisions={}, tdm_decisions={}, shortage_decisions={}, objective_value=0.0, cost=0)
    served = {k: [s.site_id for s in d.connected_sites] for k, d in t.demand_sites.items()}
    add(t, sol)
    after = snapshot(t)
    for k in ("sites", "sectors", "links"):
        for i, v in before[k].items(): need(after[k].get(i) == v, f"{k} {i} changed: {v} -> {after[k].get(i)}")
    dup = {i for i, s in enumerate(spec["sites"]) if s["type"] == "DN" and c["pick"][i]}
    new = {}
    for k, s in t.sites.items():
        if k in old[0]: continue
        m = [i for i in dup if (ss[i].latitude, ss[i].longitude, ss[i].altitude) == (s.latitude, s.longitude, s.altitude)]
        need(len(m) == 1 and m[0] not in new and s.site_type.name == "POP" and s.status_type.name == "CANDIDATE" and s.device is ss[m[0]].device, f"added site {k} duplicates {m}")
        new[m[0]] = s
    need(set(new) == dup, f"points of presence added for sites {sorted(new)}, decided {sorted(dup)}")
    want = sorted((i, x["node"], x["pos"], x["az"], x.get("channel", 0)) for i in dup for x in spec["sectors"] if x["site"] == i)
    inv = {s.site_id: i for i, s in new.items()}
    got = sorted((inv.get(x.site.site_id, -1), x.node_id, x.position_in_node, x.ant_azimuth, x.channel) for k, x in t.sectors.items() if k not in old[1])
    need(want == got and all(x.status_type.name == "CANDIDATE" for k, x in t.sectors.items() if k not in old[1]), f"sectors added {got}, expected {want}")
    key = lambda site: ("pop", inv[site.site_id]) if site.site_id in inv else ("old", next(i for i, s in enumerate(ss) if s is site))
    sk = lambda x: (key(x.site), x.node_id, x.position_in_node)
    got = {(key(l.tx_site), key(l.rx_site)): (sk(l.tx_sector), sk(l.rx_sector), l.is_wireless, l.confidence_level, l.capacity, l.mcs_level, l.status_type.name) for k, l in t.links.items() if k not in old[2]}
    want = {}
    for l, o in zip(spec["links"], ls):
        if l["ts"] is None or l["rs"] is None or l["status"] in ("UNAVAILABLE", "UNREACHABLE"): continue
        a, b, A, B = l["tx"], l["rx"], spec["sectors"][l["ts"]], spec["sectors"][l["rs"]]
        if a in dup and spec["sites"][b]["type"] != "POP":
            want[("pop", a), ("old", b)] = ((("pop", a), A["node"], A["pos"]), (("old", b), B["node"], B["pos"]), o.is_wireless, o.confidence_level, o.capacity, o.mcs_level, "CANDIDATE")
        if b in dup and spec["sites"][a]["type"] != "POP":
            want[("old", a), ("pop", b)] = ((("old", a), A["node"], A["pos"]), (("pop", b), B["node"], B["pos"]), o.is_wireless, o.confidence_level, o.capacity, o.mcs_level, "CANDIDATE")
    need(got == want, f"links added {got}, expected {want}")
    for k, d in t.demand_sites.items():
        w = list(served[k])
        w = sorted(w + [new[i].site_id for i in dup if ss[i].site_id in w])
        need(sorted(s.site_id for s in d.connected_sites) == w, f"demand {k} is connected to {[s.site_id for s in d.connected_sites]}, expected {w}")
    return None if dup else False


@law("C22", lambda r: {"spec": gen_topology(r, nmax=6, statuses=r.choice([["PROPOSED", "EXISTING"], STATUS])), "n": 0}, n=300)
def whole_nodes_proposed(c):
    """a sector that shares its node with a proposed one is proposed too; no other changes"""
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    prop = {(x["site"], x["node"]) for x in spec["sectors"] if x["status"] == "PROPOSED"}
    api(OPS + "_set_sector_status_in_same_node")(t)
    for x, o in zip(spec["sectors"], xs):
        w = "PROPOSED" if x["status"] == "CANDIDATE" and (x["site"], x["node"]) in prop else x["status"]
        need(o.status_type.name == w, f"sector {x['node']}/{x['pos']} of site {x['site']} was {x['status']}: {o.status_type.name}, expected {w}")
    return None if prop else False


# ---------------------------------------------------------------- C26
EPS = 1e-6


def g_flows(r):
    n = r.choice([2, 3, 4, 5, 7])
    den = r.choice([.3, .6, 1.0])
    vals = r.choice([[1.0], [1.0, 2.0, 0.5, 0.0], None, [1.0, 1e-7, 3.0], [0.1, 0.2, 0.3]])
    links = [(i, j) for i in range(n) for j in range(n) if i != j and r.random() < den]
    r.shuffle(links)
    flows = [[i, j, r.choice(vals) if vals else round(r.uniform(0, 5), r.choice([1, 3, 6]))] for i, j in links]
    extra = [[i, j] for i in range(n) for j in range(n) if i != j and (i, j) not in links and r.random() < .2]
    if r.random() < .2:  # no loops at all
        flows = [[i, j, f] for i, j, f in flows if i < j]
    return {"n": n, "flows": flows, "extra": extra}


def cyclic(n, f, eps):
    """is there a directed cycle of links with more flow than eps?"""
    out = {i: [j for (a, j), v in f.items() if a == i and v > eps] for i in range(n)}
    left, deg = set(range(n)), {i: 0 for i in range(n)}
    for i in out:
        for j in out[i]: deg[j] += 1
    todo = [i for i in left if deg[i] == 0]
    while todo:
        i = todo.pop()
        left.discard(i)
        for j in out[i]:
            deg[j] -= 1
            if deg[j] == 0: todo.append(j)
    return bool(left)


@law("C26", g_flows, n=3000, timeout=30)
def loops_pruned(c):
    n = c["n"]
    C = api(ILP + "network_optimization:NetworkOptimization")
    eps = api("terragraph_planner.optimization.constants:EPSILON")
    o = object.__new__(C)
    name = lambda i: f"site {i}"
    o.locations = [name(i) for i in range(n)]
    o.links = [(name(i), name(j)) for i, j, _ in c["flows"]] + [(name(i), name(j)) for i, j in c["extra"]]
    given = {(i, j): f for i, j, f in c["flows"]}
    try: res = o.prune_loops({(name(i), name(j)): f for (i, j), f in given.items()})
    except AttributeError as e:
        if isinstance(getattr(e, "obj", None), C): raise Missing(str(e))
        raise
    idx = {name(i): i for i in range(n)}
    got = {(idx[a], idx[b]): f for (a, b), f in res.items()}
    need(set(got) == set(given) | {tuple(e) for e in c["extra"]}, f"flow is given for {sorted(got)}")
    tol = 1e-9
    for k, f in got.items():
        w = given.get(k, 0.0)
        need(-tol <= f <= w + tol, f"flow on {k} is {f}, it was {w}")
    net = lambda fl, i: sum(f for (a, b), f in fl.items() if b == i) - sum(f for (a, b), f in fl.items() if a == i)
    for i in range(n): need(abs(net(got, i) - net(given, i)) <= 1e-8, f"net inflow of {i} was {net(given, i)}, is {net(got, i)}")
    need(not cyclic(n, got, 2 * eps), f"circulating flow is left: {got}")
    if not cyclic(n, given, eps):
        need(all(got[k] == given.get(k, 0.0) for k in got), f"there was no loop; flow changed to {got}")
        return False
