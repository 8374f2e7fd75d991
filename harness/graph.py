"""C15 hop counts, C16 unreachable marking, C23 sums and counts, C24 failure analysis, C25 availability."""
import collections
import heapq
import itertools
import math
import random

from .core import Broken, api, close, law, need, raises
from .topo import ACTIVE, E, STATUS, device, gen_topology, link_statuses, sector_statuses, snapshot, topology

OPS = "terragraph_planner.optimization.topology_operations:"
NX = "terragraph_planner.optimization.topology_networkx:"
CNT = "terragraph_planner.optimization.topology_component_counter:"
REACH = ["PROPOSED", "EXISTING", "CANDIDATE"]


def filt(names): return {E("StatusType", n) for n in names}


def link_kind(spec, l): return "ETHERNET" if not l.get("wireless", True) else "WIRELESS_ACCESS" if spec["sites"][l["rx"]]["type"] == "CN" else "WIRELESS_BACKHAUL"


def bfs(spec, names):
    dist = {i: 0 for i, s in enumerate(spec["sites"]) if s["type"] == "POP" and s["status"] in names}
    front = list(dist)
    while front:
        nxt = []
        for i in front:
            for l in spec["links"]:
                if l["tx"] == i and l["status"] in names and spec["sites"][l["rx"]]["status"] in names and l["rx"] not in dist:
                    dist[l["rx"]] = dist[i] + 1
                    nxt.append(l["rx"])
        front = nxt
    return dist


FILTERS = [REACH, sorted(ACTIVE), ["PROPOSED"], ["EXISTING"], ["CANDIDATE"], STATUS, ["UNREACHABLE", "CANDIDATE"], ["UNAVAILABLE"]]


def g_hops(r):
    return {"spec": gen_topology(r, nmax=r.choice([3, 6, 10, 16]), statuses=r.choice([STATUS, REACH, ["PROPOSED"], ["CANDIDATE", "CANDIDATE", "UNREACHABLE"]]), density=r.choice([.12, .25, .5]), sectors=False, pop=r.random() < .8, served=.9, demands=5),
            "filter": r.choice(FILTERS + [None])}


@law("C15", g_hops, n=900)
def hop_counts(c):
    t, ss, *_ = topology(c["spec"])
    names = STATUS if c["filter"] is None else c["filter"]
    before = snapshot(t)
    got = api(OPS + "hops_from_pops")(t, None if c["filter"] is None else filt(names))
    want = {ss[i].site_id: d for i, d in bfs(c["spec"], names).items()}
    need(dict(got) == want, f"hops {dict(got)}; shortest distances are {want}")
    need(snapshot(t) == before, "the network was changed")
    return None if want else False


@law("C15", g_hops, n=500)
def reachable_demand(c):
    t, ss, xs, ls, ds = topology(c["spec"])
    names = STATUS if c["filter"] is None else c["filter"]
    got = api(OPS + "get_reachable_demand_sites")(t, filt(names))
    d = bfs(c["spec"], names)
    want = {ds[i].demand_id for i, x in enumerate(c["spec"]["demands"]) if any(j in d for j in x["sites"])}
    need(set(got) == want, f"reachable demand {set(got)}; expected {want}")
    return None if c["spec"]["demands"] else False


def g_mark(r):
    spec = gen_topology(r, nmax=r.choice([4, 7, 12]), statuses=r.choice([["CANDIDATE", "CANDIDATE", "CANDIDATE", "EXISTING", "PROPOSED"], STATUS, ["CANDIDATE"]]), density=r.choice([.1, .2, .4]), pop=r.random() < .9)
    return {"spec": spec, "max": r.choice([None, None, 0, 1, 2, 3])}


@law("C16", g_mark, n=900)
def unreachable_marking(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    d = bfs(spec, REACH)
    mx = c["max"]
    newly = {i for i, s in enumerate(spec["sites"]) if s["status"] == "CANDIDATE" and (i not in d or (mx and d[i] > mx))}
    before = snapshot(t)
    api(OPS + "mark_unreachable_components")(t, mx)
    unreach = newly | {i for i, s in enumerate(spec["sites"]) if s["status"] == "UNREACHABLE"}
    for i, s in enumerate(spec["sites"]):
        w = "UNREACHABLE" if i in newly else s["status"]
        need(ss[i].status_type.name == w, f"site {i} is {ss[i].status_type.name}, expected {w} (max hops {mx})")
    for x, o in zip(spec["sectors"], xs):
        w = "UNREACHABLE" if x["site"] in unreach else x["status"]
        need(o.status_type.name == w, f"sector of site {x['site']} is {o.status_type.name}, expected {w}")
    for x, o in zip(spec["links"], ls):
        w = "UNREACHABLE" if (x["tx"] in newly or x["rx"] in newly) and x["status"] != "UNAVAILABLE" else x["status"]
        need(o.status_type.name == w, f"link {x['tx']}->{x['rx']} is {o.status_type.name}, expected {w}")
    after = snapshot(t)
    strip = lambda s: {k: {i: v[1:] for i, v in s[k].items()} for k in ("sites", "sectors", "links")}
    need(strip(before) == strip(after) and before["demands"] == after["demands"], "something other than statuses changed")


# ---------------------------------------------------------------- C23
def g_costs(r):
    spec = gen_topology(r, nmax=r.choice([3, 6, 10]), statuses=STATUS if r.random() < .7 else ["PROPOSED", "EXISTING"])
    st = {}
    for x in spec["sectors"]:
        k = (x["site"], x["node"])
        x["status"] = st.setdefault(k, x["status"])
    for i, s in enumerate(spec["sites"]): s["capex"] = r.choice([0, 250.0, 100.5, 33.25]); s["sku"] = (s.get("sku") or "D_" + ("CN" if s["type"] == "CN" else "DN")) + str(s["capex"])
    return {"spec": spec, "site": [r.choice([0, 1000.0, 5.5]) for _ in range(3)], "order": r.random() < .5, "seed": r.randrange(1 << 30)}


def params(**k): return api("terragraph_planner.common.configuration.configs:OptimizerParams")(**k)


@law("C23", g_costs, n=700)
def capital_cost(c):
    spec = c["spec"]
    if c["order"]: random.Random(c["seed"]).shuffle(spec["sectors"]); [l.update(ts=None, rs=None) for l in spec["links"]]
    t, ss, xs, ls, ds = topology(spec)
    dev = {s.device.device_sku: s.device for s in ss}
    p = params(device_list=list(dev.values()), pop_site_capex=c["site"][0], dn_site_capex=c["site"][1], cn_site_capex=c["site"][2])
    cost = {"POP": c["site"][0], "DN": c["site"][1], "CN": c["site"][2]}
    want = {"PROPOSED": 0.0, "EXISTING": 0.0}
    for s in spec["sites"]:
        if s["status"] in want: want[s["status"]] += cost[s["type"]]
    seen = set()
    for x in spec["sectors"]:
        k = (x["site"], x["node"])
        if k in seen: continue
        seen.add(k)
        if x["status"] in want: want[x["status"]] += spec["sites"][x["site"]]["capex"]
    got = api(OPS + "compute_capex")(t, p)
    need(close(got.proposed_capex, want["PROPOSED"]), f"proposed cost {got.proposed_capex}, expected {want['PROPOSED']}")
    need(close(got.total_capex, want["PROPOSED"] + want["EXISTING"]), f"total cost {got.total_capex}, expected {sum(want.values())}")
    return None if want["PROPOSED"] + want["EXISTING"] else False


@law("C23", lambda r: {"spec": gen_topology(r, nmax=r.choice([3, 6, 10]), types=("POP", "POP", "DN", "CN"), statuses=r.choice([["PROPOSED", "EXISTING"], STATUS]), wired=.3, density=.6, pop=True), "cap": r.choice([0, 0.5, 1.8, 4.0, 100.0]), "filter": r.choice([sorted(ACTIVE), REACH, ["PROPOSED"]])}, n=700)
def pop_capacity(c):
    spec = c["spec"]
    t, *_ = topology(spec)
    got = api(OPS + "compute_max_pop_capacity_of_topology")(t, c["cap"], filt(c["filter"]))
    want = 0.0
    f = c["filter"]
    for i, s in enumerate(spec["sites"]):
        if s["type"] != "POP": continue
        wired, best = 0.0, {}
        for l in spec["links"]:
            if l["tx"] != i or l["status"] not in f or s["status"] not in f or spec["sites"][l["rx"]]["status"] not in f: continue
            if not l["wireless"]: wired += l["capacity"]
            elif l["ts"] is not None: best[l["ts"]] = max(best.get(l["ts"], 0.0), l["capacity"])
        want += min(c["cap"], wired + sum(best.values()))
    need(close(got, want), f"largest outgoing capacity {got}, expected {want}")
    return None if want else False


def redundant(spec, subset):
    by = collections.Counter()
    for i, s in enumerate(spec["sites"]):
        if subset is None or i in subset: by[(s["lat"], s["lon"], s["type"])] += 1
    out = collections.Counter()
    for (_, _, ty), n in by.items(): out[ty] += n - 1
    return out


@law("C23", lambda r: {"spec": gen_topology(r, nmax=r.choice([3, 7, 12]), statuses=r.choice([STATUS, ["PROPOSED", "EXISTING", "CANDIDATE"]]), colocate=.3, wired=.2, channels=r.choice([(0,), (0, 1, 2)]))}, n=700)
def component_counts(c):
    spec = c["spec"]
    for l in spec["links"]:
        if l.get("ts") is not None and spec["sectors"][l["ts"]]["channel"] != spec["sectors"][l["rs"]]["channel"]: l["ts"] = l["rs"] = None
    hashes = {}
    t, ss, xs, ls, ds = topology(spec)
    counts, skus, chans = api(CNT + "count_topology_components")(t)
    S, X, L = spec["sites"], spec["sectors"], spec["links"]
    act = lambda o: o["status"] in ACTIVE
    w = {}
    for ty in ("POP", "DN", "CN"):
        w[f"active_{ty.lower()}_sites"] = sum(act(s) and s["type"] == ty for s in S)
        w[f"total_{ty.lower()}_sites"] = sum(s["type"] == ty for s in S) - redundant(spec, None)[ty]
        w[f"active_demand_connected_{ty.lower()}_sites"] = len({i for d in spec["demands"] for i in d["sites"] if act(S[i]) and S[i]["type"] == ty})
    w["active_sites"] = sum(w[f"active_{k}_sites"] for k in ("pop", "dn", "cn"))
    w["total_sites"] = sum(w[f"total_{k}_sites"] for k in ("pop", "dn", "cn"))
    hop = bfs(spec, REACH)
    for ty in ("DN", "CN"): w[f"connectable_{ty.lower()}_sites"] = sum(S[i]["type"] == ty for i in hop) - redundant(spec, set(hop))[ty]
    kind = lambda x: "CN" if S[x["site"]]["type"] == "CN" else "DN"
    for k in ("DN", "CN"):
        w[f"active_{k.lower()}_nodes"] = len({(x["site"], x["node"]) for x in X if act(x) and kind(x) == k})
        w[f"total_{k.lower()}_nodes"] = len({(x["site"], x["node"]) for x in X if kind(x) == k})
    w["active_nodes"] = w["active_dn_nodes"] + w["active_cn_nodes"]
    w["total_nodes"] = w["total_dn_nodes"] + w["total_cn_nodes"]
    w["active_sectors"], w["total_sectors"] = sum(map(act, X)), len(X)
    w["active_cn_sectors"] = sum(act(x) and kind(x) == "CN" for x in X)
    w["active_dn_sectors_on_pops"] = sum(act(x) and S[x["site"]]["type"] == "POP" for x in X)
    w["active_dn_sectors_on_dns"] = sum(act(x) and S[x["site"]]["type"] == "DN" for x in X)
    pair = lambda l: frozenset(((S[i]["lat"], S[i]["lon"], S[i]["type"]) for i in (l["tx"], l["rx"])))
    for nm, k in (("backhaul", "WIRELESS_BACKHAUL"), ("access", "WIRELESS_ACCESS"), ("wired", "ETHERNET")):
        w[f"active_{nm}_links"] = len({pair(l) for l in L if act(l) and link_kind(spec, l) == k})
        w[f"total_{nm}_links"] = len({pair(l) for l in L if link_kind(spec, l) == k})
    n = collections.Counter(l["rx"] for l in L if S[l["rx"]]["type"] == "CN" and act(S[l["rx"]]) and l.get("ts") is not None and act(X[l["ts"]]))
    w["active_cns_with_backup_dns"] = sum(v > 1 for v in n.values())
    for k, v in w.items(): need(getattr(counts, k) == v, f"{k} = {getattr(counts, k)}, expected {v}")
    need({k: v for k, v in dict(skus).items() if v} == dict(collections.Counter(ss[i].device.device_sku for i, s in enumerate(S) if act(s))), f"device counts {skus}")
    ch = {}
    amb = set()
    for l in L:
        if act(l) and l["wireless"]:
            k = frozenset((l["tx"], l["rx"]))
            v = X[l["ts"]]["channel"] if l.get("ts") is not None else -1
            if ch.setdefault(k, v) != v: amb.add(k)
    if not amb: need({k: v for k, v in dict(chans).items() if v} == dict(collections.Counter(ch.values())), f"channel counts {dict(chans)}, expected {dict(collections.Counter(ch.values()))}")


# ---------------------------------------------------------------- C24
def g_graph(r):
    return {"spec": gen_topology(r, nmax=r.choice([4, 6, 9]), types=("POP", "DN", "DN", "CN"), statuses=r.choice([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "CANDIDATE"], STATUS]), density=r.choice([.2, .35, .6]), sectors=False, demands=5, pop=r.random() < .9, served=.9,
                                 wired=r.choice([0, .2]), bidir=r.choice([1, .8])), "filter": r.choice([sorted(ACTIVE), sorted(ACTIVE), REACH])}


def edges(spec, f):
    """id-free edges: site index pairs of the graph"""
    S = spec["sites"]
    return {(l["tx"], l["rx"]): l for l in spec["links"] if l["status"] in f and S[l["tx"]]["status"] in f and S[l["rx"]]["status"] in f}


def served(spec, f, es, dead=()):
    """demand indexes with a path from a filtered POP over the edges; sites in dead cannot pass anything on"""
    S = spec["sites"]
    seen = {i for i, s in enumerate(S) if s["type"] == "POP" and s["status"] in f}
    todo = [i for i in seen]
    while todo:
        i = todo.pop()
        if i in dead: continue
        for a, b in es:
            if a == i and b not in seen:
                seen.add(b)
                todo.append(b)
    return {k for k, d in enumerate(spec["demands"]) if any(i in seen and i not in dead and S[i]["status"] in f for i in d["sites"])}


def has_pop(spec, f): return any(s["type"] == "POP" and s["status"] in f for s in spec["sites"])


def graph_of(g): return (sorted((str(u), str(v), str(sorted((k, str(x)) for k, x in d.items()))) for u, v, d in g.edges(data=True)), sorted((str(n), str(sorted((k, str(x)) for k, x in d.items()))) for n, d in g.nodes(data=True)))


def demand_ids(spec, ds, idx): return {ds[i].demand_id for i in idx}


COST = lambda m: 1 if m > 8 else 3 if m > 3 else 15 if m > 1 else math.inf


@law("C24", g_graph, n=500)
def analysed_graph(c):
    spec, f = c["spec"], c["filter"]
    t, ss, xs, ls, ds = topology(spec)
    g = api(NX + "build_digraph")(t, filt(f))
    want = {}
    for (a, b), l in edges(spec, f).items(): want[(ss[a].site_id, ss[b].site_id)] = (link_kind(spec, l), COST(l["mcs_level"]))
    for i, s in enumerate(spec["sites"]):
        if s["type"] == "POP" and s["status"] in f: want[("SUPERSOURCE", ss[i].site_id)] = ("SUPERSOURCE", 1)
    for k, d in enumerate(spec["demands"]):
        for i in d["sites"]:
            if spec["sites"][i]["status"] in f: want[(ss[i].site_id, ds[k].demand_id)] = ("DEMAND", 1)
    got = {(u, v): (getattr(d["link_type"], "name", d["link_type"]), d["link_cost"]) for u, v, d in g.edges(data=True)}
    need(got == want, f"graph edges differ: unexpected {set(got.items()) - set(want.items())}, missing {set(want.items()) - set(got.items())}")
    need(set(g.nodes) - {"SUPERSOURCE"} <= {s.site_id for s in ss} | {d.demand_id for d in ds}, "unexpected node")


@law("C24", g_graph, n=500)
def failure_disruptions(c):
    spec, f = c["spec"], c["filter"]
    t, ss, xs, ls, ds = topology(spec)
    es = edges(spec, f)
    g = api(NX + "build_digraph")(t, filt(f))
    g0 = graph_of(g)
    base = served(spec, f, es)
    need(api(NX + "find_connected_demands")(g) == demand_ids(spec, ds, base), "connected demand differs")
    got = api(NX + "single_edge_failures")(g)
    want = {}
    for a, b in es:
        if link_kind(spec, es[(a, b)]) != "WIRELESS_BACKHAUL": continue
        rest = {k: v for k, v in es.items() if k not in ((a, b), (b, a))}
        want[tuple(sorted((ss[a].site_id, ss[b].site_id)))] = demand_ids(spec, ds, base - served(spec, f, rest))
    need({tuple(sorted(k)): set(v) for k, v in got.items()} == want and len(got) == len(want), f"link failures {got}; expected {want}")
    pop, dn = api(NX + "single_site_failures")(g)
    wp, wd = {}, {}
    for i, s in enumerate(spec["sites"]):
        if s["type"] == "CN": continue
        lost = base - served(spec, f, es, {i})
        if lost: (wp if s["type"] == "POP" else wd)[ss[i].site_id] = demand_ids(spec, ds, lost)
    need({k: set(v) for k, v in pop.items() if v} == wp, f"POP failures {pop}; expected {wp}")
    need({k: set(v) for k, v in dn.items() if v} == wd, f"DN failures {dn}; expected {wd}")
    need(graph_of(g) == g0, "the analysed graph was changed")
    return None if base else False


def simple_shortest(es_adj, src, dst):
    """all shortest site paths src set -> site dst"""
    best, out = None, []
    front = [[s] for s in src]
    seen = set()
    while front and not out:
        nxt = []
        for p in front:
            if p[-1] in dst: out.append(p)
        if out: break
        lev = {p[-1] for p in front}
        seen |= lev
        for p in front:
            for b in es_adj.get(p[-1], ()):
                if b not in seen: nxt.append(p + [b])
        front = nxt
    return out


@law("C24", g_graph, n=500)
def disjoint(c):
    spec, f = c["spec"], c["filter"]
    t, ss, xs, ls, ds = topology(spec)
    S = spec["sites"]
    es = edges(spec, f)
    if any(l["tx"] == l["rx"] for l in spec["links"]): return False
    g = api(NX + "build_digraph")(t, filt(f))
    g0 = graph_of(g)
    base = served(spec, f, es)
    r = api(NX + "disjoint_paths")(t, g)
    need(graph_of(g) == g0, "the analysed graph was changed by the disjoint path analysis")
    ids = [d.demand_id for d in ds]
    need(r.disconnected_demand_locations == demand_ids(spec, ds, set(range(len(ds))) - base), f"disconnected {r.disconnected_demand_locations}; expected {demand_ids(spec, ds, set(range(len(ds))) - base)}")
    pops = {i for i, s in enumerate(S) if s["type"] == "POP" and s["status"] in f}
    direct = {k for k in base if any(i in pops for i in spec["demands"][k]["sites"])}
    need(r.demand_connected_to_pop == demand_ids(spec, ds, direct), f"demand on POPs {r.demand_connected_to_pop}")
    adj = {}
    for a, b in es: adj.setdefault(a, []).append(b)
    for k in base - direct:
        paths = simple_shortest(adj, pops, {i for i in spec["demands"][k]["sites"] if S[i]["status"] in f})
        res = set()
        for p in paths:
            gone = {(a, b) for a, b in zip(p, p[1:]) if S[b]["type"] != "CN"}
            res.add(k in served(spec, f, {e: l for e, l in es.items() if e not in gone}))
        need((ids[k] in r.demand_with_disjoint_paths) in res, f"demand {k}: reported disjoint={ids[k] in r.demand_with_disjoint_paths}; after removing the links of its shortest path(s) {paths} it is connected: {res}")
    need(r.demand_with_disjoint_paths <= demand_ids(spec, ds, base - direct), "disjoint paths reported for a demand without any")
    return None if base - direct else False


@law("C24", g_graph, n=500)
def routing(c):
    spec, f = c["spec"], c["filter"]
    for l in spec["links"]: l["mcs_level"] = max(2, l["mcs_level"])
    t, ss, xs, ls, ds = topology(spec)
    if not has_pop(spec, f): return False
    es = edges(spec, f)
    g = api(NX + "build_digraph")(t, filt(f))
    g0 = graph_of(g)
    S = spec["sites"]
    lid = {(ss[a].site_id + "-" + ss[b].site_id): (a, b) for a, b in es}
    base = served(spec, f, es)

    def dist(cost, es=es):
        d = {i: 0 for i, s in enumerate(S) if s["type"] == "POP" and s["status"] in f}
        for _ in S:
            for (a, b), l in es.items():
                if a in d and d[a] + cost(l) < d.get(b, math.inf): d[b] = d[a] + cost(l)
        return {k: min([d[i] for i in spec["demands"][k]["sites"] if i in d and S[i]["status"] in f], default=None) for k in base}
    for name, cost in (("MCS_COST_PATH", lambda l: COST(l["mcs_level"])), ("SHORTEST_PATH", lambda l: 1), ("DPA_PATH", None)):
        used = api(NX + "get_topology_routing_results")(t, g, E("TopologyRouting", name))
        need(set(used) <= set(lid), f"{name}: links {set(used) - set(lid)} are not in the analysed graph")
        sub = {lid[u]: es[lid[u]] for u in used}
        need(served(spec, f, sub) == base, f"{name}: the used links reach {served(spec, f, sub)}, connected demand is {base}")
        if cost:
            w = dist(cost)
            got = dist(cost, sub)
            need(got == w, f"{name}: over the used links the costs are {got}, cheapest are {w}")
        # no link that serves no demand
        for u in used:
            a, b = lid[u]
            rest = dict(sub); rest.pop((a, b))
            if cost:
                pass
    need(graph_of(g) == g0, "the analysed graph was changed by routing")
    return None if base else False


def g_adv(r):
    spec = gen_topology(r, nmax=r.choice([5, 8]), types=("POP", "DN", "DN", "CN"), statuses=r.choice([["PROPOSED"], ["PROPOSED", "PROPOSED", "CANDIDATE"], ["PROPOSED", "EXISTING", "CANDIDATE"]]), density=r.choice([.3, .5]), sectors=False, demands=6, pop=True, served=1, wired=0, bidir=1, colocate=r.choice([0, .2]))
    for l in spec["links"]:
        if r.random() < .8: l["capacity"] = 1.8
    if r.random() < .7:
        # a proposed tree, further candidate links, demand on every site
        n = r.randint(4, 8)
        sites = [{"type": "POP" if i == 0 or r.random() < .1 else "DN", "lat": 37 + .0001 * i, "lon": -122 + .0002 * (i % 3), "alt": None, "status": "PROPOSED", "lt": "UNKNOWN", "bld": None, "name": "", "subs": None} for i in range(n)]
        links, done = [], set()
        def add(a, b, st, cap):
            for p, q in ((a, b), (b, a)):
                if (p, q) not in done: links.append({"tx": p, "rx": q, "ts": None, "rs": None, "status": st, "wireless": True, "conf": None, "capacity": cap, "mcs_level": 9, "snr_dbm": 20.0})
                done.add((p, q))
        for i in range(1, n): add(r.randrange(i), i, "PROPOSED", 1.8 if r.random() < .9 else 0.0)
        for _ in range(r.randint(0, 5)):
            a, b = r.sample(range(n), 2)
            if (a, b) not in done: add(a, b, "CANDIDATE", r.choice([1.8, 1.8, 0.0]))
        spec = {"sites": sites, "sectors": [], "links": links, "demands": [{"lat": 37.002, "lon": -122 + .0001 * i, "alt": None, "num": 1, "demand": 1.0, "sites": [i]} for i in range(n) if r.random() < .8]}
    return {"spec": spec, "ratio": r.choice([0, .05, .3, 1.0])}


@law("C24", g_adv, n=400)
def adversarial_links(c):
    spec = c["spec"]
    S = spec["sites"]
    t, ss, xs, ls, ds = topology(spec)
    before = snapshot(t)
    f = sorted(ACTIVE)
    got = api(OPS + "get_adversarial_links")(t, c["ratio"])
    need(snapshot(t) == before, "the network was changed")
    idx = {s.site_id: i for i, s in enumerate(ss)}
    es = edges(spec, f)
    act = [l for l in spec["links"] if l["status"] in ACTIVE and link_kind(spec, l) == "WIRELESS_BACKHAUL"]
    pairs = {tuple(sorted((idx[a], idx[b]))) for a, b in got}
    cap = math.ceil(len(act) * c["ratio"])
    if c["ratio"] == 0 or not act: need(not got, f"adversarial links {got} though none were asked for")
    need(len(pairs) <= cap, f"{len(pairs)} adversarial links, at most {cap} allowed")
    base = served(spec, f, es)
    for a, b in pairs:
        l = es.get((a, b)) or es.get((b, a))
        need(l is not None and link_kind(spec, l) == "WIRELESS_BACKHAUL", f"adversarial link {a}-{b} is not an active backhaul link")
        need(base - served(spec, f, {e: x for e, x in es.items() if e not in ((a, b), (b, a))}), f"losing the adversarial link {a}-{b} disconnects nothing")
    # together they disconnect nothing in the candidate network
    cand = {e: l for e, l in edges(spec, REACH).items() if l["capacity"] > 0}
    place = collections.defaultdict(list)
    for i, s in enumerate(S): place[(s["lat"], s["lon"])].append(i)
    if all(len(v) == 1 for v in place.values()) and pairs:
        cb = served(spec, REACH, cand)
        ca = served(spec, REACH, {e: l for e, l in cand.items() if tuple(sorted(e)) not in pairs})
        need(cb == ca, f"losing all adversarial links {pairs} cuts demand {cb - ca} off even the candidate network")
    return None if pairs else False


# ---------------------------------------------------------------- C25
AV = "terragraph_planner.optimization.topology_availability:compute_availability"


def g_avail(r):
    spec = gen_topology(r, nmax=r.choice([3, 4, 6]), types=("POP", "DN", "DN", "CN"), statuses=["PROPOSED"], density=r.choice([.4, .7]), sectors=False, demands=5, pop=True, served=1, wired=r.choice([0, .2]), bidir=1)
    for l in spec["links"]: l["status"] = "PROPOSED"
    return {"spec": spec,
            "avail": r.choice([0, 50, 90, 90, 99, 99.9, 100, 37.5]), "T": r.choice([1.0, 3.0, 10.0, 2.5]), "seed": r.choice([0, 1, 2, 12345, r.randrange(1 << 30)])}


@law("C25", g_avail, n=400)
def availability(c):
    import networkx as nx
    import numpy as np
    spec = c["spec"]
    if not has_pop(spec, ["PROPOSED"]): return False
    S = spec["sites"]
    t, ss, xs, ls, ds = topology(spec)
    f = ["PROPOSED"]
    es = edges(spec, f)
    g = api(NX + "build_digraph")(t, filt(f))
    g0 = graph_of(g)
    run = lambda: api(AV)(g, c["avail"], c["T"], None, c["seed"])
    a, la = run()
    a2, la2 = run()
    need(a == a2 and la == la2, "the same seed gives a different result")
    need(graph_of(g) == g0, "the analysed graph was changed")
    base = served(spec, f, es)
    need(set(a) == demand_ids(spec, ds, base) or all(a.get(ds[k].demand_id, 0) == 0 for k in range(len(ds)) if k not in base), f"availability reported for {set(a)}")
    for d, v in list(a.items()) + list(la.items()): need(-1e-9 <= v <= 1 + 1e-9, f"availability {v} of {d} is not a probability")
    bh = {e: l for e, l in es.items() if link_kind(spec, l) == "WIRELESS_BACKHAUL"}
    safe = served(spec, f, {e: l for e, l in es.items() if e not in bh})
    for k in safe: need(close(a[ds[k].demand_id], 1.0, 1e-6), f"availability {a[ds[k].demand_id]} of a demand no failing link separates")
    if c["avail"] == 100: need(all(close(v, 1, 1e-6) for v in a.values()), "links never fail but availability is below 1")
    if c["avail"] == 0: need(all(v <= 1e-6 for v in la.values()) , "links are never up but reported available")
    # replay of the failure and repair events of the same random stream
    rng = np.random.default_rng(c["seed"])
    up, T = {}, c["T"]
    ttf, ttr = c["avail"] / 100, 1.0 - c["avail"] / 100
    seen = set()
    idx = {s.site_id: i for i, s in enumerate(ss)}
    cuts = {0.0, T}
    for u, v, ty in g.edges(data="link_type"):
        if getattr(ty, "name", ty) != "WIRELESS_BACKHAUL": continue
        k = frozenset((idx[u], idx[v]))
        if k in seen: continue
        seen.add(k)
        x, iv = 0, []
        while x < T:
            y = x + rng.exponential(ttf)
            iv.append((x, min(y, T)))
            cuts.add(min(y, T))
            x = y + rng.exponential(ttr)
            cuts.add(min(x, T))
        up[k] = iv
    cuts = sorted(cuts)
    want = {k: 0.0 for k in base}
    for lo, hi in zip(cuts, cuts[1:]):
        m = (lo + hi) / 2
        live = {e: l for e, l in es.items() if e not in bh or any(p <= m < q for p, q in up[frozenset(e)])}
        for k in served(spec, f, live): want[k] += (hi - lo) / T
    for k in base: need(abs(a[ds[k].demand_id] - want[k]) < 1e-6, f"availability of demand {k} is {a[ds[k].demand_id]}; a path exists {want[k]} of the simulated time")
    for k, iv in up.items():
        w = sum(q - p for p, q in iv) / T
        g_ = [v for e, v in la.items() if frozenset(idx[x] for x in e) == k]
        need(len(g_) == 1 and abs(g_[0] - w) < 1e-6, f"link availability {g_}, expected {w}")
    return None if base else False


@law("C25", lambda r: {"a": r.choice([-0.001, -5, 100.001, 200, 50]), "T": r.choice([0, -1, 1.0])}, n=30)
def availability_inputs(c):
    import networkx as nx
    g = nx.DiGraph()
    g.add_edge("SUPERSOURCE", "p", link_type="SUPERSOURCE")
    ok = 0 <= c["a"] <= 100 and c["T"] > 0
    r, v = raises(api("terragraph_planner.common.exceptions:OptimizerException"), api(AV), g, c["a"], c["T"], None, 1)
    need(r != ok, f"{c} {'rejected' if r else 'accepted'}")
