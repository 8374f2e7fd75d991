"""C01-C04 at run time: network editing and queries, statuses, well-formedness."""
import hashlib
import json
import math

from .core import Broken, api, close, law, need, raises
from .topo import (ACTIVE, E, IMMUTABLE, STATUS, gen_site, gen_topology, link, link_statuses, loc, objects, sector, sector_statuses, site, snapshot, std_device, topology)

M = "terragraph_planner.common.topology_models."


# ------------------------------------------------------------------- C01
def g_edits(r):
    spec = gen_topology(r, nmax=6, density=.6, demands=3)
    ns, nx, nl, nd = len(spec["sites"]), len(spec["sectors"]), len(spec["links"]), len(spec["demands"])
    if r.random() < .1:
        i = r.randrange(ns)
        if spec["sites"][i]["type"] != "CN":
            st = [s for s in link_statuses(spec["sites"][i]["status"], spec["sites"][i]["status"])]
            spec["links"].append({"tx": i, "rx": i, "status": st[0], "wireless": False})
            nl += 1
    ops = []
    for _ in range(r.choice([6, 15, 40])):
        k = r.choices(["site+", "site-", "sec+", "sec-", "link+", "link-", "dem+", "dem-", "linkids+"], [4, 2, 4, 2, 5, 2, 1, 1, 1])[0]
        n = {"s": nx, "l": nl, "d": nd}[k[0]] if not k.startswith("site") else ns
        if n: ops.append([k, r.randrange(n)])
    return {"spec": spec, "ops": ops, "init": r.random() < .5}


def check_indexes(t, S, X, L, D, sec_of):
    """S, X, L, D: expected id -> object; sec_of: link id -> (tx sector id, rx sector id) or None"""
    need(set(t.sites) == set(S) and all(t.sites[k] is v for k, v in S.items()), "stored sites differ from those added")
    need(set(t.sectors) == set(X) and all(t.sectors[k] is v for k, v in X.items()), "stored sectors differ from those added")
    need(set(t.links) == set(L) and all(t.links[k] is v for k, v in L.items()), "stored links differ from those added")
    need(set(t.demand_sites) == set(D) and all(t.demand_sites[k] is v for k, v in D.items()), "stored demand sites differ from those added")
    fw = {(a, b): l for a, m in t.site_connectivity.items() for b, l in m.items()}
    bw = {(a, b): l for b, m in t.site_connectivity_reverse.items() for a, l in m.items()}
    ex = {(l.tx_site.site_id, l.rx_site.site_id): k for k, l in L.items()}
    need(fw == ex, f"forward connectivity {fw} differs from the links {ex}")
    need(bw == ex, f"reverse connectivity {bw} differs from the links {ex}")
    si = {(a, b) for a, m in t.site_id_to_sector_ids.items() for b in m}
    need(si == {(x.site.site_id, k) for k, x in X.items()}, "per-site sector lists differ from the sectors")
    sc = {(a, b): l for a, m in t.sector_connectivity.items() for b, l in m.items()}
    sr = {(a, b): l for b, m in t.sector_connectivity_reverse.items() for a, l in m.items()}
    exs = {}
    for k, l in L.items():
        if sec_of[k]: exs.setdefault(sec_of[k], set()).add(k)
    for got, nm in ((sc, "forward"), (sr, "reverse")):
        need(set(got) == set(exs) and all(got[p] in exs[p] for p in got), f"{nm} sector connectivity differs from the links")
    for k, l in L.items():
        cur = (l.tx_sector.sector_id, l.rx_sector.sector_id) if l.tx_sector is not None and l.rx_sector is not None else None
        need(cur == sec_of[k] and (l.tx_sector is None) == (l.rx_sector is None), f"link {k} has sectors {cur}, expected {sec_of[k]}")
        need(l.tx_site.site_id in S and l.rx_site.site_id in S, "link without its sites")
    for x in X.values(): need(x.site.site_id in S, "sector without its site")


@law("C01", g_edits, n=500)
def edit_history(c):
    T = api(M + "topology:Topology")
    spec = c["spec"]
    ss, xs, ls, ds = objects(spec)
    sec_all = {id(l): ((l.tx_sector.sector_id, l.rx_sector.sector_id) if l.tx_sector is not None else None) for l in ls}
    S, X, L, D, sec_of = {}, {}, {}, {}, {}
    if c["init"]:
        t = T(sites=ss, demand_sites=ds, sectors=xs, links=ls)
        S = {s.site_id: s for s in ss}
        X = {x.sector_id: x for x in xs}
        L = {l.link_id: l for l in ls}
        D = {d.demand_id: d for d in ds}
    else: t = T()
    sec = lambda l: sec_all[id(l)]
    chk = lambda: check_indexes(t, S, X, L, D, {k: sec(l) for k, l in L.items()})
    chk()
    for k, i in c["ops"]:
        err = None
        try:
            if k == "site+": ok = ss[i].site_id not in S; t.add_site(ss[i])
            elif k == "site-": ok = ss[i].site_id in S; t.remove_site(ss[i].site_id)
            elif k == "sec+": ok = xs[i].sector_id not in X and xs[i].site.site_id in S; t.add_sector(xs[i])
            elif k == "sec-": ok = xs[i].sector_id in X; t.remove_sector(xs[i].sector_id)
            elif k == "link+": ok = ls[i].tx_site.site_id in S and ls[i].rx_site.site_id in S; t.add_link(ls[i])
            elif k == "linkids+":
                l = ls[i]
                a, b = l.tx_site.site_id, l.rx_site.site_id
                ok = a in S and b in S
                t.add_link_from_site_ids(a, b, status_type=l.status_type, is_wireless=l.is_wireless)
            elif k == "link-": ok = ls[i].link_id in L; t.remove_link(ls[i].link_id)
            elif k == "dem+": ok = True; t.add_demand_site(ds[i])
            elif k == "dem-": ok = ds[i].demand_id in D; t.remove_demand_site(ds[i].demand_id)
        except Exception as e: err = e
        need((err is None) == ok, f"{k} {i}: {'rejected: %s: %s' % (type(err).__name__, err) if err else 'accepted'} although {'valid' if ok else 'invalid'}")
        if ok:
            if k == "site+": S[ss[i].site_id] = ss[i]
            elif k == "site-":
                sid = ss[i].site_id
                del S[sid]
                X = {q: x for q, x in X.items() if x.site.site_id != sid}
                L = {q: l for q, l in L.items() if sid not in (l.tx_site.site_id, l.rx_site.site_id)}
            elif k == "sec+": X[xs[i].sector_id] = xs[i]
            elif k == "sec-":
                sid = xs[i].sector_id
                del X[sid]
                for l in L.values():
                    if sec(l) and sid in sec(l): sec_all[id(l)] = None
            elif k == "link+": L[ls[i].link_id] = ls[i]
            elif k == "linkids+":
                nl = t.links.get(ls[i].link_id)
                need(nl is not None and nl.tx_site is S[ls[i].tx_site.site_id] and nl.rx_site is S[ls[i].rx_site.site_id] and nl.status_type == ls[i].status_type and nl.is_wireless == ls[i].is_wireless, "link built from site ids has other ends or attributes")
                sec_all[id(nl)] = None
                ls.append(nl)
                L[nl.link_id] = nl
            elif k == "link-": del L[ls[i].link_id]
            elif k == "dem+": D[ds[i].demand_id] = ds[i]
            elif k == "dem-": del D[ds[i].demand_id]
        chk()
    return bool(c["ops"])


@law("C01", lambda r: {"lat": r.uniform(30, 40)}, n=5)
def detected_sites_rejected(c):
    DS = api(M + "site:DetectedSite")
    t = api(M + "topology:Topology")()
    d = DS(E("SiteType", "DN"), loc(c["lat"], 10.0, 5.0), 3)
    r, _ = raises(Exception, t.add_site, d)
    need(r and not t.sites, "a detected site without a device was accepted")


# ------------------------------------------------------------------- C02
def g_query(r):
    spec = gen_topology(r, nmax=8, density=.5)
    return {"spec": spec, "st": r.choice([None, sorted(r.sample(STATUS, r.randint(0, 4)))]), "ty": r.choice([None, sorted(r.sample(["CN", "DN", "POP"], r.randint(0, 2)))]),
            "lt": r.choice([None, sorted(r.sample(["WIRELESS_BACKHAUL", "WIRELESS_ACCESS", "ETHERNET"], r.randint(0, 2)))]), "drop": r.random() < .3}


@law("C02", g_query, n=500)
def queries(c):
    t, ss, xs, ls, ds = topology(c["spec"])
    if c["drop"] and ls:
        l = ls.pop(len(ls) // 2)
        t.remove_link(l.link_id)
    before = snapshot(t)
    ids = [s.site_id for s in ss]
    by = {(l.tx_site.site_id, l.rx_site.site_id): l for l in ls}
    ms = lambda v: sorted(x.site_id for x in v)
    for s in ss:
        for nm, ex in (("get_successor_sites", [b for a, b in by if a == s.site_id]), ("get_predecessor_sites", [a for a, b in by if b == s.site_id]),
                       ("get_wireless_successor_sites", [b for (a, b), l in by.items() if a == s.site_id and l.is_wireless]),
                       ("get_wireless_predecessor_sites", [a for (a, b), l in by.items() if b == s.site_id and l.is_wireless])):
            v = getattr(t, nm)(s)
            need(ms(v) == sorted(ex), f"{nm} gives {ms(v)}, expected {sorted(ex)}")
            need(all(t.sites[x.site_id] is x for x in v), f"{nm} gives a foreign site object")
    for a in ids:
        for b in ids: need(t.get_link_by_site_ids(a, b) is by.get((a, b)), "get_link_by_site_ids")
    for l in ls: need(t.get_reverse_link(l) is by.get((l.rx_site.site_id, l.tx_site.site_id)), "get_reverse_link")
    bs = {}
    for l in ls:
        if l.tx_sector is not None: bs[(l.tx_sector.sector_id, l.rx_sector.sector_id)] = l
    for x in xs:
        for y in xs: need(t.get_link_by_sector_ids(x.sector_id, y.sector_id) is bs.get((x.sector_id, y.sector_id)), "get_link_by_sector_ids returns a link with other sectors or misses one")
    ghost = site({"type": "DN", "lat": 1.0, "lon": 2.0, "alt": 3.0})
    for nm in ("get_successor_sites", "get_predecessor_sites", "get_wireless_successor_sites", "get_wireless_predecessor_sites"): need(raises(Exception, getattr(t, nm), ghost)[0], f"{nm} accepts an unknown site")
    need(raises(Exception, t.get_link_by_site_ids, ids[0], "nope")[0] and raises(Exception, t.get_link_by_site_ids, "nope", ids[0])[0], "unknown site id accepted")
    if xs: need(raises(Exception, t.get_link_by_sector_ids, xs[0].sector_id, "nope")[0] and raises(Exception, t.get_link_by_sector_ids, "nope", xs[0].sector_id)[0], "unknown sector id accepted")
    st = None if c["st"] is None else {E("StatusType", x) for x in c["st"]}
    ty = None if c["ty"] is None else {E("SiteType", x) for x in c["ty"]}
    lt = None if c["lt"] is None else {E("LinkType", x) for x in c["lt"]}
    need(t.get_site_ids(status_filter=st, site_type_filter=ty) == {s.site_id for s in ss if (st is None or s.status_type in st) and (ty is None or s.site_type in ty)}, "get_site_ids")
    ltype = lambda l: "ETHERNET" if not l.is_wireless else "WIRELESS_ACCESS" if l.rx_site.site_type.name == "CN" else "WIRELESS_BACKHAUL"
    need(t.get_link_site_id_pairs(status_filter=st, link_type_filter=lt) == {p for p, l in by.items() if (st is None or l.status_type in st) and (lt is None or ltype(l) in c["lt"])}, "get_link_site_id_pairs")
    if st is not None:
        ex = {}
        for x in xs:
            if x.status_type in st: ex.setdefault(x.site.site_id, set()).add(x.sector_id)
        got = {k: v for k, v in t.get_sector_ids(st).items() if v}
        need(got == ex, f"get_sector_ids gives {got}, expected {ex}")
    need(t.get_sectorless_links() == {p for p, l in by.items() if l.is_wireless and l.tx_sector is None}, "get_sectorless_links")
    ex = {}
    for s in ss: ex.setdefault((s.longitude, s.latitude, s.altitude), []).append(s.site_id)
    got = {tuple(k): v for k, v in t.get_colocated_sites().items()}
    need({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in ex.items()}, "get_colocated_sites")
    pol = t.get_site_polarities()
    for p in ("ODD", "EVEN"):
        need(pol[E("PolarityType", p)] == {s.site_id for s in ss if s.polarity.name == p and s.status_type.name in ACTIVE and s.site_type.name != "CN"}, f"get_site_polarities {p}")
    need(set(k.name for k in pol) == {"ODD", "EVEN"}, "polarity groups")
    need(snapshot(t) == before, "a query changed the network")
    t.sort()
    after = snapshot(t)
    srt = lambda s: {**s, "demands": {k: (tuple(sorted(v[0])), *v[1:]) for k, v in s["demands"].items()}}
    need(srt(after) == srt(before), "sort changed the content")
    for m in (t.sites, t.sectors, t.links, t.demand_sites): need(list(m) == sorted(m), "sort did not order the items")
    for d in t.demand_sites.values(): need([s.site_id for s in d.connected_sites] == sorted(s.site_id for s in d.connected_sites), "connected sites are not ordered")
    return bool(ls)


# ------------------------------------------------------------------- C03
def combos_site(): return [{"old": a, "new": b, "type": t} for a in STATUS for b in STATUS for t in ("CN", "DN", "POP")]


@law("C03", lambda r: {}, n=0, corners=combos_site())
def site_status(c):
    s = site({"type": c["type"], "lat": 1.0, "lon": 2.0, "status": c["old"]})
    need(s.status_type.name == c["old"], "initial status")
    ok = not ({c["old"], c["new"]} & IMMUTABLE)
    r, e = raises(Exception, setattr, s, "status_type", E("StatusType", c["new"]))
    need(r == (not ok), f"site {c['old']} -> {c['new']} {'rejected' if r else 'accepted'}")
    need(s.status_type.name == (c["new"] if ok else c["old"]), "resulting site status")


def compat_sector(site_st, s): return s in ("CANDIDATE", "PROPOSED", "EXISTING") if site_st in ACTIVE else s == site_st


MUT = ["PROPOSED", "CANDIDATE", "UNREACHABLE"]
SEC = [{"site0": a, "site": b, "old": o, "new": n} for a in STATUS for b in ([a] if a in IMMUTABLE else MUT) for o in STATUS for n in STATUS]


@law("C03", lambda r: {}, n=0, corners=SEC)
def sector_status(c):
    st = site({"type": "DN", "lat": 1.0, "lon": 2.0, "status": c["site0"]})
    r, x = raises(Exception, sector, [st], {"site": 0, "node": 0, "pos": 0, "status": c["old"]})
    need(r == (not compat_sector(c["site0"], c["old"])), f"sector created as {c['old']} on a {c['site0']} site: {'rejected' if r else 'accepted'}")
    if r: return
    if c["site"] != c["site0"]: st.status_type = E("StatusType", c["site"])
    ok = not ({c["old"], c["new"]} & IMMUTABLE) and compat_sector(c["site"], c["new"])
    r, e = raises(Exception, setattr, x, "status_type", E("StatusType", c["new"]))
    need(r == (not ok), f"sector {c['old']} -> {c['new']} on a {c['site']} site {'rejected' if r else 'accepted'}")
    need(x.status_type.name == (c["new"] if ok else c["old"]), "resulting sector status")


LNK = [{"a": a, "b": b, "a2": a2, "b2": b2, "old": o} for a in STATUS for b in STATUS for a2 in ([a] if a in IMMUTABLE else MUT) for b2 in ([b] if b in IMMUTABLE else MUT) for o in STATUS]


@law("C03", lambda r: {}, n=0, corners=LNK)
def link_status(c):
    ss = [site({"type": "DN", "lat": 1.0, "lon": 2.0, "status": c["a"]}), site({"type": "POP", "lat": 1.001, "lon": 2.0, "status": c["b"]})]
    r, l = raises(Exception, link, ss, [], {"tx": 0, "rx": 1, "status": c["old"]})
    need(r == (c["old"] not in link_statuses(c["a"], c["b"])), f"link created as {c['old']} between {c['a']} and {c['b']}: {'rejected' if r else 'accepted'}")
    if r: return
    for s, v0, v in ((ss[0], c["a"], c["a2"]), (ss[1], c["b"], c["b2"])):
        if v != v0: s.status_type = E("StatusType", v)
    for new in STATUS:
        cur = l.status_type.name
        ok = not ({cur, new} & IMMUTABLE) and new in link_statuses(c["a2"], c["b2"])
        r, e = raises(Exception, setattr, l, "status_type", E("StatusType", new))
        need(r == (not ok), f"link {cur} -> {new} between {c['a2']} and {c['b2']} {'rejected' if r else 'accepted'}")
        need(l.status_type.name == (new if ok else cur), "resulting link status")


@law("C03", lambda r: {}, n=0, corners=[{}])
def status_groups(c):
    S = api("terragraph_planner.common.configuration.enums:StatusType")
    n = lambda v: {x.name for x in v}
    need(n(S.immutable_status()) == {"EXISTING", "UNAVAILABLE"} and n(S.active_status()) == {"EXISTING", "PROPOSED"} and n(S.inactive_status()) == {"UNAVAILABLE", "UNREACHABLE"}
         and n(S.reachable_status()) == {"PROPOSED", "EXISTING", "CANDIDATE"}, "status groups")


# ------------------------------------------------------------------- C04
WF = [{"type": t, "dev": d, "lt": l, "bld": b, "name": nm} for t in ("CN", "DN", "POP") for d in ("CN", "DN") for l in ("UNKNOWN", "STREET_LEVEL", "ROOFTOP") for b in (None, -1, 0, 7) for nm in ("", "n")]


@law("C04", lambda r: {}, n=0, corners=WF)
def site_creation(c):
    S = api(M + "site:Site")
    f = lambda: S(site_type=E("SiteType", c["type"]), location=loc(10.0, 20.0, 5.0), device=std_device(c["dev"]), status_type=E("StatusType", "CANDIDATE"), location_type=E("LocationType", c["lt"]),
                  building_id=c["bld"], name=c["name"], number_of_subscribers=None)
    ok = (c["bld"] is not None) == (c["lt"] == "ROOFTOP") and (c["dev"] == "CN") == (c["type"] == "CN")
    r, s = raises(Exception, f)
    need(r == (not ok), f"site {c} {'rejected' if r else 'accepted'}")
    if r: return
    need(s.site_type.name == c["type"] and s.location_type.name == c["lt"] and s.building_id == c["bld"], "attributes")
    need(s.name == (c["name"] or s.site_id), "name falls back to the id")


def g_ident(r):
    a = gen_site(r, 0)
    b = dict(gen_site(r, 1))
    if r.random() < .7:
        for f in ("type", "lat", "lon", "alt", "status", "lt", "bld"): b[f] = a[f]
        k = r.choice(["type", "lat", "lon", "alt", "sku", "name", "status", "none", "subs"])
        if k == "type": b["type"] = r.choice(["DN", "POP", "CN"])
        elif k in ("lat", "lon"): b[k] = round(b[k] + r.choice([1e-6, 1e-4]), 6)
        elif k == "alt": b["alt"] = r.choice([None, 0.0, 12.5])
        elif k == "sku": b["sku"] = "ANOTHER"
        elif k == "name": b["name"] = "renamed"
        elif k == "status": b["status"] = r.choice(STATUS)
        elif k == "subs": b["subs"] = 9
    return {"a": a, "b": b, "node": r.randint(0, 3), "pos": r.randint(0, 3), "node2": r.randint(0, 3), "pos2": r.randint(0, 3)}


@law("C04", g_ident, n=600)
def identity(c):
    a, b = site(c["a"]), site(c["b"])
    kind = lambda s: "CN" if s["type"] == "CN" else "DN"
    key = lambda s: (s["type"], s["lat"], s["lon"], s.get("alt"), s.get("sku") or kind(s))
    need((a.site_id == b.site_id) == (key(c["a"]) == key(c["b"])), "site ids equal exactly when type, place, altitude and device are")
    need(site(c["a"]).site_id == a.site_id, "site id is not reproducible")
    for s, d in ((a, c["a"]), (b, c["b"])):
        need(s.latitude == d["lat"] and s.longitude == d["lon"] and s.altitude == d["alt"] and s.status_type.name == d["status"], "stored attributes")
        need(s.number_of_subscribers == ((d["subs"] or 1) if d["type"] == "CN" else 0), "number of subscribers")
    st = sector_statuses(c["a"]["status"])[0]
    x = sector([a], {"site": 0, "node": c["node"], "pos": c["pos"], "status": st, "az": 10.0})
    y = sector([a], {"site": 0, "node": c["node2"], "pos": c["pos2"], "status": st, "az": 70.0})
    z = sector([b], {"site": 0, "node": c["node"], "pos": c["pos"], "status": sector_statuses(c["b"]["status"])[0]})
    need((x.sector_id == y.sector_id) == ((c["node"], c["pos"]) == (c["node2"], c["pos2"])), "sector ids equal exactly when node and position are")
    need((x.sector_id == z.sector_id) == (a.site_id == b.site_id), "sector ids on different sites")
    need(x.site is a and x.node_id == c["node"] and x.position_in_node == c["pos"] and x.sector_type.name == ("CN" if c["a"]["type"] == "CN" else "DN"), "sector attributes")
    D = api(M + "demand_site:DemandSite")
    d1, d2 = D(location=loc(c["a"]["lat"], c["a"]["lon"], c["a"]["alt"])), D(location=loc(c["b"]["lat"], c["b"]["lon"], c["b"]["alt"]))
    need((d1.demand_id == d2.demand_id) == ((c["a"]["lat"], c["a"]["lon"], c["a"]["alt"]) == (c["b"]["lat"], c["b"]["lon"], c["b"]["alt"])), "demand ids")


LC = [{"tx": t, "rx": r, "ts": a, "rs": b, "give": g} for t in ("CN", "DN", "POP") for r in ("CN", "DN", "POP") for a in (None, 0, 1, 2) for b in (None, 0, 1, 2) for g in ("both", "sectors", "tx", "rx")]


@law("C04", lambda r: {}, n=0, corners=LC)
def link_creation(c):
    L = api(M + "link:Link")
    ss = [site({"type": c["tx"], "lat": 1.0, "lon": 2.0}), site({"type": c["rx"], "lat": 1.01, "lon": 2.0}), site({"type": "DN", "lat": 1.0, "lon": 2.03})]
    xs = [sector(ss, {"site": i, "node": 0, "pos": 0}) for i in range(3)]
    a, b = (None if c[k] is None else xs[c[k]] for k in ("ts", "rs"))
    k = {}
    if c["give"] in ("both", "tx"): k["tx_site"] = ss[0]
    if c["give"] in ("both", "rx"): k["rx_site"] = ss[1]
    tx = k.get("tx_site", a.site if a else None)
    rx = k.get("rx_site", b.site if b else None)
    ok = tx is not None and rx is not None and tx.site_type.name != "CN" and (a is None) == (b is None) and (a is None or (a.site is tx and b.site is rx))
    r, l = raises(Exception, L, tx_sector=a, rx_sector=b, **k)
    need(r == (not ok), f"link creation {'rejected: %s' % l if r else 'accepted'}")
    if r: return
    need(l.tx_site is tx and l.rx_site is rx and l.tx_sector is a and l.rx_sector is b, "ends")
    need(l.link_id == L.get_link_id_by_site_ids(tx.site_id, rx.site_id), "link id")
    need(l.is_out_of_sector() == (a is None), "is_out_of_sector")
    for s in xs:
        r, _ = raises(Exception, setattr, l, "tx_sector", s)
        need(r == (s.site is not tx) and (l.tx_sector is s if not r else l.tx_sector is not s or s.site is tx), "replacing the transmitting sector")
        r, _ = raises(Exception, setattr, l, "rx_sector", s)
        need(r == (s.site is not rx) and (l.rx_sector is s if not r else l.rx_sector is not s or s.site is rx), "replacing the receiving sector")


def g_geo(r):
    base = r.choice([(37.0, -122.0), (-33.9, 151.2), (51.5, 0.0), (0.0, 20.0), (64.1, -21.9)])
    sp = r.choice([.0005, .005, .05])
    p = lambda: [round(base[0] + r.uniform(-sp, sp), 7), round(base[1] + r.uniform(-sp, sp), 7), r.choice([None, 0.0, round(r.uniform(0, 300), 2)])]
    a, b = p(), p()
    if r.random() < .05: b = a[:2] + [b[2]]
    if r.random() < .15: b[1] = a[1]
    if r.random() < .15: b[0] = a[0]
    return {"a": a, "b": b, "types": [r.choice(["DN", "POP"]), r.choice(["DN", "POP"])], "cn": r.random() < .3, "wireless": r.random() < .7, "az": [r.choice([0, 359.9, round(r.uniform(0, 359.99), 3)]) for _ in "ab"],
            "st": r.choice(["PROPOSED", "CANDIDATE", "EXISTING", "UNREACHABLE", "UNAVAILABLE"]), "ch": [r.randint(-1, 2), r.randint(0, 2)], "sec": r.random() < .8}


def hav(a, b):
    R = api("terragraph_planner.common.constants:EARTH_RADIUS")
    la, lb = math.radians(a[0]), math.radians(b[0])
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[1] - a[1]) / 2) ** 2
    return 2 * R * math.asin(math.sqrt(h))


def bearing(a, b):
    la, lb, d = math.radians(a[0]), math.radians(b[0]), math.radians(b[1] - a[1])
    return math.degrees(math.atan2(math.cos(lb) * math.sin(d), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(d))) % 360


def adiff(a, b):
    d = (a - b) % 360
    return d - 360 if d > 180 else d


@law("C04", g_geo, n=800)
def link_geometry(c):
    A, B = c["a"], c["b"]
    ty = list(c["types"])
    if c["cn"]: ty[1] = "CN"
    st = {"PROPOSED": ("PROPOSED", "PROPOSED"), "CANDIDATE": ("CANDIDATE", "CANDIDATE"), "EXISTING": ("EXISTING", "EXISTING"), "UNREACHABLE": ("UNREACHABLE", "UNREACHABLE"), "UNAVAILABLE": ("UNAVAILABLE", "UNAVAILABLE")}[c["st"]]
    ss = [site({"type": ty[i], "lat": p[0], "lon": p[1], "alt": p[2], "status": st[i], "sku": f"D{i}_{ty[i]}"}) for i, p in enumerate((A, B))]
    sst = {"PROPOSED": "PROPOSED", "EXISTING": "EXISTING"}.get(c["st"], c["st"])
    xs = [sector(ss, {"site": i, "node": 0, "pos": 0, "az": c["az"][i], "status": sst, "channel": c["ch"][i]}) for i in (0, 1)]
    k = {"status": c["st"], "wireless": c["wireless"]}
    sec = c["sec"]
    l = link(ss, xs, {"tx": 0, "rx": 1, "ts": 0 if sec else None, "rs": 1 if sec else None, **k})
    d = hav(A, B)
    if A[2] is not None and B[2] is not None: d = math.hypot(d, A[2] - B[2])
    need(close(l.distance, d, 1e-6), f"length {l.distance}, expected {d}")
    need(l.link_type.name == ("ETHERNET" if not c["wireless"] else "WIRELESS_ACCESS" if ty[1] == "CN" else "WIRELESS_BACKHAUL"), "link type")
    flat = hav(A, B)
    az = None
    if flat > .05:
        az = bearing(A, B)
        need(abs(adiff(l.tx_beam_azimuth, az)) < 1e-3, f"beam azimuth {l.tx_beam_azimuth}, expected {az}")
    need(0 <= l.tx_beam_azimuth < 360 and 0 <= l.rx_beam_azimuth < 360, "beam azimuth range")
    need(abs(abs(adiff(l.tx_beam_azimuth, l.rx_beam_azimuth)) - 180) < 1e-9, "beam azimuths of the two ends are not half a turn apart")
    if sec and c["wireless"]:
        for dev, beam, a in ((l.tx_dev, l.tx_beam_azimuth, c["az"][0]), (l.rx_dev, l.rx_beam_azimuth, c["az"][1])):
            need(-180 < dev <= 180 and abs(adiff(dev, adiff(beam, a))) < 1e-9, f"deviation {dev} of beam {beam} from sector {a}")
    else: need(l.tx_dev is None and l.rx_dev is None, "deviation without sector or on a wired link")
    el = math.degrees(math.asin((B[2] - A[2]) / d)) if A[2] is not None and B[2] is not None and d > 0 else 0
    need(close(l.el_dev, el, 1e-6) or abs(l.el_dev - el) < 1e-4, f"elevation deviation {l.el_dev}, expected {el}")
    need(l.sorted_site_ids == tuple(sorted((ss[0].site_id, ss[1].site_id))), "sorted site ids")
    if sec and c["st"] in ACTIVE:
        r, ch = raises(Exception, lambda: l.link_channel)
        if c["ch"][0] == c["ch"][1]: need(not r and ch == c["ch"][0], f"channel {ch}")
        else: need(r, "channel although the two sectors differ")
    else: need(l.link_channel == api("terragraph_planner.optimization.constants:UNASSIGNED_CHANNEL"), "channel of an inactive or sectorless link")
    if not c["cn"]:
        m = link(ss, xs, {"tx": 1, "rx": 0, **k})
        need(close(m.distance, l.distance, 1e-9), "length differs from the reverse link's")
        need(m.link_hash == l.link_hash, "hash differs from the reverse link's")
        need(abs(m.el_dev + l.el_dev) < 1e-6, "elevation deviation is not opposite to the reverse link's")
        need(m.link_id != l.link_id or ss[0].site_id == ss[1].site_id, "reverse link has the same id")
        if flat > 1: need(abs(adiff(m.tx_beam_azimuth, l.rx_beam_azimuth)) < .1, "the reverse link's beam is not this link's receiving beam")
        need(m.sorted_site_ids == l.sorted_site_ids, "sorted ids of the reverse link")
    l2 = link([ss[0], site({"type": "DN", "lat": B[0] + .02, "lon": B[1] + .02, "status": st[1]})], [], {"tx": 0, "rx": 1, **k})
    need(l2.link_hash != l.link_hash, "links to far apart sites share a hash")
    return flat > 0
