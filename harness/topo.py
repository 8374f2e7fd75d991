"""Networks of the real classes from plain data, and generators of such data."""
from .core import api

CFG = "terragraph_planner.common.configuration."
STATUS = ["PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]
ACTIVE = {"PROPOSED", "EXISTING"}
IMMUTABLE = {"EXISTING", "UNAVAILABLE"}


def E(enum, name): return getattr(api(f"{CFG}enums:{enum}"), name)


def device(kind, sku=None, **k):
    D = api(CFG + "configs:DeviceData")
    S = api(CFG + "configs:SectorParams")
    sp = k.pop("sp", {})
    return D(device_sku=sku or f"SKU_{kind}", sector_params=S(**sp), device_type=E("DeviceType", kind), **k)


_DEV = {}


def std_device(kind, sku=None, capex=None, sp=None, nodes=None):
    key = (kind, sku, capex, repr(sp), nodes)
    if key not in _DEV:
        k = {}
        if capex is not None: k["node_capex"] = capex
        if sp: k["sp"] = dict(sp)
        if nodes is not None: k["number_of_nodes_per_site"] = nodes
        _DEV[key] = device(kind, sku, **k)
    return _DEV[key]


def loc(lat, lon, alt=None): return api("terragraph_planner.common.geos:GeoLocation")(latitude=lat, longitude=lon, altitude=alt)


def site(s):
    """s: dict type lat lon alt status lt bld name subs sku capex sp nodes"""
    S = api("terragraph_planner.common.topology_models.site:Site")
    kind = "CN" if s["type"] == "CN" else "DN"
    return S(site_type=E("SiteType", s["type"]), location=loc(s["lat"], s["lon"], s.get("alt")),
             device=std_device(kind, s.get("sku"), s.get("capex"), s.get("sp"), s.get("nodes")), status_type=E("StatusType", s.get("status", "CANDIDATE")),
             location_type=E("LocationType", s.get("lt", "UNKNOWN")), building_id=s.get("bld"), name=s.get("name", ""), number_of_subscribers=s.get("subs"))


def sector(sites, x):
    """x: dict site node pos az status channel"""
    S = api("terragraph_planner.common.topology_models.sector:Sector")
    k = {}
    if "channel" in x: k["channel"] = x["channel"]
    return S(site=sites[x["site"]], node_id=x["node"], position_in_node=x["pos"], ant_azimuth=x.get("az", 0.0), status_type=E("StatusType", x.get("status", "CANDIDATE")), **k)


def link(sites, sectors, x):
    """x: dict tx rx ts rs status wireless conf"""
    L = api("terragraph_planner.common.topology_models.link:Link")
    l = L(tx_site=sites[x["tx"]], rx_site=sites[x["rx"]], tx_sector=None if x.get("ts") is None else sectors[x["ts"]],
          rx_sector=None if x.get("rs") is None else sectors[x["rs"]], status_type=E("StatusType", x.get("status", "CANDIDATE")),
          is_wireless=x.get("wireless", True), confidence_level=x.get("conf"))
    for f in ("capacity", "mcs_level", "snr_dbm", "rsl_dbm", "tx_power", "proposed_flow", "utilization"):
        if f in x: setattr(l, f, x[f])
    return l


def demand(sites, x):
    D = api("terragraph_planner.common.topology_models.demand_site:DemandSite")
    return D(location=loc(x["lat"], x["lon"], x.get("alt")), num_sites=x.get("num", 1), demand=x.get("demand"), connected_sites=[sites[i] for i in x.get("sites", [])])


def objects(spec):
    ss = [site(s) for s in spec["sites"]]
    for s, d in zip(ss, spec["sites"]):
        if d.get("pol"): s.polarity = E("PolarityType", d["pol"])
    xs = [sector(ss, x) for x in spec.get("sectors", [])]
    ls = [link(ss, xs, x) for x in spec.get("links", [])]
    ds = [demand(ss, x) for x in spec.get("demands", [])]
    return ss, xs, ls, ds


def topology(spec):
    T = api("terragraph_planner.common.topology_models.topology:Topology")
    ss, xs, ls, ds = objects(spec)
    t = T(sites=ss, demand_sites=ds, sectors=xs, links=ls)
    return t, ss, xs, ls, ds


def sector_statuses(site_status):
    return ["CANDIDATE", "PROPOSED", "EXISTING"] if site_status in ACTIVE else [site_status]


def link_statuses(a, b):
    out = []
    for s in STATUS:
        if s == "EXISTING" and not (a == b == "EXISTING"): continue
        if "UNAVAILABLE" in (a, b) and s != "UNAVAILABLE": continue
        if "UNREACHABLE" in (a, b) and s != "UNREACHABLE": continue
        if "CANDIDATE" in (a, b) and s in ACTIVE: continue
        out.append(s)
    return out


def gen_site(r, i, types=("CN", "DN", "POP"), statuses=STATUS, base=(37.0, -122.0), span=0.01, alt=True):
    t = r.choice(types)
    lt = r.choice(["UNKNOWN", "STREET_LEVEL", "ROOFTOP"])
    return {"type": t, "lat": round(base[0] + r.uniform(0, span), 6), "lon": round(base[1] + r.uniform(0, span), 6), "alt": r.choice([None, round(r.uniform(0, 60), 1)]) if alt else None,
            "status": r.choice(statuses), "lt": lt, "bld": r.choice([-1, 0, 3]) if lt == "ROOFTOP" else None, "name": r.choice(["", f"site {i}"]),
            "subs": r.choice([None, 1, 4]) if t == "CN" else None}


def gen_topology(r, nmax=8, types=("CN", "DN", "DN", "POP"), statuses=STATUS, density=0.4, sectors=True, demands=3, colocate=0.15, wired=0.15, bidir=0.7, channels=(0,), sector_prob=.8, pop=False, served=0):
    """pop: the first site is a point of presence; served: probability that a demand is attached to some site"""
    n = r.randint(2, nmax)
    sites = [gen_site(r, i, types, statuses) for i in range(n)]
    if pop: sites[0].update(type="POP", subs=None)
    for i in range(1, n):
        if r.random() < colocate:
            j = r.randrange(i)
            for f in ("lat", "lon", "alt"): sites[i][f] = sites[j][f]
            if sites[i]["type"] == sites[j]["type"]: sites[i]["sku"] = f"OTHER_{i}"
    secs = []
    by = {i: [] for i in range(n)}
    if sectors:
        for i, s in enumerate(sites):
            if r.random() > sector_prob: continue
            k = 1 if s["type"] == "CN" else r.randint(1, 4)
            for q in range(k):
                x = {"site": i, "node": q // 2, "pos": q % 2, "az": r.choice([0.0, 90.0, 180.0, 359.5, round(r.uniform(0, 359.9), 2)]), "status": r.choice(sector_statuses(s["status"])), "channel": r.choice(channels)}
                by[i].append(len(secs))
                secs.append(x)
    links = []
    done = set()
    for a in range(n):
        for b in range(n):
            if a == b or (a, b) in done or sites[a]["type"] == "CN" or r.random() > density: continue
            pairs = [(a, b)]
            if sites[b]["type"] != "CN" and (b, a) not in done and r.random() < bidir: pairs.append((b, a))
            wl = r.random() > wired
            sec = wl and by[a] and by[b] and r.random() < .85
            sa, sb = (r.choice(by[a]), r.choice(by[b])) if sec else (None, None)
            st = link_statuses(sites[a]["status"], sites[b]["status"])
            if not st: continue
            st = r.choice(st)
            for p, q in pairs:
                done.add((p, q))
                links.append({"tx": p, "rx": q, "ts": sa if p == a else sb, "rs": sb if p == a else sa, "status": st if r.random() < .8 else r.choice(link_statuses(sites[a]["status"], sites[b]["status"])),
                              "wireless": bool(wl), "conf": r.choice([None, 1.0, 0.7]), "capacity": r.choice([0.0, 1.8, 0.645, round(r.uniform(0, 2), 3)]), "mcs_level": r.randint(0, 12), "snr_dbm": round(r.uniform(0, 30), 2)})
    dem = []
    for d in range(r.randint(0, demands)):
        cs = r.sample(range(n), min(n, r.choice([0, 1, 1, 2, 3])))
        if not cs and r.random() < served: cs = [r.randrange(n)]
        dem.append({"lat": round(37 + r.uniform(0, .01), 6), "lon": round(-122 + r.uniform(0, .01), 6), "alt": None, "num": 1, "demand": r.choice([None, 0.025, 1.0]), "sites": cs})
    for i in range(n):
        if sites[i]["type"] != "CN" and r.random() < .5: sites[i]["pol"] = r.choice(["ODD", "EVEN", "UNASSIGNED"])
    # distinct ids: same type, place and device give the same id
    seen = set()
    for i, s in enumerate(sites):
        k = (s["type"], s["lat"], s["lon"], s["alt"], s.get("sku"))
        while k in seen:
            s["sku"] = f"OTHER_{i}_{len(seen)}"
            k = (s["type"], s["lat"], s["lon"], s["alt"], s["sku"])
        seen.add(k)
    return {"sites": sites, "sectors": secs, "links": links, "demands": dem}


def snapshot(t):
    """everything observable of a network, as plain data"""
    return {
        "sites": {k: (s.status_type.name, s.site_type.name, s.polarity.name, s.latitude, s.longitude, s.altitude, s.name, s.breakdowns) for k, s in t.sites.items()},
        "sectors": {k: (x.status_type.name, x.site.site_id, x.channel, x.ant_azimuth) for k, x in t.sectors.items()},
        "links": {k: (l.status_type.name, l.tx_site.site_id, l.rx_site.site_id, l.tx_sector.sector_id if l.tx_sector else None, l.rx_sector.sector_id if l.rx_sector else None, l.is_wireless,
                      l.capacity, l.mcs_level, l.snr_dbm, l.rsl_dbm, l.tx_power) for k, l in t.links.items()},
        "demands": {k: (tuple(s.site_id for s in d.connected_sites), d.demand, d.num_sites) for k, d in t.demand_sites.items()},
    }
