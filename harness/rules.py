"""C17 demand, C18 deployment rules, C19 interference, C20 link sectors, C21 sector orientation."""
import itertools
import math
import random

from .core import Broken, api, close, law, need, raises
from .model import adiff, bearing, hav
from .rf import mk_pattern, planet_pattern, ref_cap, ref_mcs
from .topo import ACTIVE, E, STATUS, gen_topology, link_statuses, sector_statuses, snapshot, std_device, topology

O = "terragraph_planner.optimization."
PREP = O + "topology_preparation:"
INT = O + "topology_interference:"
RB = "terragraph_planner.common.rf.link_budget_calculator:"


def params(**k): return api("terragraph_planner.common.configuration.configs:OptimizerParams")(**k)
def operr(): return api("terragraph_planner.common.exceptions:OptimizerException")


def pos(s): return (s["lat"], s["lon"])
def wl(l): return l.get("wireless", True)


# ---------------------------------------------------------------- C18
def g_rules(r):
    spec = gen_topology(r, nmax=r.choice([4, 6, 9]), types=("CN", "DN", "DN", "POP", "POP"), statuses=r.choice([["PROPOSED"], ["PROPOSED", "EXISTING"], STATUS, ["PROPOSED", "CANDIDATE"]]), density=r.choice([.6, .9]), colocate=0, channels=r.choice([(0,), (0,), (0, 1)]), sector_prob=1, wired=.1, demands=0)
    return {"spec": spec, "diff": r.choice([0, 10, 25, 40, 60]), "near": r.choice([0, 20, 45, 60, 120]), "ratio": r.choice([1, 1.2, 2, 3]), "active": r.random() < .6, "edge": r.choice([None, None, "diff", "near", "ratio"]), "pick": r.randrange(1000)}


@law("C18", g_rules, n=900)
def angle_rules(c):
    spec = c["spec"]
    for l in spec["links"]:  # wireless active links have sectors
        if wl(l) and l["status"] in ACTIVE and l["ts"] is None: l["status"] = "CANDIDATE" if not {spec["sites"][l["tx"]]["status"], spec["sites"][l["rx"]]["status"]} & {"UNAVAILABLE", "UNREACHABLE"} else l["status"]
    t, ss, xs, ls, ds = topology(spec)
    ids = [s.site_id for s in ss]
    diff, near, ratio = float(c["diff"]), float(c["near"]), float(c["ratio"])
    P = lambda i: pos(spec["sites"][i])
    pairs = []
    for a, b in itertools.combinations([i for i, l in enumerate(spec["links"]) if wl(l) and (not c["active"] or l["status"] in ACTIVE)], 2):
        la, lb = spec["links"][a], spec["links"][b]
        if la["tx"] != lb["tx"] or la["rx"] == lb["rx"]: continue
        if la["ts"] == lb["ts"]: continue
        if c["active"]:
            ca, cb = (spec["sectors"][l["ts"]].get("channel", 0) for l in (la, lb))
            if ca != cb: continue
        i, j, k = la["tx"], la["rx"], lb["rx"]
        d1, d2 = hav(P(i), P(j)), hav(P(i), P(k))
        ang = abs(adiff(bearing(P(i), P(j)), bearing(P(i), P(k))))
        pairs.append((i, j, k, ang, max(d1, d2) / min(d1, d2)))
    if c["edge"] and pairs:  # a limit exactly met
        i, j, k, _, _ = pairs[c["pick"] % len(pairs)]
        an, ra = api("terragraph_planner.common.geos:law_of_cosines_spherical")(*P(i), *P(j), *P(k))
        if c["edge"] == "diff": diff = float(an)
        elif c["edge"] == "near": near = float(an)
        else: ratio = float(ra)
    got = api(O + "deployment_rules:find_angle_violating_link_pairs")(t, diff, near, ratio, c["active"])
    want_d, want_n, free_d, free_n = [], [], [], []
    law_ = api("terragraph_planner.common.geos:law_of_cosines_spherical")
    for i, j, k, ang, rat in pairs:
        key = (ids[i], min(ids[j], ids[k]), max(ids[j], ids[k]))
        a2, r2 = law_(*P(i), *P(j), *P(k))
        if abs(a2 - ang) > .5 or abs(r2 - rat) > 1e-3 * rat:
            free_d.append(key); free_n.append(key)  # angle itself is judged by C10
            continue
        if a2 <= diff: want_d.append(key)
        elif a2 <= near and r2 >= ratio: want_n.append(key)
    for nm, g, w, fr in (("different-sector", got.diff_sector_list, want_d, free_d), ("near-far", got.near_far_list, want_n, free_n)):
        g = sorted(tuple(x) for x in g if tuple(x) not in fr)
        need(g == sorted(w), f"{nm} violations {g}; expected {sorted(w)} (limits {diff} {near} {ratio}, active only {c['active']})")
    return None if want_d or want_n else False


@law("C18", lambda r: {"spec": gen_topology(r, nmax=r.choice([4, 7]), density=.6, demands=0), "pick": [r.randrange(99) for _ in range(9)], "n": r.randint(0, 3)}, n=300)
def violating_links(c):
    t, ss, xs, ls, ds = topology(c["spec"])
    p = c["pick"]
    n = len(ss)
    if n < 3: return False
    tr = []
    for q in range(c["n"]):
        i, j, k = p[3 * q] % n, p[3 * q + 1] % n, p[3 * q + 2] % n
        if len({i, j, k}) == 3: tr.append((i, j, k))
    got = api(O + "deployment_rules:get_violating_link_ids")(t, [tuple(ss[x].site_id for x in q) for q in tr])
    want = {o.link_id for l, o in zip(c["spec"]["links"], ls) for i, j, k in tr if {l["tx"], l["rx"]} in ({i, j}, {i, k})}
    need(set(got) == want, f"violating links {set(got)}; expected {want}")
    return None if want else False


@law("C18", lambda r: {"spec": gen_topology(r, nmax=r.choice([4, 7, 10]), statuses=r.choice([["PROPOSED", "EXISTING"], STATUS]), density=.9, wired=.1, sector_prob=1, demands=0, types=("CN", "DN", "DN", "POP")), "dn": r.choice([0, 1, 2]), "tot": r.choice([0, 1, 2, 3])}, n=500)
def sector_limits(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    got = api(O + "deployment_rules:find_sector_limit_violations")(t, c["dn"], c["tot"])
    want = {}
    for q, x in enumerate(spec["sectors"]):
        if spec["sites"][x["site"]]["type"] == "CN" or x["status"] not in ACTIVE: continue
        out = {}
        for l in spec["links"]:
            if l["ts"] == q: out.setdefault(l["rs"], []).append(l)
        dn = sum(1 for y, v in out.items() for l in v if l["status"] in ACTIVE and spec["sites"][spec["sectors"][y]["site"]]["type"] != "CN")
        cn = sum(1 for y, v in out.items() for l in v if l["status"] in ACTIVE and spec["sites"][spec["sectors"][y]["site"]]["type"] == "CN")
        if dn > c["dn"] or dn + cn > c["tot"]: want[xs[q].sector_id] = {xs[y].sector_id for y in out if spec["sectors"][y]["status"] in ACTIVE}
    g = {k: set(v) for k, v in got.items()}
    need(set(g) == set(want), f"violating sectors {sorted(g)}; expected {sorted(want)} (limits {c['dn']}, {c['tot']})")
    need(g == want, f"connected sectors {g}; expected {want}")
    return None if want else False


# ---------------------------------------------------------------- C19
def g_interf(r):
    st = r.choice([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "CANDIDATE", "UNREACHABLE"]])
    spec = gen_topology(r, nmax=r.choice([6, 8]), types=r.choice([("DN", "DN", "POP"), ("CN", "DN", "DN", "POP")]), statuses=st, density=r.choice([.6, .9]), colocate=0, wired=.08, bidir=.95, channels=r.choice([(0,), (0, 1), (0, -1), (0, 1, -1)]), sector_prob=1, demands=0)
    keep = []
    for l in spec["links"]:
        if not wl(l) and spec["sites"][l["rx"]]["type"] == "CN": continue
        if wl(l) and l["ts"] is None and l["status"] in ACTIVE: continue
        l["red"] = r.random() < .1
        l["tx_power"] = r.choice([10.0, 16.0, round(r.uniform(-5, 20), 2)])
        l["rsl_dbm"] = r.choice([-60.0, round(r.uniform(-80, -40), 2), "-inf"])
        keep.append(l)
    spec["links"] = keep
    spec["sectors"] = [dict(x, status=x["status"] if r.random() < .3 else r.choice([s for s in sector_statuses(spec["sites"][x["site"]]["status"]) if s in ACTIVE] or [x["status"]])) for x in spec["sectors"]]
    return {"spec": spec, "pattern": planet_pattern(r) if r.random() < .4 else None, "nf": r.choice([7.0, 0.0, 12.0])}


def interf_net(c):
    spec = c["spec"]
    for s in spec["sites"]:
        s["sp"] = (("noise_figure", c["nf"]),)
        s["sku"] = (s.get("sku") or "D") + f"_{s['type']}_{c['nf']}"
    for l in spec["links"]:
        if l.get("rsl_dbm") == "-inf": l["rsl_dbm"] = -math.inf
    t, ss, xs, ls, ds = topology(spec)
    for s in ss: s.device.sector_params.antenna_pattern_data = None if c["pattern"] is None else mk_pattern(c["pattern"])
    for l, o in zip(spec["links"], ls): o.is_redundant = l.get("red", False)
    return t, ss, xs, ls


def ref_interference(spec, ss, xs, ls):
    """link index -> interfering power (mW), computed pair by pair"""
    net = api(RB + "get_fspl_based_net_gain")
    st = lambda i: spec["sites"][i]["status"]
    ty = lambda i: spec["sites"][i]["type"]
    flip = {"ODD": "EVEN", "EVEN": "ODD", "UNASSIGNED": "UNASSIGNED"}
    pol = {i: s.polarity.name for i, s in enumerate(ss)}
    for i, s in enumerate(spec["sites"]):
        if s["type"] == "CN":
            w = {flip[pol[l["tx"]]] for l in spec["links"] if l["rx"] == i and l["status"] in ACTIVE}
            pol[i] = w.pop() if len(w) == 1 else "UNASSIGNED"
    L = list(enumerate(spec["links"]))
    out = {}
    for pi, p in L:
        if not wl(p) or p["ts"] is None or p["rs"] is None: continue
        if spec["sectors"][p["ts"]]["status"] not in ACTIVE or spec["sectors"][p["rs"]]["status"] not in ACTIVE: continue
        if st(p["tx"]) not in ACTIVE or st(p["rx"]) not in ACTIVE: continue
        a, b = pol[p["tx"]], pol[p["rx"]]
        if a == b and a != "UNASSIGNED": continue
        ca, cb = spec["sectors"][p["ts"]].get("channel", 0), spec["sectors"][p["rs"]].get("channel", 0)
        if ca != cb and -1 not in (ca, cb): continue
        for vi, v in L:
            if not wl(v) or v["status"] not in ACTIVE or v["rs"] != p["rs"] or v["ts"] == p["ts"]: continue
            powers = []
            for ui, u in L:
                if not wl(u) or u["status"] not in ACTIVE or u.get("red") or u["ts"] != p["ts"] or u["rs"] in (p["rs"], v["ts"]): continue
                P, U, V = ls[pi], ls[ui], ls[vi]
                A, B = ss[p["tx"]].device.sector_params, ss[p["rx"]].device.sector_params
                dev = lambda l, end: adiff(getattr(l, end + "_beam_azimuth"), getattr(l, end + "_sector").ant_azimuth)
                g = net(dist_m=P.distance, tx_sector_params=A, tx_radio_pattern_data=A.antenna_pattern_data, rx_sector_params=B, rx_radio_pattern_data=B.antenna_pattern_data,
                        tx_deviation=adiff(dev(P, "tx"), dev(U, "tx")), rx_deviation=adiff(dev(P, "rx"), dev(V, "rx")), tx_el_deviation=P.el_dev - U.el_dev, rx_el_deviation=-(P.el_dev - V.el_dev))
                powers.append(10 ** ((U.tx_power + g) / 10))
            if powers: out[vi] = out.get(vi, 0.0) + sum(powers) / len(powers)
    return out


@law("C19", g_interf, n=500)
def interference_and_sinr(c):
    spec = c["spec"]
    t, ss, xs, ls = interf_net(c)
    for l in ls: l.snr_dbm = l.rsl_dbm - api(RB + "get_noise_power")(l.rx_site.device.sector_params)
    ref = ref_interference(spec, ss, xs, ls)
    got = api(INT + "compute_link_rsl_map")(t)
    g = {k: v for k, v in got.items() if v}
    w = {ls[i].link_id: v for i, v in ref.items() if v}
    need(set(g) == set(w), f"interference on {sorted(g)}; expected on {sorted(w)}")
    tol = 1e-6 if c["pattern"] is None else 1e-6
    for k in w: need(abs(g[k] - w[k]) <= tol * abs(w[k]), f"interference {g[k]} on {k}; expected {w[k]}")
    before = [(l.sinr_dbm, l.rsl_dbm, l.capacity, l.mcs_level, l.tx_power) for l in ls]
    api(INT + "analyze_interference")(t)
    for i, (l, o) in enumerate(zip(spec["links"], ls)):
        need((o.rsl_dbm, o.capacity, o.mcs_level, o.tx_power) == before[i][1:], "interference analysis changed other link measurements")
        if not wl(l) or l["status"] not in ACTIVE:
            need(o.sinr_dbm == before[i][0] or (o.sinr_dbm != o.sinr_dbm and before[i][0] != before[i][0]), "SINR of an inactive or wired link was changed")
            continue
        npw = api(RB + "get_noise_power")(ss[l["rx"]].device.sector_params)
        e = -math.inf if o.rsl_dbm == -math.inf else o.rsl_dbm - 10 * math.log10(10 ** (npw / 10) + ref.get(i, 0.0))
        need(close(o.sinr_dbm, e, 1e-6), f"SINR {o.sinr_dbm} of {l['tx']}->{l['rx']}; expected {e}")
        snr = o.rsl_dbm - npw
        need(o.sinr_dbm <= snr + 1e-9, f"SINR {o.sinr_dbm} exceeds SNR {snr}")
        if not ref.get(i): need(close(o.sinr_dbm, snr, 1e-9), f"SINR {o.sinr_dbm} differs from SNR {snr} without interference")
        elif o.rsl_dbm > -math.inf and ref[i] > 1e-4 * 10 ** (npw / 10): need(o.sinr_dbm < snr, "interference does not lower the SINR")
    return None if ref else False


@law("C19", g_interf, n=150)
def potential_interference_per_link(c):
    spec = c["spec"]
    t, ss, xs, ls = interf_net(c)
    got = api(INT + "compute_link_interference")(t, c["nf"] + 40)
    need(set(got) == {(o.tx_site.site_id, o.rx_site.site_id) for o in ls}, "potential interference for other links")
    for l, o in zip(spec["links"], ls):
        v = got[(o.tx_site.site_id, o.rx_site.site_id)]
        if not wl(l) or l["ts"] is None:
            need(v == -math.inf, f"potential interference {v} on a link without sectors")
            continue
        A, B = o.tx_site.device.sector_params, o.rx_site.device.sector_params
        dev = lambda end: adiff(getattr(o, end + "_beam_azimuth"), getattr(o, end + "_sector").ant_azimuth)
        g = api(RB + "get_fspl_based_net_gain")(dist_m=o.distance, tx_sector_params=A, tx_radio_pattern_data=A.antenna_pattern_data, rx_sector_params=B, rx_radio_pattern_data=B.antenna_pattern_data,
                                                tx_deviation=dev("tx"), rx_deviation=dev("rx"), tx_el_deviation=o.el_dev, rx_el_deviation=-o.el_dev)
        p = api(RB + "get_max_tx_power")(tx_sector_params=A, max_eirp_dbm=c["nf"] + 40)
        need(close(v, p + g, 1e-7), f"potential interference {v} on {l['tx']}->{l['rx']}; expected {p + g}")


@law("C19", g_interf, n=250)
def level_and_capacity_after_interference(c):
    spec = c["spec"]
    t, ss, xs, ls = interf_net(c)
    dev = {s.device.device_sku: s.device for s in ss}
    p = params(device_list=list(dev.values()))
    rows = [[m.mcs, m.snr, m.mbps, m.tx_backoff] for m in next(iter(dev.values())).sector_params.mcs_map]
    api(O + "topology_operations:update_link_caps_with_sinr")(t, p, 10)
    for l, o in zip(spec["links"], ls):
        if not wl(l): continue
        e = ref_mcs(o.sinr_dbm, rows)
        need(o.mcs_level == e and close(o.capacity, ref_cap(e, rows)), f"link {l['tx']}->{l['rx']}: level {o.mcs_level}, capacity {o.capacity} for SINR {o.sinr_dbm}; table says {e}, {ref_cap(e, rows)}")
        if l["status"] in ACTIVE:
            need(o.sinr_dbm <= o.snr_dbm + 1e-9, f"SINR {o.sinr_dbm} exceeds SNR {o.snr_dbm}")
            need(o.tx_power <= 16.0 + 1e-9, f"transmit power {o.tx_power} above the maximum")
    ref = ref_interference(spec, ss, xs, ls)
    for i, (l, o) in enumerate(zip(spec["links"], ls)):
        if not wl(l) or l["status"] not in ACTIVE: continue
        npw = api(RB + "get_noise_power")(ss[l["rx"]].device.sector_params)
        e = -math.inf if o.rsl_dbm == -math.inf else o.rsl_dbm - 10 * math.log10(10 ** (npw / 10) + ref.get(i, 0.0))
        need(close(o.sinr_dbm, e, 1e-6), f"final SINR {o.sinr_dbm} of {l['tx']}->{l['rx']}; received level and interference give {e}")
    return None if ref else False


# ---------------------------------------------------------------- C20
def g_attach(r):
    mode = r.random()
    spec = gen_topology(r, nmax=r.choice([3, 5, 8]), statuses=r.choice([["CANDIDATE"], ["CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING"], STATUS]), density=.7, colocate=0, bidir=.9, demands=0)
    for l in spec["links"]: l["ts"] = l["rs"] = None
    med = {}
    for l in spec["links"]: l["wireless"] = med.setdefault(tuple(sorted((l["tx"], l["rx"]))), l["wireless"])  # both directions use the same medium
    if mode > .25:
        for l in spec["links"]:
            if l["status"] in ACTIVE: l["status"] = "CANDIDATE"
    pre = []
    done = {}
    for l in spec["links"]:
        k = tuple(sorted((l["tx"], l["rx"])))
        if k in done:
            pre.append(done[k])
            continue
        by = lambda i: [q for q, x in enumerate(spec["sectors"]) if x["site"] == i]
        done[k] = None
        if wl(l) and r.random() < .15 and by(l["tx"]) and by(l["rx"]): done[k] = {l["tx"]: r.choice(by(l["tx"])), l["rx"]: r.choice(by(l["rx"]))}
        pre.append(done[k])
    for l, m in zip(spec["links"], pre):
        if m: l["ts"], l["rs"] = m[l["tx"]], m[l["rx"]]
    scan = r.choice([70.0, 90.0, 120.0, 360.0, 20.0])
    for s in spec["sites"]:
        s["sp"] = (("horizontal_scan_range", scan),) if s["type"] != "CN" else (("horizontal_scan_range", r.choice([scan, 40.0])),)
        s["nodes"] = 1
        s["sku"] = (s.get("sku") or "D") + f"_{s['type']}_{s['sp'][0][1]}"
    if r.random() < .5:  # point some sectors at links
        for x in spec["sectors"]:
            o = [l["rx"] for l in spec["links"] if l["tx"] == x["site"]] + [l["tx"] for l in spec["links"] if l["rx"] == x["site"]]
            if o and r.random() < .8: x["az"] = round((bearing(pos(spec["sites"][x["site"]]), pos(spec["sites"][r.choice(o)])) + r.uniform(-30, 30)) % 360, 3) % 360
    return {"spec": spec, "full": r.random() < .5}


def nearest(spec, i, br, scan):
    """(sector index or None, decided?)"""
    tol = 0.01
    best = sorted((abs(adiff(x["az"], br)), q) for q, x in enumerate(spec["sectors"]) if x["site"] == i)
    lim = scan / 2 + tol
    inside = [(d, q) for d, q in best if d < lim]
    sure = all(abs(d - lim) > 1e-3 for d, q in best) and not (len(best) > 1 and best[1][0] - best[0][0] < 1e-3)
    return (inside[0][1] if inside else None), sure


@law("C20", g_attach, n=900)
def sectors_of_links(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    exp, bad, sure_all = [], False, True
    for l, o in zip(spec["links"], ls):
        if not wl(l):
            exp.append((None, None))
            continue
        scan = lambda i, end: 360.0 if end == "rx" and c["full"] and spec["sites"][i]["type"] == "CN" else spec["sites"][i]["sp"][0][1]
        A, B = pos(spec["sites"][l["tx"]]), pos(spec["sites"][l["rx"]])
        if l["ts"] is not None:
            exp.append((l["ts"], l["rs"]))
            for i, q, br, end in ((l["tx"], l["ts"], bearing(A, B), "tx"), (l["rx"], l["rs"], (bearing(A, B) + 180) % 360, "rx")):
                if end == "rx" and c["full"] and spec["sites"][i]["type"] == "CN": continue
                d, lim = abs(adiff(spec["sectors"][q]["az"], br)), spec["sites"][i]["sp"][0][1] / 2 + .01
                if abs(d - lim) < 1e-2: sure_all = False
                elif d > lim: bad = True
            continue
        a, s1 = nearest(spec, l["tx"], bearing(A, B), scan(l["tx"], "tx"))
        b, s2 = nearest(spec, l["rx"], (bearing(A, B) + 180) % 360, scan(l["rx"], "rx"))
        if not (s1 and s2): sure_all = False
        if a is None or b is None:
            exp.append((None, None))
            if l["status"] in ACTIVE: bad = True
        else: exp.append((a, b))
    if not sure_all: return False
    before = snapshot(t)
    rej, e = raises(operr(), api(PREP + "add_sectors_to_links"), t, c["full"], None)
    need(rej == bad, f"{'rejected: ' + str(e) if rej else 'accepted'}, although {'an active link has no sector or a sector is out of range' if bad else 'all links are fine'}")
    if rej: return
    for l, o, w in zip(spec["links"], ls, exp):
        g = tuple(None if q is None else xs.index(q) if q in xs else -1 for q in (o.tx_sector, o.rx_sector))
        need(g == w, f"link {l['tx']}->{l['rx']} has sectors {g}; nearest within range are {w}")
    idx = {(l["tx"], l["rx"]): o for l, o in zip(spec["links"], ls)}
    for (a, b), o in idx.items():
        if (b, a) in idx: need(idx[(b, a)].tx_sector is o.rx_sector and idx[(b, a)].rx_sector is o.tx_sector, f"link {a}->{b} and its reverse use different sectors")
    after = snapshot(t)
    need(before["sites"] == after["sites"] and before["sectors"] == after["sectors"], "sites or sectors were changed")
    strip = lambda s: {k: v[:3] + v[5:] for k, v in s["links"].items()}
    need(strip(before) == strip(after), "link attributes other than sectors were changed")


@law("C20", g_attach, n=300)
def channels_of_attached_links(c):
    spec = c["spec"]
    for l in spec["links"]: l["ts"] = l["rs"] = None
    for s in spec["sites"]:
        s["sp"], s["sku"] = (("horizontal_scan_range", 360.0),), (s.get("sku") or "D") + "_wide"
        if s["status"] == "CANDIDATE": s["status"] = "PROPOSED"
    have = {x["site"] for x in spec["sectors"]}
    act = {i for i, l in enumerate(spec["links"]) if wl(l) and (l["tx"] + l["rx"]) % 2 == 0 and {l["tx"], l["rx"]} <= have and spec["sites"][l["tx"]]["status"] in ACTIVE and spec["sites"][l["rx"]]["status"] in ACTIVE}
    for i, l in enumerate(spec["links"]): l["status"] = "PROPOSED" if i in act else l["status"] if l["status"] not in ACTIVE else "CANDIDATE"
    for x in spec["sectors"]:
        if x["status"] == "EXISTING": x["status"] = "CANDIDATE"
    t, ss, xs, ls, ds = topology(spec)
    ch = {o.link_id: 1 + i % 3 for i, o in enumerate(ls)}
    rej, e = raises(operr(), api(PREP + "add_sectors_to_links"), t, c["full"], ch)
    if rej: return False
    used = {}
    for i, (l, o) in enumerate(zip(spec["links"], ls)):
        if l["status"] != "PROPOSED" or not wl(l): continue
        need(o.tx_sector is not None and o.rx_sector is not None, "an active link has no sectors")
        for q in (o.tx_sector, o.rx_sector):
            used.setdefault(q.sector_id, set()).add(ch[o.link_id])
            need(q.status_type.name == "PROPOSED", f"sector of a proposed link is {q.status_type.name}")
    for q in xs:
        if q.sector_id in used: need(q.channel in used[q.sector_id], f"sector channel {q.channel} is none of {used[q.sector_id]}")
    return None if used else False


# ---------------------------------------------------------------- C21
def score_nodes(angles, dists, weights, scan, spn, centres):
    """score of one node per centre: sum over its sectors and links"""
    import numpy as np
    n = len(angles)
    PEN = 1e6 * n
    c = np.asarray(centres, dtype=float).reshape(-1, 1, 1)
    off = (np.arange(spn) - (spn - 1) / 2).reshape(1, -1, 1) * scan
    az = (c + off) % 360
    d = np.abs(az - np.asarray(angles).reshape(1, 1, -1))
    d = 180 - np.abs(180 - d)
    cov = d < scan / 2
    w = np.asarray(dists) / max(dists) * np.asarray(weights)
    return np.where(cov, d ** 2 * w.reshape(1, 1, -1), PEN).sum(axis=(1, 2)), cov


def best_placement(mets, cand, valid, k, W):
    idx = [i for i in range(len(cand)) if valid[i]]
    best = math.inf
    for f in idx:
        if cand[f] >= 360 - (k - 1) * W: break
        cur = {f: mets[f]}
        for _ in range(k - 1):
            nxt = {}
            for i in idx:
                if cand[f] + 360 - cand[i] < W: continue
                v = min((m for j, m in cur.items() if cand[i] - cand[j] >= W), default=None)
                if v is not None: nxt[i] = v + mets[i]
            cur = nxt
            if not cur: break
        if cur: best = min(best, min(cur.values()))
    return best


def g_orient(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 6])
    span = .01
    c0 = [round(37 + r.uniform(0, 1), 6), round(-122 + r.uniform(0, 1), 6)]
    nb = []
    base = r.choice([None, 0.0, 355.0, 90.0])
    for _ in range(n):
        b = r.uniform(0, 360) if base is None else (base + r.uniform(-20, 40)) % 360
        d = r.uniform(.0003, span)
        nb.append([round(c0[0] + d * math.cos(math.radians(b)), 7), round(c0[1] + d * math.sin(math.radians(b)) / math.cos(math.radians(c0[0])), 7), r.choice(["DN", "CN", "POP"])])
    return {"site": c0, "nb": nb, "nodes": r.choice([1, 2, 3, 4, 8]), "spn": r.choice([1, 1, 2, 3]), "scan": r.choice([70.0, 90.0, 60.0, 120.0, 36.0, 30.0]),
            "dn": r.choice([None, None, 1, 2]), "tot": r.choice([None, None, 1, 2, 4]), "w": r.choice([None, 10.0])}


def orient_setup(c, cn=False):
    from .topo import site
    s = site({"type": "CN" if cn else "DN", "lat": c["site"][0], "lon": c["site"][1], "sku": "X"})
    nb = [site({"type": q[2], "lat": q[0], "lon": q[1], "sku": f"N{i}{q[2]}"}) for i, q in enumerate(c["nb"])]
    P = tuple(c["site"])
    return s, nb, [bearing(P, (q[0], q[1])) for q in c["nb"]], [hav(P, (q[0], q[1])) for q in c["nb"]]


def check_nodes(got, scan, spn, k):
    need(len(got) <= k, f"{len(got)} nodes, at most {k} allowed")
    cs = []
    for node in got:
        az = [float(a) for a in node]
        need(len(az) == spn, f"{len(az)} sectors in a node, expected {spn}")
        for a in az: need(0 <= a < 360, f"azimuth {a} outside [0,360)")
        for a, b in zip(az, az[1:]): need(abs((b - a) % 360 - scan % 360) < 1e-6, f"sectors of a node at {az}, expected {scan} apart")
        cs.append((az[0] + (spn - 1) / 2 * scan) % 360)
    W = scan * spn
    for a, b in itertools.combinations(cs, 2): need(abs(adiff(a, b)) >= min(W, 180) - 1e-6, f"nodes at {a} and {b} are closer than {W}")
    return cs


@law("C21", g_orient, n=90, thorough=10)
def distribution_orientation(c):
    import numpy as np
    if c["scan"] * c["spn"] > 360: return False
    s, nb, ang, dist = orient_setup(c)
    rej, got = raises(operr(), api(PREP + "find_best_sectors"), site=s, neighbor_site_list=nb, number_of_nodes=c["nodes"], number_of_sectors_per_node=c["spn"], horizontal_scan_range=c["scan"], dn_dn_sector_limit=c["dn"],
                                          dn_total_sector_limit=c["tot"], diff_sector_angle_limit=None, near_far_angle_limit=None, near_far_length_ratio=None, backhaul_link_type_weight=c["w"], sector_channel_list=None)
    if not nb:
        need(not rej and len(got) == 0, "sectors for a site without neighbours")
        return False
    W = c["scan"] * c["spn"]
    k = min(int(360 / W), c["nodes"])
    cs = [] if rej else check_nodes(got, c["scan"], c["spn"], k)
    prec = api("terragraph_planner.common.constants:DEFAULT_POINTING_PRECISION")
    cand = [i * prec for i in range(int(360 / prec))]
    wt = [(c["w"] or 1) if q[2] != "CN" else 1 for q in c["nb"]]
    mets, cov = score_nodes(ang, dist, wt, c["scan"], c["spn"], cand)
    isdn = np.array([q[2] != "CN" for q in c["nb"]])
    tot, dn = (c["tot"] if c["tot"] is not None else len(nb)), (c["dn"] if c["dn"] is not None else len(nb))
    valid = ((cov.sum(axis=2) <= tot) & ((cov * isdn).sum(axis=2) <= dn)).all(axis=1)
    if not valid.any():
        need(not rej and len(got) == 0, "sectors although every orientation overloads a sector")
        return False
    best = best_placement(mets, cand, valid, k, W)
    need(rej == (best == math.inf), f"{'rejected: ' + str(got) if rej else 'accepted'}; the best score is {best}")
    if rej: return False
    mine, mcov = score_nodes(ang, dist, wt, c["scan"], c["spn"], cs) if cs else (np.zeros(0), None)
    if cs: need(((mcov.sum(axis=2) <= tot) & ((mcov * isdn).sum(axis=2) <= dn)).all(), "a sector covers more links than the limit")
    have = float(mine.sum()) + (k - len(cs)) * c["spn"] * len(nb) * 1e6 * len(nb)
    need(have <= best * (1 + 1e-9) + 1e-3, f"orientation {sorted(cs)} scores {have}; the best of the candidates scores {best}")


@law("C21", g_orient, n=500)
def client_orientation(c):
    if c["scan"] * c["spn"] > 360: return False
    s, nb, ang, _ = orient_setup(c, cn=True)
    got = api(PREP + "find_best_equidistant_sectors")(site=s, neighbor_site_list=nb, number_of_nodes=c["nodes"], number_of_sectors_per_node=c["spn"], horizontal_scan_range=c["scan"])
    if not nb:
        need(len(got) == 0, "sectors for a client without neighbours")
        return False
    W = c["scan"] * c["spn"]
    k = min(int(360 / W), c["nodes"])
    need(len(got) == k, f"{len(got)} nodes, expected {k}")
    cs = check_nodes(got, c["scan"], c["spn"], k)
    arc = 360 / k
    prec = api("terragraph_planner.common.constants:DEFAULT_POINTING_PRECISION")
    nrot = round(arc / prec)

    def score(rot):
        tot = 0.0
        for a in ang:
            d = min(abs(adiff(a, (rot + i * arc) % 360)) for i in range(k))
            tot += d * d if d <= W / 2 + 1e-9 else 360.0 ** 2
        return tot
    for i, x in enumerate(sorted(cs)): need(abs(adiff(x, (sorted(cs)[0] + i * arc) % 360)) < 1e-6, f"nodes at {cs} are not equally spaced")
    best = min(score(q * arc / nrot) for q in range(nrot))
    if any(abs(min(abs(adiff(a, (x) % 360)) for x in cs) - W / 2) < 1e-6 for a in ang): return False
    need(score(cs[0]) <= best + 1e-6, f"orientation {cs} of links at {ang} scores {score(cs[0])}; the best of the candidates scores {best}")


@law("C21", lambda r: {"c": r.choice([0.0, 10.0, 350.0, round(r.uniform(0, 360), 3)]), "n": r.randint(0, 6), "scan": r.choice([10.0, 70.0, 60.0, 90.0, 30.5])}, n=300)
def azimuths_of_a_node(c):
    if c["n"] * c["scan"] > 360: return False
    got = [float(a) for a in api(PREP + "get_sector_azimuths_from_node_center")(c["c"], c["n"], c["scan"])]
    want = [(c["c"] + (i - (c["n"] - 1) / 2) * c["scan"]) % 360 for i in range(c["n"])]
    need(len(got) == c["n"] and all(0 <= a < 360 for a in got), f"azimuths {got}")
    need(all(abs(adiff(a, b)) < 1e-6 for a, b in zip(got, want)), f"azimuths {got}; expected {want}")


def g_create(r):
    spec = gen_topology(r, nmax=r.choice([3, 5, 7]), statuses=r.choice([["CANDIDATE"], ["CANDIDATE", "EXISTING", "PROPOSED"], STATUS]), density=.6, colocate=0, demands=0, sector_prob=0, sectors=False)
    for l in spec["links"]:
        l["ts"] = l["rs"] = None
        if l["status"] in ACTIVE: l["status"] = "CANDIDATE"
    for i, s in enumerate(spec["sites"]):
        s["sp"] = (("horizontal_scan_range", r.choice([70.0, 90.0])), ("number_sectors_per_node", 1 if s["type"] == "CN" else r.choice([1, 2])))
        s["nodes"] = 1 if s["type"] == "CN" else r.choice([1, 2, 4]) if s["sp"][1][1] == 1 else r.choice([1, 2])
        s["sku"] = f"D{i}_{s['type']}"
    pre = [i for i, s in enumerate(spec["sites"]) if r.random() < .2]
    for i in pre:
        s = spec["sites"][i]
        n = s["sp"][1][1]
        a = round(r.uniform(0, 300), 2)
        st = r.choice(sector_statuses(s["status"]))
        for j in range(n): spec["sectors"].append({"site": i, "node": 0, "pos": j, "az": (a + j * s["sp"][0][1]) % 360, "status": st})
    return {"spec": spec}


@law("C21", g_create, n=60, thorough=10)
def created_sectors(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    before = snapshot(t)
    api(PREP + "create_dn_sectors")(t)
    api(PREP + "create_cn_sectors")(t)
    after = snapshot(t)
    need(before["sites"] == after["sites"] and before["links"] == after["links"], "sites or links were changed")
    need(all(after["sectors"].get(k) == v for k, v in before["sectors"].items()), "existing sectors were changed")
    for i, s in enumerate(spec["sites"]):
        mine = [x for x in t.sectors.values() if x.site is ss[i]]
        if any(x["site"] == i for x in spec["sectors"]):
            need(len(mine) == sum(x["site"] == i for x in spec["sectors"]), f"site {i} already had sectors, now has {len(mine)}")
            continue
        scan, spn = s["sp"][0][1], s["sp"][1][1]
        nodes = {}
        for x in mine: nodes.setdefault(x.node_id, []).append(x)
        need(sorted(nodes) == list(range(len(nodes))), f"node ids {sorted(nodes)} are not consecutive")
        k = min(int(360 / (scan * spn)), s["nodes"])
        az = []
        for n in sorted(nodes):
            q = sorted(nodes[n], key=lambda x: x.position_in_node)
            need([x.position_in_node for x in q] == list(range(spn)), f"positions {[x.position_in_node for x in q]} in a node of {spn} sectors")
            az.append([x.ant_azimuth for x in q])
            for x in q:
                need(x.sector_type.name == ("CN" if s["type"] == "CN" else "DN"), "sector type differs from the site's")
                need(x.status_type.name == (s["status"] if s["status"] in ("UNAVAILABLE", "UNREACHABLE") else "CANDIDATE"), f"new sector of a {s['status']} site is {x.status_type.name}")
        check_nodes(az, scan, spn, k)
        linked = any(wl(l) and (l["tx"] == i if s["type"] != "CN" else l["rx"] == i) for l in spec["links"])
        need(bool(mine) == linked, f"site {i} has {len(mine)} sectors although it {'has' if linked else 'has no'} wireless neighbours")


@law("C21", lambda r: {"nodes": r.randint(1, 3), "spn": r.choice([1, 2, 3]), "scan": r.choice([30.0, 40.0, 60.0]), "have": r.randint(1, 4), "gap": r.choice([0, 0, 5.0, -5.0, 20.0]), "start": round(r.uniform(0, 360), 2), "skew": r.choice([0, 0, 0, 1.0, -3.0]), "drop": r.random() < .15, "dup": r.random() < .1, "shuffle": r.randrange(1 << 30)}, n=700)
def given_sectors_validated(c):
    from .topo import sector, site
    if c["nodes"] * c["spn"] * c["scan"] > 360: return False
    s = site({"type": "DN", "lat": 37.1, "lon": -122.1, "sku": f"V{c['nodes']}_{c['spn']}_{c['scan']}", "sp": (("horizontal_scan_range", c["scan"]), ("number_sectors_per_node", c["spn"])), "nodes": c["nodes"]})
    xs = []
    W = c["scan"] * c["spn"]
    for n in range(c["have"]):
        for j in range(c["spn"]):
            xs.append({"site": 0, "node": n, "pos": j, "az": (c["start"] + n * (W + c["gap"]) + j * c["scan"] + (c["skew"] if j == 1 else 0)) % 360})
    ok = c["have"] <= c["nodes"] and not (c["skew"] and c["spn"] > 1)
    if c["drop"]:
        xs.pop()
        ok = ok and (c["spn"] == 1 and c["have"] - 1 <= c["nodes"]) if c["spn"] > 1 else c["have"] - 1 <= c["nodes"]
        if c["spn"] > 1: ok = False
    if not xs: return False
    n = c["have"] - (1 if c["drop"] and c["spn"] == 1 else 0)
    if c["dup"] and c["spn"] > 1 and not c["drop"]: xs[1]["pos"] = 0; ok = False
    if n > 1:
        if c["gap"] < 0: ok = False
        if n * W + (n - 1) * c["gap"] > 360: return False
        if W > 180: return False
        last = 360 - (n * W + (n - 1) * c["gap"])
        if c["gap"] == 0 or abs(last) < 1e-6: return False
    random.Random(c["shuffle"]).shuffle(xs)
    objs = [sector([s], x) for x in xs]
    rej, e = raises(operr(), api(PREP + "validate_site_sectors"), objs)
    need(rej == (not ok), f"sectors {[(x['node'], x['pos'], x['az']) for x in xs]} ({c['nodes']} nodes of {c['spn']} x {c['scan']}) {'rejected: ' + str(e) if rej else 'accepted'}")


# ---------------------------------------------------------------- C17
def g_demand(r):
    base = r.choice([(37.0, -122.0), (37.0, -122.0), (-33.0, 151.0), (10.0, 179.998)])
    spec = gen_topology(r, nmax=r.choice([2, 4, 7, 10]), types=r.choice([("CN", "DN", "POP"), ("CN", "CN", "DN"), ("DN", "POP")]), density=.2, colocate=r.choice([.1, .5]), sectors=False, demands=3)
    span = r.choice([.002, .005])
    place = {}
    for s in spec["sites"]:
        k = (s["lat"], s["lon"])
        if k not in place:
            lo = base[1] + r.uniform(0, span)
            place[k] = (round(base[0] + r.uniform(0, span), 6), round(lo - 360 if lo > 180 else lo, 6))
        s["lat"], s["lon"] = place[k]
        if s["lt"] == "ROOFTOP": s["bld"] = r.choice([-1, 0, 1, 2])
    taken = {(s["lat"], s["lon"]) for s in spec["sites"]}
    for d in spec["demands"]:
        d["lat"], d["lon"] = round(base[0] + r.uniform(0, span), 6), round(min(base[1] + r.uniform(0, span), 180), 6)
        d["alt"] = None
        d["num"] = r.choice([1, 1, 3])
    return {"spec": spec, "cn": r.random() < .7, "uni": r.random() < .5, "man": r.random() < .6, "spacing": r.choice([60.0, 100.0, 400.0]), "radius": r.choice([50.0, 120.0, 300.0]), "demand": r.choice([0.025, 1.5]), "span": span}


@law("C17", g_demand, n=500)
def demand_attachment(c):
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    dev = {s.device.device_sku: s.device for s in ss}
    if not (c["cn"] or c["uni"] or c["man"]): return False
    p = params(device_list=list(dev.values()), enable_cn_demand=c["cn"], enable_uniform_demand=c["uni"], enable_manual_demand=c["man"], demand_spacing=c["spacing"], demand_connection_radius=c["radius"], demand=c["demand"])
    S = spec["sites"]
    unsure = False
    want = []  # (lat, lon, [site indexes], num, optional)

    def within(la, lo):
        nonlocal unsure
        out = []
        for i, s in enumerate(S):
            d = hav(pos(s), (la, lo))
            if abs(d - c["radius"]) < 1e-3 and not (d == 0 and c["radius"] == 0): unsure = True
            if d <= c["radius"]: out.append(i)
        return out
    if c["man"]:
        for d in spec["demands"]: want.append([d["lat"], d["lon"], within(d["lat"], d["lon"]), d["num"]])
    if c["uni"]:
        lons = [s["lon"] for s in S]
        anti = max(lons) >= 175 and min(lons) <= -175
        un = [x + 360 if anti and x < 0 else x for x in lons]
        la0, la1 = min(s["lat"] for s in S), max(s["lat"] for s in S)
        R = api("terragraph_planner.common.constants:EARTH_RADIUS")
        dy = math.degrees(c["spacing"] / R)
        dx, dy2 = api("terragraph_planner.common.geos:grid_deltas")(min(un), la0, c["spacing"])
        need(abs(dy2 - dy) < 1e-6 * dy and abs(dx - dy / math.cos(math.radians(la0))) < 1e-4 * dx, f"grid steps {dx}, {dy2} for a spacing of {c['spacing']} m")
        dy = dy2
        nx, ny = (max(un) - min(un) + 2 * dx) / dx, (la1 - la0 + 2 * dy) / dy
        for v in (nx, ny):
            if abs(v - round(v)) < 1e-6: unsure = True
        for i in range(int(nx) + 1):
            for j in range(int(ny) + 1):
                lo = min(un) - dx + i * dx
                la = la0 - dy + j * dy
                lo = lo - 360 if lo > 180 else lo + 360 if lo < -180 else lo
                w = within(la, lo)
                if w: want.append([la, lo, w, 1])
    if c["cn"]:
        at = {}
        for i, s in enumerate(S):
            if s["type"] == "CN":
                k = pos(s)
                if k in at: at[k][2].append(i)
                else:
                    at[k] = [s["lat"], s["lon"], [i], s["subs"] or 1]
                    want.append(at[k])
    for w in want:
        extra = set()
        for i in w[2]:
            if S[i]["type"] != "CN": continue
            for j, s in enumerate(S):
                if s["type"] == "CN": continue
                same = (s["lat"], s["lon"], s["alt"]) == (S[i]["lat"], S[i]["lon"], S[i]["alt"])
                roof = s["lt"] == S[i]["lt"] == "ROOFTOP" and s["bld"] == S[i]["bld"] and s["bld"] >= 0
                if same or roof: extra.add(j)
        w[2] = sorted(set(w[2]) | extra)
    places = [(round(w[0], 9), round(w[1], 9)) for w in want]
    if unsure or len(set(places)) < len(places): return False
    before = snapshot(t)
    rej, e = raises(operr(), api(O + "topology_demand:add_demand_to_topology"), t, p)
    need(rej == (not want), f"{'rejected: ' + str(e) if rej else 'accepted'} with {len(want)} demand locations")
    if rej: return False
    after = snapshot(t)
    need(all(before[k] == after[k] for k in ("sites", "sectors", "links")), "sites, sectors or links were changed")
    got = list(t.demand_sites.values())
    need(len(got) == len(want), f"{len(got)} demand locations, expected {len(want)}")
    for w in want:
        m = [d for d in got if abs(d.latitude - w[0]) < 1e-8 and abs(d.longitude - w[1]) < 1e-8]
        need(len(m) == 1, f"no demand at {w[:2]}")
        ids = [s.site_id for s in m[0].connected_sites]
        need(len(ids) == len(set(ids)), f"demand at {w[:2]} is attached to a site twice")
        need(set(ids) == {ss[i].site_id for i in w[2]}, f"demand at {w[:2]} is attached to {sorted(i for i, s in enumerate(ss) if s.site_id in ids)}; expected {w[2]}")
        need(m[0].demand == c["demand"] and m[0].num_sites == w[3], f"demand {m[0].demand} x {m[0].num_sites}; expected {c['demand']} x {w[3]}")
        need(m[0].demand_id in t.demand_sites and t.demand_sites[m[0].demand_id] is m[0], "demand is not under its own id")
