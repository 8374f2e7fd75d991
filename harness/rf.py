"""C05, C06, C07 at run time: modulation table, transmit power, link budget."""
import math

from .core import Broken, api, close, law, need, raises

LB = "terragraph_planner.common.rf.link_budget_calculator:"


def F(n): return api(LB + n)


def table(rows):
    M = api("terragraph_planner.common.structs:MCSMap")
    return [M(mcs=r[0], snr=r[1], mbps=r[2], tx_backoff=r[3]) for r in rows]


def gen_rows(r, monotone=False, allow_zero=True):
    n = r.choice([1, 1, 2, 3, 5, 8, 12])
    levels = sorted(r.sample(range(0 if allow_zero else 1, 16), min(n, 14)))
    if monotone:
        snr = sorted(r.choice([r.randint(-5, 25), r.uniform(-5, 25)]) for _ in levels)
        if r.random() < 0.2 and len(snr) > 2: snr[1] = snr[2]
        bo = sorted(r.choice([0, 0, 1, 2, 3.5, 6, r.uniform(0, 8)]) for _ in levels) if r.random() < .7 else [r.choice([0, 1, 2, 6, 0.5]) for _ in levels]
    else:
        snr = [r.choice([r.randint(-5, 25), round(r.uniform(-5, 25), 1)]) for _ in levels]
        bo = [r.choice([0, 0, 1, 2, 6, 0.5]) for _ in levels]
    rows = [[l, float(s), r.choice([0, 67.5, 115, 1800, r.uniform(0, 3000)]), b] for l, s, b in zip(levels, snr, bo)]
    if r.random() < 0.4: r.shuffle(rows)
    return rows


def snr_probe(r, rows):
    x = r.random()
    if x < .35: return r.choice(rows)[1]
    if x < .5: return r.choice(rows)[1] + r.choice([-1e-9, 1e-9, -.01, .01])
    if x < .55: return r.choice([None, "inf", "-inf"])
    return r.uniform(-15, 35)


def dec(x): return math.nan if x is None else math.inf if x == "inf" else -math.inf if x == "-inf" else x


def ref_mcs(snr, rows):
    ok = [q[0] for q in rows if snr >= q[1]]
    return max(ok) if ok else 0


def ref_snr(mcs, rows):
    ok = [q[1] for q in rows if q[0] <= mcs]
    return max(ok) if ok else 0


def ref_cap(mcs, rows):
    for q in rows:
        if q[0] == mcs: return q[2] / 1000
    return 0


def ref_backoff(mcs, rows):
    for q in rows:
        if q[0] == mcs: return q[3]
    return 0


def g_level(r):
    rows = gen_rows(r)
    return {"rows": rows, "snr": snr_probe(r, rows), "snr2": snr_probe(r, rows)}


@law("C05", g_level, n=1500)
def level_from_snr(c):
    t = table(c["rows"])
    a, b = dec(c["snr"]), dec(c["snr2"])
    x, y = F("get_mcs_from_snr")(a, t), F("get_mcs_from_snr")(b, t)
    need(x == ref_mcs(a, c["rows"]), f"level {x} for snr {a}, expected {ref_mcs(a, c['rows'])}")
    need(y == ref_mcs(b, c["rows"]), f"level {y} for snr {b}")
    if not (math.isnan(a) or math.isnan(b)):
        if a <= b: need(x <= y, "better signal gives a lower level")
        else: need(y <= x, "better signal gives a lower level")
    need(t == table(c["rows"]), "table changed")


def g_inv(r):
    rows = gen_rows(r)
    return {"rows": rows, "mcs": r.choice([r.choice(rows)[0], r.randint(-1, 18), 0])}


@law("C05", g_inv, n=1500, corners=[{"rows": [[3, 5.0, 10, 0], [4, 5.0, 20, 0]], "mcs": 3}, {"rows": [[9, 12.0, 741.25, 0], [12, 18.0, 1800, 6]], "mcs": 10}])
def table_values(c):
    rows, m = c["rows"], c["mcs"]
    t = table(rows)
    v = F("get_snr_from_mcs")(m, t)
    need(v == ref_snr(m, rows), f"threshold {v} for level {m}, expected {ref_snr(m, rows)}")
    v = F("get_link_capacity_from_mcs")(m, t)
    need(close(v, ref_cap(m, rows)), f"capacity {v} for level {m}, expected {ref_cap(m, rows)}")
    v = F("get_backoff_from_mcs")(m, t)
    need(v == ref_backoff(m, rows), f"backoff {v} for level {m}, expected {ref_backoff(m, rows)}")


# ------------------------------------------------------------------ C06
def g_adj(r):
    rows = gen_rows(r, monotone=True)
    q = r.choice(rows)
    ng, npw = r.choice([-80, r.uniform(-120, -40)]), r.choice([-74, -70.5, r.uniform(-90, -60)])
    p = q[1] + npw - ng
    mx = r.choice([p + q[3], p + q[3] - 1e-6, p + q[3] + 1, r.uniform(-20, 60), p + 3])
    mn = r.choice([None, None, mx - r.uniform(0, 8), mx, p, 0.0, -10, p + 0.5, 5])
    if mn is not None and mn > mx: mn = mx
    return {"rows": rows, "level": r.choice([q[0], rows[-1][0], max(x[0] for x in rows), r.randint(0, 17)]), "min": mn, "max": mx, "ng": ng, "np": npw}


@law("C06", g_adj, n=2500, corners=[{"rows": [[3, 3.0, 0, 0], [9, 12.0, 741, 5], [12, 18.0, 1800, 6]], "level": 10, "min": None, "max": 16, "ng": -80, "np": -74}])
def adjusted_power(c):
    rows, tb = c["rows"], table(c["rows"])
    lv, p = F("adjust_tx_power_with_backoff")(mcs_level=c["level"], mcs_snr_mbps_map=tb, min_tx_power=c["min"], max_tx_power=c["max"], net_gain_dbi=c["ng"], np_dbm=c["np"])
    req = lambda q: max([q[1] + c["np"] - c["ng"]] + ([c["min"]] if c["min"] is not None else []))
    eps = 1e-9
    sure = [q for q in rows if 0 < q[0] <= c["level"] and req(q) <= c["max"] - q[3] - eps]
    maybe = [q for q in rows if 0 < q[0] <= c["level"] and req(q) <= c["max"] - q[3] + eps]
    need(lv <= max(c["level"], 0), f"level raised from {c['level']} to {lv}")
    if sure: need(lv >= max(q[0] for q in sure), f"level {lv} although level {max(q[0] for q in sure)} fits")
    if lv == 0:
        need(not sure, "no level returned although one fits")
        need(p == -math.inf, f"power {p} without a level")
        return bool(rows)
    q = [q for q in maybe if q[0] == lv]
    need(q, f"level {lv} does not fit or is not in the table")
    need(close(p, req(q[0]), 1e-9), f"power {p}, required {req(q[0])}")


def sector(**k): return api("terragraph_planner.common.configuration.configs:SectorParams")(**k)


def g_maxp(r):
    mx = r.choice([16, 10, r.uniform(0, 40)])
    bg, dv = r.choice([30, 0, r.uniform(0, 40)]), r.choice([0, 3, r.uniform(0, 6)])
    return {"max": mx, "min": r.choice([None, None, mx, mx - r.uniform(0, 20), 0 if mx >= 0 else None]), "bg": bg, "div": dv, "rxdiv": r.choice([0, 2]),
            "eirp": r.choice([None, mx + bg + dv, mx + bg + dv - r.uniform(0, 25), mx + bg, r.uniform(0, 80)])}


@law("C06", g_maxp, n=1200)
def maximum_power(c):
    sp = sector(maximum_tx_power=c["max"], minimum_tx_power=c["min"], antenna_boresight_gain=c["bg"], tx_diversity_gain=c["div"], rx_diversity_gain=c["rxdiv"])
    v = F("get_max_tx_power")(sp, c["eirp"])
    e = c["max"] if c["eirp"] is None else min(c["max"], c["eirp"] - c["bg"] - c["div"])
    if c["min"] is not None: e = max(e, c["min"])
    need(close(v, e), f"maximum power {v}, expected {e}")


# ------------------------------------------------------------------ C07
FR = 92.448


def ref_fspl(d, f):
    C = api("terragraph_planner.common.constants:FSPL_MARGIN")
    return max(0.0, 20 * (math.log10(d) + math.log10(f)) + C) if d > 0 else 0.0


def ref_oxygen(d, mhz):
    mp = api("terragraph_planner.common.constants:FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP")
    f = mhz / 1000
    ks = sorted(mp)
    if f < ks[0] or f > ks[-1]: return 0.0
    for a, b in zip(ks, ks[1:]):
        if a <= f <= b: return (mp[a] + (mp[b] - mp[a]) * (f - a) / (b - a)) * d
    return mp[ks[0]] * d


def ref_rain(d, rate, avail, mhz):
    if d <= 0: return 0.0
    f = mhz / 1000
    al = 0.7486
    den = 0.477 * d ** 0.633 * rate ** (0.073 * al) * f ** 0.123 - 10.579 * (1 - math.exp(-0.024 * d))
    a001 = 0.8515 * rate ** al * d * min(1 / den, 2.5)
    p = 100 - avail
    c0 = 0.12 + 0.4 * math.log10((f / 10) ** 0.8)
    c1 = 0.07 ** c0 * 0.12 ** (1 - c0)
    c2 = 0.855 * c0 + 0.546 * (1 - c0)
    c3 = 0.139 * c0 + 0.043 * (1 - c0)
    return max(0.0, a001 * c1 * p ** (-(c2 + c3 * math.log10(p))))


def g_loss(r):
    d = r.choice([0.0, 1e-9, 1e-7, 3e-6, 0.001, 0.2, 1, r.uniform(0, 2), 10 ** r.uniform(-8, 1.3)])
    return {"d": d, "d2": d + r.choice([0, 1e-9, r.uniform(0, 1), d]), "mhz": r.choice([60000, 58320, 66960, 55000.0, 68000.0, 28000, 70200, r.uniform(50000, 80000), 61500]),
            "rate": r.choice([30, 0.1, 12.5, 100, r.uniform(0.01, 200)]), "avail": r.choice([99.9, 0, 50, 99, 99.999, r.uniform(0, 99.99)])}


@law("C07", g_loss, n=1500)
def losses(c):
    f = c["mhz"] / 1000
    a, b = F("fspl")(c["d"], f), F("fspl")(c["d2"], f)
    need(close(a, ref_fspl(c["d"], f), 1e-9), f"free-space loss {a}, expected {ref_fspl(c['d'], f)}")
    need(a >= -1e-9 and b >= a - 1e-9, f"free-space loss negative or falling: {a} then {b}")
    o, o2 = F("compute_oxygen_loss")(c["d"], c["mhz"]), F("compute_oxygen_loss")(c["d2"], c["mhz"])
    need(close(o, ref_oxygen(c["d"], c["mhz"])), f"oxygen loss {o}, expected {ref_oxygen(c['d'], c['mhz'])}")
    need(o >= 0 and o2 >= o - 1e-12, "oxygen loss negative or falling")
    w = F("compute_rain_loss")(dist_km=c["d"], rain_rate=c["rate"], link_availability_percentage=c["avail"], carrier_frequency=c["mhz"])
    e = ref_rain(c["d"], c["rate"], c["avail"], c["mhz"])
    need(w >= 0, f"rain loss {w} is negative")
    need(close(w, e, 1e-9), f"rain loss {w}, expected {e}")
    need(F("compute_rain_loss")(0, c["rate"], c["avail"], c["mhz"]) == 0, "rain loss at zero distance")


@law("C07", lambda r: {}, n=0, corners=[{"avail": 100, "d": 0.2}])
def rain_at_full_availability(c):
    try: v = F("compute_rain_loss")(c["d"], 30, c["avail"], 60000)
    except ValueError as e: raise Broken(f"compute_rain_loss(link_availability_percentage=100), which the configuration accepts, raises {e}", "rain-loss-at-100-percent-availability")
    need(v >= 0, "negative")


def g_chain(r):
    u = lambda a, b: round(r.uniform(a, b), 3)
    return {"p": u(-10, 40), "gt": u(0, 40), "lt": u(0, 5), "d": r.choice([u(0, 2), 0.0, 1e-7]), "f": r.choice([60, u(50, 70)]), "gr": r.choice([None, 0, u(0, 40)]), "lr": r.choice([None, 0, u(0, 5)]), "el": u(0, 10)}


@law("C07", g_chain, n=800)
def received_level(c):
    gr = c["gt"] if c["gr"] is None else c["gr"]
    lr = c["lt"] if c["lr"] is None else c["lr"]
    e = c["gt"] + gr - c["lt"] - lr - ref_fspl(c["d"], c["f"]) - c["el"]
    v = F("get_net_gain")(c["gt"], c["lt"], c["d"], c["f"], c["gr"], c["lr"], c["el"])
    need(close(v, e), f"net gain {v}, expected {e}")
    v = F("get_rsl")(c["p"], c["gt"], c["lt"], c["d"], c["f"], c["gr"], c["lr"], c["el"])
    need(close(v, e + c["p"]), f"received level {v}, expected {e + c['p']}")
    sp = sector(noise_figure=c["lt"], thermal_noise_power=-c["gt"])
    need(close(F("get_noise_power")(sp), c["lt"] - c["gt"]), "noise power")
    need(close(F("get_snr")(c["p"], c["gt"]), c["p"] - c["gt"]), "snr")
    need(close(F("log_to_linear")(c["p"]), 10 ** (c["p"] / 10)), "log_to_linear")
    need(close(F("linear_to_log")(10 ** (c["p"] / 10)), c["p"], 1e-7), "linear_to_log")


def scan_pattern(r):
    step = r.choice([1, 5, 10, 2.5])
    n = r.randint(1, 9)
    az = sorted({round((k - n // 2) * step, 2) for k in range(n)})
    el = sorted({round((k - 2) * step, 2) for k in range(r.randint(1, 6))})
    return [[a, [[e, r.choice([0.0, 25.0, round(r.uniform(-10, 30), 2)])] for e in el]] for a in az]


def planet_pattern(r):
    return {"az": [round(r.uniform(-40, 0), 2) for _ in range(360)], "el": [round(r.uniform(-40, 0), 2) for _ in range(360)]}


def mk_pattern(c):
    if c is None: return None
    if isinstance(c, dict): return {"first": [list(c["az"]), list(c["el"])], "second": [[1.0] * 360, [2.0] * 360]}
    return {float(a): {float(e): float(v) for e, v in row} for a, row in c}


def ref_gain(bg, div, c, az, el):
    """set of admissible gains (ties between equally near tabulated angles are free)"""
    if c is None: return [bg + div]
    if isinstance(c, dict):
        n = lambda x: {math.floor(x) % 360, math.ceil(x) % 360} if abs(x - math.floor(x) - .5) < 1e-9 else {round(x) % 360}
        return [bg + div + c["az"][i] + c["el"][j] for i in n(az) for j in n(el)]
    mx = max(v for _, row in c for _, v in row)
    da = min(abs(a - az) for a, _ in c)
    out = []
    for a, row in c:
        if abs(a - az) <= da + 1e-9:
            de = min(abs(e - el) for e, _ in row)
            out += [bg + div + v - mx for e, v in row if abs(e - el) <= de + 1e-9]
    return out


def g_pat(r):
    kind = r.choice(["none", "scan", "scan", "planet"])
    p = None if kind == "none" else scan_pattern(r) if kind == "scan" else planet_pattern(r)
    a = lambda: r.choice([0, 0.0, 5, -5, 10.0, -0.3, 179.7, -179.9, r.uniform(-180, 180), r.randint(-179, 180), r.uniform(-25, 25)])
    return {"bg": r.choice([30, 0, 25.5]), "div": r.choice([0, 3]), "pattern": p, "az": a(), "el": a()}


@law("C07", g_pat, n=800)
def antenna_gain(c):
    v = F("extract_gain_from_radio_pattern")(c["bg"], c["div"], mk_pattern(c["pattern"]), c["az"], c["el"])
    ex = ref_gain(c["bg"], c["div"], c["pattern"], c["az"], c["el"])
    need(any(close(v, e) for e in ex), f"gain {v}, expected one of {ex[:4]}")


def g_full(r):
    rows = gen_rows(r, monotone=True, allow_zero=False)
    sp = lambda: {"antenna_boresight_gain": r.choice([30, 28.5, 20]), "noise_figure": r.choice([7, 5.5]), "thermal_noise_power": r.choice([-81, -80.3]),
                  "rain_rate": r.choice([30, 12]), "link_availability_percentage": r.choice([99.9, 95]), "tx_diversity_gain": r.choice([0, 2]), "rx_diversity_gain": r.choice([0, 3]),
                  "tx_miscellaneous_loss": r.choice([0, 1.5]), "rx_miscellaneous_loss": r.choice([0, 2.5]), "carrier_frequency": r.choice([60000, 60480.0, 64800]),
                  "maximum_tx_power": 43, "minimum_tx_power": r.choice([None, None, -5, 8, 16])}
    pt = lambda: None if r.random() < .6 else scan_pattern(r)
    return {"rows": rows, "tx": sp(), "rx": sp(), "dist": r.choice([1, 30, r.uniform(10, 700), r.uniform(10, 3000)]), "maxp": r.choice([16, 43, r.uniform(0, 30)]),
            "pt": pt(), "pr": pt(), "dev": [r.choice([0, r.uniform(-40, 40)]) for _ in range(4)]}


@law("C07", g_full, n=1200)
def link_budget(c):
    tx, rx, rows = sector(**c["tx"]), sector(**c["rx"]), c["rows"]
    tb = table(rows)
    d = c["dev"]
    m = F("fspl_based_estimation")(distance=c["dist"], max_tx_power=c["maxp"], tx_sector_params=tx, rx_sector_params=rx, mcs_snr_mbps_map=tb, tx_deviation=d[0], rx_deviation=d[1],
                                   tx_el_deviation=d[2], rx_el_deviation=d[3], tx_scan_pattern_data=mk_pattern(c["pt"]), rx_scan_pattern_data=mk_pattern(c["pr"]))
    T, R, km = c["tx"], c["rx"], c["dist"] / 1000
    gts = ref_gain(T["antenna_boresight_gain"], T["tx_diversity_gain"], c["pt"], d[0], d[2])
    grs = ref_gain(R["antenna_boresight_gain"], R["rx_diversity_gain"], c["pr"], d[1], d[3])
    npw = R["noise_figure"] + R["thermal_noise_power"]
    mt = T["minimum_tx_power"]
    loss = ref_fspl(km, T["carrier_frequency"] / 1000) + ref_rain(km, T["rain_rate"], T["link_availability_percentage"], T["carrier_frequency"]) + ref_oxygen(km, T["carrier_frequency"])
    why = []
    for gt in gts:
        for gr in grs:
            ng = gt - T["tx_miscellaneous_loss"] + gr - R["rx_miscellaneous_loss"] - loss
            lv0 = ref_mcs(c["maxp"] + ng - npw, rows)
            req = lambda q: max([q[1] + npw - ng] + ([mt] if mt is not None else []))
            if any(abs(c["maxp"] + ng - npw - q[1]) < 1e-7 or abs(req(q) - c["maxp"] + q[3]) < 1e-7 for q in rows): return False
            ok = [q[0] for q in rows if 0 < q[0] <= lv0 and req(q) <= c["maxp"] - q[3]]
            lv = max(ok) if ok else 0
            p = c["maxp"] - ref_backoff(lv, rows)
            exp = (lv, p, p + ng, p + ng - npw, ref_cap(lv, rows))
            got = (m.mcs_level, m.tx_power, m.rsl_dbm, m.snr_dbm, m.capacity)
            if all(close(a, b, 1e-7) for a, b in zip(exp, got)): return lv > 0
            why.append(exp)
    raise Broken(f"(level, power, received level, snr, capacity) = {got}, expected {why[0]}")


@law("C07", g_full, n=400)
def symmetric_when_receiver_absent(c):
    tx = sector(**c["tx"])
    d = c["dev"]
    k = dict(dist_m=c["dist"], tx_sector_params=tx, tx_radio_pattern_data=mk_pattern(c["pt"]), tx_deviation=d[0], rx_deviation=d[1], tx_el_deviation=d[2], rx_el_deviation=d[3])
    f = F("get_fspl_based_net_gain")
    a = f(rx_sector_params=None, rx_radio_pattern_data=None, **k)
    b = f(rx_sector_params=tx, rx_radio_pattern_data=mk_pattern(c["pt"]), **k)
    need(close(a, b), f"net gain {a} with the receiver left out, {b} with the transmitter's own figures")
