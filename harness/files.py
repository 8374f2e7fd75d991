"""C28 input files are parsed faithfully, C29 a network written and read back is the same."""
import csv
import io
import math
import os
import shutil
import tempfile
import zipfile
from xml.sax.saxutils import escape

from .core import Broken, api, close, law, need, raises
from .topo import ACTIVE, E, STATUS, gen_topology, loc, std_device, topology

IO = "terragraph_planner.common.data_io."
DataException = lambda: api("terragraph_planner.common.exceptions:DataException")
PlannerException = lambda: api("terragraph_planner.common.exceptions:PlannerException")


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_")
        return lambda name: os.path.join(self.d, name)

    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)


def quiet():
    try:
        from osgeo import ogr
        ogr.DontUseExceptions()
    except Exception: pass


def write(path, txt):
    with open(path, "w", encoding="utf-8") as f: f.write(txt)
    return path


def csv_text(rows):
    b = io.StringIO()
    csv.writer(b, lineterminator="\n").writerows(rows)
    return b.getvalue()


# ---------------------------------------------------------------- C28 coordinates
def g_dms(r):
    d, m, s = r.randrange(0, 90), r.randrange(60), r.choice([0, 0.5, r.randrange(60), round(r.uniform(0, 59.999), 3)])
    return {"deg": d, "min": m, "sec": s, "dir": r.choice("NESW"), "form": r.choice(["dms", "dms space", "dms quoted", "decimal"]), "bad": r.choice([None] * 6 + ["dir", "words", "short", "empty"])}


@law("C28", g_dms, n=800)
def degrees_minutes_seconds(c):
    f = api(IO + "csv_library:dms_to_decimal")
    v = c["deg"] + c["min"] / 60 + c["sec"] / 3600
    t = {"dms": f"{c['deg']}°{c['min']}'{c['sec']}\"{c['dir']}", "dms space": f" {c['deg']}° {c['min']}' {c['sec']}\" {c['dir']} ", "dms quoted": f"{c['deg']} {c['min']} {c['sec']} {c['dir']}", "decimal": f"{v!r}° {c['dir']}"}[c["form"]]
    bad = c["bad"]
    if bad == "dir": t = t.replace(c["dir"], "Q")
    if bad == "words": t = "north" + t
    if bad == "short": t = f"{c['deg']}°{c['min']}'{c['dir']}"
    if bad == "empty": t = ""
    err, got = raises(DataException(), f, t)
    need(err == (bad is not None), f"{t!r} " + ("was rejected" if err else f"was read as {got}"))
    if not err:
        w = v if c["dir"] in "NE" else -v
        need(abs(got - w) <= 1e-9, f"{t!r} is {w}, read as {got}")


# ---------------------------------------------------------------- C28 site files
NAMES = {"lat": ["base_lat", "latitude", "lat"], "lon": ["base_lon", "longitude", "lon"], "alt": ["altitude", "alt"], "height": ["height", "install_height", "site_height", "height_m", "height(m)", "height (m)"],
         "name": ["name", "site_name", "site name", "pole_name"], "type": ["type", "site_type", "site type"], "sku": ["sku", "device_sku", "device sku"],
         "subs": ["number_of_demand_points", "number of demand points", "num_demand_points", "number_of_subscribers", "number of subscribers", "number of demand sites", "num_demand_sites", "demand_points", "demand points", "demand_sites", "demand sites"]}
REQUIRED = {True: ["lat", "lon"], False: ["name", "type", "lat", "lon"]}


def g_site_file(r):
    user = r.random() < .5
    cols = ["lat", "lon"] + [k for k in ("alt", "height", "name", "type", "sku", "subs") if r.random() < .6 or (not user and k in ("name", "type"))]
    drop = r.choice(REQUIRED[user]) if r.random() < .08 else None
    if drop in cols: cols.remove(drop)
    heads = {k: r.choice([str, str.upper, str.title])(r.choice(NAMES[k])) for k in cols}
    twice = r.choice([k for k in cols]) if r.random() < .06 else None
    n = r.randint(0, 6)
    blank = r.random() < .5
    dms = r.random() < .25
    numeric = r.random() < .3
    rows = []
    for i in range(n):
        t = r.choice(["CN", "DN", "POP"])
        rows.append({"lat": round(r.uniform(-80, 80), 6), "lon": round(r.uniform(-179, 179), 6), "alt": None if blank and r.random() < .4 else round(r.uniform(0, 90), 1), "height": None if blank and r.random() < .4 else r.choice([3, 4.5]),
                     "name": r.choice([f"{i:03d}", f"{i}.50", f"{i}e3"]) if numeric else r.choice([f"site {i}", f"NA{i}" if i else "NA", f"ümläut {i}", f"a,b {i}"]), "type": t, "sku": "SKU_CN" if t == "CN" else "SKU_DN", "subs": None if blank and r.random() < .4 else r.randint(1, 9)})
    order = list(heads)
    r.shuffle(order)
    return {"user": user, "heads": heads, "order": order, "rows": rows, "dms": dms, "drop": drop, "twice": twice, "extra": r.random() < .3, "case": r.choice(["", " Site", "lower"]), "pad": r.random() < .3, "bad": r.choice([None] * 12 + ["alt", "type", "lat"]) if rows else None}


def as_dms(v, pos, neg):
    a = abs(v)
    d = int(a)
    m = int((a - d) * 60)
    s = (a - d - m / 60) * 3600
    return f"{d}°{m}'{max(s, 0.0):.9f}\"{pos if v >= 0 else neg}"


@law("C28", g_site_file, n=500, timeout=90)
def site_files(c):
    f = api(IO + "csv_library:load_input_sites_from_csv_file")
    order, heads = c["order"], c["heads"]
    head = [heads[k] for k in order] + (["comment"] if c["extra"] else [])
    dup = c["twice"] and len(NAMES[c["twice"]]) > 1
    if dup: head.append(next(n for n in NAMES[c["twice"]] if n != heads[c["twice"]].casefold()))
    out = [head]
    for i, x in enumerate(c["rows"]):
        cell = {k: "" if x[k] is None else x[k] for k in order}
        if "type" in cell: cell["type"] = {"": cell["type"], " Site": cell["type"] + " Site", "lower": cell["type"].lower()}[c["case"]]
        if c["dms"]:
            if "lat" in cell: cell["lat"] = as_dms(x["lat"], "N", "S")
            if "lon" in cell: cell["lon"] = as_dms(x["lon"], "E", "W")
        if c["pad"] and "name" in cell: cell["name"] = f"  {cell['name']} "
        if i == 0 and c["bad"] == "alt" and "alt" in cell: cell["alt"] = "high"
        if i == 0 and c["bad"] == "type" and "type" in cell: cell["type"] = "Relay"
        if i == 0 and c["bad"] == "lat" and "lat" in cell: cell["lat"] = "somewhere"
        out.append([cell[k] for k in order] + (["x"] if c["extra"] else []) + ([cell[c["twice"]]] if dup else []))
    reject = c["drop"] is not None or dup or (c["bad"] in order and bool(c["rows"]))
    with scratch() as d:
        p = write(d("sites.csv"), csv_text(out))
        err, got = raises(DataException(), f, p, c["user"])
    need(err == bool(reject), ("rejected: " + str(got) if err else f"accepted as {got}") + f"; the file {out[:3]} " + ("must be rejected" if reject else "is fine"))
    if err: return
    need(len(got) == len(c["rows"]), f"{len(got)} sites read from {len(c['rows'])} rows")
    for x, g in zip(c["rows"], got):
        w = {"latitude": x["lat"], "longitude": x["lon"], "altitude": x["alt"] if "alt" in order else None, "height": x["height"] if "height" in order else None, "name": str(x["name"]) if "name" in order else None,
             "site_type": E("SiteType", x["type"] if "type" in order else "POP"), "device_sku": x["sku"] if "sku" in order else None, "number_of_subscribers": x["subs"] if "subs" in order else None,
             "status_type": E("StatusType", "CANDIDATE"), "location_type": E("LocationType", "UNKNOWN"), "building_id": None}
        for k, v in w.items():
            o = getattr(g, k)
            if isinstance(o, float) and math.isnan(o): o = None
            if isinstance(v, (int, float)) and not isinstance(v, bool): need(isinstance(o, (int, float)) and not isinstance(o, str) and abs(o - v) <= 1e-9, f"{k} of row {x} is read as {o!r}")
            else: need(o == v or (k in ("altitude", "height", "number_of_subscribers") and v is None and o is None), f"{k} of row {x} is read as {o!r}, expected {v!r}")
    return None if got else False


# ---------------------------------------------------------------- C28 duplicate sites and names
def g_inputs(r):
    names, skus = r.choice([["", "a"], ["a", "b"], ["", "a", "b", "c d"]]), r.choice([["S1"], ["S1", "S2"], ["S1", "s1x", "S3"]])
    return {"sites": [{"type": r.choice(["DN", "POP"]), "lat": r.choice([1.0, 1.1]), "lon": 2.0, "alt": r.choice([None, 5.0]), "lt": "UNKNOWN", "name": r.choice(names), "sku": r.choice(skus)} for _ in range(r.randint(1, 6))]}


@law("C28", g_inputs, n=1200)
def duplicate_sites(c):
    S = api(IO + "input_sites:InputSites")()
    kept, keys, skus, label = [], set(), {}, {}
    for i, x in enumerate(c["sites"]):
        t, ss, *_ = topology({"sites": [x]})
        s = ss[0]
        name = x["name"] or s.site_id
        key = (x["lat"], x["lon"], x["alt"], x["type"], name, x["sku"].casefold())
        dup = key in keys
        clash = not dup and x["sku"].casefold() in skus.get(name, {})
        bad, e = raises(DataException(), S.add_site, s)
        need(bad == clash, f"site {i} " + (f"was rejected: {e}" if bad else "was accepted although its name and device are taken by another site"))
        if bad: return
        if dup:
            need(len(S) == len(kept), f"duplicate site {i} was added")
            continue
        keys.add(key)
        skus.setdefault(name, {})[x["sku"].casefold()] = s
        kept.append((name, x["sku"].casefold(), s))
        need(len(S) == len(kept) and all(a is b for a, (_, _, b) in zip(S, kept)), f"sites {[q.name for q in S]} after adding site {i}")
        for n, k, q in kept:
            w = n if len(skus[n]) == 1 else f"{n}_{k}"
            need(q.name == w, f"site is named {q.name!r}, expected {w!r}")
            need(S.get_site_by_name(w) is q, f"looking up {w!r} does not give the site")
            need(S.get_site_by_id(q.site_id) is q or sum(1 for _, _, z in kept if z.site_id == q.site_id) > 1, f"looking up the id of {w!r} does not give the site")


# ---------------------------------------------------------------- C28 topology from tables
LINKCOLS = {"pair": [["site_pair", "sites"]], "two": [["site1", "site1_id", "site1_name"], ["site2", "site2_id", "site2_name"]],
            "directed": [["tx_site", "tx_site_name", "tx_site_id", "from_site", "from_site_name", "from_site_id"], ["rx_site", "rx_site_name", "rx_site_id", "to_site", "to_site_name", "to_site_id"]]}


def g_tables(r):
    n = r.randint(2, 6)
    sites = [{"name": f"{i:02d}" if r.random() < .3 else f"s {i}", "type": r.choice(["CN", "DN", "POP"]), "lat": round(37 + .001 * i, 5), "lon": -122.0} for i in range(n)]
    form = r.choice(list(LINKCOLS))
    pairs, seen = [], set()
    for _ in range(r.randint(0, 6)):
        a, b = r.sample(range(n), 2)
        if (a, b) in seen or (form == "two" and (b, a) in seen): continue
        seen.add((a, b))
        pairs.append([a, b])
    return {"sites": sites, "form": form, "pairs": pairs, "heads": [r.choice(h) for h in LINKCOLS[form]], "bad": r.choice([None] * 8 + ["twice", "unknown", "missing", "arrow"]), "space": r.random() < .5}


@law("C28", g_tables, n=300, timeout=90)
def topology_tables(c):
    f = api(IO + "utils:extract_topology_from_file")
    S, bad = c["sites"], c["bad"]
    sp = " " if c["space"] else ""
    rows = [[S[a]["name"], S[b]["name"]] for a, b in c["pairs"]]
    if bad == "twice" and rows: rows.append(list(rows[0]))
    elif bad == "unknown": rows.append([S[0]["name"], "nobody"])
    elif bad not in ("missing", "arrow") or (bad == "arrow" and c["form"] != "pair"): bad = None
    if c["form"] == "pair": body = [[f"{sp}{a}{sp}-->{sp}{b}{sp}"] for a, b in rows] + ([[f"{S[0]['name']}--{S[1]['name']}"]] if bad == "arrow" else [])
    else: body = [[sp + a, b + sp] for a, b in rows]
    heads = list(c["heads"])
    if bad == "missing": heads[-1] = "something"
    with scratch() as d:
        write(d("sites.csv"), csv_text([["name", "type", "lat", "lon"]] + [[s["name"], s["type"], s["lat"], s["lon"]] for s in S]))
        write(d("links.csv"), csv_text([heads] + body))
        with zipfile.ZipFile(d("t.zip"), "w") as z:
            for n in ("sites.csv", "links.csv"): z.write(d(n), n)
        err, t = raises(DataException(), f, d("t.zip"), [std_device("DN"), std_device("CN")], None)
    need(err == (bad is not None), (f"rejected: {t}" if err else "accepted") + f" with {heads} {body} (expected problem: {bad})")
    if err: return
    ids = {s.name: s.site_id for s in t.sites.values()}
    need(sorted(ids) == sorted(s["name"] for s in S) and len(t.sites) == len(S), f"sites {sorted(ids)}")
    for s in S:
        o = t.sites[ids[s["name"]]]
        need((o.site_type.name, o.latitude, o.longitude, o.status_type.name) == (s["type"], s["lat"], s["lon"], "CANDIDATE"), f"site {s} is read as {o.site_type.name} {o.latitude} {o.longitude} {o.status_type.name}")
    want = set()
    for a, b in c["pairs"]:
        for x, y in ((a, b), (b, a)):
            if S[x]["type"] != "CN": want.add((ids[S[x]["name"]], ids[S[y]["name"]]))
    got = {(l.tx_site.site_id, l.rx_site.site_id): (l.status_type.name, l.is_wireless, l.confidence_level) for l in t.links.values()}
    need(set(got) == want, f"links {sorted(got)}, expected {sorted(want)}")
    need(all(v == ("CANDIDATE", True, None) for v in got.values()), f"links {got}")


# ---------------------------------------------------------------- C28 rate tables, patterns
def g_rates(r):
    n = r.choice([0, 1, 2, 3, 5, 8])
    mcs = sorted(r.sample(range(13), n))
    snr = sorted(round(r.uniform(0, 20), 1) for _ in range(n))
    mbps = sorted(r.choice([0, 67.5, 115, 260, 452.5, 645, 1030, 1800]) for _ in range(n))
    back = r.choice([None, [0] * n, sorted(r.choice([0, 1, 2, 4, 9.5]) for _ in range(n))])
    rows = [[mcs[i], snr[i], mbps[i]] + ([back[i]] if back is not None else []) for i in range(n)]
    mix = r.random()
    if mix < .25: r.shuffle(rows)
    bad = r.choice([None] * 10 + ["swap", "word", "short", "head", "double"])
    heads = ["MCS", r.choice(["SNR", "Min SNR (dB)", "snr"]), r.choice(["Mbps", "mbps rate"])] + (["tx_backoff"] if back is not None else [])
    perm = list(range(len(heads)))
    r.shuffle(perm)
    return {"rows": rows, "heads": heads, "perm": perm, "bad": bad, "min_mcs": r.choice([None, None, 0, 3, 9, 12]), "min_tx": r.choice([None, None, 38.0, 30.0, 43.5])}


@law("C28", g_rates, n=900)
def rate_tables(c):
    f = api(IO + "csv_library:read_mcs_snr_mbps_map_data")
    P = api("terragraph_planner.common.configuration.configs:SectorParams")()
    P.minimum_mcs_level, P.minimum_tx_power, P.maximum_tx_power = c["min_mcs"], c["min_tx"], 43.0
    rows, heads, bad = [list(x) for x in c["rows"]], list(c["heads"]), c["bad"]
    if bad in ("word", "short") and not rows: bad = None
    if bad == "swap":
        up = [i for i in range(1, len(rows)) if rows[i][0] != rows[i - 1][0] and rows[i][1] != rows[i - 1][1]]
        if up: rows[up[0]][1], rows[up[0] - 1][1] = rows[up[0] - 1][1], rows[up[0]][1]
        else: bad = None
    txt = [[str(v) for v in x] for x in rows]
    if bad == "word": txt[-1][0] = "many"
    if bad == "short": txt[-1].pop()
    if bad == "head": heads[0] = "level"
    if bad == "double": heads[1] = "snr mcs"
    out = [[heads[i] for i in c["perm"]]] + [[x[i] for i in c["perm"] if i < len(x)] for x in txt]
    full = [list(x) + ([0] if len(x) == 3 else []) for x in rows]
    want = [tuple(x) for x in full if (c["min_tx"] is None or 43.0 - x[3] >= c["min_tx"]) and (c["min_mcs"] is None or x[0] >= c["min_mcs"])]
    # the columns must rise together: the stable orders of all columns agree
    order = lambda k: sorted(range(len(full)), key=lambda i: full[i][k])
    agree = all(order(k) == order(0) for k in (1, 2, 3))
    reject = bad is not None or not want or not agree
    with scratch() as d:
        p = write(d("mcs.csv"), csv_text(out))
        err, got = raises(DataException(), f, p, P)
    need(err == reject, (f"rejected: {got}" if err else f"accepted as {got}") + f"; table {out}, min MCS {c['min_mcs']}, min power {c['min_tx']} of 43")
    if err: return
    got = [(m.mcs, m.snr, m.mbps, m.tx_backoff) for m in got]
    need(got == [tuple(map(float, w)) for w in want], f"table {out} is read as {got}")


def g_pattern(r): return {"names": [f"Ant {i}" for i in range(r.randint(1, 2))], "seed": r.randrange(1 << 30), "sep": r.choice([" ", "\t"]), "scan": {"h": sorted(r.sample(range(-45, 46), r.randint(1, 5))), "v": sorted(r.sample(range(-20, 21), r.randint(1, 4)))}}


@law("C28", g_pattern, n=60, timeout=90)
def antenna_patterns(c):
    import random
    r = random.Random(c["seed"])
    want, txt = {}, []
    sep = c["sep"]
    for n in c["names"]:
        h, v = ([round(r.uniform(0, 40), 2) for _ in range(360)] for _ in range(2))
        want[n.casefold()] = ([-x for x in h], [-x for x in v])
        # every line has the same number of fields
        txt += [f"NAME{sep}{n.replace(' ', '')}", f"HORIZONTAL{sep}360"] + [f"{i}{sep}{x}" for i, x in enumerate(h)] + [f"VERTICAL{sep}360"] + [f"{i}{sep}{x}" for i, x in enumerate(v)]
    want = {k.replace(" ", ""): v for k, v in want.items()}
    with scratch() as d:
        got = api(IO + "csv_library:read_antenna_pattern_data")(write(d("a.pln"), "\n".join(txt) + "\n"))
    need(set(got) == set(want), f"patterns {list(got)}, expected {list(want)}")
    for k in want:
        for a, b in zip(want[k], got[k]): need(len(b) == 360 and all(abs(x - y) <= 1e-9 for x, y in zip(a, b)), f"pattern {k} is read as {b[:5]}..., expected {a[:5]}...")


@law("C28", g_pattern, n=150)
def scan_patterns(c):
    import random
    r = random.Random(c["seed"])
    h, v = c["scan"]["h"], c["scan"]["v"]
    want = {float(a): {float(b): round(r.uniform(-30, 0), 2) for b in v} for a in h}
    with scratch() as d:
        got = api(IO + "csv_library:read_scan_pattern_data")(write(d("s.csv"), csv_text([["h"] + v] + [[a] + [want[float(a)][float(b)] for b in v] for a in h])))
    need(got == want, f"read as {got}, expected {want}")


# ---------------------------------------------------------------- C28 / C29 map files
def names(r, i): return r.choice([f"site {i}", f"A & B <{i}>", f"nœud {i}", f'"q" {i}', f"{i:03d}", f"N/A {i}"])


def g_kml(r):
    sites = []
    for i in range(r.randint(1, 6)):
        sites.append({"status": r.choice([None] + STATUS), "type": r.choice(["CN", "DN", "POP"]), "lat": round(37 + .002 * i + r.uniform(0, .0005), 6), "lon": round(-122 + r.uniform(0, .001), 6), "z": r.choice([None, 0.0, round(r.uniform(1, 60), 1)]),
                      "mode": r.choice([None, "absolute", "relativeToGround", "clampToGround"]), "name": names(r, i), "lt": r.choice([None, "ROOFTOP", "street_level", "UNKNOWN"]), "bld": r.choice([None, "0", "12"]), "subs": r.choice([None, "3"]), "sku": r.random() < .5})
    links = []
    for _ in range(r.randint(0, 5)):
        if len(sites) < 2: break
        a, b = r.sample(range(len(sites)), 2)
        links.append({"a": a, "b": b, "status": r.choice([None] + STATUS), "type": r.choice(["WIRELESS_BACKHAUL", "WIRELESS_ACCESS", "ETHERNET"]), "named": r.random() < .6, "conf": r.choice([None, "N/A", "1", "0.85", "0"])})
    return {"sites": sites, "links": links, "demands": [[round(37 + r.uniform(0, .01), 6), round(-122 + r.uniform(0, .01), 6)] for _ in range(r.randint(0, 2))], "kmz": r.random() < .3}


def data(d): return "<ExtendedData>" + "".join(f'<Data name="{k}"><value>{escape(str(v))}</value></Data>' for k, v in d.items() if v is not None) + "</ExtendedData>"


@law("C28", g_kml, n=250, timeout=90)
def map_files(c):
    quiet()
    b = ['<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>x</name>']
    wants, wantl = [], []
    for st in [None] + STATUS:
        inner = []
        for t in ("CN", "DN", "POP"):
            here = [s for s in c["sites"] if s["status"] == st and s["type"] == t]
            if not here: continue
            inner.append(f"<Folder><name>{t} Sites</name>")
            for s in here:
                z = "" if s["z"] is None else f",{s['z']}"
                mode = "" if s["mode"] is None else f"<altitudeMode>{s['mode']}</altitudeMode>"
                inner.append(f"<Placemark><name>{escape(s['name'])}</name>" + data({"Location Type": s["lt"], "Building Id": s["bld"], "Number of Subscribers": s["subs"], "Device SKU": ("SKU_CN" if t == "CN" else "SKU_DN") if s["sku"] else None})
                             + f"<Point>{mode}<coordinates>{s['lon']},{s['lat']}{z}</coordinates></Point></Placemark>")
                lt = (s["lt"] or "STREET_LEVEL").upper()
                wants.append((t, st or "CANDIDATE", s["name"], s["lat"], s["lon"], (s["z"] or 0.0) if s["mode"] == "absolute" else None, (s["z"] or 0.0) if s["mode"] == "relativeToGround" else None, lt, int(s["bld"]) if lt == "ROOFTOP" and s["bld"] else None,
                              int(s["subs"]) if s["subs"] else None, ("SKU_CN" if t == "CN" else "SKU_DN") if s["sku"] else None))
            inner.append("</Folder>")
        for t in ("WIRELESS_BACKHAUL", "WIRELESS_ACCESS", "ETHERNET"):
            here = [l for l in c["links"] if l["status"] == st and l["type"] == t]
            if not here: continue
            inner.append(f"<Folder><name>{t} Links</name>")
            for l in here:
                A, B = c["sites"][l["a"]], c["sites"][l["b"]]
                inner.append("<Placemark><name>l</name>" + data({"Link Type": t, "Tx Site Name": A["name"] if l["named"] else None, "Rx Site Name": B["name"] if l["named"] else None, "Confidence Level": l["conf"]}).replace('"Tx Site Name"', '"TX_SITE_NAME"').replace('"Rx Site Name"', '"RX_SITE_NAME"')
                             + f"<LineString><coordinates>{A['lon']},{A['lat']},0 {B['lon']},{B['lat']},0</coordinates></LineString></Placemark>")
                wantl.append((t, st or "CANDIDATE", A["name"] if l["named"] else None, B["name"] if l["named"] else None, A["lat"], A["lon"], B["lat"], B["lon"], None if l["conf"] in (None, "N/A") else float(l["conf"])))
            inner.append("</Folder>")
        if not inner: continue
        b += inner if st is None else [f"<Folder><name>{st}</name>"] + inner + ["</Folder>"]
    if c["demands"]: b += ["<Folder><name>Demand Sites</name>"] + [f"<Placemark><name>d</name><Point><coordinates>{y},{x},0</coordinates></Point></Placemark>" for x, y in c["demands"]] + ["</Folder>"]
    b.append("</Document></kml>")
    with scratch() as d:
        p = write(d("t.kml"), "".join(b))
        if c["kmz"]:
            with zipfile.ZipFile(d("t.kmz"), "w") as z: z.write(p, "doc.kml")
            p = d("t.kmz")
        sites, links, demands = api(IO + "kml_library:extract_raw_data_from_kml_file")(p)
    got = [(s.site_type.name, s.status_type.name, s.name, s.latitude, s.longitude, s.altitude, s.height, s.location_type.name, s.building_id, s.number_of_subscribers, s.device_sku) for s in sites]
    need(got == wants, f"sites are read as {got}, the file has {wants}")
    got = [(l.link_type.name, l.status_type.name, l.tx_site_name, l.rx_site_name, l.tx_latitude, l.tx_longitude, l.rx_latitude, l.rx_longitude, l.confidence_level) for l in links]
    need(got == wantl, f"links are read as {got}, the file has {wantl}")
    need([[d.latitude, d.longitude] for d in demands] == c["demands"], f"demand is read at {[[d.latitude, d.longitude] for d in demands]}, the file has {c['demands']}")


def g_written(r):
    spec = gen_topology(r, nmax=r.choice([2, 4, 7]), density=r.choice([.3, .6]), wired=.15, demands=3, bidir=1.0)
    flat = r.random() < .4
    S = spec["sites"]
    for i, s in enumerate(S):
        s["alt"] = None if flat else round(i * 1.7 + r.choice([0, 12.5]), 1)
        s["name"] = r.choice(["", names(r, i)])
        s["lat"], s["lon"] = round(s["lat"] + i * 1e-5, 6), s["lon"]
    st = {}
    for l in spec["links"]:
        k = (min(l["tx"], l["rx"]), max(l["tx"], l["rx"]))
        l["status"], l["conf"], l["wireless"] = st.setdefault(k, (l["status"], r.choice([None, 1.0, 0.7, 0.0]), l["wireless"]))
        if not l["wireless"]: l["ts"] = l["rs"] = None
        l["proposed_flow"], l["utilization"] = r.choice([0.0, 0.5]), r.choice([0.0, 90.0])
    v = r.choice([None, .025, "mixed"])
    for d in spec["demands"]: d["demand"] = r.choice([.5, 1.0, .025]) if v == "mixed" else v
    return {"spec": spec, "kmz": r.random() < .3}


@law("C29", g_written, n=400, timeout=90)
def written_and_read(c):
    quiet()
    spec = c["spec"]
    t, ss, xs, ls, ds = topology(spec)
    devices = []
    for s in ss:
        if all(s.device is not d for d in devices): devices.append(s.device)
    for k in ("DN", "CN"):
        if all(d.device_type.name != k for d in devices): devices.append(std_device(k))
    with scratch() as d:
        p = d("t.kml")
        api(IO + "topology_serializer:write_to_kml_file")(t, p)
        if c["kmz"]:
            with zipfile.ZipFile(d("t.kmz"), "w") as z: z.write(p, "doc.kml")
            p = d("t.kmz")
        u = api(IO + "utils:extract_topology_from_file")(p, devices, None)
    need(set(u.sites) == set(t.sites), f"sites {sorted(u.sites)}, written {sorted(t.sites)}")
    for k, a in t.sites.items():
        b = u.sites[k]
        for f in ("latitude", "longitude", "altitude", "site_type", "status_type", "location_type", "building_id", "name", "number_of_subscribers"):
            need(getattr(a, f) == getattr(b, f), f"{f} of site {k} is {getattr(b, f)!r}, written {getattr(a, f)!r}")
        need(b.device is a.device, f"site {k} got another device")
    L = lambda t: {(l.tx_site.site_id, l.rx_site.site_id): (l.status_type.name, l.link_type.name, None if l.confidence_level is None else round(l.confidence_level, 1)) for l in t.links.values() if l.is_wireless}
    a, b = L(t), L(u)
    need(a == b, f"links are {b}, written {a}")
    D = lambda t: sorted((d.latitude, d.longitude) for d in t.demand_sites.values())
    need(D(t) == D(u), f"demand at {D(u)}, written {D(t)}")
