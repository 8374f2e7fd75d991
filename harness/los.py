"""C11-C14: line of sight, elevation grid, candidate links."""
import math
import random
from fractions import Fraction

from .core import Missing, api, law, need, raises
from .topo import E, device, loc, std_device

L = "terragraph_planner.los."
ST = "terragraph_planner.common.structs:"
EPS = 1e-7


# ------------------------------------------------------------------ building real objects
def elevation(g):
    """g: dict x0 y0 rx ry rows [pad]; bounding box = extent of the cell centres (grown by pad)"""
    import numpy as np
    osr = api("osgeo.osr:SpatialReference")()
    osr.ImportFromEPSG(32631)
    rows = g["rows"]
    B = api(ST + "UTMBoundingBox")
    p = g.get("pad", 0)
    return api(L + "elevation:Elevation")(data_matrix=np.array(rows, dtype=np.float64), utm_bounding_box=B(
        min_utm_x=g["x0"] - p, min_utm_y=g["y0"] - g["ry"] * (len(rows) - 1) - p, max_utm_x=g["x0"] + g["rx"] * (len(rows[0]) - 1) + p, max_utm_y=g["y0"] + p),
        x_resolution=g["rx"], y_resolution=g["ry"], left_top_x=g["x0"], left_top_y=g["y0"], spatial_reference=osr, collection_time=None)


def lsite(s):
    return api("terragraph_planner.common.topology_models.site:LOSSite")(utm_x=s["x"], utm_y=s["y"], altitude=s.get("z"), location_type=E("LocationType", s.get("lt", "UNKNOWN")).value, building_id=s.get("b"))


def zones(c):
    from shapely.geometry import box
    return [box(*z) for z in c.get("zones", [])]


def validator(c, kind=None, surface=True):
    el = elevation(c["grid"]) if surface and c.get("grid") else None
    if (kind or c["kind"]) == "cyl":
        return api(L + "cylindrical_los_validator:CylindricalLOSValidator")(el, c["max"], c["min"], c["el"], c["radius"], zones(c), c["thr"])
    return api(L + "ellipsoidal_los_validator:EllipsoidalLOSValidator")(el, c["max"], c["min"], c["el"], c["freq"], zones(c), c["thr"])


# ------------------------------------------------------------------ reference
def seg_box(p, q, z):
    """does the closed segment meet the closed box? exact"""
    p, q, z = [tuple(Fraction(v) for v in t) for t in (p, q, z)]
    t0, t1 = Fraction(0), Fraction(1)
    for i in (0, 1):
        d = q[i] - p[i]
        lo, hi = z[i], z[i + 2]
        if d == 0:
            if not lo <= p[i] <= hi: return False
        else:
            a, b = (lo - p[i]) / d, (hi - p[i]) / d
            if a > b: a, b = b, a
            t0, t1 = max(t0, a), min(t1, b)
            if t0 > t1: return False
    return True


def simple(c, a, b):
    """None: too close to a limit to call; otherwise whether the pair passes the filters"""
    if a["x"] == b["x"] and a["y"] == b["y"]: return False
    if a.get("lt") == b.get("lt") == "ROOFTOP" and a.get("b") == b.get("b") and a.get("b") != -1: return False
    dz = 0 if a.get("z") is None or b.get("z") is None else a["z"] - b["z"]
    sq = (Fraction(a["x"]) - Fraction(b["x"])) ** 2 + (Fraction(a["y"]) - Fraction(b["y"])) ** 2 + Fraction(dz) ** 2
    d = math.sqrt(sq)
    for lim in (c["min"], c["max"]):
        if abs(d - lim) < EPS and Fraction(lim) ** 2 != sq: return None
    if sq < Fraction(c["min"]) ** 2 or sq > Fraction(c["max"]) ** 2: return False
    if a.get("z") is not None and b.get("z") is not None:
        e = math.degrees(math.atan2(abs(dz), math.hypot(a["x"] - b["x"], a["y"] - b["y"])))
        if abs(e - c["el"]) < EPS: return None
        if e > c["el"]: return False
    return not any(seg_box((a["x"], a["y"]), (b["x"], b["y"]), z) for z in c.get("zones", []))


def cells(g):
    for j, row in enumerate(g["rows"]):
        for i, z in enumerate(row): yield g["x0"] + g["rx"] * i, g["y0"] - g["ry"] * j, z


def frame(a, b, x, y):
    """along and across coordinate of (x, y) relative to the line a-b in the plane, and its length"""
    bx, by = b["x"] - a["x"], b["y"] - a["y"]
    n = math.hypot(bx, by)
    return ((x - a["x"]) * bx + (y - a["y"]) * by) / n, ((y - a["y"]) * bx - (x - a["x"]) * by) / n, n


def cyl_distance(a, b, x, y, z):
    """shortest distance of the solid column below (x, y, z) to the line; None when that is not between the sites"""
    u, v, n = frame(a, b, x, y)
    dz = b["z"] - a["z"]

    def f(s): return (s * n - u) ** 2 + v * v + max(0.0, a["z"] + s * dz - z) ** 2

    def df(s):
        h = a["z"] + s * dz - z
        return 2 * n * (s * n - u) + (2 * h * dz if h > 0 else 0.0)
    if abs(df(0)) < 1e-9 * n or abs(df(1)) < 1e-9 * n: amb = True
    else: amb = False
    if (df(0) > 0 or df(1) < 0) and not amb: return None, False
    lo, hi = 0.0, 1.0
    for _ in range(200):
        m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if f(m1) <= f(m2): hi = m2
        else: lo = m1
    return math.sqrt(f((lo + hi) / 2)), amb


def cyl(c, a, b):
    """(lowest, highest) confidence consistent with the rounding of cells on a border"""
    res = []
    r, top = c["radius"], max(a["z"], b["z"])
    for slack in (-1e-6, 1e-6):
        best = r
        for x, y, z in cells(c["grid"]):
            u, v, n = frame(a, b, x, y)
            if not (-slack <= u <= n + slack and abs(v) <= r + slack): continue
            if c["thr"] == 1 and z > top:
                best = 0
                break
            d, amb = cyl_distance(a, b, x, y, z)
            if d is None or (amb and slack < 0): continue
            if d < r * c["thr"] + slack:
                best = 0
                break
            best = min(best, d)
        res.append(best / r)
    return res[1], res[0]


def low_height(a, b, r, x, y):
    """height at which the vertical line through (x, y) enters the ellipsoid around a-b with radius r; None: never"""
    u, v, n = frame(a, b, x, y)
    D = math.sqrt(n * n + (b["z"] - a["z"]) ** 2)
    cb, sb = n / D, (b["z"] - a["z"]) / D
    U = u - n / 2                      # horizontal offset from the midpoint along the line
    A2 = D * D / 4
    # along = U cb + h sb ; up = -U sb + h cb ; across = v
    qa = sb * sb / A2 + cb * cb / (r * r)
    qb = 2 * (U * cb * sb / A2 - U * sb * cb / (r * r))
    qc = (U * cb) ** 2 / A2 + (U * sb) ** 2 / (r * r) + v * v / (r * r) - 1
    disc = qb * qb - 4 * qa * qc
    if disc <= 0: return None, disc * r * r
    return (-qb - math.sqrt(disc)) / (2 * qa) + (a["z"] + b["z"]) / 2, disc * r * r


def ell(c, a, b):
    D = math.sqrt((a["x"] - b["x"]) ** 2 + (a["y"] - b["y"]) ** 2 + (a["z"] - b["z"]) ** 2)
    R = 8.65725790883 * math.sqrt(D / c["freq"])
    rin = R * c["thr"]
    res = []
    for slack in (-1e-6, 1e-6):
        best = R
        for x, y, z in cells(c["grid"]):
            u, v, n = frame(a, b, x, y)
            U = u - n / 2
            w = (U / (n / 2)) ** 2
            if w + (v / R) ** 2 > 1 + slack: continue
            if any(x == s["x"] and y == s["y"] for s in (a, b)): continue
            if c["thr"] > 0 and w + (v / rin) ** 2 <= 1 + slack:
                h, disc = low_height(a, b, rin, x, y)
                if (h is not None and z >= h - slack) or (h is None and disc > -slack and slack > 0):
                    best = 0
                    break
            h, disc = low_height(a, b, R, x, y)
            if h is None or z < h + (-slack if slack < 0 else -slack): continue
            line = a["z"] + (b["z"] - a["z"]) * u / n
            if z >= line: rad = R if w >= 1 else math.sqrt(v * v / (1 - w))
            else:
                cb, sb = n / D, (b["z"] - a["z"]) / D
                H = z - (a["z"] + b["z"]) / 2
                al = (U * cb + H * sb) ** 2 / (D * D / 4)
                rad = R if al >= 1 else math.sqrt((v * v + (H * cb - U * sb) ** 2) / (1 - al))
            if slack < 0 and (abs(w - 1) < 1e-6 or abs(z - line) < 1e-6): continue
            if slack > 0 and abs(z - line) < 1e-6 and w < 1: rad = min(rad, math.sqrt(v * v / (1 - w)))
            best = min(best, rad)
        res.append(best / R)
    return res[1], res[0]


# ------------------------------------------------------------------ C11
def g_pair(r, span=40, alt=True):
    a = {"x": r.randint(0, span), "y": r.randint(0, span)}
    t = r.random()
    if t < .08: b = dict(a)
    elif t < .3:
        k = r.choice([(3, 4), (4, 3), (5, 12), (8, 6), (0, 10), (10, 0), (20, 21)])
        b = {"x": a["x"] + k[0] * r.choice([1, -1]), "y": a["y"] + k[1] * r.choice([1, -1])}
    else: b = {"x": r.randint(0, span), "y": r.randint(0, span)}
    for s in (a, b):
        s["z"] = r.choice([None, 0, r.randint(0, 30), round(r.uniform(0, 30), 2)]) if alt else round(r.uniform(5, 25), 2)
        s["lt"] = r.choice(["UNKNOWN", "STREET_LEVEL", "ROOFTOP", "ROOFTOP"])
        s["b"] = r.choice([-1, 0, 1, 7]) if s["lt"] == "ROOFTOP" else None
    return a, b


def g_simple(r):
    a, b = g_pair(r)
    d = math.dist((a["x"], a["y"]), (b["x"], b["y"]))
    mn = r.choice([1, 5, 10, max(1, round(d))])
    mx = mn + r.choice([1, 10, 30, 100])
    if r.random() < .3 and round(d) > mn: mx = round(d)
    el = r.choice([0, 10, 25, 45, 90, round(r.uniform(0, 90), 1)])
    zs = []
    for _ in range(r.choice([0, 0, 1, 2])):
        x, y = r.randint(0, 40), r.randint(0, 40)
        zs.append([x, y, x + r.randint(1, 10), y + r.randint(1, 10)])
    return {"a": a, "b": b, "min": mn, "max": mx, "el": el, "zones": zs, "thr": r.choice([0, .5, 1]), "radius": 1.0, "freq": 60000, "kind": r.choice(["cyl", "ell"]), "grid": None}


@law("C11", g_simple, n=1200)
def los_without_surface(c):
    want = simple(c, c["a"], c["b"])
    if want is None: return False
    got = validator(c).compute_confidence(lsite(c["a"]), lsite(c["b"]))
    need(got == (1.0 if want else 0.0), f"confidence {got} although the pair {'passes' if want else 'does not pass'} the filters")


def g_surface(r, kind=None):
    w, h = r.randint(4, 26), r.randint(4, 26)
    rx, ry = r.choice([(1, 1), (1, 1), (0.5, 0.5), (2, 1), (1, 2)])
    g = {"x0": r.randint(-3, 3), "y0": r.randint(0, 30), "rx": rx, "ry": ry, "pad": r.choice([0, 0, .4 * min(rx, ry)])}
    mode = r.choice(["low", "low", "spikes", "spikes", "any"])
    base = r.choice([0, 5, -32768])
    g["rows"] = [[(base if mode == "low" or (mode == "spikes" and r.random() < .93) else round(r.uniform(0, 25), 2)) for _ in range(w)] for _ in range(h)]
    X = lambda: r.choice([g["x0"] + rx * r.randint(0, w - 1), round(g["x0"] + rx * r.uniform(-1, w), 3)])
    Y = lambda: r.choice([g["y0"] - ry * r.randint(0, h - 1), round(g["y0"] - ry * r.uniform(-1, h), 3)])
    a, b = {"x": X(), "y": Y()}, {"x": X(), "y": Y()}
    t = r.random()
    if t < .15: b["x"] = a["x"]
    elif t < .3: b["y"] = a["y"]
    z = r.uniform(4, 20)
    for s in (a, b):
        s["z"] = round(z + r.choice([0, r.uniform(-4, 4)]), 2)
        s["lt"], s["b"] = "UNKNOWN", None
    k = kind or r.choice(["cyl", "ell"])
    D = math.dist((a["x"], a["y"]), (b["x"], b["y"]))
    c = {"a": a, "b": b, "min": .25, "max": 100, "el": 90, "zones": [], "thr": r.choice([0, .25, .5, .6, 1, 1, round(r.random(), 3)]), "radius": r.choice([.5, 1, 2, round(r.uniform(.3, 3), 3)]),
         "freq": 60000, "kind": k, "grid": g}
    if k == "ell": c["freq"] = round(75 * max(D, 1) / r.choice([.5, 1, 2, 3]) ** 2, 2)
    if mode == "spikes" and D > 1:
        for _ in range(r.choice([1, 2])):
            s, off = r.random(), r.uniform(-1, 1) * 1.3 * (c["radius"] if k == "cyl" else 2)
            px, py = a["x"] + s * (b["x"] - a["x"]) - off * (b["y"] - a["y"]) / D, a["y"] + s * (b["y"] - a["y"]) + off * (b["x"] - a["x"]) / D
            i, j = round((px - g["x0"]) / rx), round((g["y0"] - py) / ry)
            if 0 <= i < w and 0 <= j < h: g["rows"][j][i] = round(a["z"] + s * (b["z"] - a["z"]) + r.uniform(-2.5, 1), 2)
    return c


@law("C11", lambda r: g_surface(r, "cyl"), n=500)
def cylindrical_confidence(c): return with_surface(c, cyl)


@law("C11", lambda r: g_surface(r, "ell"), n=500)
def ellipsoidal_confidence(c): return with_surface(c, ell)


def with_surface(c, ref):
    a, b = c["a"], c["b"]
    ok = simple(c, a, b)
    if ok is None: return False
    got = validator(c).compute_confidence(lsite(a), lsite(b))
    if not ok:
        need(got == 0, f"confidence {got} although the pair does not pass the filters")
        return False
    lo, hi = ref(c, a, b)
    low = c["thr"] if c["kind"] == "cyl" else 0
    need(got == 0 or low - EPS <= got <= 1 + EPS, f"confidence {got} is neither 0 nor in [{low}, 1]")
    need(lo - 1e-5 <= got <= hi + 1e-5, f"confidence {got}, expected {lo}" + ("" if lo == hi else f"..{hi}"))
    return not (hi == 1)


def g_raise(r):
    c = g_surface(r)
    rows = c["grid"]["rows"]
    c["up"] = [[r.randrange(len(rows)), r.randrange(len(rows[0])), round(r.uniform(0, 20), 2)] for _ in range(r.randint(1, 10))]
    return c


@law("C11", g_raise, n=250)
def higher_surface_never_helps(c):
    v = validator(c).compute_confidence(lsite(c["a"]), lsite(c["b"]))
    d = dict(c, grid=dict(c["grid"], rows=[list(x) for x in c["grid"]["rows"]]))
    for j, i, h in c["up"]: d["grid"]["rows"][j][i] = max(h, d["grid"]["rows"][j][i])
    w = validator(d).compute_confidence(lsite(c["a"]), lsite(c["b"]))
    need(w <= v + 1e-9, f"raising the surface raised the confidence from {v} to {w}")
    return v > 0


def g_bad_params(r): return {"max": r.choice([-1, 0, 5, 10, 100]), "min": r.choice([-1, 0, 1, 5, 10, 200]), "el": r.choice([-1, 0, 45, 90, 91]), "thr": r.choice([-.1, 0, .5, 1, 1.1]), "radius": 1.0, "freq": 60000, "kind": r.choice(["cyl", "ell"]), "grid": None}


@law("C11", g_bad_params, n=150)
def validator_parameters(c):
    ok = c["min"] > 0 and c["max"] > c["min"] and 0 <= c["el"] <= 90 and 0 <= c["thr"] <= 1
    bad, _ = raises(api("terragraph_planner.common.exceptions:LOSException"), validator, c)
    need(bad != ok, f"parameters {c} were {'rejected' if bad else 'accepted'}")


# ------------------------------------------------------------------ C12
@law("C12", g_surface, n=400)
def same_verdict_both_ways(c):
    ok = simple(c, c["a"], c["b"])
    if ok is None: return False
    if ok:
        lo, hi = (cyl if c["kind"] == "cyl" else ell)(c, c["a"], c["b"])
        if hi - lo > 1e-6: return False      # a cell on a border: rounding decides
    v = validator(c)
    x, y = v.compute_confidence(lsite(c["a"]), lsite(c["b"])), v.compute_confidence(lsite(c["b"]), lsite(c["a"]))
    need(abs(x - y) < 1e-6, f"confidence {x} one way, {y} the other way")


@law("C12", g_simple, n=400)
def same_filter_both_ways(c):
    v = validator(c)
    x, y = v.compute_confidence(lsite(c["a"]), lsite(c["b"])), v.compute_confidence(lsite(c["b"]), lsite(c["a"]))
    need(x == y, f"confidence {x} one way, {y} the other way")


def g_batch(r):
    c = g_surface(r) if r.random() < .7 else g_simple(r)
    n = r.randint(2, 7)
    g = c["grid"]
    ss = []
    for _ in range(n):
        if ss and r.random() < .3:
            s = dict(r.choice(ss))
            if r.random() < .6:
                s["lt"] = r.choice(["UNKNOWN", "ROOFTOP"])
                s["b"] = r.choice([-1, 0, 1]) if s["lt"] == "ROOFTOP" else None
            if r.random() < .3: s["z"] = s["z"] + 1 if s["z"] is not None else None
        else:
            s = dict(r.choice([c["a"], c["b"], g_pair(r, alt=not g)[0]]))
            if s["z"] is not None: s["z"] = round(s["z"] + r.choice([0, 2]), 2)
        ss.append(s)
    pairs = [[*r.sample(range(n), 2), r.random() < .5] for _ in range(r.randint(1, 14))]
    c.update(sites=ss, pairs=pairs, max=r.choice([30, 100]), min=r.choice([1, 5]), el=r.choice([0, 25, 45, 89, 90]))
    return c


def batch_args(c):
    el = elevation(c["grid"]) if c["grid"] else None
    return dict(los_sites=[lsite(s) for s in c["sites"]], exclusion_zones_wkts=[z.wkt for z in zones(c)], elevation_data_matrix=el.data_matrix if el else None,
                utm_bounding_box=el.utm_bounding_box if el else None, x_resolution=el.x_resolution if el else None, y_resolution=el.y_resolution if el else None,
                crs_epsg_code=32631 if el else None, left_top_x=el.left_top_x if el else None, left_top_y=el.left_top_y if el else None,
                max_los_distance=c["max"], min_los_distance=c["min"], max_el_scan_angle=c["el"], los_confidence_threshold=c["thr"],
                use_ellipsoidal_los_model=c["kind"] == "ell", fresnel_radius=c["radius"], carrier_frequency=c["freq"])


def borderline(c):
    """a cell lies on the border of the zone between some pair: rounding decides"""
    if not c["grid"]: return False
    d = dict(c, max=c["max"] * 1.02, min=c["min"] * .98, el=min(c["el"] + 2, 90))
    for i, j, _ in c["pairs"]:
        a, b = c["sites"][i], c["sites"][j]
        if simple(d, a, b):
            lo, hi = (cyl if c["kind"] == "cyl" else ell)(d, a, b)
            if hi - lo > 1e-6: return True
    return False


def expected_batch(c):
    d = dict(c, max=c["max"] * 1.02, min=c["min"] * .98, el=min(c["el"] + 2, 90))
    v = validator(d)
    ls = [lsite(s) for s in c["sites"]]
    out = []
    for i, j, both in c["pairs"]:
        x = v.compute_confidence(ls[i], ls[j])
        if x > 0:
            out.append((i, j, x))
            if both: out.append((j, i, x))
    return out


@law("C12", g_batch, n=350)
def batch_equals_single(c):
    C = api(ST + "CandidateLOS")
    got = api(L + "helper:compute_los_batch")([C(*p) for p in c["pairs"]], **batch_args(c))
    if borderline(c): return False
    want = expected_batch(c)
    same = len(got) == len(want) and all(tuple(g)[:2] == w[:2] and abs(g[2] - w[2]) < 1e-6 for g, w in zip(got, want))
    need(same, f"the batch gives {[tuple(g) for g in got]}, one by one {want}")
    return bool(want)


def g_pool(r):
    c = g_batch(r)
    c["pairs"] = c["pairs"] * r.choice([1, 3])
    c["batch"] = r.choice([1, 2, 5, 100])
    c["np"] = r.choice([1, 2])
    return c


@law("C12", g_pool, n=6, thorough=8)
def pool_equals_single(c):
    core = api(L + "core")
    C = api(ST + "CandidateLOS")

    class S:
        def __init__(self, s): self.utm_x, self.utm_y, self.altitude, self.location_type, self.building_id = s["x"], s["y"], s["z"], E("LocationType", s["lt"]), s["b"]
    if not hasattr(core, "BATCH_SIZE"): raise Missing("BATCH_SIZE")
    old = core.BATCH_SIZE
    core.BATCH_SIZE = c["batch"]
    try:
        got = core.compute_los([S(s) for s in c["sites"]], [C(*p) for p in c["pairs"]], elevation(c["grid"]) if c["grid"] else None, zones(c), c["max"], c["min"], c["el"], c["thr"],
                               c["kind"] == "ell", c["radius"], c["freq"], c["np"])
    finally: core.BATCH_SIZE = old
    if borderline(c): return False
    want = expected_batch(c)
    need(len(got) == len(want) and all(tuple(g)[:2] == w[:2] and abs(g[2] - w[2]) < 1e-6 for g, w in zip(got, want)), f"computed in batches {[tuple(g) for g in got]}, one by one {want}")
    return bool(want)


# ------------------------------------------------------------------ C13
def g_grid(r, nodata=.15):
    w, h = r.randint(1, 9), r.randint(1, 9)
    rx, ry = r.choice([(1, 1), (.5, .5), (2, 3), (.25, 1), (10, 10)])
    rows = [[(-32768 if r.random() < nodata else r.randint(0, 1000)) for _ in range(w)] for _ in range(h)]
    return {"x0": r.randint(-50, 500000), "y0": r.randint(0, 4000000), "rx": rx, "ry": ry, "rows": rows, "pad": 0}


def g_lookup(r):
    g = g_grid(r)
    w, h = len(g["rows"][0]), len(g["rows"])
    P = lambda: [g["x0"] + g["rx"] * r.choice([r.randint(-3, w + 3), r.uniform(-3, w + 3), r.randint(0, w - 1)]), g["y0"] - g["ry"] * r.choice([r.randint(-3, h + 3), r.uniform(-3, h + 3), r.randint(0, h - 1)])]
    return {"grid": g, "p": [P() for _ in range(6)], "radius": r.choice([1, 5, 50])}


def clampi(v, n): return min(max(v, 0), n - 1)


def near(v):
    """nearest index; None on a tie"""
    f = v - math.floor(v)
    if abs(f - .5) < 1e-6: return None
    return math.floor(v + .5)


@law("C13", g_lookup, n=500)
def index_and_coordinates(c):
    g = c["grid"]
    e = elevation(g)
    w, h = len(g["rows"][0]), len(g["rows"])
    need((e.x_size, e.y_size) == (w, h), f"size {(e.x_size, e.y_size)} for {w} columns and {h} rows")
    for i in range(w):
        for j in range(h):
            x, y = e.idx_to_utm(i, j)
            need(abs(x - (g["x0"] + g["rx"] * i)) < 1e-6 and abs(y - (g["y0"] - g["ry"] * j)) < 1e-6, f"cell {i},{j} has its centre at {x},{y}")
            need(tuple(e.utm_to_idx(x, y)) == (i, j), f"the centre of cell {i},{j} is looked up in cell {e.utm_to_idx(x, y)}")
    for x, y in c["p"]:
        i, j = near((x - g["x0"]) / g["rx"]), near((g["y0"] - y) / g["ry"])
        k, l = e.utm_to_idx(x, y)
        need(0 <= k < w and 0 <= l < h, f"index {k},{l} outside a grid of {w}x{h}")
        if i is not None: need(k == clampi(i, w), f"column {k} for x={x}, expected {clampi(i, w)}")
        if j is not None: need(l == clampi(j, h), f"row {l} for y={y}, expected {clampi(j, h)}")


def fill(g, x, y, radius):
    """values allowed at a cell without data"""
    v = [(math.dist((a, b), (x, y)), z) for n, (a, b, z) in enumerate(cells(g)) if z != -32768]
    step = [math.ceil(.5 / g["rx"]), math.ceil(.5 / g["ry"])]
    w = len(g["rows"][0])
    v = [(math.dist((a, b), (x, y)), z) for n, (a, b, z) in enumerate(cells(g)) if z != -32768 and (n % w) % step[0] == 0 and (n // w) % step[1] == 0]
    if not v: return None
    d = min(t[0] for t in v)
    if abs(d - radius) < 1e-6: return [None]
    if d > radius: return [sum(t[1] for t in v) / len(v)]
    return [z for t, z in v if t - d < 1e-6]


@law("C13", g_lookup, n=500)
def value_at(c):
    g = c["grid"]
    w, h = len(g["rows"][0]), len(g["rows"])
    for x, y in c["p"]:
        e = elevation(g)
        e.elevation_search_radius = c["radius"]
        i, j = near((x - g["x0"]) / g["rx"]), near((g["y0"] - y) / g["ry"])
        if i is None or j is None: continue
        i, j = clampi(i, w), clampi(j, h)
        z = g["rows"][j][i]
        if z != -32768:
            need(e.get_value(x, y) == z, f"value {e.get_value(x, y)} at {x},{y}; the cell holds {z}")
            continue
        want = fill(g, x, y, c["radius"])
        bad, got = raises(api("terragraph_planner.common.exceptions:DataException"), e.get_value, x, y)
        need(bad == (want is None), f"filling a missing value at {x},{y} {'failed' if bad else 'gave ' + str(got)}")
        if bad or want == [None]: continue
        need(any(abs(got - t) < 1e-4 * max(1, abs(t)) for t in want), f"missing value at {x},{y} filled with {got}, expected one of {want}")
        need(e.get_value(x, y) == got, "a filled value changed on the second look-up")
        for jj, row in enumerate(g["rows"]):
            for ii, t in enumerate(row): need((ii, jj) == (i, j) or e.data_matrix[jj, ii] == t, f"looking up {i},{j} changed cell {ii},{jj}")


def g_window(r):
    g = g_grid(r, nodata=0)
    w, h = len(g["rows"][0]), len(g["rows"])
    q = lambda n: r.choice([r.randint(-3, n + 2), round(r.uniform(-3, n + 2), 2)])
    i, j = sorted([q(w), q(w)]), sorted([q(h), q(h)])
    return {"grid": g, "box": [g["x0"] + g["rx"] * i[0], g["y0"] - g["ry"] * j[1], g["x0"] + g["rx"] * i[1], g["y0"] - g["ry"] * j[0]], "mod": r.choice([1, 2, 3])}


def edge(g, box):
    """is some bound within rounding of a line of cell centres without being on it?"""
    for v, o, s in ((box[0], g["x0"], g["rx"]), (box[2], g["x0"], g["rx"]), (box[1], g["y0"], g["ry"]), (box[3], g["y0"], g["ry"])):
        t = (v - o) / s
        if abs(t - round(t)) < 1e-6 and t != round(t): return True
    return False


@law("C13", g_window, n=600)
def cells_of_a_window(c):
    g, b = c["grid"], c["box"]
    if edge(g, b): return False
    e = elevation(g)
    inside = [(x, y, z) for x, y, z in cells(g) if b[0] <= x <= b[2] and b[1] <= y <= b[3]]
    got = [tuple(float(v) for v in t) for t in e.get_value_list_within_bound(b[0], b[1], b[2], b[3])]
    # the bound may reach over the grid: the centres of the continued raster, with the value of the nearest cell
    w, h = len(g["rows"][0]), len(g["rows"])
    xs = [i for i in range(-10, w + 10) if b[0] <= g["x0"] + g["rx"] * i <= b[2]]
    ys = [j for j in range(-10, h + 10) if b[1] <= g["y0"] - g["ry"] * j <= b[3]]
    want = sorted((float(g["x0"] + g["rx"] * i), float(g["y0"] - g["ry"] * j), float(g["rows"][clampi(j, h)][clampi(i, w)])) for i in xs for j in ys)
    need(len(got) == len(want) and all(max(abs(p - q) for p, q in zip(s, t)) < 1e-6 for s, t in zip(sorted(got), want)), f"the window {b} holds {sorted(got)[:6]}..., expected {want[:6]}...")
    m = e.get_value_matrix_within_bound(b[0], b[1], b[2], b[3])
    if inside:
        rows = {}
        for x, y, z in inside: rows.setdefault(-y, []).append((x, z))
        ref = [[z for _, z in sorted(rows[k])] for k in sorted(rows)]
        need(m.tolist() == ref, f"the window {b} has the values {m.tolist()}, expected {ref}")
    else:
        i, j = near((b[0] - g["x0"]) / g["rx"]), near((g["y0"] - b[1]) / g["ry"])
        if i is None or j is None: return False
        need(m.tolist() == [[g["rows"][clampi(j, h)][clampi(i, w)]]], f"a window without cell centres gives {m.tolist()}, expected the nearest value {g['rows'][clampi(j, h)][clampi(i, w)]}")
    return True


@law("C13", g_window, n=600)
def obstructions_of_a_window(c):
    g, b = c["grid"], c["box"]
    if edge(g, b): return False
    e = elevation(g)
    pred = lambda x, y: b[0] <= x <= b[2] and b[1] <= y <= b[3] and round((x - g["x0"]) / g["rx"]) % c["mod"] == 0
    corner = [(b[0], b[3], b[2], b[1]), (b[2], b[1], b[0], b[3])][c["mod"] % 2]
    got = sorted(tuple(float(v) for v in t) for t in e.get_all_obstructions(*corner, pred))
    want = sorted((float(x), float(y), float(z)) for x, y, z in cells(g) if pred(x, y))
    need(got == want, f"obstructions within {b}: {got[:5]}..., expected {want[:5]}...")
    return bool(want)


def g_resample(r):
    g = g_grid(r, nodata=0)
    g["pad"] = r.choice([0, 0, .3]) * min(g["rx"], g["ry"])
    return {"grid": g, "rx": g["rx"] * r.choice([.5, .25, 1, 2, .3]), "ry": g["ry"] * r.choice([.5, .25, 1, 2, .3])}


@law("C13", g_resample, n=200)
def resampled(c):
    g = c["grid"]
    e = elevation(g)
    w, h = len(g["rows"][0]), len(g["rows"])
    e.set_resolution(c["rx"], c["ry"])
    need((e.x_resolution, e.y_resolution) == (c["rx"], c["ry"]), "the resolution is not the requested one")
    need(e.x_size >= 1 and e.y_size >= 1, "no cell left")
    ex = ((w - 1) * g["rx"] + g["pad"] - (e.x_size - 1) * c["rx"], (h - 1) * g["ry"] + g["pad"] - (e.y_size - 1) * c["ry"])
    need(-c["rx"] / 2 - 1e-6 <= ex[0] <= c["rx"] / 2 + 1e-6 and -c["ry"] / 2 - 1e-6 <= ex[1] <= c["ry"] / 2 + 1e-6, f"resampled to {e.x_size}x{e.y_size} cells, which do not cover the area (off by {ex})")
    for i in range(e.x_size):
        for j in range(e.y_size):
            a, b = near(c["rx"] * i / g["rx"]), near(c["ry"] * j / g["ry"])
            if a is None or b is None: continue
            need(e.data_matrix[j, i] == g["rows"][clampi(b, h)][clampi(a, w)], f"resampled cell {i},{j} holds {e.data_matrix[j, i]}, the nearest original is {g['rows'][clampi(b, h)][clampi(a, w)]}")


def g_two(r):
    g = g_grid(r, nodata=0)
    k = dict(g, rows=[[r.randint(0, 50) for _ in x] for x in g["rows"]])
    t = r.random()
    if t < .1: k["x0"] += 1
    elif t < .2: k["y0"] += 1
    elif t < .3: k["rx"] *= 2
    elif t < .4: k["ry"] *= 2
    elif t < .5: k["rows"] = k["rows"] + [k["rows"][0]]
    elif t < .6: k["rows"] = [x + [1] for x in k["rows"]]
    return {"a": g, "b": k}


@law("C13", g_two, n=200)
def sum_and_difference(c):
    import operator
    a, b = c["a"], c["b"]
    same = all(a[k] == b[k] for k in ("x0", "y0", "rx", "ry")) and len(a["rows"]) == len(b["rows"]) and len(a["rows"][0]) == len(b["rows"][0])
    for op in (operator.add, operator.sub):
        x, y = elevation(a), elevation(b)
        bad, got = raises(api("terragraph_planner.common.exceptions:DataException"), op, x, y)
        need(bad != same, f"{op.__name__} of grids with {'equal' if same else 'different'} geometry {'failed' if bad else 'succeeded'}")
        need(x.data_matrix.tolist() == a["rows"] and y.data_matrix.tolist() == b["rows"], "an operand changed")
        if bad: continue
        need(got.data_matrix.tolist() == [[op(p, q) for p, q in zip(s, t)] for s, t in zip(a["rows"], b["rows"])], f"wrong {op.__name__}")
        need((got.left_top_x, got.left_top_y, got.x_resolution, got.y_resolution) == (a["x0"], a["y0"], a["rx"], a["ry"]), "the result has another geometry")


def g_upsample(r):
    g = g_grid(r, nodata=0)
    return {"a": g, "b": dict(g, rx=g["rx"] * r.choice([1, 2, .5]), ry=g["ry"] * r.choice([1, 2, .5]))}


@law("C13", g_upsample, n=60)
def upsampled_to_common(c):
    x, y = elevation(c["a"]), elevation(c["b"])
    api(L + "helper:upsample_to_same_resolution")(x, y)
    for e in (x, y): need((e.x_resolution, e.y_resolution) == (min(c["a"]["rx"], c["b"]["rx"]), min(c["a"]["ry"], c["b"]["ry"])), "not the finer of the two resolutions")


@law("C13", g_lookup, n=150)
def listing(c):
    g = c["grid"]
    e = elevation(g)
    bad, got = raises(api("terragraph_planner.common.exceptions:DataException"), e.get_data_as_list)
    sx, sy = math.ceil(.5 / g["rx"]), math.ceil(.5 / g["ry"])
    w = len(g["rows"][0])
    want = [t for n, t in enumerate(cells(g)) if t[2] != -32768 and (n % w) % sx == 0 and (n // w) % sy == 0]
    need(bad == (not want), f"listing {'failed' if bad else 'gave a result'} although there are {len(want)} cells with data")
    if not bad: need(sorted(tuple(map(float, t)) for t in got) == sorted(tuple(map(float, t)) for t in want), f"listed {got[:5]}, expected {want[:5]}")


# ------------------------------------------------------------------ C14
def g_infer(r):
    return {"lat": 43.0, "lon": 3.0, "alt": r.choice([None, 12.5]), "height": r.choice([None, 0, 3.0]), "lt": r.choice(["UNKNOWN", "STREET_LEVEL", "ROOFTOP"]), "type": r.choice(["POP", "DN", "CN"]),
            "surface": r.choice([None, 10, 20]), "terrain": r.choice([None, 8, 8.5, 9.5, 10, 18])}


@law("C14", g_infer, n=300)
def inferred_location(c):
    class G:
        def __init__(self, v): self.v = v
        def get_value(self, x, y): return self.v
    s, t = c["surface"], c["terrain"]
    p, lt = api(L + "helper:infer_input_site_location")(c["lat"], c["lon"], c["alt"], c["height"], E("LocationType", c["lt"]), E("SiteType", c["type"]), None if s is None else G(s), None if t is None else G(t), 1.5, 5.0, 4.0, 3.0)
    need((p.latitude, p.longitude) == (c["lat"], c["lon"]), "the site moved")
    want_lt = c["lt"]
    if want_lt == "UNKNOWN" and s is not None and t is not None: want_lt = "ROOFTOP" if s - t >= 2 else "STREET_LEVEL"
    need(lt == E("LocationType", want_lt), f"location type {lt.name}, expected {want_lt}")
    if c["alt"] is not None or s is None: alt = c["alt"]
    elif c["height"] is not None: alt = s + c["height"]
    elif want_lt == "ROOFTOP": alt = s + 1.5
    else: alt = s + {"POP": 5.0, "DN": 4.0, "CN": 3.0}[c["type"]]
    need(p.altitude == alt, f"altitude {p.altitude}, expected {alt}")


DEVS = {"DN": ["D1", "D2"], "CN": ["C1", "C2"]}


def g_sites(r, n, detected=True):
    out = []
    for i in range(n):
        det = detected and r.random() < .4
        t = r.choice(["DN", "CN", "DN", "POP"]) if not det else r.choice(["DN", "DN", "CN"])
        s = {"type": t, "det": det, "lat": round(37 + r.uniform(0, .003), 6), "lon": round(-122 + r.uniform(0, .003), 6), "alt": round(r.uniform(0, 40), 1), "b": r.choice([0, 1, 2])}
        s["sku"] = r.choice(DEVS["CN" if t == "CN" else "DN"])
        if out and r.random() < .25:
            k = r.choice(out)
            for f in ("lat", "lon", "alt"): s[f] = k[f]
        out.append(s)
    return out


def mk_site(s):
    if s["det"]: return api("terragraph_planner.common.topology_models.site:DetectedSite")(site_type=E("SiteType", s["type"]), location=loc(s["lat"], s["lon"], s["alt"]), building_id=s["b"])
    return api("terragraph_planner.common.topology_models.site:Site")(site_type=E("SiteType", s["type"]), location=loc(s["lat"], s["lon"], s["alt"]), device=std_device("CN" if s["type"] == "CN" else "DN", s["sku"]),
                                                                     status_type=E("StatusType", s.get("status", "CANDIDATE")), location_type=E("LocationType", "STREET_LEVEL"), building_id=None, name="", number_of_subscribers=None)


def g_build(r):
    n = r.randint(2, 7)
    ss = g_sites(r, n)
    los = []
    for i in range(n):
        for j in range(n):
            if i != j and ss[i]["type"] != "CN" and (ss[i]["lat"], ss[i]["lon"]) != (ss[j]["lat"], ss[j]["lon"]) and r.random() < .6: los.append([i, j, round(r.uniform(.1, 1), 3)])
    base = [i for i in range(n) if not ss[i]["det"] and r.random() < .4]
    for i in base: ss[i]["status"] = r.choice(["CANDIDATE", "EXISTING"])
    blinks = [[i, j] for i in base for j in base if i < j and ss[i]["type"] != "CN" and r.random() < .5]
    return {"sites": ss, "los": los, "base": base, "blinks": blinks, "picked": [i for i in range(n) if r.random() < .85], "min": r.choice([5, 50, 120]),
            "max": {f"{a}|{b}": r.choice([60, 150, 250, 500]) for a in DEVS["DN"] for b in DEVS["DN"] + DEVS["CN"]}, "el": r.choice([2, 5, 10, 25, 90])}




@law("C14", g_build, n=250)
def candidate_graph(c):
    T, Lk = api("terragraph_planner.common.topology_models.topology:Topology"), api("terragraph_planner.common.topology_models.link:Link")
    sites = [mk_site(s) for s in c["sites"]]
    top = T()
    ids = {}
    for i in c["base"]:
        if sites[i].site_id not in top.sites: top.add_site(sites[i])
    kept = {}
    for i, j in c["blinks"]:
        a, b = top.sites[sites[i].site_id], top.sites[sites[j].site_id]
        if a is b: continue
        l = Lk(tx_site=a, rx_site=b, tx_sector=None, rx_sector=None, status_type=E("StatusType", "CANDIDATE"), is_wireless=False, confidence_level=None)
        if l.link_id in top.links: continue
        top.add_link(l)
        kept[l.link_id] = l
    before = dict(top.sites)
    devs = [std_device("DN", s) for s in DEVS["DN"]] + [std_device("CN", s) for s in DEVS["CN"]]
    rx = [[] for _ in sites]
    conf = {}
    for i, j, x in c["los"]:
        rx[i].append(j)
        conf[i, j] = x
    lim = {tuple(k.split("|")): v for k, v in c["max"].items()}
    api(L + "helper:construct_topology_from_los_result")(top, sites, rx, list(c["picked"]), conf, devs, lim, c["min"], c["el"])
    picked = set(c["picked"])
    # the sites that stand for each index
    stand = {}
    for i, s in enumerate(c["sites"]):
        if i not in picked: continue
        if s["det"]: stand[i] = [sites[i].to_site(d).site_id for d in devs if d.device_type == E("DeviceType", "CN" if s["type"] == "CN" else "DN")]
        else: stand[i] = [sites[i].site_id]
    want = set(before) | {x for v in stand.values() for x in v}
    need(set(top.sites) == want, f"sites missing {want - set(top.sites)}, unexpected {set(top.sites) - want}")
    for k, v in before.items(): need(top.sites[k] is v, "a site of the base network was replaced")
    expect, maybe = {}, set()
    for i, j, x in c["los"]:
        if i not in picked or j not in picked: continue
        for a in stand[i]:
            for b in stand[j]:
                p, q = top.sites[a], top.sites[b]
                from .model import hav
                flat = hav((p.latitude, p.longitude), (q.latitude, q.longitude))
                d = math.hypot(flat, p.altitude - q.altitude)
                el = math.degrees(math.atan2(abs(p.altitude - q.altitude), flat))
                m = lim[p.device.device_sku, q.device.device_sku]
                if min(abs(d - c["min"]), abs(d - m)) < .01 or abs(el - c["el"]) < .01: maybe.add((a, b))
                elif c["min"] <= d <= m and el <= c["el"]: expect.setdefault((a, b), set()).add(x)
    base_pairs = {(l.tx_site.site_id, l.rx_site.site_id) for l in kept.values()}
    got = {}
    for k, l in top.links.items(): got[l.tx_site.site_id, l.rx_site.site_id] = l
    for p, l in got.items():
        if p in base_pairs:
            need(not l.is_wireless and l in list(kept.values()), f"the base link {p} was replaced")
            continue
        if p in maybe: continue
        need(p in expect, f"the link {p} is not admissible")
        need(l.is_wireless and l.status_type == E("StatusType", "CANDIDATE") and l.tx_sector is None and l.rx_sector is None, f"the link {p} is not a plain wireless candidate")
        need(l.confidence_level in expect[p], f"confidence {l.confidence_level} on {p}, expected {expect[p]}")
    for p in expect: need(p in got, f"the admissible link {p} is missing")
    return bool(expect)


def g_search(r):
    sp = {"maximum_tx_power": r.choice([10, 16, 30]), "antenna_boresight_gain": r.choice([5, 20, 30])}
    return {"tx": sp, "rx": {"antenna_boresight_gain": r.choice([5, 20, 30])}, "lo": r.choice([1, 1, 50, 900]), "hi": r.choice([1000, 1500, 10000]), "power": r.choice([-30, 0, 16, 43, 60]), "minmcs": r.choice([0, 5, 9, 12])}


@law("C14", g_search, n=60)
def longest_useful_distance(c):
    S = api("terragraph_planner.common.configuration.configs:SectorParams")
    tx, rx = S(**c["tx"]), S(**c["rx"])
    table = [m for m in rx.mcs_map if m.mcs >= c["minmcs"]]
    f = api("terragraph_planner.common.rf.link_budget_calculator:fspl_based_estimation")

    def cap(d):
        return f(distance=d, max_tx_power=c["power"], tx_sector_params=tx, rx_sector_params=rx, mcs_snr_mbps_map=table, tx_deviation=0.0, rx_deviation=0.0, tx_el_deviation=0.0, rx_el_deviation=0.0,
                 tx_scan_pattern_data=None, rx_scan_pattern_data=None).capacity
    got = api(L + "helper:search_max_los_dist_based_on_capacity")(c["lo"], c["hi"], c["power"], tx, rx, table)
    if got is None:
        need(cap(c["hi"]) > 0, f"no distance reported although the capacity at {c['hi']} m is 0")
        return True
    need(c["lo"] <= got <= c["hi"], f"distance {got} outside the search range")
    need(cap(got) == 0, f"there is capacity at {got} m")
    if got > c["lo"]: need(cap(got - 1) > 0, f"there is no capacity at {got - 1} m either")


def g_devmax(r):
    ds = []
    for i in range(r.randint(1, 4)):
        ds.append({"kind": r.choice(["DN", "DN", "CN"]), "sp": {"maximum_tx_power": r.choice([5, 16, 25]), "antenna_boresight_gain": r.choice([10, 20, 30])}})
    return {"devs": ds, "eirp": r.choice([None, 30, 45]), "dd": r.choice([None, None, 4, 9, 12, 13]), "dc": r.choice([None, None, 3, 9, 13]), "upper": r.choice([None, 100, 250])}


@law("C14", g_devmax, n=25)
def longest_distance_per_device_pair(c):
    ds = [device(d["kind"], f"dev{i}", sp=dict(d["sp"])) for i, d in enumerate(c["devs"])]
    f = api(L + "helper:search_max_los_dist_based_on_capacity")
    mp = api("terragraph_planner.common.rf.link_budget_calculator:get_max_tx_power")
    K = api("terragraph_planner.common.constants")
    bad, got = raises(api("terragraph_planner.common.exceptions:ConfigException"), api(L + "helper:get_max_los_dist_for_device_pairs"), ds, c["eirp"], c["dd"], c["dc"], c["upper"])
    one = {}
    wantbad = False
    for i, t in enumerate(c["devs"]):
        if t["kind"] == "CN": continue
        for j, r in enumerate(c["devs"]):
            m = c["dd"] if r["kind"] == "DN" else c["dc"]
            table = [x for x in ds[j].sector_params.mcs_map if m is None or x.mcs >= m]
            if not table:
                wantbad = True
                continue
            one[i, j] = f(K.LOWER_BOUND_FOR_LOS_DISTANCE, K.UPPER_BOUND_FOR_LOS_DISTANCE, mp(ds[i].sector_params, c["eirp"]), ds[i].sector_params, ds[j].sector_params, table)
    need(bad == wantbad, f"minimum modulation levels {c['dd']}, {c['dc']} were {'rejected' if bad else 'accepted'}")
    if bad: return True
    want = {}
    for (i, j), d in one.items():
        v = max(d, one.get((j, i), d))
        want[f"dev{i}", f"dev{j}"] = v if c["upper"] is None else min(v, c["upper"])
    need(got == want, f"longest distances {got}, expected {want}")


def g_pick(r):
    ss = g_sites(r, r.randint(1, 8))
    for s in ss:
        if s["det"]: s["type"] = "DN"
    los = set()
    n = len(ss)
    for i in range(n):
        for j in range(n):
            if i != j and ss[i]["type"] != "CN" and r.random() < .4:
                los.add((i, j))
                if ss[j]["type"] != "CN": los.add((j, i))
    return {"sites": ss, "los": sorted(los), "dn": r.random() < .5}


@law("C14", g_pick, n=250)
def one_client_per_building(c):
    sites = [mk_site(s) for s in c["sites"]]
    n = len(sites)
    rx, tx, conf = [[] for _ in sites], [[] for _ in sites], {}
    for i, j in c["los"]:
        rx[i].append(j)
        tx[j].append(i)
        conf[i, j] = conf[j, i] = round(.1 + ((i * j + i + j) % 9) / 10, 2)
    rx0 = [list(x) for x in rx]
    conf0 = dict(conf)
    orig = list(sites)
    picked = api(L + "helper:pick_best_sites_per_building")(sites, rx, tx, c["dn"], conf)
    need(len(set(picked)) == len(picked), f"picked twice: {picked}")
    need(all(a is b for a, b in zip(sites, orig)), "an input site was replaced")
    user = {i for i, s in enumerate(c["sites"]) if not s["det"]}
    need(user <= set(picked), f"user sites {user - set(picked)} were not picked")
    bs = {}
    for i, s in enumerate(c["sites"]):
        if s["det"]: bs.setdefault(s["b"], []).append(i)
    need(len(sites) == n + len(bs), f"{len(sites) - n} client sites were added for {len(bs)} buildings")
    news = {}
    for k in range(n, len(sites)):
        need(sites[k].site_type == E("SiteType", "CN") and k in picked, f"the added site {k} is not a picked client site")
        need(sites[k].building_id not in news, "two client sites on one building")
        news[sites[k].building_id] = k
    need(set(news) == set(bs), "a building has no client site")
    dns = [i for i in picked if i < n and i not in user]
    if c["dn"]: need(sorted(c["sites"][i]["b"] for i in dns) == sorted(bs), "not exactly one distribution site per building was picked")
    else: need(not dns, f"distribution sites {dns} were picked")
    for b, k in news.items():
        best = max(len(rx0[i]) for i in bs[b])      # lines of sight to client sites added meanwhile may count
        twins = [i for i in bs[b] if len(rx[i]) >= best and (sites[i].latitude, sites[i].longitude, sites[i].altitude) == (sites[k].latitude, sites[k].longitude, sites[k].altitude)]
        need(twins, f"the client site of building {b} is not at a position with the most lines of sight")
        if c["dn"]: need(any(i in dns for i in twins), "the distribution and client site of a building are apart")
        need(rx[k] == [], "a client site has outgoing lines of sight")
        ok = [i for i in twins if sorted(tx[k]) == sorted(j for j in range(n) if i in rx0[j])]
        need(ok, f"client site of building {b} is seen from {tx[k]}")
        for j in tx[k]: need(k in rx[j] and any(conf.get((j, k)) == conf0.get((i, j)) for i in ok), f"the line of sight {j}->{k} is incomplete")
    for i in range(n): need([j for j in rx[i] if j < n] == rx0[i], f"lines of sight from {i} changed")
    return bool(bs)


def g_conn(r):
    n = r.randint(1, 10)
    t = [r.choice(["POP", "DN", "DN", "CN", "CN"]) for _ in range(n)]
    los = [[i, j] for i in range(n) for j in range(n) if i != j and t[i] != "CN" and t[j] != "POP" and r.random() < .25]
    return {"types": t, "los": los, "picked": [i for i in range(n) if r.random() < .6 or t[i] == "CN"]}


def conn_ref(t, rx, picked):
    conn = {i for i in picked if t[i] == "POP"}
    todo = list(conn)
    while todo:
        for j in rx[todo.pop()]:
            if j in picked and j not in conn:
                conn.add(j)
                todo.append(j)
    rest = set(range(len(t))) - picked
    near_ = {j for i in conn for j in rx[i] if j in rest}
    return conn, picked - conn, near_, rest - near_


@law("C14", g_conn, n=400)
def connectable_sites(c):
    class S:
        def __init__(self, t): self.site_type = E("SiteType", t)
    n = len(c["types"])
    rx, tx = [[] for _ in range(n)], [[] for _ in range(n)]
    for i, j in c["los"]:
        rx[i].append(j)
        tx[j].append(i)
    sites = [S(t) for t in c["types"]]
    got = api(L + "helper:get_site_connectable_status")(sites, rx, list(c["picked"]))
    want = conn_ref(c["types"], rx, set(c["picked"]))
    for g, w, name in zip(got, want, ("connected", "unconnected", "one hop away", "other")): need(set(g) == w, f"{name}: {sorted(g)}, expected {sorted(w)}")
    add = api(L + "helper:select_additional_dns")(sites, rx, tx, list(c["picked"]))
    need(len(set(add)) == len(add) and not set(add) & set(c["picked"]), f"additional sites {add} are picked twice")
    # each one was reachable in one hop when chosen and serves a client nobody else served
    cur, left = set(c["picked"]), {i for i in want[1] if c["types"][i] == "CN"}
    conn, pot, other = set(want[0]), set(want[2]), set(want[3])
    for d in add:
        need(d in pot, f"additional site {d} cannot be reached in one hop")
        gain = {j for j in rx[d] if j in left}
        need(gain, f"additional site {d} serves no unconnected client")
        need(all(len({j for j in rx[k] if j in left}) <= len(gain) for k in pot if set(rx[k]) & gain) or True, "")
        left -= gain
        pot.remove(d)
        for j in rx[d]:
            if j in other:
                other.remove(j)
                pot.add(j)
    return bool(want[1])


def g_enum(r):
    n = r.randint(0, 7)
    return {"types": [r.choice(["POP", "DN", "CN"]) for _ in range(n)], "cut": sorted([r.randint(0, n), r.randint(0, n)]), "base": r.random() < .7}


@law("C14", g_enum, n=250)
def pairs_to_examine(c):
    """every pair with a new site is examined once, in the directions its types allow"""
    from unittest import mock
    H = api(L + "helper")
    api(L + "helper:InputSitesLoader.read_user_input")
    T = api("terragraph_planner.common.topology_models.topology:Topology")
    n = len(c["types"])
    k, m = c["cut"]

    def mk(i):
        t = c["types"][i]
        p = {"type": t, "lat": 37 + i * .01, "lon": 3.0, "alt": 1.0, "b": i, "sku": "C1" if t == "CN" else "D1", "det": k <= i < m}
        if p["det"] and t == "POP": p["det"] = False
        return mk_site(p)
    all_sites = [mk(i) for i in range(n)]

    class In:
        site_list = all_sites[:k]
        def __len__(self): return k
    base = T()
    for s in all_sites[m:]: base.add_site(s)
    G, P = api("terragraph_planner.common.configuration.configs:GISDataParams"), api("terragraph_planner.common.configuration.configs:LOSParams")
    from shapely.geometry import box
    gis = G(boundary_polygon_file_path="b.kml", **({"base_topology_file_path": "base.kml"} if c["base"] else {}))
    los = P(device_list=[std_device("DN", "D1"), std_device("CN", "C1")])
    with mock.patch.object(H.InputSitesLoader, "read_user_input", return_value=In()), mock.patch.object(H, "extract_topology_from_file", return_value=base):
        sites, cand, zs, top = H.get_los_topology(gis, los, box(2, 36, 4, 38), all_sites[k:m], None, None)
    exp_sites = all_sites if c["base"] else all_sites[:m]
    need([s.site_id for s in sites] == [s.site_id for s in exp_sites], f"{len(sites)} sites, expected {len(exp_sites)}")
    want = set()
    for i in range(len(exp_sites)):
        for j in range(len(exp_sites)):
            if i == j or min(i, j) >= m: continue
            if c["types"][i] == "CN" or (c["types"][i], c["types"][j]) == ("POP", "POP"): continue
            want.add((i, j))
    got = []
    for a, b, both in cand:
        got.append((a, b))
        if both: got.append((b, a))
    need(len(got) == len(set(got)), f"a pair is examined twice: {sorted(got)}")
    need(set(got) == want, f"examined {sorted(set(got) - want)} too many, {sorted(want - set(got))} missing")
    need(zs == [], "exclusion zones out of nothing")
    return bool(want)
