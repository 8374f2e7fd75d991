"""C10: angles, zones, distances, coordinates."""
import math
import random

from .core import Broken, api, close, law, need, raises
from .model import adiff, bearing, hav

G = "terragraph_planner.common.geos:"
def gerr(): return api("terragraph_planner.common.exceptions:GeoSystemException")


def g_angles(rng):
    k = rng.random()
    if k < 0.4: return {"a": rng.choice([0, 10, 90, 179, 180, 181, 270, 350, 360, 0.001]), "b": rng.choice([0, 10, 90, 179, 180, 181, 270, 350, 360, 359.999])}
    return {"a": round(rng.uniform(0, 360), 4), "b": round(rng.uniform(0, 360), 4)}


@law("C10", g_angles, n=1500)
def angle_differences(c):
    r = api(G + "angle_delta")(c["a"], c["b"])
    need(-180 < r <= 180, f"angle_delta({c['a']},{c['b']}) = {r} is outside (-180,180]")
    t = (r - (c["a"] - c["b"])) / 360
    need(abs(t - round(t)) < 1e-9, f"angle_delta({c['a']},{c['b']}) = {r} is not the difference modulo a turn")


def g_point(rng):
    k = rng.random()
    if k < 0.15: return [rng.choice([0, 37.5, -33.8, 89.9, -89.9, 60, 1e-9]), rng.choice([0, 179.99, -179.99, 180, -180, 6, -122.4, 12])]
    return [round(rng.uniform(-80, 80), 6), round(rng.uniform(-180, 180), 6)]


def g_pair(rng):
    a = g_point(rng)
    k = rng.random()
    if k < 0.1: b = list(a)
    elif k < 0.6: b = [max(-90, min(90, a[0] + rng.uniform(-.01, .01))), max(-180, min(180, a[1] + rng.uniform(-.01, .01)))]
    elif k < 0.7: b = [a[0], max(-180, min(180, a[1] + rng.choice([-.001, .001])))]
    elif k < 0.8: b = [max(-90, min(90, a[0] + rng.choice([-.001, .001]))), a[1]]
    else: b = g_point(rng)
    return {"a": a, "b": b}


@law("C10", g_pair, n=1500)
def distances_and_bearings(c):
    a, b = c["a"], c["b"]
    f, br = api(G + "haversine_distance"), api(G + "bearing_in_degrees")
    d = f(a[1], a[0], b[1], b[0])
    need(d >= 0, f"negative distance {d}")
    need(abs(d - f(b[1], b[0], a[1], a[0])) <= 1e-6, f"distance is not symmetric for {a} {b}")
    need(abs(d - hav(a, b)) <= 1e-5 + 1e-9 * d, f"distance {d} between {a} and {b}; great circle gives {hav(a, b)}")
    if a == b: need(d == 0, f"distance {d} of a point to itself")
    x = br(a[1], a[0], b[1], b[0])
    need(0 <= x < 360 or (x == 360.0 and a[1] != b[1]), f"bearing {x} outside [0,360)")  # a bearing less than an ulp west of north rounds to 360.0
    if d > 0.01 and d < 1.9e7: need(abs(adiff(x, bearing(a, b))) < 1e-3, f"bearing {x} from {a} to {b}; expected {bearing(a, b)}")


def g_translate(rng):
    p = g_point(rng)
    p[0] = max(-75, min(75, p[0])); p[1] = max(-170, min(170, p[1]))
    return {"p": p, "bearing": rng.choice([0, 45, 90, 180, 270, round(rng.uniform(0, 360), 3)]), "d": rng.choice([1, 10, 100, 1000, round(rng.uniform(1, 50000), 2)])}


@law("C10", g_translate, n=600)
def translation(c):
    p = c["p"]
    lon, lat = api(G + "translate_point")(p[1], p[0], c["bearing"], c["d"])
    need(abs(hav(p, (lat, lon)) - c["d"]) < 1e-3 * max(1, c["d"]) * 0.01 + 1e-3, f"translated by {c['d']} m from {p}, but the point is {hav(p, (lat, lon))} m away")
    need(abs(adiff(bearing(p, (lat, lon)), c["bearing"])) < 0.01 + 0.01 / c["d"], f"translated with bearing {c['bearing']} but lies at {bearing(p, (lat, lon))}")
    dx, dy = api(G + "grid_deltas")(p[1], p[0], c["d"])
    e, n = hav(p, (p[0], p[1] + dx)), hav(p, (p[0] + dy, p[1]))
    need(dx > 0 and abs(e - c["d"]) < 1e-3 * c["d"] + 1e-2, f"east step of a {c['d']} m grid at {p} is {e} m")
    need(dy > 0 and abs(n - c["d"]) < 1e-3 * c["d"] + 1e-2, f"north step of a {c['d']} m grid at {p} is {n} m")


def g_tri(rng):
    p = g_point(rng)
    p[0] = max(-70, min(70, p[0])); p[1] = max(-179, min(179, p[1]))
    def near(): return [p[0] + rng.uniform(-.004, .004), p[1] + rng.uniform(-.004, .004)]
    q, r = near(), near()
    k = rng.random()
    if k < 0.1: r = list(q)
    elif k < 0.2:
        r = [2 * p[0] - q[0], 2 * p[1] - q[1]]
    elif k < 0.3: r = [p[0] + 2 * (q[0] - p[0]), p[1] + 2 * (q[1] - p[1])]
    return {"p": p, "q": q, "r": r}


@law("C10", g_tri, n=600)
def angles_at_a_point(c):
    p, q, r = c["p"], c["q"], c["r"]
    f = api(G + "law_of_cosines_spherical")
    a, ratio = f(p[0], p[1], q[0], q[1], r[0], r[1])
    l1, l2 = hav(p, q), hav(p, r)
    if min(l1, l2) < 5: return False
    need(0 <= a <= 180, f"angle {a} outside [0,180]")
    e = abs(adiff(bearing(p, q), bearing(p, r)))
    need(abs(a - e) < 0.5, f"angle at {p} between {q} and {r} is {a}; the bearings differ by {e}")
    need(abs(ratio - max(l1, l2) / min(l1, l2)) < 1e-5 * ratio, f"length ratio {ratio}; lengths {l1}, {l2}")
    a2, ratio2 = f(p[0], p[1], r[0], r[1], q[0], q[1])
    need(abs(a - a2) < 1e-4 and abs(ratio - ratio2) < 1e-9 * ratio, f"not symmetric: {a} {a2} {ratio} {ratio2}")


def g_utm(rng):
    x, y = rng.uniform(3e5, 7e5), rng.uniform(1e6, 8e6)
    def near(): return [x + rng.choice([0, 1, -1, 20, rng.uniform(-50, 50)]), y + rng.choice([0, 1, -1, 20, rng.uniform(-50, 50)])]
    return {"p": [x, y], "q": near(), "r": near()}


@law("C10", g_utm, n=600)
def angles_in_the_plane(c):
    p, q, r = c["p"], c["q"], c["r"]
    u, v = (q[0] - p[0], q[1] - p[1]), (r[0] - p[0], r[1] - p[1])
    if math.hypot(*u) < 0.5 or math.hypot(*v) < 0.5: return False
    a = api(G + "law_of_cosines_utm")(p[0], p[1], q[0], q[1], r[0], r[1])
    e = abs(adiff(math.degrees(math.atan2(u[1], u[0])), math.degrees(math.atan2(v[1], v[0]))))
    need(0 <= a <= 180 and abs(a - e) < 1e-2, f"angle {a}, expected {e}")


B32 = "0123456789abcdefghijklmnopqrstuv"


@law("C10", lambda rng: {"p": g_point(rng) if rng.random() < .9 else rng.choice([[90, 180], [-90, -180], [0, 0], [90, -180]])}, n=600)
def geo_hash_cell(c):
    la, lo = c["p"]
    h = api(G + "lat_lon_to_geo_hash")(la, lo)
    need(h and all(ch in B32 for ch in h), f"hash {h!r}")
    la_r, lo_r, even = [-90.0, 90.0], [-180.0, 180.0], True
    for ch in h:
        v = B32.index(ch)
        for bit in (16, 8, 4, 2, 1):
            r = lo_r if even else la_r
            m = (r[0] + r[1]) / 2
            if v & bit: r[0] = m
            else: r[1] = m
            even = not even
    for v, r, top in ((la, la_r, 90), (lo, lo_r, 180)): need(r[0] <= v < r[1] or (v == top and r[1] == top), f"cell {la_r} x {lo_r} of hash {h} does not contain {c['p']}")


def g_cell(rng):
    p = g_point(rng)
    return {"p": p, "d": [rng.choice([0, 1e-9, 1e-6, 0.001]), rng.choice([0, 1e-9, 1e-6, 0.001])]}


@law("C10", lambda rng: {"lat": rng.choice([90.0001, -90.0001, 100, -1000, 45]), "lon": rng.choice([180.0001, -180.001, 400, 20])}, n=80)
def hash_range(c):
    f = api(G + "lat_lon_to_geo_hash")
    ok = abs(c["lat"]) <= 90 and abs(c["lon"]) <= 180
    r, v = raises(gerr(), f, c["lat"], c["lon"])
    need(r != ok, f"geo hash of {c} {'rejected' if r else 'accepted'}")


def g_loc(rng):
    d = {}
    if rng.random() < .6: d["latitude"] = rng.choice([0, 37.4, -90, 90, 90.001, -90.5, 100])
    if rng.random() < .6: d["longitude"] = rng.choice([0, -122.1, 180, -180, 180.001, -181])
    if rng.random() < .6: d["utm_x"] = rng.choice([500000.0, 400000.5])
    if rng.random() < .6: d["utm_y"] = rng.choice([4000000.0, 100.0])
    if rng.random() < .6: d["utm_epsg"] = rng.choice([32600, 32601, 32660, 32661, 32700, 32701, 32760, 32761, 4326])
    if rng.random() < .5: d["altitude"] = rng.choice([0, 12.5, -3])
    return d


@law("C10", g_loc, n=600)
def location_rules(c):
    G_ = api(G + "GeoLocation")
    geo = "latitude" in c and "longitude" in c
    utm = all(k in c for k in ("utm_x", "utm_y", "utm_epsg"))
    ok = (abs(c["latitude"]) <= 90 and abs(c["longitude"]) <= 180) if geo else (utm and (32601 <= c["utm_epsg"] <= 32660 or 32701 <= c["utm_epsg"] <= 32760))
    r, v = raises(gerr(), G_, **c)
    need(r != ok, f"location {c} {'rejected' if r else 'accepted'}")
    if not ok: return
    need(v.altitude == c.get("altitude"), "altitude changed")
    if geo: need(v.latitude == c["latitude"] and v.longitude == c["longitude"], "coordinates changed")
    else: need((v.utm_x, v.utm_y, v.utm_epsg) == (c["utm_x"], c["utm_y"], c["utm_epsg"]), "metric coordinates changed")
    w = v.copy(altitude=77.25)
    need(w.altitude == 77.25 and w is not v and v.altitude == c.get("altitude"), "altitude copy")
    if geo: need(w.latitude == c["latitude"] and w.longitude == c["longitude"], "copy moved")
    else: need((w.utm_x, w.utm_y, w.utm_epsg) == (c["utm_x"], c["utm_y"], c["utm_epsg"]), "copy moved")
    need(v.copy().altitude == c.get("altitude"), "plain copy lost the altitude")


def g_utmp(rng): return {"p": [round(rng.uniform(-79, 83), 6), rng.choice([round(rng.uniform(-180, 179.999), 6), rng.choice([-180, 180, 0, 6, -6, 5.999999, 174, 179.5])])]}


@law("C10", g_utmp, n=500, corners=[{"p": [10.0, 180]}, {"p": [-10.0, 180]}, {"p": [10.0, -180]}, {"p": [0, 0]}])
def coordinate_round_trip(c):
    G_ = api(G + "GeoLocation")
    la, lo = c["p"]
    v = G_(latitude=la, longitude=lo, altitude=3.0)
    zone = int(math.floor((lo + 180) / 6)) % 60 + 1
    need(v.utm_epsg == (32600 if la >= 0 else 32700) + zone, f"zone code {v.utm_epsg} of {c['p']}; zone {zone}")
    w = G_(utm_x=v.utm_x, utm_y=v.utm_y, utm_epsg=v.utm_epsg)
    dl = abs(w.longitude - lo) % 360
    need(abs(w.latitude - la) < 1e-7 and min(dl, 360 - dl) < 1e-7, f"{c['p']} became {w.latitude},{w.longitude}")
    need(v.latitude == la and v.longitude == lo, "coordinates changed by a conversion")
    import pyproj
    X, Y = pyproj.Proj(proj="utm", zone=zone, ellps="WGS84", south=la < 0)(lo, la)
    need(abs(v.utm_x - X) < 1e-3 and abs(v.utm_y - Y) < 1e-3, f"metric coordinates {v.utm_x},{v.utm_y} of {c['p']}; expected {X},{Y}")
    need(w.altitude is None and v.altitude == 3.0, "altitude")
