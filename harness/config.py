"""C08, C09: configuration ranges and configuration reading."""
import copy
import json
import os
import random
import shutil
import tempfile

from .core import Broken, api, law, need, raises
from .topo import E

CF = "terragraph_planner.common.configuration.configs:"
CU = "terragraph_planner.common.configuration.utils:"


def perr(): return api("terragraph_planner.common.exceptions:PlannerException")


# parameter -> values tried; the permitted range is stated in ok() below, independently of the code
SECTOR = {
    "antenna_boresight_gain": [0, 30.0, 25.5, -1, -1e-9, 0.0], "maximum_tx_power": [0, 16.0, 5.5, -1, -0.001], "number_sectors_per_node": [1, 2, 3, 0, -1],
    "horizontal_scan_range": [0, 70.0, 120, 360, 361, 360.001, -1, 90], "carrier_frequency": [60000.0, 1, 0, -5, 1e-9], "thermal_noise_power": [-81.0, -90, 0, 5],
    "noise_figure": [0, 7.0, -1, -1e-6], "rain_rate": [0, 30.0, -1, 100], "link_availability_percentage": [0, 99.9, 100, 100.001, -0.1, 50],
    "tx_diversity_gain": [0, 3.0, -1], "rx_diversity_gain": [0, 3.0, -1], "tx_miscellaneous_loss": [0, 1.5, -1], "rx_miscellaneous_loss": [0, 1.5, -1],
    "minimum_mcs_level": [None, 0, 3, -1], "minimum_tx_power": [None, -5, 0, 5.5, 16.0, 17.0],
}
SECTOR_DEF = dict(antenna_boresight_gain=30.0, maximum_tx_power=16.0, number_sectors_per_node=1, horizontal_scan_range=70.0, carrier_frequency=60000.0, thermal_noise_power=-81.0, noise_figure=7.0,
                  rain_rate=30.0, link_availability_percentage=99.9, tx_diversity_gain=0.0, rx_diversity_gain=0.0, tx_miscellaneous_loss=0.0, rx_miscellaneous_loss=0.0, minimum_mcs_level=None, minimum_tx_power=None)


def sector_ok(p):
    return (min(p["antenna_boresight_gain"], p["maximum_tx_power"], p["noise_figure"], p["rain_rate"], p["tx_diversity_gain"], p["rx_diversity_gain"], p["tx_miscellaneous_loss"], p["rx_miscellaneous_loss"]) >= 0
            and p["number_sectors_per_node"] >= 1 and 0 <= p["horizontal_scan_range"] <= 360 and p["carrier_frequency"] > 0 and 0 <= p["link_availability_percentage"] <= 100
            and (p["minimum_mcs_level"] is None or p["minimum_mcs_level"] >= 0) and (p["minimum_tx_power"] is None or p["minimum_tx_power"] <= p["maximum_tx_power"]))


DEVICE = {"device_sku": ["A", "b c", "", "Ä"], "node_capex": [0, 250.0, -1, -0.01], "number_of_nodes_per_site": [None, 1, 2, 4, 5, 0, -1], "device_type": ["CN", "DN"],
          "scan": [0, 45, 70.0, 90, 91, 120, 180, 360], "spn": [1, 2, 3]}


def device_ok(p):
    n = p["number_of_nodes_per_site"]
    if len(p["device_sku"]) == 0 or p["node_capex"] < 0: return False
    if n is not None and n < 1: return False
    if p["device_type"] == "CN" and n not in (None, 1): return False
    nodes = n if n is not None else (1 if p["device_type"] == "CN" else 4)
    return p["scan"] * p["spn"] * nodes <= 360


LOS = {"minimum_mcs_of_backhaul_links": [None, 0, 3, -1], "minimum_mcs_of_access_links": [None, 0, 9, -2], "maximum_eirp": [None, 40.0, -3], "rain_rate": [30.0, 0], "link_availability_percentage": [99.9, 99],
       "maximum_los_distance": [200, None, 50, 51, 6, 5, 10], "minimum_los_distance": [50, 5, 4, 6, 200, 0, -1], "maximum_elevation_scan_angle": [25, 0, 90, 90.01, -0.01, 45.5], "carrier_frequency": [60000.0, 58000.0],
       "thermal_noise_power": [-81.0, -70], "noise_figure": [7.0, 2], "mounting_height_above_rooftop": [1.5, 0, -0.1], "default_dn_height_on_pole": [5.0, 0, -1], "default_cn_height_on_pole": [5.0, 0, -1],
       "default_pop_height_on_pole": [5.0, 0, -1], "use_ellipsoidal_los_model": [False, True], "fresnel_radius": [1.0, 0.01, 0, -1], "los_confidence_threshold": [0.8, 0, 1, 1.01, -0.01], "num_processors": [None, 1, 8],
       "devices": [1, 2, 3, 0, "dup", "dupcase"]}


def dev_ok(d): return isinstance(d, int) and d > 0


def los_ok(p):
    return (dev_ok(p["devices"]) and (p["minimum_mcs_of_backhaul_links"] or 0) >= 0 and (p["minimum_mcs_of_access_links"] or 0) >= 0 and p["minimum_los_distance"] >= 5
            and (p["maximum_los_distance"] is None or p["minimum_los_distance"] < p["maximum_los_distance"]) and 0 <= p["maximum_elevation_scan_angle"] <= 90
            and min(p["mounting_height_above_rooftop"], p["default_dn_height_on_pole"], p["default_cn_height_on_pole"], p["default_pop_height_on_pole"]) >= 0
            and p["fresnel_radius"] > 0 and 0 <= p["los_confidence_threshold"] <= 1)


OPT = {"pop_site_capex": [1500.0, 0, -1], "cn_site_capex": [1500.0, 0, -1], "dn_site_capex": [1500.0, 0, -1], "rain_rate": [30.0, 5], "budget": [300000.0, 0, -1], "pop_capacity": [10.0, 0.1, 0, -1],
       "oversubscription": [1.0, 2, 0.99, 0], "carrier_frequency": [60000.0, 58000.0], "thermal_noise_power": [-81, -70], "noise_figure": [7, 2], "link_availability_percentage": [99.9, 99], "maximum_eirp": [None, 40],
       "number_of_extra_pops": [0, 3, -1], "enable_cn_demand": [True, False], "enable_uniform_demand": [False, True], "enable_manual_demand": [False, True], "demand_spacing": [0.0, 100, -1], "demand_connection_radius": [0.0, 100, -1],
       "demand": [0.025, 5, 0, -1], "dn_dn_sector_limit": [2, 1, 15, 16, 0, -1], "dn_total_sector_limit": [15, 2, 1, 16], "maximum_number_hops": [15, 1, 0, -1], "diff_sector_angle_limit": [25.0, 0, 180, 180.1, -0.1],
       "near_far_length_ratio": [3.0, 0.1, 0, -1], "near_far_angle_limit": [45.0, 0, 180, 180.1, -0.1], "number_of_channels": [1, 4, 0, -1], "maximize_common_bandwidth": [False, True], "always_active_pops": [True, False],
       "enable_legacy_redundancy_method": [True, False], "redundancy_level": ["MEDIUM", "NONE", "HIGH"], "backhaul_link_redundancy_ratio": [0.2, 0, 1, 1.01, -0.01], "num_threads": [None, 1, 8, 0, -1],
       "min_cost_rel_stop": [0.05, -1], "min_cost_max_time": [60, 1, 0, -1], "redundancy_rel_stop": [0.05, 1], "redundancy_max_time": [60, 1, 0, -1], "max_coverage_rel_stop": [-1, 0.5], "max_coverage_max_time": [60, 1, 0, -1],
       "interference_rel_stop": [-1, 0.5], "interference_max_time": [60, 1, 0, -1], "pop_proposal_rel_stop": [-1, 0.5], "pop_proposal_max_time": [60, 1, 0, -1], "demand_site_max_time": [15, 1, 0, -1],
       "topology_routing": [None, "SHORTEST_PATH", "DPA_PATH"], "availability_sim_time": [100.0, 5.0], "availability_seed": [0, 7], "availability_max_time": [60, 1, 0, -1], "devices": [1, 2, 3, 0, "dup", "dupcase"]}


def opt_ok(p):
    return (dev_ok(p["devices"]) and min(p["pop_site_capex"], p["cn_site_capex"], p["dn_site_capex"], p["budget"]) >= 0 and p["pop_capacity"] > 0 and p["oversubscription"] >= 1 and p["number_of_extra_pops"] >= 0
            and (p["enable_cn_demand"] or p["enable_uniform_demand"] or p["enable_manual_demand"]) and not (p["enable_uniform_demand"] and p["demand_spacing"] <= 0)
            and not ((p["enable_uniform_demand"] or p["enable_manual_demand"]) and p["demand_connection_radius"] <= 0) and p["demand"] > 0
            and 0 < p["dn_dn_sector_limit"] <= p["dn_total_sector_limit"] and p["maximum_number_hops"] > 0 and 0 <= p["diff_sector_angle_limit"] <= 180 and p["near_far_length_ratio"] > 0
            and 0 <= p["near_far_angle_limit"] <= 180 and p["number_of_channels"] >= 1 and 0 <= p["backhaul_link_redundancy_ratio"] <= 1 and (p["num_threads"] is None or p["num_threads"] > 0)
            and min(p["min_cost_max_time"], p["redundancy_max_time"], p["max_coverage_max_time"], p["interference_max_time"], p["pop_proposal_max_time"], p["demand_site_max_time"], p["availability_max_time"]) > 0)


def pick(table):
    def gen(r):
        p = {}
        k = r.choice([0, 1, 1, 2, 3, 6, len(table)])
        names = r.sample(sorted(table), min(k, len(table)))
        for n in names: p[n] = r.choice(table[n]) if r.random() < .8 else r.choice(table[n][:2])
        return p
    return gen


def one_by_one(table, extra=()):
    out = [{}]
    for n, vs in table.items(): out += [{n: v} for v in vs]
    return out + list(extra)


def full(table, p): return {n: p.get(n, vs[0]) for n, vs in table.items()}


def stored(o, p, skip=()):
    for k, v in p.items():
        if k in skip: continue
        w = getattr(o, k)
        need(w == v and (v is None) == (w is None), f"{k} given {v!r} is stored as {w!r}")


@law("C08", pick(SECTOR), 400, corners=one_by_one(SECTOR))
def radio_ranges(p):
    SP = api(CF + "SectorParams")
    ok = sector_ok({**SECTOR_DEF, **p})
    bad, o = raises(perr(), SP, **p)
    need(bad != ok, f"radio parameters {p} are {'rejected' if bad else 'accepted'}")
    if bad: return None
    stored(o, {**SECTOR_DEF, **p})
    need(o.antenna_pattern_data is None and o.scan_pattern_data is None, "pattern data without a file")
    need(o.mcs_map == api("terragraph_planner.common.constants:DEFAULT_MCS_SNR_MBPS_MAP"), "default rate table expected")


@law("C08", lambda r: {k: r.choice(v) for k, v in DEVICE.items()}, 400, corners=[{"device_sku": "A", "node_capex": c, "number_of_nodes_per_site": n, "device_type": t, "scan": s, "spn": q}
                                                                               for c in (0, -1) for n in (None, 0, 1, 4, 5) for t in ("CN", "DN") for s in (70.0, 90, 91, 360, 72) for q in (1, 2)])
def device_ranges(p):
    sp = api(CF + "SectorParams")(horizontal_scan_range=p["scan"], number_sectors_per_node=p["spn"])
    args = dict(device_sku=p["device_sku"], sector_params=sp, node_capex=p["node_capex"], number_of_nodes_per_site=p["number_of_nodes_per_site"], device_type=E("DeviceType", p["device_type"]))
    ok = device_ok(p)
    bad, o = raises(perr(), api(CF + "DeviceData"), **args)
    need(bad != ok, f"device {p} is {'rejected' if bad else 'accepted'}")
    if bad: return None
    stored(o, args, skip=("number_of_nodes_per_site",))
    n = p["number_of_nodes_per_site"]
    need(o.number_of_nodes_per_site == (n if n is not None else 1 if p["device_type"] == "CN" else 4), "number of nodes")


def devices(n):
    D, S, T = api(CF + "DeviceData"), api(CF + "SectorParams"), E("DeviceType", "DN")
    skus = ["Alpha", "beta", "gamma"]
    if n == "dup": skus = ["Alpha", "beta", "Alpha"]
    elif n == "dupcase": skus = ["Alpha", "aLPHA"]
    else: skus = skus[:n]
    return [D(device_sku=s, sector_params=S(), device_type=T) for s in skus]


PROJECT = ["carrier_frequency", "thermal_noise_power", "noise_figure", "rain_rate", "link_availability_percentage"]


def project_wide(o, p):
    for d in o.device_list:
        for k in PROJECT: need(getattr(d.sector_params, k) == p[k], f"{k} of device {d.device_sku} is {getattr(d.sector_params, k)}, the project sets {p[k]}")


@law("C08", pick(LOS), 300, corners=one_by_one(LOS, [{"minimum_los_distance": a, "maximum_los_distance": b} for a in (5, 6, 10, 50) for b in (None, 5, 6, 10, 51)]))
def los_ranges(p):
    f = full(LOS, p)
    args = {k: v for k, v in f.items() if k != "devices"}
    dl = devices(f["devices"])
    ok = los_ok(f)
    bad, o = raises(perr(), api(CF + "LOSParams"), device_list=dl, **args)
    need(bad != ok, f"line-of-sight section {p} is {'rejected' if bad else 'accepted'}")
    if bad: return None
    stored(o, args)
    need([d.device_sku for d in o.device_list] == [d.device_sku for d in dl], "device list changed")
    project_wide(o, args)


@law("C08", pick(OPT), 400, corners=one_by_one(OPT, [{"enable_uniform_demand": u, "enable_manual_demand": m, "enable_cn_demand": c, "demand_spacing": s, "demand_connection_radius": q}
                                                    for u in (True, False) for m in (True, False) for c in (True, False) for s in (0, 10) for q in (0, 10)]
                                               + [{"dn_dn_sector_limit": a, "dn_total_sector_limit": b} for a in (0, 1, 2, 3) for b in (1, 2, 3)]))
def optimizer_ranges(p):
    f = full(OPT, p)
    args = {k: v for k, v in f.items() if k != "devices"}
    ok = opt_ok(f)
    args["redundancy_level"] = E("RedundancyLevel", args["redundancy_level"])
    if args["topology_routing"]: args["topology_routing"] = E("TopologyRouting", args["topology_routing"])
    dl = devices(f["devices"])
    bad, o = raises(perr(), api(CF + "OptimizerParams"), device_list=dl, **args)
    need(bad != ok, f"optimizer section {p} is {'rejected' if bad else 'accepted'}")
    if bad: return None
    stored(o, args)
    need([d.device_sku for d in o.device_list] == [d.device_sku for d in dl], "device list changed")
    project_wide(o, args)
    need(o.coverage_percentage == 1 and o.ignore_polarities is False, "internal defaults")


@law("C08", lambda r: {"angle": r.choice([None, 0, 180, 90, 0.001, 179.999, -1, 181, r.uniform(-10, 200)]), "flags": [r.random() < .5 for _ in range(4)]}, 100,
     corners=[{"angle": a, "flags": [True, True, False, True]} for a in (0, 180, 90, None, 1e-9, -0.0)])
def site_detection_ranges(p):
    a = p["angle"]
    k = dict(zip(("dn_deployment", "detect_highest", "detect_centers", "detect_corners"), p["flags"]), max_corner_angle=a)
    bad, o = raises(perr(), api(CF + "SiteDetectionParams"), **k)
    need(bad != (a is None or 0 < a < 180), f"corner angle {a} is {'rejected' if bad else 'accepted'}")
    if not bad: stored(o, k)


NAMES = {"boundary_polygon_file_path": ({"kml", "kmz"}, ["b.kml", "b.KMZ", "x.y.kmz", "b.csv", "b"]),
         "building_outline_file_path": ({"kml", "kmz", "zip"}, [None, None, "o.zip", "o.kml", "o.tif", "O.ZIP"]),
         "dtm_file_path": ({"tif"}, [None, "a.tif", "a.TIF", "a.tiff", "a.kml"]), "dhm_file_path": ({"tif"}, [None, "a.tif", "a.tiff"]),
         "site_file_path": ({"kml", "kmz", "csv"}, [None, "s.csv", "s.kml", "s.kmz", "s.zip"]), "base_topology_file_path": ({"kml", "kmz"}, [None, None, "t.kml", "t.kmz", "t.csv"])}


def gen_gis(r):
    p = {k: r.choice(v[1][:3]) if r.random() < .8 else r.choice(v[1]) for k, v in NAMES.items()}
    p["dsm_file_paths"] = r.choice([None, [], ["a.tif"], ["a.tif", None, "b.TIFF"], ["a.tif", "b.csv"], [None]])
    return p


@law("C08", gen_gis, 300)
def data_ranges(p):
    ext = lambda s: s.split(".")[-1].lower()
    ok = all(p[k] is None or ext(p[k]) in v[0] for k, v in NAMES.items()) and all(x is None or ext(x) in ("tif", "tiff") for x in p["dsm_file_paths"] or [])
    ok = ok and (p["building_outline_file_path"] is None or p["base_topology_file_path"] is None)
    bad, o = raises(perr(), api(CF + "GISDataParams"), **p)
    need(bad != ok, f"input data section {p} is {'rejected' if bad else 'accepted'}")
    if bad: return None
    stored(o, p, skip=("dsm_file_paths",))
    need(o.dsm_file_paths == [x for x in p["dsm_file_paths"] or [] if x is not None], "surface model paths")


# --------------------------------------------------------------------- C09
def recase(r, s): return r.choice([s, s.upper(), s.lower(), s.title(), "".join(c.upper() if r.random() < .5 else c.lower() for c in s)])


def gen_device(r, i):
    d = {"device_sku": f"Dev {i}", "device_type": r.choice(["CN", "DN", "dn", "Cn"])}
    if r.random() < .5: d["node_capex"] = r.choice([0, 99.5, 250.0])
    if r.random() < .4: d["number_of_nodes_per_site"] = r.choice([1, None])
    sp = {}
    for k in r.sample(sorted(SECTOR_DEF), r.randint(0, 6)):
        sp[k] = r.choice([SECTOR_DEF[k], None, {"horizontal_scan_range": 45.0, "antenna_boresight_gain": 12.5, "maximum_tx_power": 20.0, "number_sectors_per_node": 1, "minimum_mcs_level": 3,
                                                "minimum_tx_power": -3, "tx_diversity_gain": 1.5, "noise_figure": 3, "rain_rate": 10, "carrier_frequency": 58000.0}.get(k, SECTOR_DEF[k])])
    d["sector_params"] = sp
    return d


GOOD = {"los": {k: [v for v in vs] for k, vs in {
    "rain_rate": [10], "maximum_los_distance": [300], "minimum_los_distance": [20], "carrier_frequency": [58000.0], "noise_figure": [3], "fresnel_radius": [0.5], "los_confidence_threshold": [0.3],
    "use_ellipsoidal_los_model": [True], "maximum_eirp": [40.0], "thermal_noise_power": [-70.0], "minimum_mcs_of_access_links": [2], "maximum_elevation_scan_angle": [10], "num_processors": [2], "link_availability_percentage": [99.0]}.items()},
    "opt": {k: [vs[1]] for k, vs in OPT.items() if k not in ("devices", "enable_cn_demand", "enable_uniform_demand", "enable_manual_demand", "redundancy_level", "topology_routing", "dn_total_sector_limit", "dn_dn_sector_limit")}}
DEFAULTS = {"los": {k: v[0] for k, v in LOS.items() if k != "devices"}, "opt": {k: v[0] for k, v in OPT.items() if k != "devices"}}


def gen_section(r):
    kind = r.choice(["los", "opt"])
    d = {}
    for k in r.sample(sorted(GOOD[kind]), r.randint(0, 8)): d[k] = r.choice([GOOD[kind][k][0], None, DEFAULTS[kind][k]])
    if kind == "opt":
        if r.random() < .5: d["redundancy_level"] = r.choice(["none", "Low", "MEDIUM", "high"])
        if r.random() < .5: d["topology_routing"] = r.choice([None, "shortest_path", "MCS_COST_PATH", "Dpa_Path"])
    if kind == "los" and r.random() < .5:
        d["site_detection"] = {k: v for k, v in (("dn_deployment", False), ("detect_centers", True), ("max_corner_angle", 120.0)) if r.random() < .6}
    dev = [gen_device(r, i) for i in range(r.randint(1, 3))]
    bad = r.choice([None] * 6 + ["enum", "dup", "empty"])
    if bad == "enum": dev[0]["device_type"] = r.choice(["CNN", "", "d n"])
    if bad == "dup" and len(dev) > 1: dev[1]["device_sku"] = dev[0]["device_sku"].upper()
    elif bad == "dup": bad = None
    if bad == "empty": dev = []
    d["device_list"] = dev
    cased = {}
    for k, v in d.items(): cased[recase(r, k)] = v
    for x in dev:
        for k in list(x):
            v = x.pop(k)
            if isinstance(v, dict): v = {recase(r, a): b for a, b in v.items()}
            x[recase(r, k)] = v
    return {"kind": kind, "data": cased, "bad": bad}


def low(d): return {k.casefold(): v for k, v in d.items()}


def check_device(o, d, top):
    d = low(d)
    sp = low(d.get("sector_params") or {})
    need(o.device_sku == d["device_sku"], "device name")
    need(o.device_type.name == d["device_type"].upper(), "device type")
    need(o.node_capex == (d.get("node_capex") if d.get("node_capex") is not None else 250.0), "node cost")
    n = d.get("number_of_nodes_per_site")
    need(o.number_of_nodes_per_site == (n if n is not None else 1 if o.device_type.name == "CN" else 4), "nodes per site")
    for k, dv in SECTOR_DEF.items():
        v = sp.get(k)
        if v is None: v = dv
        if k in PROJECT: v = top[k]
        need(getattr(o.sector_params, k) == v, f"device {o.device_sku}: {k} is {getattr(o.sector_params, k)!r}, the configuration says {v!r}")


def check_section(o, kind, data):
    data = low(data)
    exp = {}
    for k, dv in DEFAULTS[kind].items():
        v = data.get(k)
        exp[k] = dv if v is None else v
    for k in ("redundancy_level", "topology_routing"):
        if k in exp: need((getattr(o, k).name if getattr(o, k) is not None else None) == (exp[k].upper() if exp[k] else None), f"{k} is {getattr(o, k)}")
    for k, v in exp.items():
        if k in ("redundancy_level", "topology_routing"): continue
        w = getattr(o, k)
        need(w == v and (w is None) == (v is None), f"{k} is {w!r}, the configuration says {v!r}")
    if kind == "los":
        sd = low(data.get("site_detection") or {})
        for k, dv in (("dn_deployment", True), ("detect_highest", True), ("detect_centers", False), ("detect_corners", True), ("max_corner_angle", None)):
            v = sd.get(k, dv)
            need(getattr(o.site_detection, k) == v, f"site detection {k}")
    need(len(o.device_list) == len(data["device_list"]), "number of devices")
    by = {d.device_sku: d for d in o.device_list}
    for d in data["device_list"]: check_device(by[low(d)["device_sku"]], d, exp)


def deep(o):
    """attributes of a configuration object, recursively, as plain data"""
    CP = api(CF + "ConfigParser")
    if isinstance(o, CP): return {k: deep(v) for k, v in sorted(o.__dict__.items())}
    if isinstance(o, tuple): return [deep(x) for x in o]
    if isinstance(o, list): return [deep(x) for x in o]
    if hasattr(o, "name") and hasattr(o, "value"): return o.name
    return o


@law("C09", gen_section, 500)
def dictionary_is_read(c):
    cls = api(CF + ("LOSParams" if c["kind"] == "los" else "OptimizerParams"))
    before = json.dumps(c["data"], sort_keys=True)
    if c["bad"]:
        try: cls.from_dict(copy.deepcopy(c["data"]))
        except Exception: return None
        raise Broken(f"a section with a bad {c['bad']} entry is accepted")
    o = cls.from_dict(c["data"])
    need(json.dumps(c["data"], sort_keys=True) == before, "the given dictionary is modified")
    check_section(o, c["kind"], c["data"])
    d = o.to_dict()
    json.dumps(d)
    o2 = cls.from_dict(d)
    need(deep(o) == deep(o2), "written back and read again, the configuration differs")
    need(o == o2, "equal configurations compare as different")


def gen_pair(r):
    c = gen_section(r)
    while c["bad"]: c = gen_section(r)
    kind = c["kind"]
    k = r.choice(sorted(GOOD[kind]) + ["DEV", "SP"])
    return {**c, "change": k}


@law("C09", gen_pair, 200)
def equality_sees_every_value(c):
    cls = api(CF + ("LOSParams" if c["kind"] == "los" else "OptimizerParams"))
    a, b = cls.from_dict(copy.deepcopy(c["data"])), cls.from_dict(copy.deepcopy(c["data"]))
    need(a == b, "the same dictionary gives different configurations")
    if c["change"] == "DEV": b.device_list[0].node_capex += 1
    elif c["change"] == "SP": b.device_list[0].sector_params.antenna_boresight_gain += 1
    else:
        v = getattr(b, c["change"])
        setattr(b, c["change"], (not v) if isinstance(v, bool) else (v or 0) + 1)
    need(not (a == b), f"configurations that differ in {c['change']} compare as equal")


# whole files
FILE_KEYS = {"SYSTEM": {"OUTPUT_DIR": "out", "DEBUG_MODE": True, "LOGGER_LEVEL": "warning", "LOG_FILE": "l.txt", "LOG_TO_STDERR": False},
             "DATA": {"BOUNDARY_POLYGON_FILE_PATH": "b.kml", "DSM_FILE_PATHS": ["a.tif", "b.tif"], "DTM_FILE_PATH": "t.tif", "DHM_FILE_PATH": "h.tif", "SITE_FILE_PATH": "s.csv", "BASE_TOPOLOGY_FILE_PATH": "x.kml"},
             "LINE_OF_SIGHT": {"MAXIMUM_LOS_DISTANCE": 300, "MINIMUM_LOS_DISTANCE": 20, "FRESNEL_RADIUS": 0.5, "LOS_CONFIDENCE_THRESHOLD": 0.3, "USE_ELLIPSOIDAL_LOS_MODEL": True, "MAXIMUM_ELEVATION_SCAN_ANGLE": 10, "NUM_PROCESSORS": 2},
             "RADIO": {"CARRIER_FREQUENCY": 58000.0, "NOISE_FIGURE": 3, "RAIN_RATE": 10, "MAXIMUM_EIRP": 40.0, "THERMAL_NOISE_POWER": -70.0, "LINK_AVAILABILITY_PERCENTAGE": 99.0},
             "NETWORK_DESIGN": {"POP_CAPACITY": 0.1, "OVERSUBSCRIPTION": 2, "NUMBER_OF_EXTRA_POPS": 3, "MAXIMUM_NUMBER_HOPS": 1, "NUM_THREADS": 1, "MIN_COST_MAX_TIME": 1, "NUMBER_OF_CHANNELS": 4, "BACKHAUL_LINK_REDUNDANCY_RATIO": 1,
                                "REDUNDANCY_LEVEL": "high", "TOPOLOGY_ROUTING": "dpa_path", "ALWAYS_ACTIVE_POPS": False, "AVAILABILITY_SEED": 7}}
NESTED = {"FINANCIAL": {"BUDGET": 0, "CN_SITE_CAPEX": 1, "POP_SITE_CAPEX": 2.5}, "DIMENSIONING": {"DEMAND": 5, "ENABLE_MANUAL_DEMAND": True, "DEMAND_CONNECTION_RADIUS": 100}}


def gen_file(r):
    d = {}
    for s, ks in FILE_KEYS.items():
        if s == "SYSTEM" and r.random() < .3: continue
        d[s] = {recase(r, k): ks[k] for k in r.sample(sorted(ks), r.randint(0, len(ks)))}
    if not any(k.upper() == "BOUNDARY_POLYGON_FILE_PATH" for k in d["DATA"]): d["DATA"]["boundary_polygon_file_path"] = "b.kml"
    for n, ks in NESTED.items():
        if r.random() < .7: d["NETWORK_DESIGN"][recase(r, n)] = {recase(r, k): ks[k] for k in ks if n == "DIMENSIONING" or r.random() < .7}
    if r.random() < .5: d["LINE_OF_SIGHT"]["Site_Detection"] = {"DETECT_CENTERS": True, "max_corner_angle": 120.0}
    d["RADIO"][recase(r, "DEVICE_LIST")] = [{recase(r, k): ({recase(r, a): b for a, b in v.items() if a not in PROJECT} if isinstance(v, dict) else v) for k, v in gen_device(r, i).items()} for i in range(r.randint(1, 2))]
    bad = r.choice([None] * 5 + ["section", "key", "nested", "device", "missing"])
    typo = r.choice(["RAIN_RAT", "BUDGETS", "X", "DEVICE"])
    if bad == "section": d["SYSTEMS"] = {}
    if bad == "key": d[r.choice(["LINE_OF_SIGHT", "RADIO", "NETWORK_DESIGN", "DATA"])][typo] = 1
    if bad == "nested": d["NETWORK_DESIGN"]["FINANCIAL"] = {typo: 1}
    if bad == "device": [v for k, v in d["RADIO"].items() if k.upper() == "DEVICE_LIST"][0][0]["SECTOR_PARAMS_X"] = {}
    return {"data": d, "bad": bad, "ext": r.choice(["yaml", "yml", "json"]), "drop": r.choice(["RADIO", "NETWORK_DESIGN"]) if bad == "missing" else None}


@law("C09", gen_file, 150)
def files_are_read(c):
    import yaml
    f = api(CU + "struct_objects_from_file")
    d = copy.deepcopy(c["data"])
    if c["drop"]: d.pop(c["drop"])
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, "c." + c["ext"])
        with open(path, "w") as fh: (json.dump if c["ext"] == "json" else yaml.safe_dump)(d, fh)
        if c["bad"]:
            bad, _ = raises(perr(), f, "OPTIMIZATION", path)
            need(bad, f"a configuration file with a bad {c['bad']} entry is accepted")
            return None
        top = {}
        for s in ("RADIO", "NETWORK_DESIGN"): top.update({k.casefold(): v for k, v in d[s].items()})
        for k in list(top):
            if isinstance(top[k], dict): top.update({a.casefold(): b for a, b in top.pop(k).items()})
        check_section(f("OPTIMIZATION", path), "opt", {k: v for k, v in top.items()})
        check_section(f("LINE_OF_SIGHT", path), "los", {**{k.casefold(): v for k, v in d["LINE_OF_SIGHT"].items()}, **{k.casefold(): v for k, v in d["RADIO"].items()}})
        g = f("DATA", path)
        dd = {k.casefold(): v for k, v in d["DATA"].items()}
        for k in ("boundary_polygon_file_path", "dtm_file_path", "dhm_file_path", "site_file_path", "base_topology_file_path", "building_outline_file_path"):
            need(getattr(g, k) == dd.get(k), f"{k} is {getattr(g, k)!r}")
        need(g.dsm_file_paths == dd.get("dsm_file_paths", []), "surface model paths")
        s = f("SYSTEM", path)
        sd = {k.casefold(): v for k, v in d.get("SYSTEM", {}).items()}
        for k, dv in (("output_dir", "./"), ("debug_mode", False), ("log_file", None), ("log_to_stderr", True)): need(getattr(s, k) == sd.get(k, dv), f"{k} is {getattr(s, k)!r}")
        need(s.logger_level.name == sd.get("logger_level", "info").upper(), "logger level")
        bad, _ = raises(perr(), f, "OPTIMIZATION", path + ".txt")
        need(bad, "a missing file is accepted")
        txt = os.path.join(tmp, "c.txt")
        shutil.copy(path, txt)
        bad, _ = raises(perr(), f, "OPTIMIZATION", txt)
        need(bad, "a file that is neither YAML nor JSON is accepted")
    finally: shutil.rmtree(tmp)
