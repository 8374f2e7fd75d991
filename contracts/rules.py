"""C18 deployment rules, C19 interference."""
import math

from contracts.ops import *
from terragraph_planner.common.configuration.enums import PolarityType, LinkType, SectorType
from terragraph_planner.common.geos import angle_delta, law_of_cosines_spherical
from terragraph_planner.common.rf.link_budget_calculator import log_to_linear, linear_to_log, get_noise_power
from terragraph_planner.common.structs import LinkBudgetMeasurements
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
import terragraph_planner.optimization.deployment_rules  # noqa
import terragraph_planner.optimization.topology_interference  # noqa
from terragraph_planner.optimization.topology_interference import compute_link_rsl_map, _calculate_net_gain_on_rx_links, _compute_link_interference_net_gain

D = "terragraph_planner.optimization.deployment_rules:"
I = "terragraph_planner.optimization.topology_interference:"
TRIPLE = TTup([TStr(), TStr(), TStr()])


def active(s): return s == StatusType.PROPOSED or s == StatusType.EXISTING
def on_air(l): return l.is_wireless


def considered(topology, k, active_components):
    return k in topology.links and on_air(topology.links[k]) and (not active_components or active(topology.links[k]._status_type))


@contract(D + "_get_adjacency_dictionary")
class adjacency:
    prop = "C18"
    modular = True
    types = {"topology": TOPO}
    modifies = []

    def pre(topology): return {**graph(topology), **agreed(topology)}

    def post(topology, active_components, result):
        return {"an entry for each site": forall(SITE, lambda s: iff(s in result, s._site_id in topology.sites and topology.sites[s._site_id] is s)),
                "exactly the wireless links leaving it": forall(ID, lambda s: s not in topology.sites or forall(LINK, lambda l: iff(l in result[topology.sites[s]],
                    l._link_id in topology.links and topology.links[l._link_id] is l and considered(topology, l._link_id, active_components) and l._tx_site is topology.sites[s])))}


@contract(D + "get_violating_link_ids")
class violating_links:
    prop = "C18"
    types = {"topology": TOPO, "site_triplets": TSeq(TRIPLE)}
    modifies = []

    def pre(topology, site_triplets):
        return {**graph(topology), "pairs of sites of the network": forall(TRIPLE, lambda i, j, k: (i, j, k) not in site_triplets or (i in topology.sites and j in topology.sites and k in topology.sites))}

    def post(topology, site_triplets, result):
        return {"only stored links": forall(ID, lambda x: x not in result or x in topology.links),
                "only links of the pairs": forall(ID, lambda x: x not in result or exists(TRIPLE, lambda i, j, k: (i, j, k) in site_triplets and between(topology, x, i, j, k))),
                "both links of both pairs": forall(TRIPLE, lambda i, j, k: (i, j, k) not in site_triplets or (
                    (f"{i}-{j}" not in topology.links or f"{i}-{j}" in result) and (f"{j}-{i}" not in topology.links or f"{j}-{i}" in result)
                    and (f"{i}-{k}" not in topology.links or f"{i}-{k}" in result) and (f"{k}-{i}" not in topology.links or f"{k}-{i}" in result)))}


def between(topology, x, i, j, k): return x == f"{i}-{j}" or x == f"{j}-{i}" or x == f"{i}-{k}" or x == f"{k}-{i}"


def angled(eng, a, kw):
    """angle and length ratio of two legs are unknown functions of the three places (C10 specifies them)"""
    import z3
    ts = [to_real(eng, x) for x in a]
    f = z3.Function("leg_angle", *[z3.RealSort()] * 7)
    g = z3.Function("leg_ratio", *[z3.RealSort()] * 7)
    return (Sym(f(*ts), TReal()), Sym(g(*ts), TReal()))


def to_real(eng, x):
    x = eng.force(x)
    from pyvc.values import term
    return term(x, TReal())


REG.models[law_of_cosines_spherical] = angled


def place_of(s): return (s._location.latitude, s._location.longitude)


def legs(l, m):
    """angle and ratio of the links l and m leaving one site"""
    return law_of_cosines_spherical(l._tx_site._location.latitude, l._tx_site._location.longitude, l._rx_site._location.latitude, l._rx_site._location.longitude, m._rx_site._location.latitude, m._rx_site._location.longitude)


def on_one_channel(l, m): return l._tx_sector is not None and m._tx_sector is not None and l._tx_sector.channel == m._tx_sector.channel


def apart(topology, a, b, active_components):
    """two different counted links a, b leaving one site from different sectors, on one channel where that counts"""
    return (a != b and considered(topology, a, active_components) and considered(topology, b, active_components) and topology.links[a]._tx_site is topology.links[b]._tx_site
            and topology.links[a]._tx_sector is not topology.links[b]._tx_sector and (not active_components or on_one_channel(topology.links[a], topology.links[b])))


def triple(topology, a, b):
    return (tail(topology, a), min(head(topology, a), head(topology, b)), max(head(topology, a), head(topology, b)))


def steep(topology, a, b, limit): return legs(topology.links[a], topology.links[b])[0] <= limit


def close_legs(topology, a, b, diff_sector_angle_limit, near_far_angle_limit, near_far_length_ratio):
    return not steep(topology, a, b, diff_sector_angle_limit) and steep(topology, a, b, near_far_angle_limit) and legs(topology.links[a], topology.links[b])[1] >= near_far_length_ratio


@contract(D + "find_angle_violating_link_pairs")
class angle_violations:
    prop = "C18"
    types = {"topology": TOPO}
    modifies = []

    def pre(topology, active_components):
        return {**graph(topology), **agreed(topology),
                "active links have sectors": not active_components or forall(ID, lambda k: not considered(topology, k, True) or topology.links[k]._tx_sector is not None),
                "swapping the legs changes nothing": forall(IDS, lambda a, b: a not in topology.links or b not in topology.links or legs(topology.links[a], topology.links[b]) == legs(topology.links[b], topology.links[a]))}

    def post(topology, diff_sector_angle_limit, near_far_angle_limit, near_far_length_ratio, active_components, result):
        return {"every pair below the general limit": forall(IDS, lambda a, b: not apart(topology, a, b, active_components) or not steep(topology, a, b, diff_sector_angle_limit) or triple(topology, a, b) in result.diff_sector_list),
                "every pair below the near-far limits": forall(IDS, lambda a, b: not apart(topology, a, b, active_components) or not close_legs(topology, a, b, diff_sector_angle_limit, near_far_angle_limit, near_far_length_ratio) or triple(topology, a, b) in result.near_far_list),
                "only pairs below the general limit": forall(TRIPLE, lambda i, j, k: (i, j, k) not in result.diff_sector_list or exists(IDS, lambda a, b: apart(topology, a, b, active_components) and triple(topology, a, b) == (i, j, k) and steep(topology, a, b, diff_sector_angle_limit))),
                "only pairs below the near-far limits": forall(TRIPLE, lambda i, j, k: (i, j, k) not in result.near_far_list or exists(IDS, lambda a, b: apart(topology, a, b, active_components) and triple(topology, a, b) == (i, j, k)
                    and close_legs(topology, a, b, diff_sector_angle_limit, near_far_angle_limit, near_far_length_ratio)))}


# the sector pairs of the links: sector_links and sector_links_reverse in topo prove what is assumed of them here
REG.types[(Topology, "sector_connectivity")] = REG.abstract[(Topology, "sector_connectivity")] = TMap(TStr(), TMap(TStr(), TStr()))


def joined_sectors(topology, t, r): return t in topology.sector_connectivity and r in topology.sector_connectivity[t]


def carried(topology, t, r):
    """an active link of the network joins sector t to sector r"""
    return joined_sectors(topology, t, r) and topology.sector_connectivity[t][r] in topology.links and active(topology.links[topology.sector_connectivity[t][r]]._status_type)


def stored(topology, s): return s is None or (s._sector_id in topology.sectors and topology.sectors[s._sector_id] is s)


@contract(D + "find_sector_limit_violations")
class sector_limits:
    prop = "C18"
    types = {"topology": TOPO}
    modifies = []

    def pre(topology):
        return {"sector pairs are those of stored links": forall(IDS, lambda t, r: not joined_sectors(topology, t, r) or (t in topology.sectors and r in topology.sectors and topology.sector_connectivity[t][r] in topology.links))}

    def post(topology, dn_dn_sector_limit, dn_total_sector_limit, result):
        return {"exactly the sectors with too many": forall(ID, lambda t: iff(t in result, t in topology.sectors and topology.sectors[t].sector_type == SectorType.DN and active(topology.sectors[t]._status_type) and (
            sum(1 for r in topology.sectors if carried(topology, t, r) and topology.sectors[r].sector_type == SectorType.DN) > dn_dn_sector_limit
            or sum(1 for r in topology.sectors if carried(topology, t, r) and topology.sectors[r].sector_type == SectorType.DN)
            + sum(1 for r in topology.sectors if carried(topology, t, r) and topology.sectors[r].sector_type == SectorType.CN) > dn_total_sector_limit)))}


# ------------------------------------------------------------------------ C19
def incoming(topology, k, c):
    return k in topology.links and active(topology.links[k]._status_type) and topology.links[k]._rx_site._site_type == SiteType.CN and topology.links[k]._rx_site._site_id == c


def served(topology, k):
    """the polarity a client gets from the sender of the link k"""
    p = topology.links[k]._tx_site.polarity
    return PolarityType.ODD if p == PolarityType.EVEN else (PolarityType.EVEN if p == PolarityType.ODD else PolarityType.UNASSIGNED)


@contract(I + "_get_cn_polarities")
class client_polarities:
    prop = "C19"
    modular = True
    types = {"topology": TOPO}
    modifies = []

    def pre(topology): return {**graph(topology)}

    def post(topology, result):
        return {"exactly the clients with an active incoming link": forall(ID, lambda c: iff(c in result, exists(ID, lambda k: incoming(topology, k, c)))),
                "opposite to every sender, or unassigned": forall(IDS, lambda c, k: not incoming(topology, k, c) or result[c] == PolarityType.UNASSIGNED or result[c] == served(topology, k)),
                "unassigned only for a reason": forall(ID, lambda c: c not in result or result[c] != PolarityType.UNASSIGNED or exists(ID, lambda k: incoming(topology, k, c) and served(topology, k) == PolarityType.UNASSIGNED)
                    or exists(IDS, lambda k, m: incoming(topology, k, c) and incoming(topology, m, c) and served(topology, k) != served(topology, m)))}

    def inv(topology, done, cn_polarities):
        return {"exactly the clients met": forall(ID, lambda c: iff(c in cn_polarities, exists(ID, lambda k: incoming(topology, k, c) and topology.links[k] in done))),
                "agrees with every sender met": forall(IDS, lambda c, k: not incoming(topology, k, c) or topology.links[k] not in done or cn_polarities[c] == PolarityType.UNASSIGNED or cn_polarities[c] == served(topology, k)),
                "unassigned for a reason": forall(ID, lambda c: c not in cn_polarities or cn_polarities[c] != PolarityType.UNASSIGNED or exists(ID, lambda k: incoming(topology, k, c) and topology.links[k] in done and served(topology, k) == PolarityType.UNASSIGNED)
                    or exists(IDS, lambda k, m: incoming(topology, k, c) and incoming(topology, m, c) and topology.links[k] in done and topology.links[m] in done and served(topology, k) != served(topology, m)))}

    loops = {0: Inv(inv, types={"cn_polarities": TMap(TStr(), TEnum(PolarityType))})}


def loose(p): return p == PolarityType.UNASSIGNED


def polarity_at(link, cn_polarities):
    return cn_polarities.get(link._rx_site._site_id, PolarityType.UNASSIGNED) if link._rx_site._site_type == SiteType.CN else link._rx_site.polarity


@contract(I + "_compatible_polarity")
class polarity_allows:
    prop = "C19"
    modular = True
    types = {"link": LINK, "cn_polarities": TMap(TStr(), TEnum(PolarityType))}
    modifies = []

    def post(link, cn_polarities, result):
        return {"active ends that differ or are unassigned": iff(result, active(link._tx_site._status_type) and active(link._rx_site._status_type)
            and (loose(link._tx_site.polarity) or loose(polarity_at(link, cn_polarities)) or link._tx_site.polarity != polarity_at(link, cn_polarities)))}


def tuned(link):
    return (link._tx_sector is not None and link._rx_sector is not None and active(link._tx_sector._status_type) and active(link._rx_sector._status_type)
            and (link._tx_sector.channel == link._rx_sector.channel or link._tx_sector.channel == -1 or link._rx_sector.channel == -1))


@contract(I + "_compatible_channel")
class channel_allows:
    prop = "C19"
    modular = True
    types = {"link": LINK}
    modifies = []

    def post(link, result):
        return {"active sectors on one channel or an unassigned one": iff(result, tuned(link))}


GAINS = TMap(TStr(), TReal())
REG.types[(Link, "link_budget")] = TRef(LinkBudgetMeasurements)
REG.types[(LinkBudgetMeasurements, "tx_power")] = TReal()
for _f in ("rsl_dbm", "snr_dbm", "sinr_dbm"): REG.types[(LinkBudgetMeasurements, _f)] = TXReal()
REG.types[(DeviceData, "sector_params")] = TRef(SectorParams)
REG.entities |= {LinkBudgetMeasurements, SectorParams}
REG.identity_eq |= {LinkBudgetMeasurements, SectorParams}


def power_from(topology, t, gain): return log_to_linear(topology.links[t].tx_power + gain)


def heard(m, p, r): return p in m and r in m[p] and exists(ID, lambda t: t in m[p][r])


@contract(I + "compute_link_rsl_map")
class interference_power:
    """ghosts: met(p, r) the link r hears the sector of the path p; share(p, r) what that sector adds, the mean over its other links"""
    prop = "C19"
    types = {"topology": TOPO, "link_net_gain_map": TMap(TStr(), TMap(TStr(), GAINS))}
    ghost = {"met": TFun([TStr(), TStr()], TBool()), "share": TFun([TStr(), TStr()], TReal())}
    modifies = []

    def pre(topology, link_net_gain_map, met, share):
        return {"gains are between stored links": forall(TRIPLE, lambda p, r, t: p not in link_net_gain_map or r not in link_net_gain_map[p] or t not in link_net_gain_map[p][r] or (p in topology.links and t in topology.links)),
                "met means": forall(IDS, lambda p, r: iff(met(p, r), heard(link_net_gain_map, p, r))),
                "share means": forall(IDS, lambda p, r: not met(p, r) or share(p, r) == sum(power_from(topology, t, link_net_gain_map[p][r][t]) for t in link_net_gain_map[p][r]) / len(link_net_gain_map[p][r]))}

    def post(topology, met, share, result):
        return {"an entry for each link that hears something": forall(ID, lambda r: iff(r in result, exists(ID, lambda p: met(p, r)))),
                "never negative": forall(ID, lambda r: r not in result or result[r] >= 0),
                "every sector counted once": forall(ID, lambda r: r not in result or result[r] == sum(share(p, r) for p in topology.links if met(p, r)))}

    def outer(topology, link_rsl_map, met, share, done):
        return {"entries": forall(ID, lambda r: iff(r in link_rsl_map, exists(ID, lambda p: p in done and met(p, r)))),
                "never negative": forall(ID, lambda r: r not in link_rsl_map or link_rsl_map[r] >= 0),
                "sums so far": forall(ID, lambda r: r not in link_rsl_map or link_rsl_map[r] == sum(share(p, r) for p in topology.links if p in done and met(p, r)))}

    def inner(link_net_gain_map, link_rsl_map, interfering_path_link_id, met, share, done):
        p = interfering_path_link_id
        return {"entries": forall(ID, lambda r: iff(r in link_rsl_map, r in before(lambda: link_rsl_map) or (met(p, r) and (r, link_net_gain_map[p][r]) in done))),
                "never negative": forall(ID, lambda r: r not in link_rsl_map or link_rsl_map[r] >= 0),
                "one share more": forall(ID, lambda r: r not in link_rsl_map or not met(p, r) or (r, link_net_gain_map[p][r]) not in done or link_rsl_map[r] == (before(lambda: link_rsl_map[r]) if r in before(lambda: link_rsl_map) else 0) + share(p, r)),
                "others as before": forall(ID, lambda r: r not in link_rsl_map or (met(p, r) and (r, link_net_gain_map[p][r]) in done) or link_rsl_map[r] == before(lambda: link_rsl_map[r]))}

    loops = {0: Inv(outer, types={"link_rsl_map": GAINS}), 1: Inv(inner, types={"link_rsl_map": GAINS})}


def heard_power(eng, a, kw):
    """what each link hears, an unknown map of the gains: interference_power proves its content"""
    v = eng.mk(GAINS, f"heard{next(eng.fresh_no)}")
    r = eng.alloc(v)
    import z3
    from pyvc.values import term
    b = z3.Const("heard!r", StrSort)
    eng.fact(z3.ForAll([b], z3.Implies(v.dom(Sym(b, TStr())), term(v.get(Sym(b, TStr())), TReal()) >= 0)))
    return r


REG.models[compute_link_rsl_map] = heard_power


def measured(topology, k): return considered(topology, k, True)


def noise_of(topology, k): return get_noise_power(topology.links[k]._rx_site._device.sector_params)


def level_of(topology, k): return topology.links[k].link_budget.rsl_dbm


def ratio_of(topology, k): return topology.links[k].link_budget.sinr_dbm


def expected_ratio(topology, k, heard): return level_of(topology, k) - linear_to_log((heard[k] if k in heard else 0) + log_to_linear(noise_of(topology, k)))


def ratio_right(topology, k, heard, ratio):
    return ratio == -math.inf if level_of(topology, k) == -math.inf else ratio == expected_ratio(topology, k, heard)


@contract(I + "analyze_interference")
class ratios:
    prop = "C19"
    types = {"topology": TOPO}
    ghost = {"k": TStr()}
    modifies = ["LinkBudgetMeasurements.sinr_dbm"]

    def pre(topology, k):
        return {**graph(topology), "each link has its own budget": forall(IDS, lambda a, b: a == b or a not in topology.links or b not in topology.links or topology.links[a].link_budget is not topology.links[b].link_budget),
                "levels are numbers or minus infinity": forall(ID, lambda k: k not in topology.links or (level_of(topology, k) < math.inf and ratio_of(topology, k) <= math.inf)),
                "a network link": k in topology.links}

    def post(topology, k, local_link_rsl_map):
        return {"level over the power sum of noise and interference": not measured(topology, k) or ratio_right(topology, k, local_link_rsl_map, ratio_of(topology, k)),
                "never above the ratio without interference": not measured(topology, k) or level_of(topology, k) == -math.inf or ratio_of(topology, k) <= level_of(topology, k) - noise_of(topology, k),
                "equal to it without interference": not measured(topology, k) or level_of(topology, k) == -math.inf or k in local_link_rsl_map or ratio_of(topology, k) == level_of(topology, k) - noise_of(topology, k),
                "others keep theirs": measured(topology, k) or ratio_of(topology, k) == old(lambda: ratio_of(topology, k))}

    def inv(topology, link_rsl_map, done):
        return {"links seen": forall(ID, lambda k: not measured(topology, k) or topology.links[k] not in done or ratio_right(topology, k, link_rsl_map, ratio_of(topology, k))),
                "links not seen": forall(ID, lambda k: k not in topology.links or (measured(topology, k) and topology.links[k] in done) or ratio_of(topology, k) == before(lambda: ratio_of(topology, k)))}

    loops = {0: Inv(inv)}


# the links of a sector pair have sectors, so their directions are known (C04 specifies them)
for _a in ("tx_dev", "rx_dev", "el_dev"): REG.abstract[(Link, _a)] = TReal()
PATH_GAINS = TMap(TStr(), TMap(TStr(), GAINS))
NEAR = TMap(TStr(), TStr())
FIVE = TTup([TStr()] * 5)
QUAD = TTup([TStr(), TStr(), TStr(), TStr()])


def path_gain(eng, a, kw):
    """the gain along a path is an unknown function of the path and the four deviations (C07 specifies it)"""
    import z3
    from pyvc.values import term
    names = ["interfering_path", "tx_dev", "rx_dev", "tx_el_dev", "rx_el_dev"]
    v = dict(zip(names, a)); v.update(kw)
    ts = [term(v["interfering_path"])] + [to_real(eng, v[n]) for n in names[1:]]
    return Sym(eng.func("path_gain", *[t.sort() for t in ts], z3.RealSort())(*ts), TReal())


def turned(eng, a, kw):
    """the angle between two directions is an unknown function of both (C10 specifies it)"""
    import z3
    ts = [to_real(eng, x) for x in a]
    return Sym(eng.func("angle_between", *[t.sort() for t in ts], z3.RealSort())(*ts), TReal())


REG.models[_compute_link_interference_net_gain] = path_gain
REG.models[angle_delta] = turned


def on_air_now(topology, k): return topology.links[k].is_wireless and active(topology.links[k]._status_type)


def gain_between(topology, path, r, t):
    return _compute_link_interference_net_gain(path, angle_delta(path.tx_dev, topology.links[t].tx_dev), angle_delta(path.rx_dev, topology.links[r].rx_dev),
                                               angle_delta(path.el_dev, topology.links[t].el_dev), -angle_delta(path.el_dev, topology.links[r].el_dev))


def noted(m, p, r, t): return p in m and r in m[p] and t in m[p][r]


@contract(I + "_calculate_net_gain_on_rx_links")
class gains_of_a_path:
    """ghosts: hears(rx, r) the link r from the sector rx may hear the path; sends(tx, t) the link t to the sector tx may be what it hears; gain(r, t) what of t reaches r"""
    prop = "C19"
    types = {"link_net_gain_map": PATH_GAINS, "topology": TOPO, "tx_sector_links": NEAR, "rx_sector_links": NEAR, "interfering_path": LINK}
    ghost = {"hears": TFun([TStr(), TStr()], TBool()), "sends": TFun([TStr(), TStr()], TBool()), "gain": TFun([TStr(), TStr()], TReal())}

    def pre(link_net_gain_map, topology, tx_sector_links, rx_sector_links, interfering_path, hears, sends, gain):
        return {"the path is between sectors": interfering_path._tx_sector is not None and interfering_path._rx_sector is not None,
                "a path is looked at once": interfering_path._link_id not in link_net_gain_map,
                "sectors receiving are of stored links": forall(ID, lambda s: s not in rx_sector_links or rx_sector_links[s] in topology.links),
                "sectors sending are of stored links": forall(ID, lambda s: s not in tx_sector_links or tx_sector_links[s] in topology.links),
                "hears means": forall(IDS, lambda rx, r: iff(hears(rx, r), rx in rx_sector_links and rx_sector_links[rx] == r and rx != interfering_path._tx_sector._sector_id and on_air_now(topology, r))),
                "sends means": forall(IDS, lambda tx, t: iff(sends(tx, t), tx in tx_sector_links and tx_sector_links[tx] == t and tx != interfering_path._rx_sector._sector_id and on_air_now(topology, t))),
                "gain means": forall(IDS, lambda r, t: r not in topology.links or t not in topology.links or gain(r, t) == gain_between(topology, interfering_path, r, t))}

    def post(link_net_gain_map, interfering_path, hears, sends, gain):
        p = interfering_path._link_id
        return {"only from another active wireless link to another": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or exists(IDS, lambda rx, tx: hears(rx, r) and sends(tx, t) and tx != rx)),
                "from every one to every other": forall(QUAD, lambda rx, tx, r, t: not (hears(rx, r) and sends(tx, t) and tx != rx) or noted(link_net_gain_map, p, r, t)),
                "with the gain between their directions": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or link_net_gain_map[p][r][t] == gain(r, t)),
                "other paths as before": forall(TRIPLE, lambda q, r, t: q == p or iff(noted(link_net_gain_map, q, r, t), old(lambda: noted(link_net_gain_map, q, r, t))))}

    def outer(link_net_gain_map, interfering_path, hears, sends, gain, done):
        p = interfering_path._link_id
        return {"only those": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or exists(IDS, lambda rx, tx: (rx, r) in done and hears(rx, r) and sends(tx, t) and tx != rx)),
                "every one": forall(QUAD, lambda rx, tx, r, t: not (hears(rx, r) and sends(tx, t) and tx != rx) or (rx, r) not in done or noted(link_net_gain_map, p, r, t)),
                "gains": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or link_net_gain_map[p][r][t] == gain(r, t)),
                "other paths as before": forall(TRIPLE, lambda q, r, t: q == p or iff(noted(link_net_gain_map, q, r, t), before(lambda: noted(link_net_gain_map, q, r, t))))}

    def inner(link_net_gain_map, interfering_path, rx_from_sector_id, rx_interfered_link_id, hears, sends, gain, done):
        p = interfering_path._link_id
        return {"only those": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or before(lambda: noted(link_net_gain_map, p, r, t)) or (r == rx_interfered_link_id and exists(ID, lambda tx: (tx, t) in done and sends(tx, t) and tx != rx_from_sector_id))),
                "every one": forall(IDS, lambda tx, t: (tx, t) not in done or not sends(tx, t) or tx == rx_from_sector_id or noted(link_net_gain_map, p, rx_interfered_link_id, t)),
                "as before": forall(IDS, lambda r, t: not before(lambda: noted(link_net_gain_map, p, r, t)) or noted(link_net_gain_map, p, r, t)),
                "gains": forall(IDS, lambda r, t: not noted(link_net_gain_map, p, r, t) or link_net_gain_map[p][r][t] == gain(r, t)),
                "other paths as before": forall(TRIPLE, lambda q, r, t: q == p or iff(noted(link_net_gain_map, q, r, t), before(lambda: noted(link_net_gain_map, q, r, t))))}

    loops = {0: Inv(outer), 1: Inv(inner)}


def noted_gains(topology, tx_sector_links, rx_sector_links, interfering_path):
    """what _calculate_net_gain_on_rx_links notes for a path; gains_of_a_path proves that it does"""


@contract("contracts.rules:noted_gains")
class noted_gains_:
    prop = "C19"
    trusted = modular = True
    types = {"topology": TOPO, "tx_sector_links": NEAR, "rx_sector_links": NEAR, "interfering_path": LINK}
    ret = TMap(TStr(), GAINS)
    modifies = []

    def pre(topology, tx_sector_links, rx_sector_links, interfering_path):
        return {"the path is between sectors": interfering_path._tx_sector is not None and interfering_path._rx_sector is not None,
                "sectors receiving are of stored links": forall(ID, lambda s: s not in rx_sector_links or rx_sector_links[s] in topology.links),
                "sectors sending are of stored links": forall(ID, lambda s: s not in tx_sector_links or tx_sector_links[s] in topology.links)}

    def post(topology, tx_sector_links, rx_sector_links, interfering_path, result):
        return {"only from another active wireless link to another": forall(IDS, lambda r, t: r not in result or t not in result[r] or exists(IDS, lambda rx, tx: hearing(topology, rx_sector_links, interfering_path, rx, r) and sending(topology, tx_sector_links, interfering_path, tx, t) and tx != rx)),
                "from every one to every other": forall(QUAD, lambda rx, tx, r, t: not (hearing(topology, rx_sector_links, interfering_path, rx, r) and sending(topology, tx_sector_links, interfering_path, tx, t) and tx != rx) or (r in result and t in result[r]))}


def hearing(topology, links, path, rx, r): return rx in links and links[rx] == r and rx != path._tx_sector._sector_id and on_air_now(topology, r)
def sending(topology, links, path, tx, t): return tx in links and links[tx] == t and tx != path._rx_sector._sector_id and on_air_now(topology, t)


def note(link_net_gain_map, topology, tx_sector_links, rx_sector_links, interfering_path):
    assert interfering_path.link_id not in link_net_gain_map
    link_net_gain_map[interfering_path.link_id] = noted_gains(topology, tx_sector_links, rx_sector_links, interfering_path)


REG.models[_calculate_net_gain_on_rx_links] = lambda eng, a, kw: eng.call(note, a, kw)
REG.types[(Topology, "sector_connectivity_reverse")] = REG.abstract[(Topology, "sector_connectivity_reverse")] = TMap(TStr(), TMap(TStr(), TStr()))


def is_path(topology, p, cn_polarities):
    """an active wireless link whose ends could hear each other"""
    return p in topology.links and topology.links[p].is_wireless and tuned(topology.links[p]) and compatible(topology.links[p], cn_polarities)


def compatible(l, cn_polarities):
    return active(l._tx_site._status_type) and active(l._rx_site._status_type) and (loose(l._tx_site.polarity) or loose(polarity_at(l, cn_polarities)) or l._tx_site.polarity != polarity_at(l, cn_polarities))


@contract(I + "compute_link_net_gain_map")
class interferers:
    """ghosts: path(p) the link p carries interference; hears(p, rx, r), sends(p, tx, t) as in gains_of_a_path, no redundant link sending"""
    prop = "C19"
    types = {"topology": TOPO}
    ghost = {"out": TMap(TStr(), TMap(TStr(), TStr())), "hears": TFun([TStr(), TStr(), TStr()], TBool()), "sends": TFun([TStr(), TStr(), TStr()], TBool())}

    def pre(topology, out, hears, sends):
        return {**graph(topology), "out is the sector pairs": forall(IDS, lambda s, t: iff(s in out and t in out[s], joined_sectors(topology, s, t)) and (not joined_sectors(topology, s, t) or out[s][t] == topology.sector_connectivity[s][t])),
                "sector pairs are those of the links": forall(ID, lambda k: k not in topology.links or topology.links[k]._tx_sector is None or topology.links[k]._rx_sector is None or (
                    topology.links[k]._rx_sector._sector_id in topology.sector_connectivity_reverse and topology.links[k]._tx_sector._sector_id in topology.sector_connectivity_reverse[topology.links[k]._rx_sector._sector_id])),
                "sectors sending are of stored links": forall(IDS, lambda s, t: not joined_sectors(topology, s, t) or topology.sector_connectivity[s][t] in topology.links),
                "sectors receiving are of stored links": forall(IDS, lambda s, t: s not in topology.sector_connectivity_reverse or t not in topology.sector_connectivity_reverse[s] or topology.sector_connectivity_reverse[s][t] in topology.links),
                "hears means": forall(TRIPLE, lambda p, rx, r: iff(hears(p, rx, r), p in topology.links and topology.links[p]._tx_sector is not None and topology.links[p]._rx_sector is not None and
                    topology.links[p]._rx_sector._sector_id in topology.sector_connectivity_reverse and hearing(topology, topology.sector_connectivity_reverse[topology.links[p]._rx_sector._sector_id], topology.links[p], rx, r))),
                "sends means": forall(TRIPLE, lambda p, tx, t: iff(sends(p, tx, t), p in topology.links and topology.links[p]._tx_sector is not None and topology.links[p]._rx_sector is not None and
                    topology.links[p]._tx_sector._sector_id in out and sending(topology, out[topology.links[p]._tx_sector._sector_id], topology.links[p], tx, t) and not topology.links[t].is_redundant))}

    def post(topology, hears, sends, result, local_cn_polarities):
        return {"only along a path": forall(TRIPLE, lambda p, r, t: not noted(result, p, r, t) or is_path(topology, p, local_cn_polarities)),
                "only from interferers": forall(TRIPLE, lambda p, r, t: not noted(result, p, r, t) or exists(IDS, lambda rx, tx: hears(p, rx, r) and sends(p, tx, t) and tx != rx)),
                "from every interferer along every path": forall(FIVE, lambda p, rx, tx, r, t: not (is_path(topology, p, local_cn_polarities) and hears(p, rx, r) and sends(p, tx, t) and tx != rx) or noted(result, p, r, t))}

    def inv(topology, out, hears, sends, link_net_gain_map, sector_connectivity, cn_polarities, done):
        return {"paths seen": forall(ID, lambda p: p not in link_net_gain_map or (p in topology.links and topology.links[p] in done)),
                "only along a path": forall(TRIPLE, lambda p, r, t: not noted(link_net_gain_map, p, r, t) or is_path(topology, p, cn_polarities)),
                "only from interferers": forall(TRIPLE, lambda p, r, t: not noted(link_net_gain_map, p, r, t) or exists(IDS, lambda rx, tx: hears(p, rx, r) and sends(p, tx, t) and tx != rx)),
                "from every interferer along every path": forall(FIVE, lambda p, rx, tx, r, t: not (is_path(topology, p, cn_polarities) and topology.links[p] in done and hears(p, rx, r) and sends(p, tx, t) and tx != rx) or noted(link_net_gain_map, p, r, t)),
                "no pair appears": forall(IDS, lambda s, t: not (s in sector_connectivity and t in sector_connectivity[s]) or (s in out and t in out[s] and out[s][t] == sector_connectivity[s][t])),
                "only redundant ones go": forall(IDS, lambda s, t: not (s in out and t in out[s]) or topology.links[out[s][t]].is_redundant or (s in sector_connectivity and t in sector_connectivity[s]))}

    loops = {0: Inv(inv, types={"link_net_gain_map": PATH_GAINS})}
