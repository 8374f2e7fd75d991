"""C22: an optimiser's decision is applied to the network."""
from contracts.ops import *
from terragraph_planner.common.configuration.enums import PolarityType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.structs import OptimizationSolution, RedundancySolution
import terragraph_planner.optimization.topology_optimization  # noqa

P = "terragraph_planner.optimization.topology_optimization:"
BY_SITE, BY_PAIR = TMap(TStr(), TInt()), TMap(IDS, TInt())


def chosen(decisions, k): return k in decisions and decisions[k] == 1
def fixed(s): return s == StatusType.EXISTING or s == StatusType.UNAVAILABLE or s == StatusType.UNREACHABLE


def decided(decision, now, was):
    """proposed exactly if chosen, unless the status is not open to decisions"""
    return (not fixed(was) or now == was) and (fixed(was) or not decision or now == StatusType.PROPOSED) and (fixed(was) or decision or now == StatusType.CANDIDATE)


def reset(away, now, was):
    return (not (away and not fixed(was)) or now == StatusType.CANDIDATE) and ((away and not fixed(was)) or now == was)


def parity(now, odd, even):
    return (not odd or now == PolarityType.ODD) and (odd or not even or now == PolarityType.EVEN) and (odd or even or now == PolarityType.UNASSIGNED)


def sector_status(topology, k): return topology.sectors[k]._status_type
def site_of(topology, k): return topology.sectors[k]._site._site_id


@contract(P + "_update_topology_sites")
class update_sites:
    prop = "C22"
    modular = True
    total = True
    types = {"topology": TOPO, "site_decisions": BY_SITE, "odd_site_decisions": BY_SITE, "even_site_decisions": BY_SITE}
    modifies = ["Site._status_type", "Site.polarity"]
    loops = {0: Inv(lambda topology, site_decisions, odd_site_decisions, even_site_decisions, done: {
        "decided for the sites seen": forall(ID, lambda s: s not in topology.sites or (not seen(topology, s, done) and status_of(topology, s) == before(lambda: status_of(topology, s)))
            or (seen(topology, s, done) and decided(chosen(site_decisions, s), status_of(topology, s), before(lambda: status_of(topology, s))))),
        "parity of the sites seen": forall(ID, lambda s: s not in topology.sites or not seen(topology, s, done) or (not (chosen(odd_site_decisions, s) and chosen(even_site_decisions, s))
            and parity(topology.sites[s].polarity, chosen(odd_site_decisions, s), chosen(even_site_decisions, s)))),
    })}

    def pre(topology): return {"sites under their id": forall(ID, lambda k: k not in topology.sites or topology.sites[k]._site_id == k)}

    def raises(topology, odd_site_decisions, even_site_decisions):
        return {OptimizerException: exists(ID, lambda s: s in topology.sites and chosen(odd_site_decisions, s) and chosen(even_site_decisions, s))}

    def post(topology, site_decisions, odd_site_decisions, even_site_decisions):
        return {"exactly the chosen sites are proposed": forall(ID, lambda s: s not in topology.sites or decided(chosen(site_decisions, s), status_of(topology, s), old(lambda: status_of(topology, s)))),
                "the decided parity": forall(ID, lambda s: s not in topology.sites or parity(topology.sites[s].polarity, chosen(odd_site_decisions, s), chosen(even_site_decisions, s)))}


@contract(P + "_update_topology_sectors")
class update_sectors:
    prop = "C22"
    modular = True
    total = True
    types = {"topology": TOPO, "sector_decisions": BY_PAIR, "channel_decisions": BY_PAIR}
    modifies = ["Sector._status_type", "Sector.channel"]
    loops = {0: Inv(lambda topology, sector_decisions, channel_decisions, done: {
        "decided for the sectors seen": forall(ID, lambda k: k not in topology.sectors or (not ((k, topology.sectors[k]) in done) and sector_status(topology, k) == before(lambda: sector_status(topology, k)))
            or ((k, topology.sectors[k]) in done and decided(chosen(sector_decisions, (site_of(topology, k), k)), sector_status(topology, k), before(lambda: sector_status(topology, k))))),
        "channels of the sectors seen": forall(ID, lambda k: k not in topology.sectors or (k, topology.sectors[k]) not in done or channel(topology, k, channel_decisions)),
    })}

    def pre(topology, sector_decisions):
        return {"sectors under their id": forall(ID, lambda k: k not in topology.sectors or topology.sectors[k]._sector_id == k),
                "open sectors stand on active or candidate sites, chosen ones on active sites": forall(ID, lambda k: k not in topology.sectors or fixed(sector_status(topology, k)) or active(topology.sectors[k]._site._status_type)
                    or (topology.sectors[k]._site._status_type == StatusType.CANDIDATE and not chosen(sector_decisions, (site_of(topology, k), k))))}

    def post(topology, sector_decisions, channel_decisions):
        return {"exactly the chosen sectors are proposed": forall(ID, lambda k: k not in topology.sectors or decided(chosen(sector_decisions, (site_of(topology, k), k)), sector_status(topology, k), old(lambda: sector_status(topology, k)))),
                "the decided channel, none by default": forall(ID, lambda k: k not in topology.sectors or channel(topology, k, channel_decisions))}


def channel(topology, k, decisions):
    return ((site_of(topology, k), k) not in decisions or topology.sectors[k].channel == decisions[(site_of(topology, k), k)]) and ((site_of(topology, k), k) in decisions or topology.sectors[k].channel == -1)


@contract(P + "_update_topology_links")
class update_links:
    prop = "C22"
    modular = True
    total = True
    types = {"topology": TOPO, "link_decisions": BY_PAIR}
    modifies = ["Link._status_type"]
    loops = {0: Inv(lambda topology, link_decisions, done: {
        "decided for the links seen": forall(ID, lambda k: k not in topology.links or (topology.links[k] not in done and link_status(topology, k) == before(lambda: link_status(topology, k)))
            or (topology.links[k] in done and decided(chosen(link_decisions, (tail(topology, k), head(topology, k))), link_status(topology, k), before(lambda: link_status(topology, k))))),
    })}

    def pre(topology, link_decisions):
        return {"links under their id": forall(ID, lambda k: k not in topology.links or topology.links[k]._link_id == k),
                "open links join active or candidate sites, chosen ones active sites": forall(ID, lambda k: k not in topology.links or fixed(link_status(topology, k))
                    or joins(topology, k, chosen(link_decisions, (tail(topology, k), head(topology, k)))))}

    def post(topology, link_decisions):
        return {"exactly the chosen links are proposed": forall(ID, lambda k: k not in topology.links or decided(chosen(link_decisions, (tail(topology, k), head(topology, k))), link_status(topology, k), old(lambda: link_status(topology, k))))}


def joins(topology, k, strictly):
    t, r = topology.links[k]._tx_site._status_type, topology.links[k]._rx_site._status_type
    return (active(t) or (t == StatusType.CANDIDATE and not strictly)) and (active(r) or (r == StatusType.CANDIDATE and not strictly))


@contract(P + "_remove_disconnected_components_from_topology")
class remove_disconnected:
    prop = "C22"
    modular = True
    total = True
    types = {"topology": TOPO}
    modifies = ["Site._status_type", "Sector._status_type", "Link._status_type"]
    loops = {
        0: Inv(lambda topology, hop_counts, done: {"sites seen": forall(ID, lambda s: s not in topology.sites or reset(seen(topology, s, done) and s not in hop_counts, status_of(topology, s), before(lambda: status_of(topology, s))))}),
        1: Inv(lambda topology, hop_counts, done: {"sectors seen": forall(ID, lambda k: k not in topology.sectors or reset(topology.sectors[k] in done and site_of(topology, k) not in hop_counts, sector_status(topology, k), before(lambda: sector_status(topology, k))))}),
        2: Inv(lambda topology, done: {"links seen": forall(ID, lambda k: k not in topology.links or reset(topology.links[k] in done and loose(topology, k) and before(lambda: link_status(topology, k)) == StatusType.PROPOSED, link_status(topology, k), before(lambda: link_status(topology, k))))}),
    }

    def pre(topology):
        return {**network(topology), **places(topology),
                "open sectors stand on active or candidate sites": forall(ID, lambda k: k not in topology.sectors or fixed(sector_status(topology, k)) or active(topology.sectors[k]._site._status_type) or topology.sectors[k]._site._status_type == StatusType.CANDIDATE),
                "proposed links join active sites": forall(ID, lambda k: k not in topology.links or link_status(topology, k) != StatusType.PROPOSED or joins(topology, k, True))}

    def post(topology):
        return {"sites stay or are reset": forall(ID, lambda s: s not in topology.sites or status_of(topology, s) == old(lambda: status_of(topology, s)) or (status_of(topology, s) == StatusType.CANDIDATE and not old(lambda: fixed(status_of(topology, s))))),
                "sectors stay or are reset": forall(ID, lambda k: k not in topology.sectors or sector_status(topology, k) == old(lambda: sector_status(topology, k)) or (sector_status(topology, k) == StatusType.CANDIDATE and not old(lambda: fixed(sector_status(topology, k))))),
                "a sector is reset with its site": forall(ID, lambda k: k not in topology.sectors or topology.sectors[k]._site._status_type != StatusType.CANDIDATE or old(lambda: topology.sectors[k]._site._status_type) == StatusType.CANDIDATE or sector_status(topology, k) == StatusType.CANDIDATE or fixed(sector_status(topology, k))),
                "exactly the proposed links at reset sites are reset": forall(ID, lambda k: k not in topology.links or reset(loose(topology, k) and old(lambda: link_status(topology, k)) == StatusType.PROPOSED, link_status(topology, k), old(lambda: link_status(topology, k))))}


@contract(P + "_remove_disconnected_components_from_topology")
class remove_disconnected_exactly:
    prop = "C22"
    total = True
    types = {"topology": TOPO}
    modifies = ["Site._status_type", "Sector._status_type", "Link._status_type"]
    loops = {
        0: Inv(lambda topology, hop_counts, done: {"sites seen": forall(ID, lambda s: s not in topology.sites or reset(seen(topology, s, done) and s not in hop_counts, status_of(topology, s), before(lambda: status_of(topology, s))))}),
        1: Inv(lambda topology, hop_counts, done: {"sectors seen": forall(ID, lambda k: k not in topology.sectors or reset(topology.sectors[k] in done and site_of(topology, k) not in hop_counts, sector_status(topology, k), before(lambda: sector_status(topology, k))))}),
        2: Inv(lambda topology, done: {"links seen": forall(ID, lambda k: k not in topology.links or reset(topology.links[k] in done and loose(topology, k) and before(lambda: link_status(topology, k)) == StatusType.PROPOSED, link_status(topology, k), before(lambda: link_status(topology, k))))}),
    }

    def pre(topology):
        return {**network(topology), **places(topology),
                "open sectors stand on active or candidate sites": forall(ID, lambda k: k not in topology.sectors or fixed(sector_status(topology, k)) or active(topology.sectors[k]._site._status_type) or topology.sectors[k]._site._status_type == StatusType.CANDIDATE),
                "proposed links join active sites": forall(ID, lambda k: k not in topology.links or link_status(topology, k) != StatusType.PROPOSED or joins(topology, k, True))}

    def post(topology, local_hop_counts):
        return {"exactly the proposed sites without a path are reset": forall(ID, lambda s: s not in topology.sites or reset(s not in local_hop_counts, status_of(topology, s), old(lambda: status_of(topology, s)))),
                "exactly the proposed sectors without a path are reset": forall(ID, lambda k: k not in topology.sectors or reset(site_of(topology, k) not in local_hop_counts, sector_status(topology, k), old(lambda: sector_status(topology, k)))),
                "exactly the proposed links at reset sites are reset": forall(ID, lambda k: k not in topology.links or reset(loose(topology, k) and old(lambda: link_status(topology, k)) == StatusType.PROPOSED, link_status(topology, k), old(lambda: link_status(topology, k)))),
                }


def loose(topology, k): return topology.links[k]._tx_site._status_type == StatusType.CANDIDATE or topology.links[k]._rx_site._status_type == StatusType.CANDIDATE


def places(topology):
    return {
        "items under their id": forall(ID, lambda k: (k not in topology.links or topology.links[k]._link_id == k) and (k not in topology.sectors or topology.sectors[k]._sector_id == k)),
        "link ends are the stored sites": forall(ID, lambda k: k not in topology.links or (tail(topology, k) in topology.sites and head(topology, k) in topology.sites and topology.sites[tail(topology, k)] is topology.links[k]._tx_site and topology.sites[head(topology, k)] is topology.links[k]._rx_site)),
        "sectors stand on stored sites": forall(ID, lambda k: k not in topology.sectors or (site_of(topology, k) in topology.sites and topology.sites[site_of(topology, k)] is topology.sectors[k]._site)),
    }


SOLUTION = TObj(OptimizationSolution)
for f, t in (("site_decisions", BY_SITE), ("odd_site_decisions", BY_SITE), ("even_site_decisions", BY_SITE), ("sector_decisions", BY_PAIR), ("link_decisions", BY_PAIR), ("channel_decisions", BY_PAIR)):
    REG.types[(OptimizationSolution, f)] = t


def decisions_agree(topology, sites, sectors, links):
    return {
        "open sectors stand on open or active sites": forall(ID, lambda k: k not in topology.sectors or fixed(sector_status(topology, k)) or topology.sectors[k]._site._status_type in (StatusType.EXISTING, StatusType.PROPOSED, StatusType.CANDIDATE)),
        "chosen sectors stand on chosen or existing sites": forall(ID, lambda k: k not in topology.sectors or fixed(sector_status(topology, k)) or not chosen(sectors, (site_of(topology, k), k)) or up(topology.sectors[k]._site, sites)),
        "open links join open or active sites": forall(ID, lambda k: k not in topology.links or fixed(link_status(topology, k)) or (topology.links[k]._tx_site._status_type in (StatusType.EXISTING, StatusType.PROPOSED, StatusType.CANDIDATE) and topology.links[k]._rx_site._status_type in (StatusType.EXISTING, StatusType.PROPOSED, StatusType.CANDIDATE))),
        "chosen links join chosen or existing sites": forall(ID, lambda k: k not in topology.links or fixed(link_status(topology, k)) or not chosen(links, (tail(topology, k), head(topology, k))) or (up(topology.links[k]._tx_site, sites) and up(topology.links[k]._rx_site, sites))),
    }


def up(site, sites): return site._status_type == StatusType.EXISTING or chosen(sites, site._site_id)


@contract(P + "update_topology_with_solution")
class update_topology:
    prop = "C22"
    total = True
    types = {"topology": TOPO, "solution": SOLUTION}
    modifies = ["Site._status_type", "Site.polarity", "Sector._status_type", "Sector.channel", "Link._status_type"]

    def pre(topology, solution):
        return {**network(topology), **places(topology), **decisions_agree(topology, solution.site_decisions, solution.sector_decisions, solution.link_decisions)}

    def raises(topology, solution):
        return {OptimizerException: exists(ID, lambda s: s in topology.sites and chosen(solution.odd_site_decisions, s) and chosen(solution.even_site_decisions, s))}

    def post(topology, solution):
        return {
            "fixed sites stay": forall(ID, lambda s: s not in topology.sites or not old(lambda: fixed(status_of(topology, s))) or status_of(topology, s) == old(lambda: status_of(topology, s))),
            "fixed sectors stay": forall(ID, lambda k: k not in topology.sectors or not old(lambda: fixed(sector_status(topology, k))) or sector_status(topology, k) == old(lambda: sector_status(topology, k))),
            "fixed links stay": forall(ID, lambda k: k not in topology.links or not old(lambda: fixed(link_status(topology, k))) or link_status(topology, k) == old(lambda: link_status(topology, k))),
            "proposed sites were chosen": forall(ID, lambda s: s not in topology.sites or old(lambda: fixed(status_of(topology, s))) or status_of(topology, s) == StatusType.CANDIDATE or (status_of(topology, s) == StatusType.PROPOSED and chosen(solution.site_decisions, s))),
            "proposed sectors were chosen": forall(ID, lambda k: k not in topology.sectors or old(lambda: fixed(sector_status(topology, k))) or sector_status(topology, k) == StatusType.CANDIDATE or (sector_status(topology, k) == StatusType.PROPOSED and chosen(solution.sector_decisions, (site_of(topology, k), k)))),
            "proposed links were chosen": forall(ID, lambda k: k not in topology.links or old(lambda: fixed(link_status(topology, k))) or link_status(topology, k) == StatusType.CANDIDATE or (link_status(topology, k) == StatusType.PROPOSED and chosen(solution.link_decisions, (tail(topology, k), head(topology, k))))),
            "chosen links between kept sites are proposed": forall(ID, lambda k: k not in topology.links or old(lambda: fixed(link_status(topology, k))) or loose(topology, k) or not chosen(solution.link_decisions, (tail(topology, k), head(topology, k))) or link_status(topology, k) == StatusType.PROPOSED),
            "no proposed link at a candidate site": forall(ID, lambda k: k not in topology.links or not loose(topology, k) or link_status(topology, k) != StatusType.PROPOSED),
            "no proposed sector on a candidate site": forall(ID, lambda k: k not in topology.sectors or topology.sectors[k]._site._status_type != StatusType.CANDIDATE or sector_status(topology, k) != StatusType.PROPOSED),
            "the decided channel, none by default": forall(ID, lambda k: k not in topology.sectors or channel(topology, k, solution.channel_decisions)),
            "the decided parity": forall(ID, lambda s: s not in topology.sites or parity(topology.sites[s].polarity, chosen(solution.odd_site_decisions, s), chosen(solution.even_site_decisions, s))),
        }
