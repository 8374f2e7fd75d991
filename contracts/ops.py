"""C15, C16, C23: reachability, marking, counts over the network."""
from contracts.topo import *
from terragraph_planner.common.configuration.enums import SiteType, StatusType

O = "terragraph_planner.optimization.topology_operations:"
COUNTS = TMap(TStr(), TInt())
STATUSES = TSet(TEnum(StatusType))


def linked(topology, k, status_filter):
    """a stored link that counts"""
    return k in topology.links and topology.links[k]._status_type in status_filter


def passes(topology, s, status_filter): return s in topology.sites and topology.sites[s]._status_type in status_filter
def pop(topology, s, status_filter): return passes(topology, s, status_filter) and topology.sites[s]._site_type == SiteType.POP
def tail(topology, k): return topology.links[k]._tx_site._site_id
def head(topology, k): return topology.links[k]._rx_site._site_id


def network(topology):
    return {"sites under their id": forall(ID, lambda k: k not in topology.sites or topology.sites[k]._site_id == k),
            "link ends present": forall(ID, lambda k: k not in topology.links or (topology.links[k]._tx_site._site_id in topology.sites and topology.links[k]._rx_site._site_id in topology.sites))}


def distances(topology, status_filter, hops, far):
    """hops counts the links of the shortest path to each site at most far away"""
    return {
        "points of presence, and only they, at 0": forall(ID, lambda s: iff(s in hops and hops[s] == 0, pop(topology, s, status_filter))),
        "sites that pass": forall(ID, lambda s: s not in hops or (passes(topology, s, status_filter) and 0 <= hops[s] and hops[s] <= far)),
        "a link from a site one hop nearer": forall(ID, lambda s: s not in hops or hops[s] == 0 or exists(ID, lambda k: linked(topology, k, status_filter) and head(topology, k) == s and tail(topology, k) in hops and hops[tail(topology, k)] + 1 == hops[s])),
        "no link to a site farther than one hop": forall(ID, lambda k: not linked(topology, k, status_filter) or not passes(topology, head(topology, k), status_filter) or tail(topology, k) not in hops or hops[tail(topology, k)] >= far
            or (head(topology, k) in hops and hops[head(topology, k)] <= hops[tail(topology, k)] + 1)),
    }


def nearest(topology, status_filter, hops):
    """what makes hops the shortest distances from the points of presence (see shortest_step)"""
    return {
        "points of presence, and only they, at 0": forall(ID, lambda s: iff(s in hops and hops[s] == 0, pop(topology, s, status_filter))),
        "sites that pass": forall(ID, lambda s: s not in hops or (passes(topology, s, status_filter) and 0 <= hops[s])),
        "each other site has a link from a site one hop nearer": forall(ID, lambda s: s not in hops or hops[s] == 0 or exists(ID, lambda k: linked(topology, k, status_filter) and head(topology, k) == s and tail(topology, k) in hops and hops[tail(topology, k)] + 1 == hops[s])),
        "no link leads to a site farther than one hop": forall(ID, lambda k: not linked(topology, k, status_filter) or not passes(topology, head(topology, k), status_filter) or tail(topology, k) not in hops or (head(topology, k) in hops and hops[head(topology, k)] <= hops[tail(topology, k)] + 1)),
    }


@lemma
class shortest_start:
    """induction on the number n of links of a walk, n = 0: the walks of no link end at the points of presence"""
    prop = ("C15", "C16")
    types = dict(topology=TOPO, status_filter=STATUSES, hops=COUNTS, ends=TSet(TStr()))

    def pre(topology, status_filter, hops, ends):
        return {**nearest(topology, status_filter, hops), "walks of no link": forall(ID, lambda s: iff(s in ends, pop(topology, s, status_filter)))}

    def post(hops, ends):
        return {"all ends have at most 0 hops": forall(ID, lambda s: s not in ends or (s in hops and hops[s] <= 0)),
                "all sites with 0 hops are ends": forall(ID, lambda s: s not in hops or hops[s] != 0 or s in ends)}


@lemma
class shortest_step:
    """from n to n + 1: ends are where walks of n links from a point of presence over counted links and sites lead,
    onward where walks of n + 1 links lead. So a site with h hops is the end of a walk of h links and no walk to it is shorter."""
    prop = ("C15", "C16")
    types = dict(topology=TOPO, status_filter=STATUSES, hops=COUNTS, ends=TSet(TStr()), onward=TSet(TStr()), n=TInt())

    def pre(topology, status_filter, hops, ends, onward, n):
        return {**nearest(topology, status_filter, hops), "links so far": n >= 0,
                "one link more": forall(ID, lambda s: iff(s in onward, passes(topology, s, status_filter) and exists(ID, lambda k: linked(topology, k, status_filter) and head(topology, k) == s and tail(topology, k) in ends))),
                "all ends have at most n hops": forall(ID, lambda s: s not in ends or (s in hops and hops[s] <= n)),
                "all sites with n hops are ends": forall(ID, lambda s: s not in hops or hops[s] != n or s in ends)}

    def post(hops, onward, n):
        return {"all ends have at most n + 1 hops": forall(ID, lambda s: s not in onward or (s in hops and hops[s] <= n + 1)),
                "all sites with n + 1 hops are ends": forall(ID, lambda s: s not in hops or hops[s] != n + 1 or s in onward)}


@contract(O + "hops_from_pops")
class hops_from_pops:
    prop = ("C15", "C16")
    modular = True
    types = {"topology": TOPO, "status_filter": STATUSES}
    modifies = []
    loops = {
        0: Inv(lambda hop_counts, hop, done: {"only zeros, for the sites seen": forall(ID, lambda s: iff(s in hop_counts, s in done) and (s not in hop_counts or hop_counts[s] == 0))}, types={"hop_counts": COUNTS}),
        1: Inv(lambda topology, status_filter, hop_counts, current_site_ids, hop: {"counted": hop >= 0, "the sites reached so far": forall(ID, lambda s: iff(s in hop_counts, s in current_site_ids)), **distances(topology, status_filter, hop_counts, hop)}, types={"hop_counts": COUNTS, "current_site_ids": TSet(TStr())}),
        2: Inv(lambda hop_counts, current_site_ids, hop, done: {
            "those seen are one hop farther": forall(ID, lambda s: iff(s in hop_counts, s in done or s in current_site_ids) and (s not in done or hop_counts[s] == hop)),
            "those known as before": forall(ID, lambda s: s not in before(lambda: hop_counts) or (s in hop_counts and (s in done or hop_counts[s] == before(lambda: hop_counts[s])))),
        }, types={"hop_counts": COUNTS}),
    }

    def pre(topology): return {**network(topology)}

    def post(topology, status_filter, result): return {**nearest(topology, status_filter, result)}


@contract(O + "hops_from_pops")
class hops_from_pops_all:
    """without a filter every status counts"""
    prop = "C15"
    modular = False
    types = {"topology": TOPO}
    fixed = {"status_filter": None}
    modifies = []
    loops = hops_from_pops.loops

    def pre(topology): return {**network(topology)}

    def post(topology, result):
        return {
            "points of presence, and only they, at 0": forall(ID, lambda s: iff(s in result and result[s] == 0, s in topology.sites and topology.sites[s]._site_type == SiteType.POP)),
            "sites that pass": forall(ID, lambda s: s not in result or (s in topology.sites and 0 <= result[s])),
            "each other site has a link from a site one hop nearer": forall(ID, lambda s: s not in result or result[s] == 0 or exists(ID, lambda k: k in topology.links and head(topology, k) == s and tail(topology, k) in result and result[tail(topology, k)] + 1 == result[s])),
            "no link leads to a site farther than one hop": forall(ID, lambda k: k not in topology.links or tail(topology, k) not in result or (head(topology, k) in result and result[head(topology, k)] <= result[tail(topology, k)] + 1)),
        }


@contract(O + "get_reachable_demand_sites")
class reachable_demand:
    prop = "C15"
    types = {"topology": TOPO, "status_filter": STATUSES}
    modifies = []
    loops = {
        0: Inv(lambda topology, reachable_demand_sites, hops_counts, done: {"the reachable ones of those seen": forall(ID, lambda d: iff(d in reachable_demand_sites, d in topology.demand_sites and topology.demand_sites[d] in done and attached(topology, d, hops_counts)))}, types={"reachable_demand_sites": TSet(TStr())}),
        1: Inv(lambda reachable_demand_sites, demand_site, hops_counts, done: {"added once a site is reachable": forall(ID, lambda d: iff(d in reachable_demand_sites, d in before(lambda: reachable_demand_sites) or (d == demand_site._demand_id and exists(SITE, lambda s: s in done and s._site_id in hops_counts))))}, types={"reachable_demand_sites": TSet(TStr())}),
    }

    def pre(topology): return {**network(topology), "demand under its id": forall(ID, lambda k: k not in topology.demand_sites or topology.demand_sites[k]._demand_id == k)}

    def post(topology, status_filter, local_hops_counts, result):
        return {"exactly the demand at a reachable site": forall(ID, lambda d: iff(d in result, d in topology.demand_sites and attached(topology, d, local_hops_counts))),
                }


def attached(topology, d, hops):
    """the demand is attached to a site with a hop count"""
    return exists(SITE, lambda s: s in topology.demand_sites[d].connected_sites and s._site_id in hops)


# ------------------------------------------------------------------ C16
def status_of(topology, s): return topology.sites[s]._status_type
def link_status(topology, k): return topology.links[k]._status_type


def far(s, hops, maximum_hops):
    """unreachable, or more hops away than a positive limit"""
    return s not in hops or (maximum_hops is not None and maximum_hops != 0 and hops[s] > maximum_hops)


def agreed(topology):
    """statuses as C03 keeps them, ends and places being the stored sites"""
    return {
        "link ends are the stored sites": forall(ID, lambda k: k not in topology.links or (topology.sites[tail(topology, k)] is topology.links[k]._tx_site and topology.sites[head(topology, k)] is topology.links[k]._rx_site)),
        "sectors stand on stored sites": forall(ID, lambda k: k not in topology.sectors or topology.sites[topology.sectors[k]._site._site_id] is topology.sectors[k]._site),
        "links at unavailable sites are unavailable, existing links join existing sites": forall(ID, lambda k: k not in topology.links or (
            (link_status(topology, k) == StatusType.UNAVAILABLE or (status_of(topology, tail(topology, k)) != StatusType.UNAVAILABLE and status_of(topology, head(topology, k)) != StatusType.UNAVAILABLE))
            and (link_status(topology, k) != StatusType.EXISTING or (status_of(topology, tail(topology, k)) == StatusType.EXISTING and status_of(topology, head(topology, k)) == StatusType.EXISTING)))),
        "sectors of candidate and unreachable sites are not final": forall(ID, lambda k: k not in topology.sectors or not (topology.sectors[k]._site._status_type == StatusType.CANDIDATE or topology.sectors[k]._site._status_type == StatusType.UNREACHABLE) or not final(topology.sectors[k]._status_type)),
    }


def becomes(c, now, was): return (not c or now == StatusType.UNREACHABLE) and (c or now == was)


def marked(topology, s, hops, maximum_hops, was): return far(s, hops, maximum_hops) and was == StatusType.CANDIDATE
def seen(topology, s, done): return (s, topology.sites[s]) in done


@contract(O + "mark_unreachable_components")
class mark_unreachable:
    prop = "C16"
    total = True
    types = {"topology": TOPO, "maximum_hops": TOpt(TInt())}
    loops = {
        0: Inv(lambda topology, maximum_hops, hop_counts, done: {
            "far candidates among the sites seen are unreachable, the others as before": forall(ID, lambda s: s not in topology.sites or becomes(
                seen(topology, s, done) and marked(topology, s, hop_counts, maximum_hops, before(lambda: status_of(topology, s))), status_of(topology, s), before(lambda: status_of(topology, s)))),
            "links at them too": forall(ID, lambda k: k not in topology.links or becomes(
                before(lambda: link_status(topology, k)) != StatusType.UNAVAILABLE and (
                    (seen(topology, tail(topology, k), done) and marked(topology, tail(topology, k), hop_counts, maximum_hops, before(lambda: status_of(topology, tail(topology, k)))))
                    or (seen(topology, head(topology, k), done) and marked(topology, head(topology, k), hop_counts, maximum_hops, before(lambda: status_of(topology, head(topology, k)))))),
                link_status(topology, k), before(lambda: link_status(topology, k)))),
        }),
        1: Inv(lambda topology, site_id, done: {"links to the sites seen": forall(ID, lambda k: k not in topology.links or becomes(
            before(lambda: link_status(topology, k)) != StatusType.UNAVAILABLE and tail(topology, k) == site_id and topology.links[k]._rx_site in done, link_status(topology, k), before(lambda: link_status(topology, k))))}),
        2: Inv(lambda topology, site_id, done: {"links from the sites seen": forall(ID, lambda k: k not in topology.links or becomes(
            before(lambda: link_status(topology, k)) != StatusType.UNAVAILABLE and head(topology, k) == site_id and topology.links[k]._tx_site in done, link_status(topology, k), before(lambda: link_status(topology, k))))}),
        3: Inv(lambda topology, done: {"sectors of unreachable sites among those seen": forall(ID, lambda k: k not in topology.sectors or becomes(
            topology.sectors[k] in done and topology.sectors[k]._site._status_type == StatusType.UNREACHABLE, topology.sectors[k]._status_type, before(lambda: topology.sectors[k]._status_type)))}),
    }

    def pre(topology): return {**graph(topology), **network(topology), **agreed(topology)}

    def post(topology, maximum_hops, local_hop_counts):
        return {
            "exactly the candidates too far away become unreachable": forall(ID, lambda s: s not in topology.sites or becomes(
                marked(topology, s, local_hop_counts, maximum_hops, old(lambda: status_of(topology, s))), status_of(topology, s), old(lambda: status_of(topology, s)))),
            "exactly the links at them, unless unavailable": forall(ID, lambda k: k not in topology.links or becomes(
                old(lambda: link_status(topology, k)) != StatusType.UNAVAILABLE and (marked(topology, tail(topology, k), local_hop_counts, maximum_hops, old(lambda: status_of(topology, tail(topology, k))))
                    or marked(topology, head(topology, k), local_hop_counts, maximum_hops, old(lambda: status_of(topology, head(topology, k))))),
                link_status(topology, k), old(lambda: link_status(topology, k)))),
            "exactly the sectors of unreachable sites": forall(ID, lambda k: k not in topology.sectors or becomes(
                topology.sectors[k]._site._status_type == StatusType.UNREACHABLE, topology.sectors[k]._status_type, old(lambda: topology.sectors[k]._status_type))),
        }
