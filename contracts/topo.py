"""C01, C02: the network graph."""
from contracts.model import *
from terragraph_planner.common.structs import GeoPoint
from terragraph_planner.common.topology_models.topology import Topology

T = M + "topology:Topology."
TOPO = TObj(Topology)
REG.fmt_inj.add("{}-{}")
ID, IDS, IJ = TStr(), TTup([TStr(), TStr()]), TTup([TInt(), TInt()])
TTup2 = TTup([SECTOR, SECTOR])
REG.types.update({(Topology, "site_id_to_sector_ids"): TMap(TStr(), TSet(TStr()), default=set)})


def joined(self, a, b): return a in self.site_connectivity and b in self.site_connectivity[a]
def joined_back(self, a, b): return b in self.site_connectivity_reverse and a in self.site_connectivity_reverse[b]
def listed(self, s, k): return s in self.site_id_to_sector_ids and k in self.site_id_to_sector_ids[s]


def consistent(self):
    return {
        "sites under their id": forall(ID, lambda k: k not in self.sites or self.sites[k]._site_id == k),
        "demand under its id": forall(ID, lambda k: k not in self.demand_sites or self.demand_sites[k]._demand_id == k),
        "sectors under their id, sites present": forall(ID, lambda k: k not in self.sectors or (self.sectors[k]._sector_id == k and self.sectors[k]._site._site_id in self.sites)),
        "links under their id, ends present": forall(ID, lambda k: k not in self.links or (self.links[k]._link_id == k and self.links[k]._tx_site._site_id in self.sites and self.links[k]._rx_site._site_id in self.sites)),
        "sector lists are exactly the sectors of the site": forall(IDS, lambda s, k: listed(self, s, k) == (k in self.sectors and self.sectors[k]._site._site_id == s)),
        "connectivity is exactly the links": forall(IDS, lambda a, b: joined(self, a, b) == (f"{a}-{b}" in self.links)),
        "connectivity names the link": forall(IDS, lambda a, b: not joined(self, a, b) or self.site_connectivity[a][b] == f"{a}-{b}"),
        "reverse connectivity is the mirror": forall(IDS, lambda a, b: joined_back(self, a, b) == joined(self, a, b)),
        "reverse connectivity names the link": forall(IDS, lambda a, b: not joined_back(self, a, b) or self.site_connectivity_reverse[b][a] == f"{a}-{b}"),
    }


def same_sites(self):
    return {"sites as before": forall(ID, lambda k: iff(k in self.sites, k in old(lambda: self.sites)) and (k not in self.sites or self.sites[k] is old(lambda: self.sites[k])))}


def same_demand(self):
    return {"demand as before": forall(ID, lambda k: iff(k in self.demand_sites, k in old(lambda: self.demand_sites)) and (k not in self.demand_sites or self.demand_sites[k] is old(lambda: self.demand_sites[k])))}


def same_sectors(self):
    return {"sectors as before": forall(ID, lambda k: iff(k in self.sectors, k in old(lambda: self.sectors)) and (k not in self.sectors or self.sectors[k] is old(lambda: self.sectors[k])))}


def same_links(self):
    return {"links as before": forall(ID, lambda k: iff(k in self.links, k in old(lambda: self.links)) and (k not in self.links or self.links[k] is old(lambda: self.links[k])))}


def same_link_sectors():
    return {"no link changes its sectors": unchanged(Link, "_tx_sector") and unchanged(Link, "_rx_sector")}


def ids_from_ends():
    """what the constructors of links and sectors establish"""
    return {"link ids name the ends": forall(LINK, lambda l: l._link_id == f"{l._tx_site._site_id}-{l._rx_site._site_id}")}


@contract(T + "add_site")
class add_site:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self), **ids_from_ends()}

    def raises(self, site):
        return {TopologyException: isinstance(site, DetectedSite) or site._site_id in self.sites}

    def post(self, site):
        return {**consistent(self), **same_demand(self), **same_sectors(self), **same_links(self), **same_link_sectors(),
                "exactly this site more": forall(ID, lambda k: iff(k in self.sites, k == site._site_id or k in old(lambda: self.sites))),
                "stored": self.sites[site._site_id] is site,
                "the others as before": forall(ID, lambda k: k == site._site_id or k not in self.sites or self.sites[k] is old(lambda: self.sites[k]))}


@contract(T + "add_demand_site")
class add_demand_site:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self)}

    def post(self, demand_site):
        return {**consistent(self), **same_sites(self), **same_sectors(self), **same_links(self), **same_link_sectors(), "stored": self.demand_sites[demand_site._demand_id] is demand_site,
                "the others as before": forall(ID, lambda k: k == demand_site._demand_id or iff(k in self.demand_sites, k in old(lambda: self.demand_sites)))}


@contract(T + "remove_demand_site")
class remove_demand_site:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self)}

    def raises(self, demand_site_id):
        return {TopologyException: demand_site_id not in self.demand_sites}

    def post(self, demand_site_id):
        return {**consistent(self), **same_sites(self), **same_sectors(self), **same_links(self), **same_link_sectors(), "exactly this one less": forall(ID, lambda k: iff(k in self.demand_sites, k != demand_site_id and k in old(lambda: self.demand_sites)))}


@contract(T + "add_sector")
class add_sector:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self)}

    def raises(self, sector):
        return {TopologyException: sector._sector_id in self.sectors or sector._site._site_id not in self.sites}

    def post(self, sector):
        return {**consistent(self), **same_sites(self), **same_demand(self), **same_links(self), **same_link_sectors(), "stored": self.sectors[sector._sector_id] is sector,
                "exactly this sector more": forall(ID, lambda k: iff(k in self.sectors, k == sector._sector_id or k in old(lambda: self.sectors))),
                "the others as before": forall(ID, lambda k: k == sector._sector_id or k not in self.sectors or self.sectors[k] is old(lambda: self.sectors[k]))}


@contract(T + "add_link")
class add_link:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self), **ids_from_ends()}

    def raises(self, link):
        return {PlannerException: link._tx_site._site_id not in self.sites or link._rx_site._site_id not in self.sites}

    def post(self, link):
        return {**consistent(self), **same_sites(self), **same_demand(self), **same_sectors(self), **same_link_sectors(), "stored": self.links[link._link_id] is link,
                "exactly this link more": forall(ID, lambda k: iff(k in self.links, k == link._link_id or k in old(lambda: self.links))),
                "the others as before": forall(ID, lambda k: k == link._link_id or k not in self.links or self.links[k] is old(lambda: self.links[k]))}


@contract(T + "remove_link")
class remove_link:
    prop = "C01"
    types = {"self": TOPO}
    modular = True
    modifies = ["self.links", "self.site_connectivity", "self.site_connectivity_reverse"]

    def pre(self):
        return {**consistent(self), **ids_from_ends()}

    def raises(self, link_id):
        return {PlannerException: link_id not in self.links}

    def post(self, link_id):
        return {**consistent(self), **same_sites(self), **same_demand(self), **same_sectors(self), **same_link_sectors(),
                "exactly this link less": forall(ID, lambda k: iff(k in self.links, k != link_id and k in old(lambda: self.links))),
                "the others as before": forall(ID, lambda k: k not in self.links or self.links[k] is old(lambda: self.links[k]))}


@contract(T + "remove_sector")
class remove_sector:
    prop = "C01"
    types = {"self": TOPO}

    def pre(self):
        return {**consistent(self), **ids_from_ends()}

    def raises(self, sector_id):
        return {TopologyException: sector_id not in self.sectors}

    def post(self, sector_id):
        return {**consistent(self), **same_sites(self), **same_demand(self), **same_links(self),
                "exactly this sector less": forall(ID, lambda k: iff(k in self.sectors, k != sector_id and k in old(lambda: self.sectors))),
                "the others as before": forall(ID, lambda k: k not in self.sectors or self.sectors[k] is old(lambda: self.sectors[k]))}


@contract(T + "remove_site")
class remove_site:
    prop = "C01"
    types = {"self": TOPO}
    loops = {
        2: Inv(lambda self, site_id, link_to_remove, done: {
            "each once": forall(IJ, lambda i, j: not (0 <= i and i < j and j < len(link_to_remove)) or link_to_remove[i] != link_to_remove[j]),
            "outgoing ones and those seen": forall(ID, lambda k: iff(k in link_to_remove, exists(ID, lambda b: joined(self, site_id, b) and k == f"{site_id}-{b}") or k in done)),
        }, types={"link_to_remove": TSeq(TStr())}),
        3: Inv(lambda self, site_id, link_to_remove, done: {
            **consistent(self),
            "exactly the links seen are gone": forall(ID, lambda k: iff(k in self.links, k in old(lambda: self.links) and k not in done)),
            "the others as before": forall(ID, lambda k: k not in self.links or self.links[k] is old(lambda: self.links[k])),
        }),
    }

    def pre(self):
        return {**consistent(self), **ids_from_ends()}

    def raises(self, site_id):
        return {TopologyException: site_id not in self.sites}

    def post(self, site_id):
        return {**consistent(self), **same_demand(self), **same_link_sectors(),
                "exactly this site less": forall(ID, lambda k: iff(k in self.sites, k != site_id and k in old(lambda: self.sites))),
                "exactly its sectors less": forall(ID, lambda k: iff(k in self.sectors, k in old(lambda: self.sectors) and old(lambda: self.sectors[k])._site._site_id != site_id)),
                "exactly its links less": forall(ID, lambda k: iff(k in self.links, k in old(lambda: self.links) and old(lambda: self.links[k])._tx_site._site_id != site_id and old(lambda: self.links[k])._rx_site._site_id != site_id)),
                "the others as before": forall(ID, lambda k: (k not in self.sites or self.sites[k] is old(lambda: self.sites[k])) and (k not in self.sectors or self.sectors[k] is old(lambda: self.sectors[k])) and (k not in self.links or self.links[k] is old(lambda: self.links[k])))}


# ------------------------------------------------------------------ C02
def graph(self): return {**consistent(self), **ids_from_ends()}


def wired_or_not(self, a, b): return f"{a}-{b}" in self.links
def wireless(self, a, b): return f"{a}-{b}" in self.links and self.links[f"{a}-{b}"].is_wireless


@contract(T + "get_successor_sites")
class successors:
    prop = "C02"
    modular = True
    types = {"self": TOPO}
    modifies = []

    def pre(self): return {**graph(self)}

    def raises(self, site): return {TopologyException: site._site_id not in self.sites}

    def post(self, site, result):
        return {"exactly the sites at the end of a link from here": forall(SITE, lambda s: iff(s in result, s._site_id in self.sites and self.sites[s._site_id] is s and wired_or_not(self, site._site_id, s._site_id)))}


@contract(T + "get_predecessor_sites")
class predecessors:
    prop = "C02"
    modular = True
    types = {"self": TOPO}
    modifies = []

    def pre(self): return {**graph(self)}

    def raises(self, site): return {TopologyException: site._site_id not in self.sites}

    def post(self, site, result):
        return {"exactly the sites at the start of a link to here": forall(SITE, lambda s: iff(s in result, s._site_id in self.sites and self.sites[s._site_id] is s and wired_or_not(self, s._site_id, site._site_id)))}


@contract(T + "get_wireless_successor_sites")
class wireless_successors:
    prop = "C02"
    types = {"self": TOPO}
    loops = {0: Inv(lambda self, site, wireless_successor_sites, done: {"the wireless ones of those seen": forall(SITE, lambda s: iff(s in wireless_successor_sites, s in done and wireless(self, site._site_id, s._site_id)))}, types={"wireless_successor_sites": TSeq(SITE)})}

    def pre(self): return {**graph(self)}

    def raises(self, site): return {TopologyException: site._site_id not in self.sites}

    def post(self, site, result):
        return {"exactly the sites at the end of a wireless link from here": forall(SITE, lambda s: iff(s in result, s._site_id in self.sites and self.sites[s._site_id] is s and wireless(self, site._site_id, s._site_id)))}


@contract(T + "get_wireless_predecessor_sites")
class wireless_predecessors:
    prop = "C02"
    types = {"self": TOPO}
    loops = {0: Inv(lambda self, site, wireless_predecessor_sites, done: {"the wireless ones of those seen": forall(SITE, lambda s: iff(s in wireless_predecessor_sites, s in done and wireless(self, s._site_id, site._site_id)))}, types={"wireless_predecessor_sites": TSeq(SITE)})}

    def pre(self): return {**graph(self)}

    def raises(self, site): return {TopologyException: site._site_id not in self.sites}

    def post(self, site, result):
        return {"exactly the sites at the start of a wireless link to here": forall(SITE, lambda s: iff(s in result, s._site_id in self.sites and self.sites[s._site_id] is s and wireless(self, s._site_id, site._site_id)))}


@contract(T + "get_link_by_site_ids")
class link_by_sites:
    prop = "C02"
    modular = True
    types = {"self": TOPO}
    modifies = []

    def pre(self): return {**graph(self)}

    def raises(self, tx_site_id, rx_site_id): return {TopologyException: tx_site_id not in self.sites or rx_site_id not in self.sites}

    def post(self, tx_site_id, rx_site_id, result):
        return {"none exactly if no link joins them": (result is None) == (not joined(self, tx_site_id, rx_site_id)),
                "the stored link between them": result is None or (result._link_id in self.links and self.links[result._link_id] is result and result._tx_site._site_id == tx_site_id and result._rx_site._site_id == rx_site_id)}


@contract(T + "get_reverse_link")
class reverse_link:
    prop = "C02"
    types = {"self": TOPO}
    modifies = []

    def pre(self): return {**graph(self)}

    def raises(self, link): return {TopologyException: link._tx_site._site_id not in self.sites or link._rx_site._site_id not in self.sites}

    def post(self, link, result):
        return {"none exactly if no link runs back": (result is None) == (not joined(self, link._rx_site._site_id, link._tx_site._site_id)),
                "the stored link running back": result is None or (self.links[result._link_id] is result and result._tx_site._site_id == link._rx_site._site_id and result._rx_site._site_id == link._tx_site._site_id)}


@contract(T + "get_link_by_sector_ids")
class link_by_sectors:
    prop = "C02"
    types = {"self": TOPO}
    modifies = []

    def pre(self):
        return {**graph(self), "sectors under their id everywhere": forall(LINK, lambda l: (l._tx_sector is None or l._tx_sector._site is l._tx_site) and (l._rx_sector is None or l._rx_sector._site is l._rx_site)),
                "equal sectors have equal sites": forall(TTup2, lambda a, b: a._sector_id != b._sector_id or a._site._site_id == b._site._site_id)}

    def raises(self, tx_sector_id, rx_sector_id): return {TopologyException: tx_sector_id not in self.sectors or rx_sector_id not in self.sectors}

    def post(self, tx_sector_id, rx_sector_id, result):
        return {"uses exactly these sectors": result is None or (result._tx_sector is not None and result._rx_sector is not None and result._tx_sector._sector_id == tx_sector_id and result._rx_sector._sector_id == rx_sector_id and result._link_id in self.links and self.links[result._link_id] is result),
                "none only if no link uses them": result is not None or forall(ID, lambda k: k not in self.links or self.links[k]._tx_sector is None or self.links[k]._rx_sector is None or self.links[k]._tx_sector._sector_id != tx_sector_id or self.links[k]._rx_sector._sector_id != rx_sector_id)}


@contract(T + "get_site_ids")
class site_ids:
    prop = "C02"
    types = {"self": TOPO, "status_filter": TOpt(TSet(TEnum(StatusType))), "site_type_filter": TOpt(TSet(TEnum(SiteType)))}
    modifies = []

    def post(self, status_filter, site_type_filter, result):
        return {"exactly the matching sites": forall(ID, lambda k: iff(k in result, k in self.sites and (status_filter is None or self.sites[k]._status_type in status_filter) and (site_type_filter is None or self.sites[k]._site_type in site_type_filter)))}


@contract(T + "get_link_site_id_pairs")
class link_site_id_pairs:
    prop = "C02"
    types = {"self": TOPO, "status_filter": TOpt(TSet(TEnum(StatusType))), "link_type_filter": TOpt(TSet(TEnum(LinkType)))}
    modifies = []

    def pre(self): return {**graph(self)}

    def post(self, status_filter, link_type_filter, result):
        return {"exactly the ends of the matching links": forall(IDS, lambda a, b: iff((a, b) in result, f"{a}-{b}" in self.links and (status_filter is None or self.links[f"{a}-{b}"]._status_type in status_filter) and (link_type_filter is None or self.links[f"{a}-{b}"].link_type in link_type_filter)))}


@contract(T + "get_sectorless_links")
class sectorless_links:
    prop = "C02"
    types = {"self": TOPO}
    modifies = []

    def pre(self): return {**graph(self)}

    def post(self, result):
        return {"exactly the ends of wireless links lacking a sector": forall(IDS, lambda a, b: iff((a, b) in result, wireless(self, a, b) and (self.links[f"{a}-{b}"]._tx_sector is None or self.links[f"{a}-{b}"]._rx_sector is None)))}


@contract(T + "get_sector_ids")
class sector_ids:
    prop = "C02"
    types = {"self": TOPO, "status_filter": TSet(TEnum(StatusType))}
    modifies = []

    def post(self, status_filter, result):
        return {"exactly the matching sectors by site": forall(IDS, lambda s, k: iff(s in result and k in result[s], k in self.sectors and self.sectors[k]._site._site_id == s and self.sectors[k]._status_type in status_filter)),
                "no site without one": forall(ID, lambda s: s not in result or exists(ID, lambda k: k in result[s]))}


@contract(T + "get_site_polarities")
class site_polarities:
    prop = "C02"
    types = {"self": TOPO}
    modifies = []

    def post(self, result):
        return {"odd": forall(ID, lambda k: iff(k in result[PolarityType.ODD], k in self.sites and active(self.sites[k]._status_type) and self.sites[k]._site_type != SiteType.CN and self.sites[k].polarity == PolarityType.ODD)),
                "even": forall(ID, lambda k: iff(k in result[PolarityType.EVEN], k in self.sites and active(self.sites[k]._status_type) and self.sites[k]._site_type != SiteType.CN and self.sites[k].polarity == PolarityType.EVEN))}


@contract(T + "sector_connectivity")
class sector_links:
    prop = ("C01", "C02")
    types = {"self": TOPO}
    modifies = []

    def pre(self):
        return {"sectors join at most one link": forall(IDS, lambda a, b: a == b or a not in self.links or b not in self.links or self.links[a]._tx_sector is None or self.links[b]._tx_sector is None or self.links[a]._rx_sector is None or self.links[b]._rx_sector is None or self.links[a]._tx_sector._sector_id != self.links[b]._tx_sector._sector_id or self.links[a]._rx_sector._sector_id != self.links[b]._rx_sector._sector_id)}

    def post(self, result):
        return {"exactly the sector pairs of the links": forall(IDS, lambda a, b: iff(a in result and b in result[a], exists(ID, lambda k: k in self.links and self.links[k]._tx_sector is not None and self.links[k]._rx_sector is not None and self.links[k]._tx_sector._sector_id == a and self.links[k]._rx_sector._sector_id == b))),
                "named by the link": forall(ID, lambda k: k not in self.links or self.links[k]._tx_sector is None or self.links[k]._rx_sector is None or result[self.links[k]._tx_sector._sector_id][self.links[k]._rx_sector._sector_id] == self.links[k]._link_id)}


@contract(T + "sector_connectivity_reverse")
class sector_links_reverse:
    prop = ("C01", "C02")
    types = {"self": TOPO}
    modifies = []

    def pre(self):
        return {"sectors join at most one link": forall(IDS, lambda a, b: a == b or a not in self.links or b not in self.links or self.links[a]._tx_sector is None or self.links[b]._tx_sector is None or self.links[a]._rx_sector is None or self.links[b]._rx_sector is None or self.links[a]._tx_sector._sector_id != self.links[b]._tx_sector._sector_id or self.links[a]._rx_sector._sector_id != self.links[b]._rx_sector._sector_id)}

    def post(self, result):
        return {"exactly the sector pairs of the links": forall(IDS, lambda a, b: iff(b in result and a in result[b], exists(ID, lambda k: k in self.links and self.links[k]._tx_sector is not None and self.links[k]._rx_sector is not None and self.links[k]._tx_sector._sector_id == a and self.links[k]._rx_sector._sector_id == b)))}


@contract(T + "get_colocated_sites")
class colocated:
    prop = "C02"
    types = {"self": TOPO}
    modifies = []

    def post(self, result):
        return {"every site under its own place": forall(ID, lambda k: k not in self.sites or (place(self, k) in result and k in result[place(self, k)])),
                "nothing else": forall(TTup4, lambda x, y, z, k: GeoPoint(x, y, z) not in result or k not in result[GeoPoint(x, y, z)] or (k in self.sites and place(self, k) == GeoPoint(x, y, z))),
                "no empty group": forall(TTup3, lambda x, y, z: GeoPoint(x, y, z) not in result or exists(ID, lambda k: k in result[GeoPoint(x, y, z)]))}


def place(self, k): return GeoPoint(self.sites[k]._location.longitude, self.sites[k]._location.latitude, self.sites[k]._location.altitude)


TTup3 = TTup([TReal(), TReal(), TOpt(TReal())])
TTup4 = TTup([TReal(), TReal(), TOpt(TReal()), TStr()])


TTupDS = TTup([TRef(DemandSite), SITE])


@contract(T + "sort")
class sort_graph:
    prop = "C02"
    types = {"self": TOPO}
    loops = {0: Inv(lambda self: {"demand stays connected": forall(TTupDS, lambda d, s: iff(s in d.connected_sites, old(lambda: s in d.connected_sites)))})}

    def pre(self): return {**graph(self)}

    def post(self):
        return {**same_sites(self), **same_sectors(self), **same_links(self), **same_demand(self), **same_link_sectors(), **consistent(self),
                "demand stays connected": forall(TTupDS, lambda d, s: iff(s in d.connected_sites, old(lambda: s in d.connected_sites)))}


