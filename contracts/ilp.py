"""C30: constraint builders of the integer programmes.  The variables stand for their values in one arbitrary
assignment; the programme handed to the solver is the conjunction of the constraints added to it.  Proved for every
network and every assignment: a builder keeps the programme satisfied exactly if its planning rule holds."""
import enum

from contracts.common import *
from harness import recorder
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import SectorType, SiteType
from terragraph_planner.optimization.constants import DEMAND, DEMAND_SECTOR, SUPERSOURCE, SUPERSOURCE_SECTOR
from pyvc.values import UNIONS

recorder.install()
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization  # noqa: E402
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork  # noqa: E402
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork  # noqa: E402
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork  # noqa: E402


class Programme:
    """satisfied: all constraints added so far hold for the assignment"""
    satisfied: bool

    def addConstraint(self, c): self.satisfied = all((self.satisfied, c))


class Kind(enum.Enum):
    """the kinds of locations: those of sites and two strings (see UNIONS)"""
    CN = 1
    DN = 2
    POP = 3
    DEMAND = 4
    SUPERSOURCE = 5


class SectorKind(enum.Enum):
    CN = 1
    DN = 2
    DEMAND = 3
    SUPERSOURCE = 4


UNIONS[Kind] = {SiteType.CN: Kind.CN, SiteType.DN: Kind.DN, SiteType.POP: Kind.POP, DEMAND: Kind.DEMAND, SUPERSOURCE: Kind.SUPERSOURCE}
UNIONS[SectorKind] = {SectorType.CN: SectorKind.CN, SectorType.DN: SectorKind.DN, DEMAND_SECTOR: SectorKind.DEMAND, SUPERSOURCE_SECTOR: SectorKind.SUPERSOURCE}
REG.models[recorder.Sum] = REG.models[sum]
REG.entities |= {Programme, OptimizerParams}
REG.identity_eq |= {Programme, OptimizerParams}
REG.types.update({(Programme, "satisfied"): TBool()})

L2, L3 = TTup([TStr(), TStr()]), TTup([TStr(), TStr(), TInt()])
D3 = TTup([TStr(), TStr(), TStr()])
KIND = TEnum(Kind)
NAMES = TSeq(TStr())
ID, INT = TStr(), TInt()
KINDS = (SiteType.CN, SiteType.DN, SiteType.POP, DEMAND, SUPERSOURCE)
for _c in (NetworkOptimization, MaxCoverageNetwork, MinInterferenceNetwork, RedundantNetwork):
    REG.types.update({
        (_c, "problem"): TRef(Programme), (_c, "params"): TRef(OptimizerParams), (_c, "links"): TSeq(L2), (_c, "wired_links"): TSeq(L2), (_c, "locations"): NAMES, (_c, "dns"): NAMES,
        (_c, "proposed_links"): TSet(L2), (_c, "existing_links"): TSet(L2), (_c, "inactive_links"): TSet(L2), (_c, "restricted_links"): TSet(L2), (_c, "restricted_sites"): TSet(TStr()),
        (_c, "proposed_sites"): TSet(TStr()), (_c, "existing_sites"): TSet(TStr()), (_c, "inactive_sites"): TSet(TStr()), (_c, "type_sets"): TMap(KIND, TSet(TStr())),
        (_c, "location_to_type"): TMap(TStr(), KIND), (_c, "link_capacities"): TMap(L2, TReal()), (_c, "flow"): TMap(D3 if _c is RedundantNetwork else L2, TReal()), (_c, "tdm"): TMap(L3, TReal()), (_c, "odd"): TMap(TStr(), TReal()),
        (_c, "site_vars"): TMap(TStr(), TReal()), (_c, "active_link"): TMap(L2, TReal()), (_c, "number_of_channels"): TInt(), (_c, "max_throughput"): TReal(), (_c, "adversarial_links"): TSet(L2), (_c, "angle_limit_violating_links"): TSeq(D3), (_c, "deployment_link"): TMap(L3, TReal()),
        (_c, "incoming_links"): TMap(TStr(), TSeq(L2)), (_c, "outgoing_links"): TMap(TStr(), TSeq(L2)), (_c, "demand_at_location"): TMap(TStr(), TReal()), (_c, "shortage"): TMap(TStr(), TReal()),
        (_c, "location_sectors"): TMap(TStr(), NAMES), (_c, "sector_to_type"): TMap(TStr(), TEnum(SectorKind)), (_c, "sector_vars"): TMap(L3, TReal()), (_c, "link_to_sectors"): TMap(L2, TTup([TOpt(TStr()), TOpt(TStr())])),
        (_c, "colocated_locations"): TMap(TInt(), NAMES), (_c, "location_to_geoloc"): TMap(TStr(), TInt()), (_c, "proposed_sectors"): TMap(TStr(), TSet(TStr())),
    })
REG.types.update({(OptimizerParams, "ignore_polarities"): TBool(), (OptimizerParams, "always_active_pops"): TBool(), (OptimizerParams, "pop_capacity"): TReal()})
ILP = "terragraph_planner.optimization.ilp_models."
NET, INTF, RED = ILP + "network_optimization:NetworkOptimization.", ILP + "interference_optimization:MinInterferenceNetwork.", ILP + "redundancy_optimization:RedundantNetwork."


def on(self, ij): return ij in self.proposed_links or ij in self.existing_links


@contract(NET + "create_inactive_link_flow_constraints")
class no_flow_on_inactive_links:
    prop = "C30"
    modular = True
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"a flow variable per link": forall(L2, lambda i, j: (i, j) not in self.links or (i, j) in self.flow)}

    def post(self):
        return {"inactive links carry nothing": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.links or (i, j) not in self.inactive_links or self.flow[(i, j)] == 0))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (i, j) not in self.inactive_links or self.flow[(i, j)] == 0))})}


def dist(self, i): return self.location_to_type[i] == SiteType.DN or self.location_to_type[i] == SiteType.POP
def share(self, i, j): return sum(self.tdm[(i, j, c)] for c in range(self.number_of_channels))


def links(self):
    """every link has its variables, its capacity and the kinds of its ends"""
    return {"a flow variable and a capacity per link": forall(L2, lambda i, j: (i, j) not in self.links or ((i, j) in self.flow and (i, j) in self.link_capacities)),
            "kinds of the ends of links": forall(L2, lambda i, j: (i, j) not in self.links or (i in self.location_to_type and j in self.location_to_type)),
            "channels": self.number_of_channels >= 1}


def timed(self): return {"time on all channels or on none": forall(L2, lambda i, j: forall(INT, lambda c: c < 0 or c >= self.number_of_channels or iff((i, j, c) in self.tdm, (i, j, 0) in self.tdm)))}
def parities(self): return {"parity of distribution sites": forall(ID, lambda s: iff(s in self.odd, s in self.location_to_type and dist(self, s)))}


@contract(NET + "create_active_link_polarity_constraints")
class opposite_on_active_links:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {**links(self), **parities(self)}

    def post(self):
        return {"distribution ends of active wireless links differ in parity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.params.ignore_polarities or forall(L2, lambda i, j: opposite(self, i, j, self.links))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: opposite(self, i, j, done)))})}


def opposite(self, i, j, ls): return (i, j) not in ls or (i, j) in self.wired_links or not on(self, (i, j)) or i not in self.odd or j not in self.odd or self.odd[i] + self.odd[j] == 1


@contract(NET + "create_tdm_flow_relationship")
class flow_within_time:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {**links(self), **timed(self)}

    def post(self):
        return {"flow within capacity and time": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: within(self, i, j, self.links)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: within(self, i, j, done)))})}


def within(self, i, j, ls):
    return (i, j) not in ls or (self.flow[(i, j)] <= self.link_capacities[(i, j)] * share(self, i, j) if (i, j, 0) in self.tdm else self.flow[(i, j)] <= self.link_capacities[(i, j)] and self.flow[(i, j)] <= self.max_throughput)


@contract(NET + "create_tdm_polarity_relationship")
class time_between_opposites:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {**links(self), **timed(self), **parities(self), "time on wireless links between sites": forall(L2, lambda i, j: (i, j) not in self.links or not dist(self, i) or not dist(self, j) or (i, j) in self.wired_links or (i, j, 0) in self.tdm)}

    def post(self):
        return {"time only between sites of different parity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.params.ignore_polarities or forall(L2, lambda i, j: differ(self, i, j, self.links))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: differ(self, i, j, done)))})}


def differ(self, i, j, ls):
    return (i, j) not in ls or on(self, (i, j)) or (i, j) in self.wired_links or not dist(self, i) or not dist(self, j) or (share(self, i, j) <= self.odd[i] + self.odd[j] and share(self, i, j) <= 2 - self.odd[i] - self.odd[j])


@contract(NET + "create_pop_load_constraints")
class load_of_pops:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return places(self)

    def post(self):
        return {"points of presence send at most their capacity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: load(self, s, self.locations)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: load(self, s, done)))})}


def places(self):
    return {"links of each location": forall(ID, lambda s: s not in self.locations or (s in self.incoming_links and s in self.outgoing_links and s in self.location_to_type)),
            "a flow variable per listed link": forall(ID, lambda s: s not in self.locations or (all(l in self.flow for l in self.incoming_links[s]) and all(l in self.flow for l in self.outgoing_links[s]))),
            "kinds listed": all(k in self.type_sets for k in KINDS)}


def sent(self, s): return sum(self.flow[l] for l in self.outgoing_links[s])
def got(self, s): return sum(self.flow[l] for l in self.incoming_links[s])
def load(self, s, ls): return s not in ls or s not in self.type_sets[SiteType.POP] or not len(self.outgoing_links[s]) > 0 or sent(self, s) <= self.params.pop_capacity


# ------------------------------------------------------------------ flow through sites
def real(self, s): return self.location_to_type[s] != DEMAND and self.location_to_type[s] != SUPERSOURCE
def limit(self, s): return self.max_throughput * self.site_vars[s] if real(self, s) else self.max_throughput


def through(self, s, ls):
    return s not in ls or ((not len(self.incoming_links[s]) > 0 or got(self, s) <= limit(self, s)) and (not len(self.outgoing_links[s]) > 0 or sent(self, s) <= limit(self, s)))


@contract(NET + "create_flow_site_relationship")
class flow_through_chosen_sites:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {**places(self), **sited(self)}

    def post(self):
        return {"flow only through chosen sites": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: through(self, s, self.locations)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: through(self, s, done)))})}


def sited(self): return {"a decision per site": forall(ID, lambda s: s not in self.locations or not real(self, s) or s in self.site_vars)}


def short(self): return sum(self.shortage[q] for q in self.locations if q in self.type_sets[DEMAND])


def kept(self, s, ls, into, out, missing):
    """what flows in and stays: the demand served, minus what the source sends, or nothing"""
    return s not in ls or (not len(self.incoming_links[s]) > 0 and not len(self.outgoing_links[s]) > 0) or into(s) - out(s) == (
        self.demand_at_location[s] - self.shortage[s] if self.location_to_type[s] == DEMAND else missing - self.max_throughput if self.location_to_type[s] == SUPERSOURCE else 0)


@contract(NET + "create_flow_balance_with_shortage")
class flow_conserved:
    """ghosts: the flow into and out of each location, the shortage of all demand sites"""
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    ghost = {"into": TFun([ID], TReal()), "out": TFun([ID], TReal()), "missing": TReal()}
    modifies = ["Programme.satisfied"]

    def pre(self, into, out, missing):
        return {**places(self), "shortage and demand of demand sites": forall(ID, lambda s: s not in self.locations or (iff(s in self.type_sets[DEMAND], self.location_to_type[s] == DEMAND) and (self.location_to_type[s] != DEMAND or (s in self.demand_at_location and s in self.shortage)))),
                "into": forall(ID, lambda s: s not in self.locations or into(s) == got(self, s)), "out": forall(ID, lambda s: s not in self.locations or out(s) == sent(self, s)),
                "missing": missing == short(self), "no demand site, no shortage": len(self.type_sets[DEMAND]) > 0 or missing == 0}

    def post(self, into, out, missing):
        return {"flow conserved": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: kept(self, s, self.locations, into, out, missing)))}

    loops = {0: Inv(lambda self, into, out, missing, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: kept(self, s, done, into, out, missing)))})}


@contract(NET + "create_decided_site_constraints")
class decided_sites:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {**places(self), "real sites": forall(ID, lambda s: s not in self.locations or (not (s in self.type_sets[SiteType.POP] or s in self.proposed_sites or s in self.existing_sites or s in self.inactive_sites) or (s in self.site_vars and s in self.location_to_geoloc)))}

    def post(self):
        return {"active sites stay, inactive ones are not chosen": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: settled(self, s, self.locations)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: settled(self, s, done)))})}


def alone(self, s): return self.location_to_geoloc[s] not in self.colocated_locations or len(self.colocated_locations[self.location_to_geoloc[s]]) <= 1
def stays(self, s): return (self.params.always_active_pops and s in self.type_sets[SiteType.POP] and s not in self.inactive_sites) or s in self.proposed_sites or s in self.existing_sites
def settled(self, s, ls): return s not in ls or (not (stays(self, s) and alone(self, s)) or self.site_vars[s] == 1) and (stays(self, s) or s not in self.inactive_sites or self.site_vars[s] == 0)


# ------------------------------------------------------------------ links of the chosen sites
@contract(INTF + "create_symmetric_link_constraints")
class both_directions:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def post(self):
        return {"both directions or none": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.active_link or (j, i) not in self.active_link or self.active_link[(i, j)] == self.active_link[(j, i)]))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (j, i) not in self.active_link or self.active_link[(i, j)] == self.active_link[(j, i)]))})}


@contract(INTF + "create_flow_link_relationship")
class flow_on_used_links:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"capacity of links": forall(L2, lambda i, j: (i, j) not in self.flow or (i, j) in self.link_capacities)}

    def post(self):
        return {"flow only on used links": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.flow or (i, j) not in self.active_link or self.flow[(i, j)] <= self.link_capacities[(i, j)] * self.active_link[(i, j)]))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (i, j) not in self.active_link or self.flow[(i, j)] <= self.link_capacities[(i, j)] * self.active_link[(i, j)]))})}


@contract(INTF + "create_tdm_link_relationship")
class time_on_used_links:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {**links(self), **timed(self)}

    def post(self):
        return {"time only on used links": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.links or (i, j, 0) not in self.tdm or (i, j) not in self.active_link or share(self, i, j) <= self.active_link[(i, j)]))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (i, j, 0) not in self.tdm or (i, j) not in self.active_link or share(self, i, j) <= self.active_link[(i, j)]))})}


@contract(INTF + "create_polarity_link_relationship")
class used_between_opposites:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {**links(self), **parities(self)}

    def post(self):
        return {"used links only between sites of different parity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.params.ignore_polarities or forall(L2, lambda i, j: used_differ(self, i, j, self.links))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: used_differ(self, i, j, done)))})}


def used_differ(self, i, j, ls):
    return (i, j) not in ls or on(self, (i, j)) or (i, j) not in self.active_link or not dist(self, i) or not dist(self, j) or (self.active_link[(i, j)] <= self.odd[i] + self.odd[j] and self.active_link[(i, j)] <= 2 - self.odd[i] - self.odd[j])


# ------------------------------------------------------------------ redundancy
@contract(RED + "create_decided_site_constraints")
class decided_redundant_sites:
    prop = "C30"
    total = True
    types = {"self": TRef(RedundantNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"kinds listed": all(k in self.type_sets for k in KINDS), "a decision per site": forall(ID, lambda s: s not in self.locations or s not in self.restricted_sites or not (given(self, s) or s in self.inactive_sites or s in self.type_sets[SiteType.POP]) or s in self.site_vars)}

    def post(self):
        return {"active sites stay; inactive ones and new points of presence are not chosen": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: added(self, s, self.locations)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: added(self, s, done)))})}


def given(self, s): return s in self.proposed_sites or s in self.existing_sites
def added(self, s, ls): return s not in ls or s not in self.restricted_sites or (self.site_vars[s] == 1 if given(self, s) else not (s in self.inactive_sites or s in self.type_sets[SiteType.POP]) or self.site_vars[s] == 0)


@contract(RED + "create_inactive_link_flow_constraints")
class no_redundant_flow_on_inactive_links:
    prop = "C30"
    total = True
    types = {"self": TRef(RedundantNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"a flow variable per link and distribution site": forall(L2, lambda i, j: (i, j) not in self.restricted_links or forall(ID, lambda d: d not in self.dns or (i, j, d) in self.flow))}

    def post(self):
        return {"inactive links carry nothing": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: unused(self, i, j, self.links, self.dns)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: unused(self, i, j, done, self.dns)))}),
             1: Inv(lambda self, i, j, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda d: d not in done or self.flow[(i, j, d)] == 0))})}


def unused(self, i, j, ls, dns): return (i, j) not in ls or (i, j) not in self.restricted_links or (i, j) not in self.inactive_links or forall(ID, lambda d: d not in dns or self.flow[(i, j, d)] == 0)


@contract(RED + "create_flow_polarity_constraints")
class redundant_flow_between_opposites:
    prop = "C30"
    total = True
    types = {"self": TRef(RedundantNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {"a flow variable per link and distribution site": forall(L2, lambda i, j: (i, j) not in self.restricted_links or forall(ID, lambda d: d not in self.dns or (i, j, d) in self.flow)),
                "parity of the ends": forall(L2, lambda i, j: (i, j) not in self.restricted_links or (i, j) in self.wired_links or (i in self.odd and j in self.odd))}

    def post(self):
        return {"flow only between sites of different parity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.params.ignore_polarities or forall(L2, lambda i, j: apart(self, i, j, self.links, self.dns))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: apart(self, i, j, done, self.dns)))}),
             1: Inv(lambda self, i, j, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda d: split(self, i, j, d, done)))})}


def split(self, i, j, d, dns): return d not in dns or (self.flow[(i, j, d)] <= self.odd[i] + self.odd[j] and self.flow[(i, j, d)] <= 2 - self.odd[i] - self.odd[j])


def apart(self, i, j, ls, dns):
    return (i, j) not in ls or (i, j) not in self.restricted_links or (i, j) in self.wired_links or (self.odd[i] + self.odd[j] == 1 if on(self, (i, j)) else forall(ID, lambda d: split(self, i, j, d, dns)))


# ------------------------------------------------------------------ adversarial links, clients, angles
@contract(ILP + "site_optimization:SiteOptimization.create_adversarial_restrictions")
class no_flow_on_adversarial_links:
    prop = "C30"
    total = True
    types = {"self": TRef(MaxCoverageNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"a flow variable per link": forall(L2, lambda i, j: (i, j) not in self.links or (i, j) in self.flow)}

    def post(self):
        return {"adversarial links carry nothing": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.links or (i, j) not in self.adversarial_links or self.flow[(i, j)] == 0))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (i, j) not in self.adversarial_links or self.flow[(i, j)] == 0))})}


@contract(INTF + "create_angle_limit_guideline_constraints")
class no_two_violating_links:
    """with one channel"""
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"one channel": self.number_of_channels == 1}

    def post(self):
        return {"not both links of a violating pair": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(D3, lambda i, j, k: not_both(self, i, j, k, self.angle_limit_violating_links)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(D3, lambda i, j, k: not_both(self, i, j, k, done)))}),
             1: Inv(lambda self: {})}


def not_both(self, i, j, k, ls):
    return (i, j, k) not in ls or (i, j) not in self.active_link or (i, k) not in self.active_link or (on(self, (i, j)) and on(self, (i, k))) or self.active_link[(i, j)] + self.active_link[(i, k)] <= 1


def served(self, s): return sum(self.active_link[l] for l in self.incoming_links[s] if l in self.active_link)


@contract(INTF + "create_cn_link_constraints")
class one_link_per_client:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    ghost = {"used": TFun([ID], TReal())}
    modifies = ["Programme.satisfied"]

    def pre(self, used):
        return {**places(self), "links into a location that may be used": forall(ID, lambda s: s not in self.locations or used(s) == served(self, s))}

    def post(self, used):
        return {"at most one link into a client": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: one(self, s, self.locations, used)))}

    loops = {0: Inv(lambda self, used, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: one(self, s, done, used)))})}


def one(self, s, ls, used): return s not in ls or s not in self.type_sets[SiteType.CN] or used(s) <= 1


# ------------------------------------------------------------------ sectors
def uses(self, s, x): return sum(self.sector_vars[(s, x, c)] for c in range(self.number_of_channels) if (s, x, c) in self.sector_vars)
def sector_ok(self, s, x): return self.sector_to_type[x] == DEMAND_SECTOR or self.sector_to_type[x] == SUPERSOURCE_SECTOR or uses(self, s, x) <= self.site_vars[s]


@contract(NET + "create_sector_site_relationship")
class sectors_of_chosen_sites:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {**places(self), **sited(self), "sectors of each location and their kinds": forall(ID, lambda s: s not in self.locations or (s in self.location_sectors and all(x in self.sector_to_type for x in self.location_sectors[s])))}

    def post(self):
        return {"sectors only on chosen sites": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in self.locations or not real(self, s) or forall(ID, lambda x: x not in self.location_sectors[s] or sector_ok(self, s, x))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in done or not real(self, s) or forall(ID, lambda x: x not in self.location_sectors[s] or sector_ok(self, s, x))))}),
             1: Inv(lambda self, loc, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda x: x not in done or sector_ok(self, loc, x)))})}


# ------------------------------------------------------------------ redundancy: disjoint paths
REG.types.update({(RedundantNetwork, k): TInt() for k in ("pop_node_capacity", "dn_node_capacity", "sink_node_capacity")})
REG.types[(RedundantNetwork, "shortage")] = TMap(TStr(), TReal())


def red_sum(self, ls, d): return sum(self.flow[(i, j, d)] for i, j in {l for l in ls if l in self.restricted_links})
def red_any(self, ls): return any(l in self.restricted_links for l in ls)
def red_flows(self): return {"a flow variable per link and distribution site": forall(L2, lambda i, j: (i, j) not in self.restricted_links or forall(ID, lambda d: d not in self.dns or (i, j, d) in self.flow))}


@contract(RED + "_get_incoming_flow")
class red_incoming:
    prop = "C30"
    modular = pure = total = True
    reads = ("incoming_links", "restricted_links", "flow")
    types = {"self": TRef(RedundantNetwork), "loc": TStr(), "dn": TStr()}
    ret = TOpt(TReal())
    modifies = []

    def pre(self, loc, dn): return {**red_flows(self), "known location and distribution site": loc in self.incoming_links and dn in self.dns}
    def post(self, loc, dn, result): return {"none without a link": iff(result is None, not red_any(self, self.incoming_links[loc])), "the sum over the links into it, each once": result is None or result == red_sum(self, self.incoming_links[loc], dn)}


@contract(RED + "_get_outgoing_flow")
class red_outgoing:
    prop = "C30"
    modular = pure = total = True
    reads = ("outgoing_links", "restricted_links", "flow")
    types = {"self": TRef(RedundantNetwork), "loc": TStr(), "dn": TStr()}
    ret = TOpt(TReal())
    modifies = []

    def pre(self, loc, dn): return {**red_flows(self), "known location and distribution site": loc in self.outgoing_links and dn in self.dns}
    def post(self, loc, dn, result): return {"none without a link": iff(result is None, not red_any(self, self.outgoing_links[loc])), "the sum over the links out of it, each once": result is None or result == red_sum(self, self.outgoing_links[loc], dn)}


def red_places(self):
    return {"links of each location": forall(ID, lambda s: s not in self.locations or (s in self.incoming_links and s in self.outgoing_links and s in self.location_to_type)),
            **red_flows(self),
            "a decision per site": forall(ID, lambda s: s not in self.locations or s not in self.restricted_sites or s in self.site_vars or not red_any(self, self.incoming_links[s])),
            "shortage per distribution site": forall(ID, lambda d: d not in self.dns or d in self.shortage)}


def most(self, s, d): return self.pop_node_capacity if self.location_to_type[s] == SiteType.POP else self.sink_node_capacity if s == d else self.dn_node_capacity


def red_flow_ok(self, s, d):
    into = self._get_incoming_flow(s, d)
    return into is None or into <= most(self, s, d) * self.site_vars[s]


@contract(RED + "create_flow_site_relationship")
class redundant_flow_through_chosen_sites:
    prop = "C30"
    total = True
    types = {"self": TRef(RedundantNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return red_places(self)

    def post(self):
        return {"flow only through chosen sites, within their capacity": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in self.locations or s not in self.restricted_sites or forall(ID, lambda d: d not in self.dns or red_flow_ok(self, s, d))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in done or s not in self.restricted_sites or forall(ID, lambda d: d not in self.dns or red_flow_ok(self, s, d))))}),
             1: Inv(lambda self, loc, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda d: d not in done or red_flow_ok(self, loc, d)))})}


def value(x): return 0 if x is None else x


def red_kept(self, s, d):
    into, out = self._get_incoming_flow(s, d), self._get_outgoing_flow(s, d)
    net = value(into) - value(out)
    return (into is None and out is None) or (net >= self.shortage[d] - self.sink_node_capacity if s == SUPERSOURCE else net >= self.sink_node_capacity - self.shortage[d] if s == d else net == 0)


@contract(RED + "create_flow_balance_with_shortage")
class redundant_flow_conserved:
    prop = "C30"
    total = True
    types = {"self": TRef(RedundantNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self): return red_places(self)

    def post(self):
        return {"flow conserved, the source sends and the site gets the paths asked for less the shortage": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in self.locations or s not in self.restricted_sites or forall(ID, lambda d: d not in self.dns or red_kept(self, s, d))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in done or s not in self.restricted_sites or forall(ID, lambda d: d not in self.dns or red_kept(self, s, d))))}),
             1: Inv(lambda self, loc, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda d: d not in done or red_kept(self, loc, d)))})}


# ------------------------------------------------------------------ channels of sectors, copies of links per channel
def sectors_kinds(self): return {"kinds of sectors": forall(ID, lambda s: s not in self.location_sectors or all(x in self.sector_to_type for x in self.location_sectors[s]))}
def one_channel(self, s, x): return self.sector_to_type[x] != SectorType.DN or sum(self.sector_vars[(s, x, c)] for c in range(self.number_of_channels)) <= 1


@contract(NET + "create_sector_channel_constraints")
class one_channel_per_sector:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {**sectors_kinds(self), "channels": self.number_of_channels >= 1,
                "a decision per channel": forall(ID, lambda s: s not in self.location_sectors or forall(ID, lambda x: x not in self.location_sectors[s] or self.sector_to_type[x] != SectorType.DN or forall(INT, lambda c: c < 0 or c >= self.number_of_channels or (s, x, c) in self.sector_vars)))}

    def post(self):
        return {"at most one channel": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.number_of_channels == 1 or forall(ID, lambda s: s not in self.location_sectors or forall(ID, lambda x: x not in self.location_sectors[s] or one_channel(self, s, x)))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in done or forall(ID, lambda x: x not in self.location_sectors[s] or one_channel(self, s, x))))}),
             1: Inv(lambda self, loc, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda x: x not in done or one_channel(self, loc, x)))})}


def forced(self, s): return s not in self.proposed_sectors or forall(ID, lambda x: x not in self.proposed_sectors[s] or uses(self, s, x) == 1)


@contract(NET + "create_always_active_sector_constraints")
class fixed_sectors_stay:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def post(self):
        return {"fixed sectors are active": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in self.locations or forced(self, s)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: s not in done or forced(self, s)))}),
             1: Inv(lambda self, loc, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda x: x not in done or uses(self, loc, x) == 1))})}


def receiver(self, j, x, c): return self.sector_vars[(j, x, c)] if (j, x, c) in self.sector_vars else self.sector_vars[(j, x, 0)]


def on_channel(self, i, j, c):
    s1, s2 = self.link_to_sectors[(i, j)]
    d = self.deployment_link[(i, j, c)]
    return d <= self.active_link[(i, j)] and d <= self.sector_vars[(i, s1, c)] and d <= receiver(self, j, s2, c) and d >= self.active_link[(i, j)] + self.sector_vars[(i, s1, c)] + receiver(self, j, s2, c) - 2


@contract(INTF + "create_deployment_link_constraints")
class links_on_channels:
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {"decisions of links on channels": forall(L3, lambda i, j, c: (i, j, c) not in self.deployment_link or ((i, j) in self.active_link and (i, j) in self.link_to_sectors)),
                "decisions of their sectors": forall(L3, lambda i, j, c: (i, j, c) not in self.deployment_link or ((i, self.link_to_sectors[(i, j)][0], c) in self.sector_vars and ((j, self.link_to_sectors[(i, j)][1], c) in self.sector_vars or (j, self.link_to_sectors[(i, j)][1], 0) in self.sector_vars)))}

    def post(self):
        return {"a link on a channel exactly if link and sectors are": self.problem.satisfied == (old(lambda: self.problem.satisfied) and (self.number_of_channels == 1 or forall(L3, lambda i, j, c: (i, j, c) not in self.deployment_link or on_channel(self, i, j, c))))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L3, lambda i, j, c: (i, j, c) not in done or on_channel(self, i, j, c)))})}


def tied(self, i, j):
    "no active link without active sectors"
    s1, s2 = self.link_to_sectors[(i, j)]
    return ((i, s1, 0) not in self.sector_vars or self.active_link[(i, j)] <= uses(self, i, s1)) and ((j, s2, 0) not in self.sector_vars or self.active_link[(i, j)] <= uses(self, j, s2))


@contract(INTF + "create_sector_link_constraints")
class links_between_active_sectors:
    """with one channel"""
    prop = "C30"
    total = True
    types = {"self": TRef(MinInterferenceNetwork)}
    modifies = ["Programme.satisfied"]

    def pre(self):
        return {"one channel": self.number_of_channels == 1, "sectors of links": forall(L2, lambda i, j: (i, j) not in self.active_link or ((i, j) in self.link_to_sectors))}

    def post(self):
        return {"links only between active sectors": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.active_link or tied(self, i, j)))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or tied(self, i, j)))}),
             1: Inv(lambda self: {})}


# ------------------------------------------------------------------ connectable demand
for _c in (NetworkOptimization, MaxCoverageNetwork, MinInterferenceNetwork, RedundantNetwork): REG.types.update({(_c, "ignore_links"): TSet(L2), (_c, "demand_vars"): TMap(TStr(), TReal())})


def inflow(self, s, into): return into(s) if len(self.incoming_links[s]) > 0 else 0
def outflow(self, s, out): return out(s) if len(self.outgoing_links[s]) > 0 else 0


def unit_kept(self, s, ls, into, out, many):
    if s not in ls: return True
    k, a, b = self.location_to_type[s], inflow(self, s, into), outflow(self, s, out)
    return b >= 0 if k == SUPERSOURCE else self.demand_vars[s] <= 10 * many * a if k == DEMAND else a == 0 and b == 0 if self.site_vars[s] == 0 else a == b


@contract(NET + "create_unit_flow_balance_constraints")
class connected_demand:
    """ghosts: the flow into and out of each location, the number of demand sites"""
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    ghost = {"into": TFun([ID], TReal()), "out": TFun([ID], TReal()), "many": TInt()}
    modifies = ["Programme.satisfied"]

    def pre(self, into, out, many):
        return {**places(self), **sited(self), "demand sites": many == len(self.type_sets[DEMAND]), "a decision per demand site": forall(ID, lambda s: s not in self.locations or self.location_to_type[s] != DEMAND or s in self.demand_vars),
                "into": forall(ID, lambda s: s not in self.locations or into(s) == got(self, s)), "out": forall(ID, lambda s: s not in self.locations or out(s) == sent(self, s))}

    def post(self, into, out, many):
        return {"demand is connected only by flow that is conserved through chosen sites": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(ID, lambda s: unit_kept(self, s, self.locations, into, out, many)))}

    loops = {0: Inv(lambda self, into, out, many, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(ID, lambda s: unit_kept(self, s, done, into, out, many)))})}


@contract(NET + "create_ignore_link_flow_constraints")
class no_flow_on_ignored_links:
    prop = "C30"
    total = True
    types = {"self": TRef(NetworkOptimization)}
    modifies = ["Programme.satisfied"]

    def pre(self): return {"a flow variable per link": forall(L2, lambda i, j: (i, j) not in self.links or (i, j) in self.flow)}

    def post(self):
        return {"inactive and ignored links carry nothing": self.problem.satisfied == (old(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in self.links or ((i, j) not in self.inactive_links and (i, j) not in self.ignore_links) or self.flow[(i, j)] == 0))}

    loops = {0: Inv(lambda self, done: {"so far": self.problem.satisfied == (before(lambda: self.problem.satisfied) and forall(L2, lambda i, j: (i, j) not in done or (i, j) not in self.ignore_links or self.flow[(i, j)] == 0))})}
