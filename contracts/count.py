"""C23 costs, capacities, component counts."""
from contracts.ops import *
from terragraph_planner.common.configuration.configs import DeviceData, OptimizerParams
from terragraph_planner.common.configuration.enums import LinkType, SectorType
import terragraph_planner.optimization.topology_component_counter  # noqa

CC = "terragraph_planner.optimization.topology_component_counter:"
NODE = TTup([TStr(), TInt()])
SPENT = StatusType.PROPOSED
REG.types.update({(DeviceData, "node_capex"): TReal(), (OptimizerParams, "pop_site_capex"): TReal(), (OptimizerParams, "dn_site_capex"): TReal(), (OptimizerParams, "cn_site_capex"): TReal()})


def node_of(x): return (x._site._site_id, x._node_id)


def site_cost(params, s):
    return params.pop_site_capex if s._site_type == SiteType.POP else params.dn_site_capex if s._site_type == SiteType.DN else params.cn_site_capex


@contract(O + "compute_capex")
class capex:
    """ghosts: cost and status of each node (the sectors of a node have one device and one status), the set of all nodes"""
    prop = "C23"
    key_steps = True
    types = {"topology": TOPO, "params": TObj(OptimizerParams)}
    ghost = {"cost": TFun([TStr(), TInt()], TReal()), "status": TFun([TStr(), TInt()], TEnum(StatusType)), "nodes": TSet(NODE)}
    modifies = []

    def pre(topology, cost, status, nodes):
        return {**network(topology), "sectors under their id": forall(ID, lambda k: k not in topology.sectors or topology.sectors[k]._sector_id == k),
                "sectors of a node cost the node and have its status": forall(ID, lambda k: k not in topology.sectors or (
                    cost(topology.sectors[k]._site._site_id, topology.sectors[k]._node_id) == topology.sectors[k]._site._device.node_capex and status(topology.sectors[k]._site._site_id, topology.sectors[k]._node_id) == topology.sectors[k]._status_type)),
                "the nodes are those of the sectors": forall(NODE, lambda s, n: iff((s, n) in nodes, exists(ID, lambda k: k in topology.sectors and topology.sectors[k]._site._site_id == s and topology.sectors[k]._node_id == n)))}

    def post(topology, params, cost, status, nodes, result):
        new = sum(cost(s, n) for s, n in nodes if status(s, n) == StatusType.PROPOSED) + sum(site_cost(params, topology.sites[k]) for k in topology.sites if topology.sites[k]._status_type == StatusType.PROPOSED)
        had = sum(cost(s, n) for s, n in nodes if status(s, n) == StatusType.EXISTING) + sum(site_cost(params, topology.sites[k]) for k in topology.sites if topology.sites[k]._status_type == StatusType.EXISTING)
        return {"new: proposed sites and the nodes of proposed sectors, each once": result.proposed_capex == new,
                "total: existing ones in addition": result.total_capex == new + had}

    def inv(topology, cost, status, seen_nodes, proposed_capex, existing_capex, done):
        return {"nodes seen": forall(NODE, lambda s, n: iff((s, n) in seen_nodes, exists(ID, lambda k: k in topology.sectors and topology.sectors[k] in done and topology.sectors[k]._site._site_id == s and topology.sectors[k]._node_id == n))),
                "proposed nodes so far": proposed_capex == sum(cost(s, n) for s, n in seen_nodes if status(s, n) == StatusType.PROPOSED),
                "existing nodes so far": existing_capex == sum(cost(s, n) for s, n in seen_nodes if status(s, n) == StatusType.EXISTING)}

    def inv2(topology, params, proposed_capex, existing_capex, proposed_capex_before, existing_capex_before, done):
        return {"proposed sites so far": proposed_capex == proposed_capex_before + sum(site_cost(params, topology.sites[k]) for k in topology.sites if topology.sites[k] in done and topology.sites[k]._status_type == StatusType.PROPOSED),
                "existing sites so far": existing_capex == existing_capex_before + sum(site_cost(params, topology.sites[k]) for k in topology.sites if topology.sites[k] in done and topology.sites[k]._status_type == StatusType.EXISTING)}

    loops = {0: Inv(inv, types={"seen_nodes": TSet(NODE)}), 1: Inv(inv2)}


def counted(x, active_components): return not active_components or x._status_type == StatusType.PROPOSED or x._status_type == StatusType.EXISTING


@contract(CC + "_component_counter")
class components:
    prop = "C23"
    types = {"topology": TOPO, "active_components": TBool()}
    modifies = []

    def pre(topology):
        return {**network(topology), "both sectors of a link are on its channel": forall(ID, lambda k: k not in topology.links or topology.links[k]._tx_sector is None or topology.links[k]._rx_sector is None or topology.links[k]._tx_sector.channel == topology.links[k]._rx_sector.channel)}

    def post(topology, active_components, result):
        return {"sites by type": all(result.site_counts_by_type[t] == sum(1 for k in topology.sites if counted(topology.sites[k], active_components) and topology.sites[k]._site_type == t) for t in (SiteType.CN, SiteType.DN, SiteType.POP)),
                "sectors by type": all(result.sector_counts_by_type[t] == sum(1 for k in topology.sectors if counted(topology.sectors[k], active_components) and topology.sectors[k].sector_type == t) for t in (SectorType.CN, SectorType.DN)),
                "client sectors of distribution sites": result.dn_sectors_on_pops == sum(1 for k in topology.sectors if counted(topology.sectors[k], active_components) and topology.sectors[k].sector_type == SectorType.DN and topology.sectors[k]._site._site_type == SiteType.POP),
                "nodes by type, each once": all(result.node_counts_by_type[t] == len({(topology.sectors[k]._site._site_id, topology.sectors[k]._node_id) for k in topology.sectors if counted(topology.sectors[k], active_components) and topology.sectors[k].sector_type == t}) for t in (SectorType.CN, SectorType.DN)),
                "links by type, both directions once": all(result.link_counts_by_type[t] == len({topology.links[k].link_hash for k in topology.links if counted(topology.links[k], active_components) and topology.links[k].link_type == t}) for t in (LinkType.ETHERNET, LinkType.WIRELESS_ACCESS, LinkType.WIRELESS_BACKHAUL)),
                "sites with demand, each once": all(result.demand_connected_sites_by_type[t] == len({s._site_id for k in topology.demand_sites for s in topology.demand_sites[k].connected_sites if counted(s, active_components) and s._site_type == t}) for t in (SiteType.CN, SiteType.DN, SiteType.POP)),
                }

    def inv(topology): return {}

    loops = {0: Inv(inv, types={"link_channels": TMap(IDS, TInt())})}
