"""What each check runs: contract modules, run-time law modules, and what is assumed."""
NUM = "floats are treated as mathematical reals in the proofs; the run-time laws use the real floats with a tolerance"
GEN = "holds on the generated cases (bounded); see DESIGN.md for what is proved"
RT = "contracts: VCs discharged by z3/cvc5 where in reach, otherwise evaluated at run time on the real code (bounded)"
BN = "Bounded run-time contracts decide; labelled bounded, never counted as proved."
MODEL = "the coordinate attributes, the digest and the link-id formatting are abstract functions (id formatting injective); strings are totally ordered"
LOSM = "whether a zone meets a segment (shapely) is an unknown fact of the two; scipy's nearest-point search is assumed to return a nearest point strictly within the radius; sorting with equal keys keeps every element"
PROPS = {
    "C05": dict(contracts=["rf"], harness=["rf"], level="proof", technique="contracts on the table look-ups, VCs discharged by z3/cvc5",
                assumptions=[NUM, "a rate table lists every level at most once, with no negative level"],
                note="Every obligation of the four look-up functions is discharged for all tables and values; the run-time laws on the real code are bounded and additional."),
    "C06": dict(contracts=["rf"], harness=["rf"], level="proof", technique="contracts with a loop invariant on the power adjustment, VCs discharged by z3/cvc5",
                assumptions=[NUM, "a rate table lists every level at most once and thresholds never fall with the level"],
                note="All obligations of get_max_tx_power and adjust_tx_power_with_backoff (loop invariant, termination) are discharged; run-time laws are bounded and additional."),
    "C07": dict(contracts=["rf"], harness=["rf"], level="proof", technique="contracts on the budget chain, VCs discharged by z3/cvc5; bounded run-time contracts for the whole chain",
                assumptions=[NUM, "log10 and 10**x are modelled by their inverse and monotonicity laws; sqrt, exp, pow by sign and range", "scan patterns and the end-to-end estimate are covered by the bounded run-time laws, not by proof"],
                note="Net gain, received level, free-space, oxygen and rain loss, noise and SNR functions are proved; pattern lookup and the end-to-end estimate are bounded run-time checks."),
    "C01": dict(contracts=["topo"], harness=["model"], level="proof", technique="object-graph invariant and exact update contracts (with loop invariants) on every mutating operation of Topology, VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, MODEL], note="add/remove of sites, sectors, links and demand sites, the constructor and sort keep the graph invariant, proved for every well-formed topology and every argument; the merge of whole topologies and the file readers that build one are bounded."),
    "C02": dict(contracts=["topo"], harness=["model"], level="proof", technique="postconditions stating the exact answer set of every query of Topology, VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, MODEL], note="Every query listed in the statement is proved to return exactly the answer defined by the graph; run-time laws are bounded and additional."),
    "C03": dict(contracts=["model"], harness=["model"], level="proof", technique="contracts on the status setters and predicates, VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, MODEL], note="Status rules of sites, sectors and links proved; run-time laws are bounded and additional."),
    "C04": dict(contracts=["model"], harness=["model"], level="proof", technique="contracts on Site, Sector, Link and DemandSite construction, setters and derived attributes, VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, MODEL], note="Constructors, setters, derived attributes proved; run-time laws are bounded and additional."),
    "C08": dict(contracts=["cfg"], harness=["config"], level="proof", technique="contracts on the validation functions, VCs discharged by z3/cvc5; bounded run-time contracts", assumptions=[NUM], note="Every obligation of the validation functions is discharged; bounded run-time contracts are additional."),
    "C10": dict(contracts=["geo"], harness=["geo"], level="proof", technique="contracts on the angle, zone, distance and location functions, VCs discharged by z3/cvc5; bounded run-time contracts for conversions", assumptions=[NUM], note="Angle, zone, law-of-cosines, distance and location functions proved; projections bounded."),
    "C09": dict(contracts=["cfg"], harness=["config"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C15": dict(contracts=["ops"], harness=["graph"], level="proof", technique="contracts with loop invariants on the breadth-first search and the reachable demand, induction lemmas for shortest walks, VCs discharged by z3/cvc5; bounded run-time contracts in addition",
                assumptions=[MODEL, "link ends are sites of the network (C01)", "induction over the number of links of a walk, base and step being discharged as lemmas, is the only step outside the solver"],
                note="hops_from_pops with and without a filter, get_reachable_demand_sites, and the lemmas that make its postcondition the shortest distance are proved for every network and filter; termination of the search is not (each round adds a site); run-time laws are bounded and additional."),
    "C16": dict(contracts=["ops"], harness=["graph"], level="proof", technique="contract with loop invariants on the marking of unreachable components over the contract of the hop counts, VCs discharged by z3/cvc5; bounded run-time contracts in addition",
                assumptions=[MODEL, "the network is consistent (C01) and its statuses agree (C03); link ends and sector sites are the stored sites"],
                note="mark_unreachable_components is proved for every such network and every hop limit; run-time laws are bounded and additional."),
    "C22": dict(contracts=["plan"], harness=["plan"], level="proof", technique="contracts with loop invariants on every step of applying a solution, VCs discharged by z3/cvc5; bounded run-time contracts in addition",
                assumptions=[MODEL, "the network is consistent (C01), its statuses agree (C03), and the decisions are consistent: a chosen sector or link has chosen or existing sites"],
                note="update_topology_with_solution and its four steps are proved for every such network and decision; the extra points of presence and whole nodes are bounded run-time contracts."),
    "C26": dict(contracts=[], harness=["plan"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C28": dict(contracts=[], harness=["files"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C29": dict(contracts=[], harness=["files"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C30": dict(contracts=["ilp"], harness=["ilp"], level="exploration", technique="contracts with loop invariants on builders of the integer programmes (satisfied by an assignment exactly if the planning rule holds), VCs discharged by z3/cvc5; whole programmes by bounded run-time contracts: the real class builds its model with a recording stand-in for the solver library, and z3 decides for all values of the variables that the recorded constraints and the planning rules have the same solutions and that the objective is the documented one; bounded in the networks",
                assumptions=[GEN, "the solver library (xpress) is absent: a stand-in records the variables, constraints and objective given to it, and what a solver does with them is outside", "the rules of whole programmes are compared per generated network, for all values of the variables and without bound on them", "in the proofs a variable is its value in one arbitrary assignment and the programme the conjunction of the constraints added to it; the dictionaries of the model are those the constructor fills (preconditions)"],
                note="The builders under contract are proved for every network and every assignment. All solutions of the integer programme of each generated network (cost, coverage, points of presence, flow, interference with channels, deployment rules and multipoint, redundancy); networks and parameters are sampled: bounded, never counted as proved."),
    "C23": dict(contracts=["count"], harness=["graph"], level="exploration", technique="contracts with loop invariants and sum laws on the costs and the component counts, VCs discharged by z3/cvc5; the capacity of the points of presence by bounded run-time contracts", assumptions=[NUM, MODEL, GEN],
                note="compute_capex and _component_counter (sites, nodes, sectors, links and demand sites by type) are proved for every consistent network; redundant sites, the report built from the counts and the capacity of the points of presence are bounded run-time contracts."),
    "C24": dict(contracts=[], harness=["graph"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C25": dict(contracts=[], harness=["graph"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C17": dict(contracts=[], harness=["rules"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C18": dict(contracts=["rules"], harness=["rules"], level="proof", technique="contracts with loop invariants on the search of violating links, pairs and sectors over the contract of the adjacency, VCs discharged by z3/cvc5; bounded run-time contracts in addition",
                assumptions=[NUM, MODEL, "the network is consistent (C01), its statuses agree (C03) and its active links have sectors", "angle and length ratio of two legs are unknown functions that swapping the legs does not change (C10 specifies them)", "the sector pairs of Topology are those of its links (proved with C02)"],
                note="_get_adjacency_dictionary, find_angle_violating_link_pairs, get_violating_link_ids and find_sector_limit_violations are proved for every such network and every limit; run-time laws are bounded and additional."),
    "C19": dict(contracts=["rules"], harness=["rules"], level="proof", technique="contracts with loop invariants and sum laws on polarity and channel compatibility, the interferers of a path, the mean per sector, the sum over sectors and the resulting ratio, VCs discharged by z3/cvc5; bounded run-time contracts in addition",
                assumptions=[NUM, MODEL, "the sector pairs of Topology are those of its links (proved with C02) and each link has its own budget", "the directions of links between sectors, the angle between two directions and the gain along a path are unknown functions (C04, C10 and C07 specify them); transmit powers are numbers",
                             "at its call sites _calculate_net_gain_on_rx_links is replaced by the postcondition proved for it (noted_gains), compute_link_rsl_map by an unknown map without negative entries, as proved for it"],
                note="Which links interfere, the mean per interfering sector, the sum over sectors, and ratio, its bound and its equality without interference are proved for every such network; level and capacity for the resulting ratio are bounded run-time checks."),
    "C20": dict(contracts=[], harness=["rules"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C21": dict(contracts=[], harness=["rules"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
    "C11": dict(contracts=["los"], harness=["los"], level="proof", technique="contracts with geometric lemmas and loop invariants on the line-of-sight validators and the Fresnel zone, VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, LOSM, "the altitude-sorted pruning, the obstruction window and the four corners are proved; the run of the whole batch core is bounded (C12)"],
                note="Simple checks, corners, column distance (nearest point of the column, attained, monotone in height), cylinder confidence (every cell beside the line counts, zero only when blocked), Fresnel constants, ellipse, lower height, clear radii and ellipsoid range are proved; the exact minimum over cells of the ellipsoid and monotonicity in the whole surface are bounded."),
    "C12": dict(contracts=["los"], harness=["los"], level="exploration", technique=RT, assumptions=[NUM, LOSM, GEN], note="Symmetry of the simple checks, of the distance and of the column distance is proved; batching and multi-process equality are bounded run-time contracts."),
    "C13": dict(contracts=["los"], harness=["los"], level="proof", technique="contracts on the raster functions (index conversion, lookup, windows, resampling, nearest valid value, sums), VCs discharged by z3/cvc5; bounded run-time contracts in addition", assumptions=[NUM, LOSM], note="All listed raster functions are proved for every raster; get_value on a raster with missing cells is proved through closest_in_raster, the reprojection by osr is outside."),
    "C14": dict(contracts=[], harness=["los"], level="exploration", technique=RT, assumptions=[GEN], note=BN),
}
