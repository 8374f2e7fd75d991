"""Writes /verif/properties.jsonl (kept as data here so that it can be diffed)."""
import json, os
B = "terragraph_planner/"
M = B + "common/topology_models/"
O = B + "optimization/"
L = B + "los/"
R = B + "common/rf/link_budget_calculator.py"
D = B + "common/data_io/"
C = B + "common/configuration/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


p("C01", "Network graph stays internally consistent under any edit history",
  "After any sequence of additions and removals of sites, sectors, links and demand sites, the network's lookup indexes agree exactly with its stored items: every stored item is found under its own id, every sector's and link's end sites are present, and the forward and reverse connectivity and the per-site sector lists contain exactly the stored links and sectors, nothing stale and nothing missing. Removing a site removes precisely its own sectors and incident links; removing a sector clears both sectors of every link that used it and touches nothing else. Adding a site or sector whose id is already present, adding an item whose sites are absent, or removing an absent item is rejected with an error and leaves the network unchanged.",
  ["inputs", "histories"], "every finite sequence of add/remove operations with arbitrary sites, sectors, links, demand sites, including re-adding removed items and failing operations",
  "Unit tests run a handful of single add/remove calls on one small fixture; they never re-add an item after removing it, never compare all indexes, and cannot cover all histories.",
  [M + "topology.py", M + "site.py", M + "sector.py", M + "link.py"],
  [("add/remove operations with presence assertions", M + "topology.py add_site..remove_link"),
   ("derived sector connectivity", M + "topology.py sector_connectivity")],
  ["Topology public attributes and getters after each operation"],
  state=[("sites/sectors/links/demand_sites", "id -> object maps", M + "topology.py"),
         ("site_connectivity(_reverse)", "tx->rx->link id and its mirror", M + "topology.py"),
         ("site_id_to_sector_ids", "site -> ids of its sectors", M + "topology.py")])

p("C02", "Network queries return exactly the matching elements",
  "For every network, successor and predecessor queries, their wireless-only variants, link lookup by end sites, link lookup by the two sectors a link uses, reverse-link lookup, co-location grouping (same latitude, longitude and altitude), filtering of sites, links and sectors by status and type, the listing of wireless links without sectors and the grouping of sites by polarity each return exactly the elements their definition selects, no more and no fewer. An unknown site or sector id raises an error, and a known pair without a link yields no result. Sorting the network reorders its stored items without changing its content.",
  ["inputs"], "all networks (any mix of site types, statuses, one-directional and bidirectional wired and wireless links) and all filter arguments",
  "Tests query one fully bidirectional fixture, on which a wrong direction or an off-by-one filter is invisible.",
  [M + "topology.py"],
  [("comprehension filters", M + "topology.py get_site_ids, get_link_site_id_pairs, get_sector_ids"),
   ("neighbour queries over the connectivity maps", M + "topology.py get_successor_sites..get_reverse_link")],
  ["return values of the Topology query methods"])

p("C03", "Status lifecycle: existing and unavailable are final; statuses agree",
  "No operation ever changes the status of a site, sector or link to or from 'existing' or 'unavailable' after creation: such a change is rejected and the old status kept. A sector on a proposed or existing site can only be set to candidate, proposed or existing, and on any other site only to the site's own status; a link can be existing only if both end sites exist, must be unavailable (respectively unreachable) when an end site is, and can be proposed or existing only when neither end site is a mere candidate. Every change that satisfies these rules is accepted, and the same rules apply at creation.",
  ["inputs", "histories"], "all combinations of current status, requested status and end-site statuses, at construction and on every later change",
  "The rule is a relation over 5x5x5x5 status combinations; the tests sample under ten of them.",
  [M + "site.py", M + "sector.py", M + "link.py", C + "enums.py"],
  [("status setters", M + "site.py status_type.setter; sector.py; link.py"),
   ("compatibility checks", M + "sector.py _check_compatible_status_type; link.py _check_compatible_status")],
  ["status_type of Site, Sector, Link and the TopologyException raised"])

p("C04", "Sites, sectors and links are always well formed",
  "A site can be created only if a building is given exactly when it is a rooftop site and its device class matches its type (client device for client sites, distribution device otherwise); a link can be created only if it does not leave a client site, has both sectors or neither, and each sector sits on the corresponding end site, and later sector replacement keeps this. Equal type, location, altitude and device give equal site ids, and a link's or sector's id is determined by its ends or by its site, node and position; a link is a client link exactly if it is wireless and ends at a client, and wired exactly if it is not wireless; its channel is that of its sector, reported only for active links with sectors. A link and its reverse have equal length (3-D when both altitudes are known, else horizontal), the same unordered hash, beam azimuths that within one link differ by half a turn, and opposite elevation deviation.",
  ["inputs"], "all constructor arguments (every combination of types, devices, locations, statuses, sectors) and all later sector/attribute updates",
  "Tests construct a few valid objects and a few invalid ones; symmetric geometry and id determinism are for-all statements.",
  [M + "site.py", M + "sector.py", M + "link.py", M + "demand_site.py", B + "common/utils.py"],
  [("constructor assertions", M + "site.py Site.__init__; link.py Link.__init__"),
   ("derived link attributes", M + "link.py distance, el_dev, link_hash, link_type, link_channel")],
  ["constructed objects and exceptions"])

p("C05", "Modulation level and capacity come exactly from the table",
  "For every signal-to-noise value and every non-empty rate table (rows in any order, distinct levels), the chosen modulation level is the highest level whose threshold is met, and 0 when no threshold is met or the value is not a number; better signal never gives a lower level. The inverse lookup gives the highest threshold among the levels not above the requested one, and 0 if there is none. Capacity and power backoff are exactly the table's values for that level (throughput in Gbps), or 0 when the level is not in the table.",
  ["inputs"], "all real (and infinite, NaN) signal values, all non-empty tables including unsorted ones and ones with gaps",
  "Tests use one default table and a few values; boundary equality, gaps and unsorted tables are not covered.",
  [R, B + "common/structs.py"],
  [("table lookups", R + " get_mcs_from_snr, get_snr_from_mcs, get_link_capacity_from_mcs, get_backoff_from_mcs")],
  ["return values of the lookup functions"])

p("C06", "Transmit power respects its limits and is never wasted",
  "The maximum transmit power is the smaller of the radio's maximum and what the regulatory radiated-power limit leaves after antenna and diversity gain, but never less than the radio's minimum when one is set (a minimum of 0 dBm is a minimum). Power adjustment never raises the modulation level: it returns the highest level of the table not above the requested one whose required power (at least the minimum) fits within the maximum minus that level's backoff, together with exactly that required power. When no level fits it returns level 0 and no power.",
  ["inputs"], "all gains, limits, optional minimum powers, net gains, noise powers, levels and tables",
  "The adjustment is a downward loop over levels; tests try a few levels with one table and cannot show maximality for all inputs.",
  [R],
  [("EIRP limit", R + " get_max_tx_power"), ("backoff loop", R + " adjust_tx_power_with_backoff")],
  ["return values"])

p("C07", "Link budget follows the documented propagation model",
  "Received level is transmit power plus both antenna gains minus both miscellaneous losses, free-space, rain and oxygen loss; signal-to-noise is received level minus noise figure and thermal noise; receiver figures that are absent are taken from the transmitter, and figures that are given (0 included) are used as given; the reported level, capacity, power, received level and signal-to-noise of a link are mutually consistent with that chain. Free-space loss is 0 up to its threshold distance and then the standard formula, all losses are non-negative, free-space and oxygen loss never decrease with distance, and rain loss is 0 at zero distance. Antenna gain is boresight plus diversity gain plus the pattern values at the tabulated angles nearest to the deviations, and deviations only count when they are asked for.",
  ["inputs"], "all distances, frequencies, gains, losses, patterns and sector parameters in their permitted ranges",
  "Tests compare a few numeric samples; the arithmetic identity and monotonicity are for all inputs.",
  [R, B + "common/constants.py"],
  [("budget chain", R + " get_net_gain, get_rsl, get_fspl_based_net_gain, fspl_based_estimation"),
   ("losses", R + " fspl, compute_rain_loss, compute_oxygen_loss"),
   ("pattern lookup", R + " extract_gain_from_radio_pattern")],
  ["return values"])

p("C08", "Out-of-range configuration is always rejected, in-range accepted",
  "A configuration section can be created if and only if the documented range of every parameter that the section itself declares (positivity, bounds on ratios, angles, scan ranges, powers, hop counts, costs, rounds, channels) and its cross-parameter rules hold (minimum below maximum, client versus distribution sector counts, at least one demand model, sectors of all nodes within a full turn). A violation raises a configuration error instead of producing an object. Accepted values are stored unchanged apart from the documented derivations.",
  ["inputs", "configurations"], "all values of all parameters of every configuration section",
  "Range checks are tested at a few invalid values; a weakened comparison at a boundary or a dropped rule for one field passes.",
  [C + "configs.py", C + "utils.py", C + "enums.py"],
  [("post-init assertions", C + "configs.py __post_init__ of each params class"),
   ("struct checks", C + "utils.py")],
  ["constructor success, ConfigException, attribute values"])

p("C09", "Configuration text is read faithfully",
  "Reading a configuration section gives exactly the given values converted to their declared types, defaults for omitted or null entries, enumeration values recognised regardless of letter case, nested sections and lists of sections read recursively, and project-wide radio values override per-device ones only where the project sets them. A value of the wrong type, an unknown enumeration name, duplicate device names, or (when reading a file) an unknown key is rejected with an error. Writing a configuration to a dictionary and reading it again gives an equal configuration, and two configurations are equal exactly when all their values are.",
  ["inputs", "configurations"], "all configuration dictionaries",
  "Tests read a few sample files; arbitrary nesting, casing, and write-back are not covered.",
  [C + "configs.py", C + "utils.py", D + "utils.py"],
  [("recursive reader", C + "configs.py / utils.py"), ("override rules", C + "configs.py SystemParams")],
  ["parsed objects and ConfigException"])

p("C10", "Angles, bearings and distances are normalised and symmetric",
  "Bearings lie in [0,360) up to rounding and follow the spherical formula, the difference of two headings in [0,360] lies in [0,180] and is their difference modulo a full turn, and law-of-cosines angles lie in [0,180] and do not depend on the order of the sides. Great-circle distance is symmetric, non-negative and zero for identical points; converting a location between latitude/longitude and metric (UTM) coordinates and back gives the same point within rounding in the correct zone; moving a point by a distance and bearing gives a point at that distance; and the geo-hash cell of a point contains it. Locations with out-of-range coordinates or without one complete pair of coordinates are rejected.",
  ["inputs"], "all finite longitudes, latitudes and angles, including negative and multi-turn angles",
  "Tests sample a few angles; wrap-around at boundaries is where errors hide.",
  [B + "common/geos.py", B + "common/constants.py"],
  [("angle arithmetic", B + "common/geos.py angle_delta, bearing_in_degrees, haversine_distance"),
   ("location conversion", B + "common/geos.py GeoLocation")],
  ["return values"])

p("C11", "Line-of-sight verdicts: filters first, confidence thresholded",
  "Two sites have confidence 0 when they share horizontal coordinates, are rooftops of the same known building, have a 3-D distance outside the permitted range or an elevation angle above the permitted one, or when the straight line between them touches an exclusion zone; otherwise, with no surface data the confidence is 1. With surface data the cylindrical confidence is the smallest distance of an obstructing column from the line over the Fresnel radius, and the ellipsoidal one the largest obstruction-free share of the Fresnel ellipsoid, where cells at the end sites do not obstruct; results below the threshold become 0, so that the confidence is always 0 or in [threshold, 1]. Raising the surface never raises the confidence, and invalid validator parameters are rejected.",
  ["inputs"], "all site pairs, elevations, obstructions, radii, thresholds and frequencies",
  "The tests use a few hand-made terrains; verdict boundaries and monotonicity are for all terrains.",
  [L + "base_los_validator.py", L + "cylindrical_los_validator.py", L + "ellipsoidal_los_validator.py", L + "fresnel_zone.py"],
  [("pre-filters", L + "base_los_validator.py"), ("Fresnel geometry", L + "fresnel_zone.py")],
  ["compute_confidence return values"])

p("C12", "Line of sight is symmetric and batch results equal individual ones",
  "Swapping the two sites of a pair gives the same line-of-sight confidence (up to rounding for a surface cell exactly on the border of the Fresnel zone). Computing many pairs at once, in one process or several, returns for every requested pair exactly the confidence of computing that pair alone with the batch's slightly widened distance and elevation limits, whatever the repeated pairs, shared locations or batch composition. Results of one pair are reused only for pairs of sites with the same locations, altitudes, kinds and buildings.",
  ["inputs", "histories"], "all pair lists, including duplicates and reversed pairs, over all terrains",
  "Tests run tiny batches whose memoised and direct results coincide by construction.",
  [L + "core.py", L + "helper.py", L + "cylindrical_los_validator.py", L + "ellipsoidal_los_validator.py"],
  [("batch computation and memoisation", L + "core.py / helper.py compute_los_batch")],
  ["confidence lists"])

p("C13", "Elevation lookups address the right cell and never leave the grid",
  "The elevation at a coordinate is the value of the raster cell whose centre is nearest (clamped to the raster), and missing cells are filled with the nearest valid value within the search radius, else with the average of the valid ones; asking without data is rejected with an error. Cell-index and coordinate conversions are mutually inverse; the listing of a window contains exactly the cell centres inside the window, each with the value of its own cell (beyond the raster: of the nearest cell), and the matrix of a window holds the values of its cells. Resampling keeps every new cell at its nearest old cell's value, and the sum and difference of two rasters require equal geometry and act cell by cell.",
  ["inputs"], "all raster shapes, resolutions, origins, coordinates and windows",
  "Tests use one raster and interior points.",
  [L + "elevation.py", D + "elevation_loader.py"],
  [("index arithmetic", L + "elevation.py")],
  ["Elevation query results"])

p("C14", "Candidate links are exactly the admissible site pairs",
  "Each unordered pair of sites is enumerated at most once, exactly when at least one end is new and the pair can carry a link (not both clients, not both points of presence); the generated network contains a directed link for exactly those ordered pairs, never out of a client, that have line of sight, respect the distance limit of their device pair and the elevation limit, with the computed confidence attached. Existing items of a base network are kept, links are generated from and to its sites like any others, and the distance limit of a device pair is the longest distance at which it reaches the required capacity. Per building one client is kept, clients that can be connected and those that cannot form a partition of the clients, and an input site without altitude or kind gets them from the building or surface below it.",
  ["inputs"], "all site lists, line-of-sight results and base networks",
  "Tests check counts on a small fixture.",
  [L + "helper.py", L + "core.py"],
  [("pair enumeration", L + "helper.py"), ("topology construction", L + "helper.py add_sites_to_topology / add_links")],
  ["links of the returned network"])

p("C15", "Hop counts are shortest distances; reachability is exact",
  "For every network and status filter, the hop map assigns to each site reachable from a filtered point of presence over directed links and sites passing the filter exactly the minimum number of hops, 0 to the points of presence themselves, and contains no other site. The reachable demand set contains exactly the demand sites attached to at least one site in that map.",
  ["inputs"], "all directed networks, statuses and status filters",
  "Tests use a few fixed line-like networks; minimality and completeness are inductive facts over all graphs.",
  [O + "topology_operations.py"],
  [("breadth-first expansion", O + "topology_operations.py hops_from_pops"),
   ("demand reachability", O + "topology_operations.py get_reachable_demand_sites")],
  ["returned maps and sets"])

p("C16", "Unreachable marking affects exactly the unreachable candidates",
  "After marking, exactly those candidate sites are unreachable which cannot be reached from any point of presence through sites and links that are neither unavailable nor unreachable or which, if a positive hop limit is given, are more hops away than the limit; all other sites keep their status. Every link into or out of a newly marked site (unless the link is unavailable) and every sector on it is marked unreachable, and every other link and sector keeps its status.",
  ["inputs"], "all networks, statuses and hop limits (including none and 0)",
  "Tests mark one network; the exactness (nothing else changes) is never checked.",
  [O + "topology_operations.py"],
  [("marking loop", O + "topology_operations.py mark_unreachable_components")],
  ["statuses of all sites, links, sectors before and after"])

p("C17", "Demand is attached only to permitted sites within range",
  "Every uniform or manual demand location is connected to exactly the eligible sites within the connection radius, and client demand to its own client (shared equally, counting subscribers, with other clients at the same latitude and longitude) and, for rooftop and co-located handling, to the distribution sites there, each at most once; each demand carries the configured demand per location. Manual demand is kept even if no site is near, uniform demand without an eligible site is left out, and a network left without any demand is rejected with an error. Uniform demand forms a regular grid of the configured spacing inside the planning area only.",
  ["inputs", "configurations"], "all networks, demand locations, radii, areas and demand models",
  "Tests assert counts on small fixtures.",
  [O + "topology_demand.py"],
  [("demand models", O + "topology_demand.py")],
  ["demand sites of the network after demand set-up"])

p("C18", "Deployment-rule violations are found exactly",
  "Two wireless links leaving the same site towards different sites from different sectors are reported as violating exactly when the angle between them is at most the general limit, or else when it is at most the near-far angle and the longer one is at least the near-far ratio times as long; when only active links are examined, both must be active and on the same channel. The links in violation are exactly the stored links, in both directions, of the reported pairs. An active sector of a distribution site is reported exactly when it carries more active links to distribution sites, or more active links in total, than the limits allow.",
  ["inputs"], "all link sets, angles, lengths, statuses and limits",
  "Boundary angles and ratios, and mixed link types, are not enumerated by the tests.",
  [O + "deployment_rules.py"],
  [("angle rules", O + "deployment_rules.py find_angle_violating_link_pairs, get_violating_link_ids"),
   ("sector limits", O + "deployment_rules.py find_sector_limit_violations")],
  ["returned violation lists"])

p("C19", "Interference only hurts and only comes from compatible transmitters",
  "With interference considered, a link's signal-to-interference-plus-noise ratio never exceeds its signal-to-noise ratio and equals it exactly when no interferer applies; it is the received level over the power sum of noise and of every interfering sector, each counted once as the mean over that sector's other active links towards the victim. A transmitter interferes only if it is another active wireless link, on the same channel, with a polarity that lets it transmit while the victim receives, and never from the victim's own transmitting sector; redundant links never interfere. Level and capacity afterwards are those of the table for the resulting ratio.",
  ["inputs"], "all networks, channels, polarities, statuses and received-level maps",
  "Tests use one or two interferers on a fixed layout and are not runnable here.",
  [O + "topology_interference.py"],
  [("interferer selection", O + "topology_interference.py analyze_interference, compute_link_interference"),
   ("compatibility", O + "topology_interference.py _compatible_polarity, _compatible_channel")],
  ["link budgets after analysis"])

p("C20", "Links are attached to the right sectors or to none",
  "After sector assignment each wireless link without sectors is attached, at each end, to the sector of that end's site whose boresight is closest to the link, provided it is within half the scan range plus tolerance at both ends, and otherwise to no sector at all; a link and its reverse use the same sectors swapped. Links that already have sectors are only validated (a sector too far from the link direction is an error) and wired links are left alone. An active wireless link that cannot get sectors is rejected with an error.",
  ["inputs"], "all networks, sector azimuths, scan ranges and tolerances",
  "Tests look at one site layout with well-separated sectors.",
  [O + "topology_preparation.py"],
  [("assignment", O + "topology_preparation.py add_sectors_to_links")],
  ["tx/rx sectors of the links"])

p("C21", "Generated sectors are legal and optimally oriented",
  "Every generated sector azimuth lies in [0,360), sectors of one node are spaced exactly as the device specifies, the number of nodes and sectors respects the per-site limits, ids are consecutive, and sites that already have sectors are left unchanged apart from being validated. The chosen orientation has the highest coverage score among the considered candidates, and a client's sector points towards its links. New sectors are candidates, or have the status of their site when that is unavailable or unreachable.",
  ["inputs", "configurations"], "all link azimuth sets, devices and sector limits",
  "Tests check counts and a couple of orientations.",
  [O + "topology_preparation.py"],
  [("orientation search", O + "topology_preparation.py find_best_equidistant_sectors, find_best_sectors, get_sector_azimuths_from_node_center"),
   ("sector creation", O + "topology_preparation.py create_dn_sectors, create_cn_sectors")],
  ["sectors in the network"])

p("C22", "An optimiser decision is applied exactly, and only where allowed",
  "Applying an optimisation result proposes exactly the selected sites, sectors and links and resets exactly the unselected proposed ones to candidate; existing, unavailable and unreachable items are never changed. "
  "Every item ends with a status compatible with its neighbours, components left without a path from a point of presence are not kept as proposed, and polarity and channel of the selected items are those decided.",
  ["inputs"], "all networks and all decision sets",
  "These modules cannot even be imported by the runnable tests.",
  [O + "topology_optimization.py", O + "topology_operations.py"],
  [("decision application", O + "topology_optimization.py update_topology_with_solution")],
  ["statuses, polarity, channel after application"])

p("C23", "Costs, capacities and component counts are exact sums",
  "Capital expenditure equals the sum of site costs by type and node costs per distinct node over exactly the sites and nodes in the counted status, each counted once, split into new and existing as documented. Component counts equal the number of items of each type and status. The largest outgoing capacity of the points of presence is, per point of presence, the smaller of its own capacity and the sum over its sectors of their best active link plus its active wired links.",
  ["inputs"], "all networks, statuses and costs",
  "Tests sum one fixture with distinct values; double counting on multi-sector nodes or status mix-ups survive.",
  [O + "topology_operations.py", O + "topology_component_counter.py"],
  [("capex", O + "topology_operations.py compute_capex"), ("counters", O + "topology_component_counter.py"),
   ("POP capacity", O + "topology_operations.py compute_max_pop_capacity_of_topology")],
  ["returned numbers"])

p("C24", "Failure analysis reports exactly what each failure disconnects",
  "For every single backhaul link failure and every single distribution or POP site failure, the reported set of disconnected demand is exactly the demand connected before the failure and not connected to any point of presence after it. Demand is classified exactly (no path at all, attached to a point of presence, still connected after the backhaul links of its shortest path are lost); routes follow a cheapest path and serve all connected demand, and each adversarial link disconnects demand of the plan but all of them together disconnect none in the candidate network. The analysis leaves the analysed graph and the network as they were.",
  ["inputs", "fault_sequences"], "all networks and every single link or site failure in them",
  "Tests use one small graph; completeness over all failures and all graphs is not sampled.",
  [O + "topology_networkx.py"],
  [("failure simulation", O + "topology_networkx.py single_edge_failures, single_site_failures"),
   ("disjoint paths", O + "topology_networkx.py disjoint_paths")],
  ["returned maps; the graph before and after"])

p("C25", "Availability is a probability and follows the failure events",
  "Every reported availability lies in [0,1]; connected demand whose paths need no failing link has availability 1, demand without a path is not reported as available, and in general the availability of a demand (or link) equals the fraction of simulated time during which a path exists (or the link is up). Only wireless backhaul links fail, both directions together; all start up, every failed link is repaired at its repair time, and the same seed gives the same result. Link availabilities outside 0 to 100 % and non-positive durations are rejected, and the analysed graph is left as it was.",
  ["inputs", "fault_sequences", "schedules"], "all networks, availabilities, simulation lengths and random failure schedules",
  "Tests run one seeded simulation.",
  [O + "topology_availability.py"],
  [("event simulation", O + "topology_availability.py compute_availability")],
  ["returned availability map"])

p("C26", "Removing circulating flow preserves delivery",
  "Removing loops from a flow solution leaves every flow between 0 and its original value, keeps the net inflow of every site and demand unchanged, leaves no directed cycle of positive flow, and changes nothing when there is no cycle.",
  ["inputs"], "all flow assignments on all directed graphs",
  "Tests are not runnable here and use one loop.",
  [O + "ilp_models/network_optimization.py", O + "ilp_models/flow_optimization.py"],
  [("loop pruning", O + "ilp_models/network_optimization.py prune_loops")],
  ["flow map returned"])

p("C28", "Input files are parsed faithfully and inconsistent ones rejected",
  "Every accepted input row becomes exactly one item with the values of the file; decimal and degree-minute-second coordinates denote the same location; rate tables keep every valid row and are rejected when they are empty or inconsistent; pattern files are read into exactly their angle/gain entries. "
  "Duplicate sites, inconsistent pairs of site and building rows, missing required columns and out-of-range coordinates are rejected with an error rather than silently altered; links given twice with conflicting data are rejected or resolved as documented.",
  ["inputs"], "all files of the supported formats",
  "Tests read a few sample files.",
  [D + "csv_library.py", D + "input_sites.py", D + "input_sites_loader.py", D + "patterns.py", D + "utils.py", D + "data_key.py"],
  [("parsers", D + "utils.py, csv_library.py"), ("site deduplication", D + "input_sites.py")],
  ["parsed structures and DataException"])

p("C29", "A network written to a file and read back is the same network",
  "Serialising any network to the supported tabular or map formats and reading it back gives the same sites, sectors, links and demand with the same types, statuses, locations, names, connectivity and per-link attributes, within the printed precision.",
  ["inputs"], "all networks with any mix of statuses, names, missing optional attributes",
  "Tests round-trip a single fixture.",
  [D + "topology_serializer.py", D + "kml_library.py", D + "csv_library.py"],
  [("serialisers", D + "topology_serializer.py"), ("readers", D + "kml_library.py, csv_library.py")],
  ["re-read network"])

p("C30", "The optimisation model encodes the planning rules",
  "Every feasible solution of each integer programme built for a network respects the planning rules: a link is used only if both its sites and sectors are, flow is conserved and within capacity and time division, at most one of co-located sites is chosen, polarities and channels are consistent, deployment rules and budget hold; and every plan that respects the rules is feasible for it.",
  ["inputs"], "all networks, parameters and all solutions of the generated integer programme",
  "The solver is absent here and tests compare single optimal objective values.",
  [O + "ilp_models/network_optimization.py", O + "ilp_models/site_optimization.py", O + "ilp_models/flow_optimization.py",
   O + "ilp_models/redundancy_optimization.py", O + "ilp_models/interference_optimization.py"],
  [("constraint construction", O + "ilp_models/*.py create_*")],
  ["constraints handed to the solver"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
