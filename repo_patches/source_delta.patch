From df6bc33ef00d728623e921bd7205a184dda40323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 01/42] fix: skip modulation levels absent from the rate table
 when adjusting power

With a table whose levels have gaps, a level that the table does not have was
evaluated with the threshold of a lower level and could be returned, giving a
link a level with no capacity.
---
 terragraph_planner/common/rf/link_budget_calculator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..f5b68fe 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -413,7 +413,12 @@ def adjust_tx_power_with_backoff(
     until that is no longer the case. This function returns the adjusted MCS
     level and Tx power.
     """
+    mcs_levels = {row.mcs for row in mcs_snr_mbps_map}
     while mcs_level > 0:
+        # Skip the levels that the table does not have, they have no capacity
+        if mcs_level not in mcs_levels:
+            mcs_level -= 1
+            continue
         snr_dbm = get_snr_from_mcs(mcs_level, mcs_snr_mbps_map)
         rsl_dbm = get_snr_based_rsl(snr_dbm, np_dbm)
         tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
-- 
2.43.0


From 64c3a69be59dafafb63c96f5e922347d4a249c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 02/42] fix: look up thresholds of levels that share one

Levels with equal SNR thresholds overwrote each other in the lookup, so the
lowest of them was reported as having no threshold.
---
 terragraph_planner/common/rf/link_budget_calculator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index f5b68fe..bff4916 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -484,11 +484,10 @@ def get_snr_from_mcs(mcs: int, mcs_snr_mbps_map: List[MCSMap]) -> float:
     if MCS >= 12, then the link corresponds to snr_dbm = 18 and so on.
     snr_dbm = max{snr: MCS >= MCS[snr]}
     """
-    snr_mcs_mapping = {row.snr: row.mcs for row in mcs_snr_mbps_map}
-    if mcs < min(snr_mcs_mapping.values()):
+    if mcs < min(row.mcs for row in mcs_snr_mbps_map):
         return 0
 
-    snr_dbm = max(t for t, m in snr_mcs_mapping.items() if mcs >= m)
+    snr_dbm = max(row.snr for row in mcs_snr_mbps_map if mcs >= row.mcs)
     return snr_dbm
 
 
-- 
2.43.0


From 8944f7e2db4804f8203132e243259e6d9ec5f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 03/42] fix: forget the sectors of a removed site

remove_site kept the ids of the deleted sectors, so adding the site again and
removing it failed on the stale ids, and removed a link of a site to itself
twice.
---
 terragraph_planner/common/topology_models/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..2190526 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
@@ -119,7 +119,8 @@ class Topology:
         for link_id in self.site_connectivity.get(site_id, {}).values():
             link_to_remove.append(link_id)
         for link_id in self.site_connectivity_reverse.get(site_id, {}).values():
-            link_to_remove.append(link_id)
+            if link_id not in link_to_remove:
+                link_to_remove.append(link_id)
         for link_id in link_to_remove:
             self.remove_link(link_id)
 
-- 
2.43.0


From f247790c2c885f03b71bacca14e6f9d5d9e368d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 04/42] fix: use the incoming link for wireless predecessors

get_wireless_predecessor_sites looked at the link to the predecessor instead of
the link from it, so predecessors of one-way links were lost.
---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 2190526..f7d1757 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -311,7 +311,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From 8a881b7e09b442eeca981bede17ac877992cc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 05/42] fix: only return a link by sectors that uses those
 sectors

get_link_by_sector_ids returned any link between the sectors' sites, also one
that uses other sectors or none.
---
 terragraph_planner/common/topology_models/topology.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index f7d1757..0195741 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -352,7 +352,15 @@ class Topology:
         )
         tx_site = self.sectors[tx_sector_id].site
         rx_site = self.sectors[rx_sector_id].site
-        return self.get_link_by_site_ids(tx_site.site_id, rx_site.site_id)
+        link = self.get_link_by_site_ids(tx_site.site_id, rx_site.site_id)
+        if (
+            link is None
+            or link.is_out_of_sector()
+            or none_throws(link.tx_sector).sector_id != tx_sector_id
+            or none_throws(link.rx_sector).sector_id != rx_sector_id
+        ):
+            return None
+        return link
 
     def get_reverse_link(self, link: Link) -> Optional[Link]:
         return self.get_link_by_site_ids(
-- 
2.43.0


From df9c6556bd50082daaff2c78eda8252f2a8dab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 06/42] fix: reject a non-positive coverage solver time like
 the other solver times

---
 terragraph_planner/common/configuration/configs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..7c0d6cf 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -681,6 +681,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             min_cost_max_time > 0
             and redundancy_max_time > 0
+            and max_coverage_max_time > 0
             and interference_max_time > 0
             and pop_proposal_max_time > 0
             and demand_site_max_time > 0,
-- 
2.43.0


From ecb7cbe1749ad1e1f8076abe5cd6c750207fb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 07/42] fix: compare every attribute when comparing
 configurations

---
 terragraph_planner/common/configuration/configs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 7c0d6cf..6cad39a 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -153,13 +153,15 @@ class ConfigParser:
                     if value != other_value:
                         return False
                 elif isinstance(value, list):
+                    if len(value) != len(other_value):
+                        return False
                     value.sort()
                     other_value.sort()
                     for i in range(len(value)):
                         if not value[i].__eq__(other_value[i]):
                             return False
-                else:
-                    return value.__eq__(other_value)
+                elif value != other_value:
+                    return False
             return True
         else:
             return NotImplemented
-- 
2.43.0


From f735b17415291583613b0cd11c08e710d1de9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 08/42] fix: write configurations with antenna or scan patterns
 to a dictionary

---
 terragraph_planner/common/configuration/configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 6cad39a..d5ef8b4 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -69,6 +69,9 @@ class ConfigParser:
                     elif isinstance(obj, (str, int, float)):
                         obj_list.append(obj)
                 func_arg_val[key] = obj_list
+            elif isinstance(value, dict):
+                # Pattern data, which is read from the file at the given path
+                continue
             else:
                 if isinstance(value, ConfigParser):
                     func_arg_val[key] = value.to_dict()
-- 
2.43.0


From bef520f510199d2b2606b55813f301b4697c8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 09/42] fix: analyse networks without a point of presence in
 the status filter

---
 terragraph_planner/optimization/topology_networkx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..0e8ceb0 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -56,6 +56,8 @@ def build_digraph(
         return 1 if mcs > 12 else mcs_cost.get(mcs, math.inf)
 
     G = nx.DiGraph()
+    # The analysis starts from the supersource, even if no POP is connected
+    G.add_node(SUPERSOURCE)
     default_link_cost = 1
     for site_id, site in topology.sites.items():
         if site.site_type == SiteType.POP and site.status_type in status_filter:
-- 
2.43.0


From 11984fb01102a713aa2188383af2a8ad4cf26f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 10/42] fix: restore the attributes of the links removed by the
 disjoint path analysis

---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 0e8ceb0..9d6e680 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -424,26 +424,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.edges[edge]))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From 9dcdf2374fd9a3a3e1ac8075143bfac03b43a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 11/42] fix: simulate links that are never available

---
 .../optimization/topology_availability.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..2aa7a6c 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,9 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Simultaneous events of a link take place in the order they are generated
+    events: List[Tuple[float, Tuple[str, str], int, int]] = [
+        (sim_length, ("", ""), 0, _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +108,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, key, len(events), _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, key, len(events), _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +130,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, (u, v), _, event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From f92ecb6ce22a1e0a78b81c15596cb5129c635999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 12/42] fix: keep unavailable links when marking unreachable
 sites

---
 terragraph_planner/optimization/topology_operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..b3e882c 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -143,13 +143,17 @@ def mark_unreachable_components(
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                # Unavailable links can never change their status
+                if link.status_type is not StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                # Unavailable links can never change their status
+                if link.status_type is not StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From 8bcc511d61e91eb824422964193796f1da9b78cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 13/42] fix: find disruptive links that are missing in the
 candidate graph

---
 .../optimization/topology_networkx.py         | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 9d6e680..b7679e6 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -254,7 +254,10 @@ def find_most_disruptive_links(
             break
         elif len(edge_disruptions[(u, v)]) == 0:
             break
-        elif proposed_graph[u][v]["link_type"] == LinkType.WIRELESS_ACCESS:
+        elif (
+            proposed_graph.has_edge(u, v)
+            and proposed_graph[u][v]["link_type"] == LinkType.WIRELESS_ACCESS
+        ):
             continue
         elif (u, v) in disruptive_edges:
             continue
@@ -264,9 +267,14 @@ def find_most_disruptive_links(
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
         # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        # Note: either direction of the edge can be missing in the candidate
+        # graph, e.g., if its link does not have any capacity.
+        removed_edges = [
+            edge
+            for edge in [(u, v), (v, u)]
+            if candidate_graph_copy.has_edge(*edge)
+        ]
+        candidate_graph_copy.remove_edges_from(removed_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
@@ -276,9 +284,7 @@ def find_most_disruptive_links(
             if has_rev:
                 disruptive_edges.add((v, u))
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(removed_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 9b475065c0a8fb1beaeebb29d2e6ced0839f8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 14/42] fix: analyse interference with active CNs that have no
 active incoming link

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..163638b 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # An active CN may not have any active incoming link
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From 824edc5ce675d91aa3659fb57582dd41032c6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 15/42] fix: finish the uniform demand grid of networks next to
 the antimeridian

---
 .../optimization/topology_demand.py               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..1bd2901 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -147,22 +147,29 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    if antimeridian:
+        right += 360
+
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
+        # The buffer can cross the antimeridian even if the sites do not
+        grid_longitude = longitude
+        if grid_longitude > 180:
+            grid_longitude -= 360
+        elif grid_longitude < -180:
+            grid_longitude += 360
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude, longitude=grid_longitude
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 44076ea6f41d8404feaf0998696c7c00fb59f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 16/42] fix: orient client sectors towards links on both sides
 of north

---
 terragraph_planner/optimization/topology_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..d886c38 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -567,6 +567,10 @@ def find_best_equidistant_sectors(
         np.round((link_angles - rotation_angles) / arc_length) % num_nodes
     )
     delta_angles = link_angles - node_ids * arc_length - rotation_angles
+    # Links and nodes can be on different sides of north
+    delta_angles -= FULL_ROTATION_ANGLE * np.round(
+        delta_angles / FULL_ROTATION_ANGLE
+    )
     delta_angles[abs(delta_angles) > inter_node_angle / 2] = FULL_ROTATION_ANGLE
     mets = np.sum(delta_angles**2, axis=1)
     best_met_idx = mets.argmin()
-- 
2.43.0


From d2b9458df7c7ba7474c0edebccaad766e498e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 17/42] fix: create sectors on unavailable and unreachable
 sites

---
 .../optimization/topology_preparation.py               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index d886c38..1cbcc47 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -196,7 +196,10 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    # Sectors on inactive sites have the status of the site
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +250,10 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    # Sectors on inactive sites have the status of the site
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From fcba9a2aa9cf4bf161ac3f2865257a333ef34d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 18/42] fix: accept nodes with sectors on both sides of north

---
 terragraph_planner/optimization/topology_preparation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 1cbcc47..ddea008 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -422,13 +422,13 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
             for a in azimuths
             if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
         ]
-        l1.sort()
+        l1.sort(key=lambda a: angle_delta(a, circ_mean))
         l2 = [
             a
             for a in azimuths
             if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
         ]
-        l2.sort()
+        l2.sort(key=lambda a: angle_delta(a, circ_mean))
         sector_azimuths[node_id] = l1 + l2
 
     # First verify that each sector within the node are exactly horizontal scan
-- 
2.43.0


From 322f3bf38b89c472727f440fc4f59affed67e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 19/42] fix: allow lines of sight between rooftops of unknown
 buildings

---
 terragraph_planner/los/base_los_validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..74f527e 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -108,6 +111,7 @@ class BaseLOSValidator(ABC):
             site1.location_type
             == site2.location_type
             == LocationType.ROOFTOP.value
+            and site1.building_id != UNKNOWN_BUILDING_ID
             and site1.building_id == site2.building_id
         )
 
-- 
2.43.0


From bf53f97e6a693490eea90ecc6f065f7f5d92d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 20/42] fix: reuse line-of-sight results only for sites on the
 same buildings

---
 terragraph_planner/los/helper.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..c75c4c7 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,13 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 321619de4c6d6c9ceae286258d9908f44b5a508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 21/42] fix: link new sites to the sites of the base topology

---
 terragraph_planner/los/helper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index c75c4c7..cff8820 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -894,7 +894,7 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
-                site_map[site_idx] = [site]
+            site_map[site_idx] = [topology.sites[site.site_id]]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
@@ -908,7 +908,9 @@ def add_sites_to_topology(
                 site_with_device = detected_site.to_site(device)
                 if site_with_device.site_id not in topology.sites:
                     topology.add_site(site_with_device)
-                    site_map[site_idx].append(site_with_device)
+                site_map[site_idx].append(
+                    topology.sites[site_with_device.site_id]
+                )
 
     return site_map
 
@@ -947,7 +949,8 @@ def add_links_to_topology(
                         ],
                     )
                     if (
-                        min_los_dist
+                        link.link_id not in topology.links
+                        and min_los_dist
                         <= link.distance
                         <= device_pair_to_max_los_dist[
                             (
-- 
2.43.0


From 94b217fa966816a30a33dd795df524e37e3e7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 22/42] fix: read elevation within bounds that start outside of
 the grid

---
 terragraph_planner/los/elevation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..db01106 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -262,7 +262,8 @@ class Elevation(GISData):
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From 7d4bdf8211f01f8e2f58178f387282a7668312f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 23/42] fix: ignore the surface at the end sites in the
 ellipsoidal confidence

---
 terragraph_planner/los/fresnel_zone.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/los/fresnel_zone.py b/terragraph_planner/los/fresnel_zone.py
index 2e8b6e2..0d04b18 100644
--- a/terragraph_planner/los/fresnel_zone.py
+++ b/terragraph_planner/los/fresnel_zone.py
@@ -160,6 +160,12 @@ class FresnelZone:
                the closest distance to the obstruction is where the height(z) is equal
         """
         x, y, z = point
+        # As for the inner Fresnel zone, the points at the sites do not obstruct
+        if (x == self._site1.utm_x and y == self._site1.utm_y) or (
+            x == self._site2.utm_x and y == self._site2.utm_y
+        ):
+            return self._outer_fresnel_radius
+
         height = self._solve_for_lower_ellipsoid_height(
             x, y, self._outer_fresnel_radius_sq
         )
-- 
2.43.0


From 6c26c60ba01f80dfd2a6723fb9b85974693db246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 24/42] fix: reset disconnected sites without sectors too

---
 terragraph_planner/optimization/topology_optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..0418f28 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -637,15 +637,16 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
-        if site.site_id not in hop_counts:
+    for site_id, site in topology.sites.items():
+        if site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
-- 
2.43.0


From 8a21b20ed17ad4be6f0cb56a2b76253100e042ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 25/42] fix: copy link type and confidence from the duplicated
 incoming link

---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..04d2f18 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -124,8 +124,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 56ef17e4022c2bbced9a121afafba6a188325c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 26/42] fix: leave existing sectors alone when proposing the
 rest of a node

---
 terragraph_planner/optimization/topology_operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b3e882c..ecb29b4 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -466,7 +466,10 @@ def _set_sector_status_in_same_node(topology: Topology) -> None:
         if sector.status_type == StatusType.PROPOSED:
             proposed_nodes.add((sector.site.site_id, sector.node_id))
     for sector in topology.sectors.values():
-        if (sector.site.site_id, sector.node_id) in proposed_nodes:
+        if (
+            sector.status_type == StatusType.CANDIDATE
+            and (sector.site.site_id, sector.node_id) in proposed_nodes
+        ):
             sector.status_type = StatusType.PROPOSED
 
 
-- 
2.43.0


From 87498eded04470337a5ef046a33e015db7e1f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 27/42] fix: do not duplicate links that cannot be used for
 extra POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 04d2f18..710e107 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -94,6 +94,9 @@ def add_duplicate_pop_to_dn_site(
             tx_link = none_throws(
                 topology.get_link_by_site_ids(dn_id, neighbor_site.site_id)
             )
+            # Links that cannot be used stay out of consideration for the POP
+            if tx_link.status_type in StatusType.inactive_status():
+                continue
             if tx_link.tx_sector is None or tx_link.rx_sector is None:
                 continue
             new_tx_link = Link(
@@ -116,6 +119,9 @@ def add_duplicate_pop_to_dn_site(
             rx_link = none_throws(
                 topology.get_link_by_site_ids(neighbor_site.site_id, dn_id)
             )
+            # Links that cannot be used stay out of consideration for the POP
+            if rx_link.status_type in StatusType.inactive_status():
+                continue
             if rx_link.tx_sector is None or rx_link.rx_sector is None:
                 continue
             new_rx_link = Link(
-- 
2.43.0


From 241b7d2600417a30a51e45a2c106e25956142947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 28/42] fix: read altitude and height as numbers when some rows
 leave them empty

---
 terragraph_planner/common/data_io/csv_library.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..a559174 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -151,6 +151,16 @@ def load_csv_and_validate(
                 df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
                     row[SiteKey.NUMBER_OF_SUBSCRIBERS]
                 )
+        for input_key in [SiteKey.ALTITUDE, SiteKey.HEIGHT]:
+            if input_key in row and isinstance(row[input_key], str):
+                value = row[input_key].strip()
+                try:
+                    df.loc[idx, input_key] = float(value) if value else None
+                except ValueError:
+                    raise DataException(
+                        f"{input_key.value.output_name} must be a number, "
+                        f"but is {value}."
+                    )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
-- 
2.43.0


From 255d5d7e22081ed934b97241cd2e6aa8803e5944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 29/42] fix: reject rate tables without usable rows

---
 terragraph_planner/common/data_io/csv_library.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index a559174..59ca315 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -398,7 +398,7 @@ def read_mcs_snr_mbps_map_data(
             DataException,
         )
     planner_assert(
-        len(raw_data) > 0,
+        len(raw_data) > 1,
         "The csv file must contain at least two lines including column names.",
         DataException,
     )
@@ -503,4 +503,9 @@ def read_mcs_snr_mbps_map_data(
             or mapping[MCS][i] >= sector_params.minimum_mcs_level
         )
     ]
+    planner_assert(
+        len(mcs_snr_mbps_map) > 0,
+        "No row of the MCS mapping file satisfies the min Tx power and Min MCS.",
+        DataException,
+    )
     return mcs_snr_mbps_map
-- 
2.43.0


From ecd2eba2bac18161f47674a55a4acdfd64702acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 30/42] fix: treat missing end site names of links in KML files
 as not given

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..c6a4906 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -138,8 +138,8 @@ def extract_links(
             if link_type_str.upper() in LinkType.__members__
             else LinkType.WIRELESS_BACKHAUL
         )
-        tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
-        rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
+        tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME) or None
+        rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME) or None
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
         link = RawLink(
             status_type=status_type,
-- 
2.43.0


From a7e6d21b014e2caa43bfe132e65ff5e4e1311877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 31/42] fix: read fractional confidence levels of links from
 KML files

---
 terragraph_planner/common/data_io/kml_library.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index c6a4906..5c7467b 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -140,13 +140,16 @@ def extract_links(
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME) or None
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME) or None
-        confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
+        try:
+            confidence_level = float(
+                _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
+            )
+        except ValueError:
+            confidence_level = None
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=confidence_level,
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From f71b1ceb72501c99d57f4b166dee5b4f444cc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 32/42] fix: accept rooftop sites of topology files without
 building id

---
 terragraph_planner/common/data_io/input_sites_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..9d900c9 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,8 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From 4232d9c91bb6068356c0bbece5906482b4e70295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 33/42] fix: keep the building of rooftop sites in topology KML
 files

---
 terragraph_planner/common/data_io/data_key.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/data_io/data_key.py b/terragraph_planner/common/data_io/data_key.py
index 96ada96..ca3c06e 100644
--- a/terragraph_planner/common/data_io/data_key.py
+++ b/terragraph_planner/common/data_io/data_key.py
@@ -174,6 +174,7 @@ class SiteKey(BaseDataKey):
             cls.STATUS_TYPE,
             cls.POLARITY,
             cls.LOCATION_TYPE,
+            cls.BUILDING_ID,
             cls.DEVICE_SKU,
             cls.NUMBER_OF_SUBSCRIBERS,
         ]
-- 
2.43.0


From 380d127e05d78cb8d4f07843f3353dde3700294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 34/42] fix: write numeric coordinates for sites without
 altitude to KML files

---
 terragraph_planner/common/data_io/topology_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..972e899 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -287,7 +287,7 @@ def _site_markup(
         </ExtendedData>
         <Point>
             <altitudeMode>{altitude_mode}</altitudeMode>
-            <coordinates>{site.longitude},{site.latitude},{site.altitude}</coordinates>
+            <coordinates>{site.longitude},{site.latitude},{site.altitude or 0}</coordinates>
         </Point>
     </Placemark>
     """
@@ -370,8 +370,8 @@ def _link_markup(
         </ExtendedData>
         <LineString>
             <altitudeMode>{tx_altitude_mode}</altitudeMode>
-            <coordinates> {tx_site.longitude},{tx_site.latitude},{tx_site.altitude}
-            {rx_site.longitude},{rx_site.latitude},{rx_site.altitude}
+            <coordinates> {tx_site.longitude},{tx_site.latitude},{tx_site.altitude or 0}
+            {rx_site.longitude},{rx_site.latitude},{rx_site.altitude or 0}
             </coordinates>
         </LineString>
     </Placemark>
-- 
2.43.0


From b4dbb335d652f78ed830b82d0ecbefebb44322bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 35/42] fix: keep names in CSV files that look like numbers

---
 .../common/data_io/csv_library.py              | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 59ca315..c02d6bd 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -84,8 +84,24 @@ def load_csv_and_validate(
     df = pd.DataFrame()
     # Read file
     try:
+        # Only the numeric columns are subject to type inference, otherwise
+        # names like "007" would be altered
+        numeric_names = {
+            name
+            for key in NUMERIC_KEYS
+            for name in key.value.possible_input_names
+        }
+        header = pd.read_csv(csv_file_path, nrows=0, encoding="utf-8-sig")
         df = pd.read_csv(
-            csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig"
+            csv_file_path,
+            header=0,
+            keep_default_na=False,
+            encoding="utf-8-sig",
+            dtype={
+                col: str
+                for col in header.columns
+                if col.strip().casefold() not in numeric_names
+            },
         )
     except Exception:
         planner_assert(
-- 
2.43.0


From 782ffabe3fe5b8218df52ee1f5d36cb11f03ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 36/42] fix: never select unavailable or unreachable points of
 presence

With always_active_pops the constraint that excludes inactive sites was
skipped for points of presence, so the models could choose them.
---
 .../optimization/ilp_models/network_optimization.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..199be62 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -848,11 +848,11 @@ class NetworkOptimization(OptimizationSetup):
             if (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
+                and loc not in self.inactive_sites
             ):
+                # Colocated sites handled in create_colocated_site_relationship
                 if (
-                    loc not in self.inactive_sites
-                    # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
-- 
2.43.0


From 86ca97d0575f4ce5f4adb746772904c9c6286b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 37/42] fix: find connectable demand with existing or
 unavailable links without capacity

Hiding those links from the search changed their status through the
setter, which rejects existing and unavailable items.
---
 .../optimization/ilp_models/network_optimization.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 199be62..ef1351c 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -163,12 +163,14 @@ class NetworkOptimization(OptimizationSetup):
             link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
             if link is not None:
                 links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
+                # Set the status directly because it is restored below and the
+                # setter rejects existing and unavailable links
+                link._status_type = StatusType.UNREACHABLE
         for site_id in ignore_sites:
             site = self.topology.sites.get(site_id, None)
             if site is not None:
                 sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
+                site._status_type = StatusType.UNREACHABLE
         reachable_demand_sites = get_reachable_demand_sites(
             self.topology, status_filter
         )
@@ -176,10 +178,10 @@ class NetworkOptimization(OptimizationSetup):
             link = none_throws(
                 self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
             )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
+            link._status_type = links_status[(tx_site_id, rx_site_id)]
         for site_id in ignore_sites:
             site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
+            site._status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
-- 
2.43.0


From d65873b889c3016ef2a09747e6db17a7f9822ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 38/42] fix: propose extra points of presence next to existing
 ones

The status of existing points of presence cannot be changed, so
propose_pops failed as soon as the network had one.
---
 .../optimization/ilp_models/pop_proposal_optimization.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 710e107..c736b61 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -273,9 +273,10 @@ class POPProposalNetwork(SiteOptimization):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                if site.status_type != StatusType.EXISTING:
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 57adb7bae01798a44aff593696a1f18bed724526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 39/42] fix: build the coverage constraint when no demand is
 connectable

The minimum of the connectable demand was taken over an empty list.
---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index ef1351c..1c51bbd 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -769,6 +769,8 @@ class NetworkOptimization(OptimizationSetup):
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
             # demand.
+            if len(self.connected_demand_sites) == 0:
+                return
             min_demand = min(
                 [
                     self.demand_at_location[loc]
-- 
2.43.0


From 9c0a59aa9d6233cba980ff4897ea40a263db9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 40/42] fix: do not constrain polarities by active wired links

Everywhere else polarity is irrelevant for wired links; requiring it
excludes plans with, e.g., three sites wired to each other.
---
 .../optimization/ilp_models/network_optimization.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 1c51bbd..cafc36a 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -883,6 +883,9 @@ class NetworkOptimization(OptimizationSetup):
             return
         # If a link should be active, then the end sites must be of opposite polarities
         for (i, j) in self.links:
+            # Polarity is irrelevant for wired links
+            if (i, j) in self.wired_links:
+                continue
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
                 if i in self.odd and j in self.odd:
                     # Because only co-located CN sites can be upgraded and CN
-- 
2.43.0


From 629ed320ed2cbe14456aa9b8f88213d548e5ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 41/42] fix: let flow use existing sectors

Only proposed sectors got time on their links in the flow of the final
plan, so existing ones carried nothing.
---
 .../optimization/ilp_models/flow_optimization.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..b14d1cf 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,9 +181,12 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
             (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
+            if sec in active_sectors.get(loc, set())
             else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
-- 
2.43.0


From 3689f67f609eec11dd1fba899a5abc9c7514739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 42/42] fix: use all sectors of a node together

The keys of the sector decisions carry the channel, so no sector was
found and the constraint was never created.
---
 .../optimization/ilp_models/network_optimization.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index cafc36a..e498d37 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -407,7 +407,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
-- 
2.43.0

