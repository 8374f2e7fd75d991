"""C08: a configuration section exists only with every parameter in its documented range."""
from contracts.common import *
from terragraph_planner.common.configuration.configs import DeviceData, LOSParams, OptimizerParams, SectorParams, SiteDetectionParams
from terragraph_planner.common.configuration.enums import DeviceType
from terragraph_planner.common.exceptions import ConfigException, PlannerException

CF = "terragraph_planner.common.configuration.configs:"


@contract(CF + "SectorParams.__init__")
class sector_params:
    prop = "C08"
    fixed = {"antenna_pattern_file_path": None, "scan_pattern_file_path": None, "mcs_map_file_path": None}
    types = {"self": TObj(SectorParams)}

    def raises(antenna_boresight_gain, maximum_tx_power, number_sectors_per_node, horizontal_scan_range, carrier_frequency, noise_figure, rain_rate,
               link_availability_percentage, tx_diversity_gain, rx_diversity_gain, tx_miscellaneous_loss, rx_miscellaneous_loss, minimum_mcs_level, minimum_tx_power):
        return {ConfigException: not (
            antenna_boresight_gain >= 0 and maximum_tx_power >= 0 and number_sectors_per_node >= 1 and 0 <= horizontal_scan_range <= 360
            and carrier_frequency > 0 and noise_figure >= 0 and rain_rate >= 0 and 0 <= link_availability_percentage <= 100
            and tx_diversity_gain >= 0 and rx_diversity_gain >= 0 and tx_miscellaneous_loss >= 0 and rx_miscellaneous_loss >= 0
            and (minimum_mcs_level is None or minimum_mcs_level >= 0) and (minimum_tx_power is None or minimum_tx_power <= maximum_tx_power))}

    def post(self, antenna_boresight_gain, maximum_tx_power, number_sectors_per_node, horizontal_scan_range, carrier_frequency, thermal_noise_power, noise_figure, rain_rate,
             link_availability_percentage, tx_diversity_gain, rx_diversity_gain, tx_miscellaneous_loss, rx_miscellaneous_loss, minimum_mcs_level, minimum_tx_power):
        return {
            "gains and powers stored": self.antenna_boresight_gain == antenna_boresight_gain and self.maximum_tx_power == maximum_tx_power and self.minimum_tx_power == minimum_tx_power
                and self.tx_diversity_gain == tx_diversity_gain and self.rx_diversity_gain == rx_diversity_gain,
            "losses stored": self.tx_miscellaneous_loss == tx_miscellaneous_loss and self.rx_miscellaneous_loss == rx_miscellaneous_loss,
            "layout stored": self.number_sectors_per_node == number_sectors_per_node and self.horizontal_scan_range == horizontal_scan_range and self.minimum_mcs_level == minimum_mcs_level,
            "environment stored": self.carrier_frequency == carrier_frequency and self.thermal_noise_power == thermal_noise_power and self.noise_figure == noise_figure
                and self.rain_rate == rain_rate and self.link_availability_percentage == link_availability_percentage,
            "no pattern without a file": self.antenna_pattern_data is None and self.scan_pattern_data is None,
        }


def nodes_of(number_of_nodes_per_site, device_type):
    return (1 if device_type == DeviceType.CN else 4) if number_of_nodes_per_site is None else number_of_nodes_per_site


@contract(CF + "DeviceData.__init__")
class device_data:
    prop = "C08"
    types = {"self": TObj(DeviceData)}

    def raises(device_sku, sector_params, node_capex, number_of_nodes_per_site, device_type):
        return {ConfigException: not (
            len(device_sku) > 0 and node_capex >= 0 and (number_of_nodes_per_site is None or number_of_nodes_per_site >= 1)
            and not (device_type == DeviceType.CN and number_of_nodes_per_site is not None and number_of_nodes_per_site != 1)
            and sector_params.horizontal_scan_range * sector_params.number_sectors_per_node * nodes_of(number_of_nodes_per_site, device_type) <= 360)}

    def post(self, device_sku, sector_params, node_capex, number_of_nodes_per_site, device_type):
        return {
            "values stored": self.device_sku == device_sku and self.node_capex == node_capex and self.device_type == device_type,
            "nodes as given, one for a client and four otherwise by default": self.number_of_nodes_per_site == nodes_of(number_of_nodes_per_site, device_type),
            "radio settings stored": self.sector_params is sector_params,
        }


@contract(CF + "SiteDetectionParams.__init__")
class site_detection_params:
    prop = "C08"
    types = {"self": TObj(SiteDetectionParams)}

    def raises(max_corner_angle):
        return {ConfigException: not (max_corner_angle is None or (0 < max_corner_angle and max_corner_angle < 180))}

    def post(self, dn_deployment, detect_highest, detect_centers, detect_corners, max_corner_angle):
        return {"values stored": self.dn_deployment == dn_deployment and self.detect_highest == detect_highest and self.detect_centers == detect_centers
                and self.detect_corners == detect_corners and self.max_corner_angle == max_corner_angle}


REG.entities |= {DeviceData, SectorParams}
REG.identity_eq |= {DeviceData, SectorParams}
DEVICES = TSeq(TRef(DeviceData))


def clash(d):
    return any(d[i].device_sku.casefold() == d[j].device_sku.casefold() for i in range(len(d)) for j in range(len(d)) if i != j)


@contract(CF + "_check_duplicated_devices")
class check_duplicated_devices:
    prop = ("C08", "C09")
    modular = True
    types = {"device_list": DEVICES}
    modifies = []

    def raises(device_list):
        return {ConfigException: clash(device_list)}

    loops = {0: Inv(lambda done_n, sku_set, device_list: {
        "seen skus": forall(TStr(), lambda s: (s in sku_set) == any(device_list[i].device_sku.casefold() == s for i in range(done_n))),
        "no clash so far": all(device_list[i].device_sku.casefold() != device_list[j].device_sku.casefold() for i in range(done_n) for j in range(done_n) if i != j)},
        types={"sku_set": TSet(TStr())})}


@contract(CF + "_populate_project_level_parameter")
class populate_project_level_parameter:
    prop = ("C08", "C09")
    modular = True
    types = {"device_list": DEVICES}
    modifies = ["SectorParams.carrier_frequency", "SectorParams.thermal_noise_power", "SectorParams.noise_figure", "SectorParams.rain_rate", "SectorParams.link_availability_percentage"]

    def post(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage):
        return {**populated(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage),
                "other radios keep theirs": forall(TRef(SectorParams), lambda s: any(d.sector_params == s for d in device_list) or (
                    s.carrier_frequency == old(lambda: s.carrier_frequency) and s.noise_figure == old(lambda: s.noise_figure) and s.rain_rate == old(lambda: s.rain_rate)
                    and s.thermal_noise_power == old(lambda: s.thermal_noise_power) and s.link_availability_percentage == old(lambda: s.link_availability_percentage)))}


def populated(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage):
    return {
        "project carrier frequency reaches every device": all(d.sector_params.carrier_frequency == carrier_frequency for d in device_list),
        "project noise power reaches every device": all(d.sector_params.thermal_noise_power == thermal_noise_power for d in device_list),
        "project noise figure reaches every device": all(d.sector_params.noise_figure == noise_figure for d in device_list),
        "project rain rate reaches every device": all(d.sector_params.rain_rate == rain_rate for d in device_list),
        "project availability reaches every device": all(d.sector_params.link_availability_percentage == link_availability_percentage for d in device_list),
    }


def bad_los(device_list, minimum_mcs_of_backhaul_links, minimum_mcs_of_access_links, maximum_los_distance, minimum_los_distance, maximum_elevation_scan_angle,
            mounting_height_above_rooftop, default_dn_height_on_pole, default_cn_height_on_pole, default_pop_height_on_pole, fresnel_radius, los_confidence_threshold):
    return not (len(device_list) > 0 and not clash(device_list)
                and (minimum_mcs_of_backhaul_links is None or minimum_mcs_of_backhaul_links >= 0) and (minimum_mcs_of_access_links is None or minimum_mcs_of_access_links >= 0)
                and minimum_los_distance >= 5 and (maximum_los_distance is None or minimum_los_distance < maximum_los_distance)
                and 0 <= maximum_elevation_scan_angle <= 90 and mounting_height_above_rooftop >= 0
                and default_dn_height_on_pole >= 0 and default_cn_height_on_pole >= 0 and default_pop_height_on_pole >= 0
                and fresnel_radius > 0 and 0 <= los_confidence_threshold <= 1)


@contract(CF + "LOSParams.__init__")
class los_params:
    prop = "C08"
    types = {"self": TObj(LOSParams), "device_list": DEVICES}

    def raises(device_list, minimum_mcs_of_backhaul_links, minimum_mcs_of_access_links, maximum_los_distance, minimum_los_distance, maximum_elevation_scan_angle,
               mounting_height_above_rooftop, default_dn_height_on_pole, default_cn_height_on_pole, default_pop_height_on_pole, fresnel_radius, los_confidence_threshold):
        return {ConfigException: bad_los(device_list, minimum_mcs_of_backhaul_links, minimum_mcs_of_access_links, maximum_los_distance, minimum_los_distance, maximum_elevation_scan_angle,
                                         mounting_height_above_rooftop, default_dn_height_on_pole, default_cn_height_on_pole, default_pop_height_on_pole, fresnel_radius, los_confidence_threshold)}

    def post(self, device_list, minimum_mcs_of_backhaul_links, minimum_mcs_of_access_links, maximum_eirp, maximum_los_distance, minimum_los_distance, maximum_elevation_scan_angle,
             mounting_height_above_rooftop, default_dn_height_on_pole, default_cn_height_on_pole, default_pop_height_on_pole, use_ellipsoidal_los_model, fresnel_radius,
             los_confidence_threshold, num_processors, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage):
        return {
            "mcs limits stored": self.minimum_mcs_of_backhaul_links == minimum_mcs_of_backhaul_links and self.minimum_mcs_of_access_links == minimum_mcs_of_access_links,
            "distances stored": self.maximum_los_distance == maximum_los_distance and self.minimum_los_distance == minimum_los_distance,
            "angle stored": self.maximum_elevation_scan_angle == maximum_elevation_scan_angle,
            "heights stored": self.mounting_height_above_rooftop == mounting_height_above_rooftop and self.default_dn_height_on_pole == default_dn_height_on_pole
                and self.default_cn_height_on_pole == default_cn_height_on_pole and self.default_pop_height_on_pole == default_pop_height_on_pole,
            "model stored": self.use_ellipsoidal_los_model == use_ellipsoidal_los_model and self.fresnel_radius == fresnel_radius and self.los_confidence_threshold == los_confidence_threshold,
            "radio stored": self.carrier_frequency == carrier_frequency and self.thermal_noise_power == thermal_noise_power and self.noise_figure == noise_figure
                and self.rain_rate == rain_rate and self.maximum_eirp == maximum_eirp and self.link_availability_percentage == link_availability_percentage,
            "processors stored": self.num_processors == num_processors,
            "same devices": len(self.device_list) == len(device_list) and all(self.device_list[i] == device_list[i] for i in range(len(device_list))),
            **populated(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage)}


@contract(CF + "OptimizerParams.__init__")
class optimizer_params:
    prop = "C08"
    types = {"self": TObj(OptimizerParams), "device_list": DEVICES}
    fixed = {"candidate_topology_file_path": None}

    def raises(device_list, pop_site_capex, cn_site_capex, dn_site_capex, budget, pop_capacity, oversubscription, number_of_extra_pops, enable_cn_demand, enable_uniform_demand,
               enable_manual_demand, demand_spacing, demand_connection_radius, demand, dn_dn_sector_limit, dn_total_sector_limit, maximum_number_hops, diff_sector_angle_limit,
               near_far_length_ratio, near_far_angle_limit, number_of_channels, backhaul_link_redundancy_ratio, num_threads, min_cost_max_time, redundancy_max_time,
               max_coverage_max_time, interference_max_time, pop_proposal_max_time, demand_site_max_time, availability_max_time):
        return {PlannerException: not (
            len(device_list) > 0 and not clash(device_list) and pop_site_capex >= 0 and cn_site_capex >= 0 and dn_site_capex >= 0 and budget >= 0
            and pop_capacity > 0 and oversubscription >= 1 and number_of_extra_pops >= 0 and (enable_cn_demand or enable_uniform_demand or enable_manual_demand)
            and (not enable_uniform_demand or demand_spacing > 0) and (not (enable_uniform_demand or enable_manual_demand) or demand_connection_radius > 0)
            and demand > 0 and dn_total_sector_limit >= dn_dn_sector_limit and dn_dn_sector_limit > 0 and maximum_number_hops > 0
            and 0 <= diff_sector_angle_limit <= 180 and near_far_length_ratio > 0 and 0 <= near_far_angle_limit <= 180 and number_of_channels >= 1
            and 0 <= backhaul_link_redundancy_ratio <= 1 and (num_threads is None or num_threads > 0)
            and min_cost_max_time > 0 and redundancy_max_time > 0 and max_coverage_max_time > 0 and interference_max_time > 0 and pop_proposal_max_time > 0
            and demand_site_max_time > 0 and availability_max_time > 0)}

    def post(self, device_list, pop_site_capex, cn_site_capex, dn_site_capex, rain_rate, budget, pop_capacity, oversubscription, carrier_frequency, thermal_noise_power, noise_figure,
             link_availability_percentage, maximum_eirp, number_of_extra_pops, enable_cn_demand, enable_uniform_demand, enable_manual_demand, demand_spacing, demand_connection_radius,
             demand, dn_dn_sector_limit, dn_total_sector_limit, maximum_number_hops, diff_sector_angle_limit, near_far_length_ratio, near_far_angle_limit, number_of_channels,
             maximize_common_bandwidth, always_active_pops, enable_legacy_redundancy_method, redundancy_level, backhaul_link_redundancy_ratio, num_threads, min_cost_rel_stop,
             min_cost_max_time, redundancy_rel_stop, redundancy_max_time, max_coverage_rel_stop, max_coverage_max_time, interference_rel_stop, interference_max_time,
             pop_proposal_rel_stop, pop_proposal_max_time, demand_site_max_time, topology_routing, availability_sim_time, availability_seed, availability_max_time):
        return {
            "costs stored": self.pop_site_capex == pop_site_capex and self.cn_site_capex == cn_site_capex and self.dn_site_capex == dn_site_capex and self.budget == budget,
            "capacity stored": self.pop_capacity == pop_capacity and self.oversubscription == oversubscription and self.number_of_extra_pops == number_of_extra_pops,
            "demand stored": self.enable_cn_demand == enable_cn_demand and self.enable_uniform_demand == enable_uniform_demand and self.enable_manual_demand == enable_manual_demand
                and self.demand_spacing == demand_spacing and self.demand_connection_radius == demand_connection_radius and self.demand == demand,
            "limits stored": self.dn_dn_sector_limit == dn_dn_sector_limit and self.dn_total_sector_limit == dn_total_sector_limit and self.maximum_number_hops == maximum_number_hops
                and self.diff_sector_angle_limit == diff_sector_angle_limit and self.near_far_length_ratio == near_far_length_ratio and self.near_far_angle_limit == near_far_angle_limit
                and self.number_of_channels == number_of_channels,
            "flags stored": self.maximize_common_bandwidth == maximize_common_bandwidth and self.always_active_pops == always_active_pops
                and self.enable_legacy_redundancy_method == enable_legacy_redundancy_method,
            "redundancy stored": self.redundancy_level == redundancy_level and self.backhaul_link_redundancy_ratio == backhaul_link_redundancy_ratio,
            "solver settings stored": self.num_threads == num_threads and self.min_cost_rel_stop == min_cost_rel_stop and self.min_cost_max_time == min_cost_max_time
                and self.redundancy_rel_stop == redundancy_rel_stop and self.redundancy_max_time == redundancy_max_time and self.max_coverage_rel_stop == max_coverage_rel_stop
                and self.max_coverage_max_time == max_coverage_max_time and self.interference_rel_stop == interference_rel_stop and self.interference_max_time == interference_max_time
                and self.pop_proposal_rel_stop == pop_proposal_rel_stop and self.pop_proposal_max_time == pop_proposal_max_time and self.demand_site_max_time == demand_site_max_time,
            "availability settings stored": self.topology_routing == topology_routing and self.availability_sim_time == availability_sim_time
                and self.availability_seed == availability_seed and self.availability_max_time == availability_max_time,
            "radio stored": self.carrier_frequency == carrier_frequency and self.thermal_noise_power == thermal_noise_power and self.noise_figure == noise_figure
                and self.rain_rate == rain_rate and self.maximum_eirp == maximum_eirp and self.link_availability_percentage == link_availability_percentage,
            "internal defaults": self.coverage_percentage == 1 and not self.ignore_polarities,
            "same devices": len(self.device_list) == len(device_list) and all(self.device_list[i] == device_list[i] for i in range(len(device_list))),
            **populated(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage)}
