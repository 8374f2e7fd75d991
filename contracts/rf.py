"""C05, C06, C07: modulation table lookups, transmit power, link budget arithmetic."""
import math

from contracts.common import *
from terragraph_planner.common.structs import MCSMap

LB = "terragraph_planner.common.rf.link_budget_calculator:"
ROW = TRec(MCSMap, (("mcs", TInt()), ("snr", TReal()), ("mbps", TReal()), ("tx_backoff", TReal())))
TABLE = TSeq(ROW)


def is_table(t):
    return {
        "table is not empty": len(t) > 0,
        "levels are distinct": all(t[i].mcs != t[j].mcs for i in range(len(t)) for j in range(len(t)) if i != j),
        "levels are not negative": all(row.mcs >= 0 for row in t),
    }


@contract(LB + "get_mcs_from_snr")
class get_mcs_from_snr:
    prop = "C05"
    types = {"snr_dbm": TXReal(), "mcs_snr_mbps_map": TABLE}

    def pre(mcs_snr_mbps_map):
        return {**is_table(mcs_snr_mbps_map)}

    def post(snr_dbm, mcs_snr_mbps_map, result):
        return {
            "zero or a level whose threshold is met":
                result == 0 or any(row.mcs == result and snr_dbm >= row.snr for row in mcs_snr_mbps_map),
            "no higher level has its threshold met":
                all(implies(snr_dbm >= row.snr, row.mcs <= result) for row in mcs_snr_mbps_map),
            "zero when not a number": implies(math.isnan(snr_dbm), result == 0),
        }


@contract(LB + "get_snr_from_mcs")
class get_snr_from_mcs:
    prop = "C05"
    modular = True
    types = {"mcs_snr_mbps_map": TABLE}

    def pre(mcs_snr_mbps_map):
        return {**is_table(mcs_snr_mbps_map)}

    def post(mcs, mcs_snr_mbps_map, result):
        return {
            "zero when no level is that low": implies(all(row.mcs > mcs for row in mcs_snr_mbps_map), result == 0),
            "otherwise the threshold of a level not above":
                implies(any(row.mcs <= mcs for row in mcs_snr_mbps_map),
                        any(row.mcs <= mcs and row.snr == result for row in mcs_snr_mbps_map)),
            "highest such threshold": implies(any(row.mcs <= mcs for row in mcs_snr_mbps_map),
                                              all(implies(row.mcs <= mcs, row.snr <= result) for row in mcs_snr_mbps_map)),
        }


@contract(LB + "get_backoff_from_mcs")
class get_backoff_from_mcs:
    prop = "C05"
    modular = True
    types = {"mcs_snr_mbps_map": TABLE}

    def pre(mcs_snr_mbps_map):
        return {**is_table(mcs_snr_mbps_map)}

    def post(mcs_level, mcs_snr_mbps_map, result):
        return {
            "the table's backoff": all(implies(row.mcs == mcs_level, result == row.tx_backoff) for row in mcs_snr_mbps_map),
            "zero when absent": implies(all(row.mcs != mcs_level for row in mcs_snr_mbps_map), result == 0),
        }


@contract(LB + "get_link_capacity_from_mcs")
class get_link_capacity_from_mcs:
    prop = "C05"
    types = {"mcs_snr_mbps_map": TABLE}

    def pre(mcs_snr_mbps_map):
        return {**is_table(mcs_snr_mbps_map)}

    def post(mcs_level, mcs_snr_mbps_map, result):
        return {
            "the table's throughput in Gbps": all(implies(row.mcs == mcs_level, result * 1000 == row.mbps) for row in mcs_snr_mbps_map),
            "zero when absent": implies(all(row.mcs != mcs_level for row in mcs_snr_mbps_map), result == 0),
        }


# ------------------------------------------------------------------------ C06
def required(row, min_tx_power, net_gain_dbi, np_dbm):
    p = row.snr + np_dbm - net_gain_dbi
    return p if min_tx_power is None else max(min_tx_power, p)


def fits(row, min_tx_power, max_tx_power, net_gain_dbi, np_dbm):
    return required(row, min_tx_power, net_gain_dbi, np_dbm) <= max_tx_power - row.tx_backoff


def thresholds_increase(t):
    return all(implies(t[i].mcs < t[j].mcs, t[i].snr <= t[j].snr) for i in range(len(t)) for j in range(len(t)))


@contract(LB + "adjust_tx_power_with_backoff")
class adjust_tx_power_with_backoff:
    prop = "C06"
    types = {"mcs_snr_mbps_map": TABLE}

    def pre(mcs_snr_mbps_map):
        return {**is_table(mcs_snr_mbps_map), "thresholds never fall with the level": thresholds_increase(mcs_snr_mbps_map)}

    def post(mcs_level, mcs_snr_mbps_map, min_tx_power, max_tx_power, net_gain_dbi, np_dbm, result):
        return {
            "never raises the level": result[0] <= max(mcs_level, 0),
            "level zero has no power": implies(result[0] == 0, result[1] == -math.inf),
            "a table level that fits, with exactly the required power":
                result[0] == 0 or any(row.mcs == result[0] and fits(row, min_tx_power, max_tx_power, net_gain_dbi, np_dbm)
                                      and result[1] == required(row, min_tx_power, net_gain_dbi, np_dbm)
                                      for row in mcs_snr_mbps_map),
            "no higher level fits":
                all(implies(result[0] < row.mcs and row.mcs <= mcs_level,
                            not fits(row, min_tx_power, max_tx_power, net_gain_dbi, np_dbm)) for row in mcs_snr_mbps_map),
        }

    def _inv(mcs_level, mcs_level_0, mcs_snr_mbps_map, min_tx_power, max_tx_power, net_gain_dbi, np_dbm):
        return {
            "level only decreases": mcs_level <= mcs_level_0 and (mcs_level >= 0 or mcs_level == mcs_level_0),
            "higher levels do not fit":
                all(implies(mcs_level < row.mcs and row.mcs <= mcs_level_0,
                            not fits(row, min_tx_power, max_tx_power, net_gain_dbi, np_dbm)) for row in mcs_snr_mbps_map),
        }

    def _variant(mcs_level):
        return mcs_level

    loops = {0: Inv(_inv, variant=_variant)}


SP_PRE = "antenna_boresight_gain tx_diversity_gain maximum_tx_power minimum_tx_power"


@contract(LB + "get_max_tx_power")
class get_max_tx_power:
    prop = "C06"

    def pre(tx_sector_params):
        return {"valid configuration": tx_sector_params.minimum_tx_power is None
                or tx_sector_params.minimum_tx_power <= tx_sector_params.maximum_tx_power}

    def post(tx_sector_params, max_eirp_dbm, result):
        gain = tx_sector_params.antenna_boresight_gain + tx_sector_params.tx_diversity_gain
        lo = tx_sector_params.minimum_tx_power
        hi = tx_sector_params.maximum_tx_power
        cap = hi if max_eirp_dbm is None else min(hi, max_eirp_dbm - gain)
        return {
            "smaller of radio and regulatory limit, at least the minimum": result == (cap if lo is None else max(lo, cap)),
            "never above the radio maximum": result <= hi,
            "never below the radio minimum": lo is None or result >= lo,
        }


# ------------------------------------------------------------------------ C07
@contract(LB + "get_net_gain")
class get_net_gain:
    prop = "C07"

    def pre(d_km, f_ghz):
        return {"frequency is positive": f_ghz > 0}

    def post(ag_tx, al_tx, d_km, f_ghz, ag_rx, al_rx, el, result):
        from terragraph_planner.common.rf.link_budget_calculator import fspl
        g = ag_tx if ag_rx is None else ag_rx
        loss = al_tx if al_rx is None else al_rx
        return {"gains minus losses": result == ag_tx + g - al_tx - loss - fspl(d_km, f_ghz) - el}


@contract(LB + "get_rsl")
class get_rsl:
    prop = "C07"

    def pre(d_km, f_ghz):
        return {"frequency is positive": f_ghz > 0}

    def post(p_tx, ag_tx, al_tx, d_km, f_ghz, ag_rx, al_rx, el, result):
        from terragraph_planner.common.rf.link_budget_calculator import fspl
        g = ag_tx if ag_rx is None else ag_rx
        loss = al_tx if al_rx is None else al_rx
        return {"power plus net gain": result == p_tx + ag_tx + g - al_tx - loss - fspl(d_km, f_ghz) - el}


@contract(LB + "fspl")
class fspl:
    prop = "C07"
    ghost = {"e_km": TReal()}

    def pre(d_km, f_ghz):
        return {"frequency is positive": f_ghz > 0}

    def post(d_km, f_ghz, e_km, result):
        from terragraph_planner.common.constants import FSPL_MARGIN
        from terragraph_planner.common.rf.link_budget_calculator import fspl
        return {
            "never negative": result >= -1e-9,
            "standard formula or zero": result == 0 or (
                d_km > 0 and result == 20 * math.log10(d_km) + 20 * math.log10(f_ghz) + FSPL_MARGIN),
            "zero only while the formula is not positive": 
                result != 0 or d_km <= 0 or 20 * math.log10(d_km) + 20 * math.log10(f_ghz) + FSPL_MARGIN <= 1e-9,
            "never decreases with distance": implies(e_km >= d_km, fspl(e_km, f_ghz) >= result - 1e-9),
        }


@contract(LB + "compute_oxygen_loss")
class compute_oxygen_loss:
    prop = "C07"
    ghost = {"e_km": TReal()}

    def pre(dist_km):
        return {"distance not negative": dist_km >= 0}

    def post(dist_km, carrier_frequency, e_km, result):
        from terragraph_planner.common.rf.link_budget_calculator import compute_oxygen_loss
        return {
            "never negative": result >= 0,
            "zero at zero distance": implies(dist_km == 0, result == 0),
            "never decreases with distance": implies(e_km >= dist_km, compute_oxygen_loss(e_km, carrier_frequency) >= result),
            "proportional to distance": compute_oxygen_loss(1.0, carrier_frequency) * dist_km == result,
        }


@contract(LB + "compute_rain_loss")
class compute_rain_loss:
    prop = "C07"

    def pre(rain_rate, link_availability_percentage, carrier_frequency):
        return {"valid configuration": rain_rate >= 0 and link_availability_percentage >= 0
                and link_availability_percentage < 100 and carrier_frequency > 0}

    # the closed-form denominator may vanish only for a degenerate rain rate
    def may_raise(dist_km):
        return {ZeroDivisionError: dist_km > 0}

    def post(dist_km, result):
        return {"never negative": result >= 0, "zero at zero distance": implies(dist_km <= 0, result == 0)}


@contract(LB + "get_noise_power")
class get_noise_power:
    prop = "C07"

    def post(sectorParams, result):
        return {"noise figure plus thermal noise": result == sectorParams.noise_figure + sectorParams.thermal_noise_power}


@contract(LB + "get_snr")
class get_snr:
    prop = "C07"

    def post(rsl_dbm, noise_power_dbm, result):
        return {"received level minus noise": result == rsl_dbm - noise_power_dbm}


@contract(LB + "get_fspl_based_rsl")
class get_fspl_based_rsl:
    prop = "C07"

    def post(maximum_tx_power, net_gain_dbi, result):
        return {"power plus net gain": result == maximum_tx_power + net_gain_dbi}


@contract(LB + "get_snr_based_rsl")
class get_snr_based_rsl:
    prop = "C07"

    def post(snr_dbm, noise_power_dbm, result):
        return {"inverse of get_snr": result - noise_power_dbm == snr_dbm}


@contract(LB + "get_tx_power_from_rsl")
class get_tx_power_from_rsl:
    prop = "C07"

    def post(rsl_dbm, net_gain_dbi, result):
        return {"inverse of received level": result + net_gain_dbi == rsl_dbm}
