"""C01-C04: sites, sectors, links, the network graph."""
import math

import numpy as np

from contracts.common import *
from terragraph_planner.common.configuration.configs import DeviceData
from terragraph_planner.common.configuration.enums import DeviceType, LinkType, LocationType, PolarityType, SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import PlannerException, TopologyException
from terragraph_planner.common.geos import GeoLocation, haversine_distance, lat_lon_to_geo_hash
from terragraph_planner.common.utils import deterministic_hash
from terragraph_planner.common.structs import LinkBudgetMeasurements
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import DetectedSite, Site

M = "terragraph_planner.common.topology_models."
REG.entities |= {Site, Sector, Link, DemandSite, GeoLocation, DeviceData}
REG.identity_eq |= {Site, Sector, Link, DemandSite, GeoLocation, DeviceData}

SITE, SECTOR, LINK = TRef(Site), TRef(Sector), TRef(Link)
REG.types.update({
    (Sector, "_site"): SITE, (Link, "_tx_site"): SITE, (Link, "_rx_site"): SITE,
    (Link, "_tx_sector"): TOpt(SECTOR), (Link, "_rx_sector"): TOpt(SECTOR),
    (Sector, "_sector_id"): TStr(), (Site, "_site_id"): TStr(), (Site, "_site_hash"): TStr(),
    (DemandSite, "connected_sites"): TSeq(SITE),
})
# coordinates are converted on first use and then kept: seen from outside they never change
for _a in ("latitude", "longitude", "utm_x", "utm_y"): REG.abstract[(GeoLocation, _a)] = TReal()
REG.abstract[(GeoLocation, "utm_epsg")] = TInt()


def _digest(eng, a, kw):
    """a function of its arguments (nothing else is assumed of the digest)"""
    ts = [t for x in a for t in flat(x)]
    return Sym(eng.func(f"digest{len(a)}", *[t.sort() for t in ts], StrSort)(*ts), TStr())


REG.models[deterministic_hash] = _digest
REG.models[lat_lon_to_geo_hash] = _digest


def final(s): return s == StatusType.EXISTING or s == StatusType.UNAVAILABLE
def active(s): return s == StatusType.PROPOSED or s == StatusType.EXISTING


def sector_may(site_status, s):
    return (s == StatusType.CANDIDATE or s == StatusType.PROPOSED or s == StatusType.EXISTING) if active(site_status) else s == site_status


def link_may(t, r, s):
    return (
        (s != StatusType.EXISTING or (t == StatusType.EXISTING and r == StatusType.EXISTING))
        and (s == StatusType.UNAVAILABLE or (t != StatusType.UNAVAILABLE and r != StatusType.UNAVAILABLE))
        and (s == StatusType.UNREACHABLE or (t != StatusType.UNREACHABLE and r != StatusType.UNREACHABLE))
        and (not active(s) or (t != StatusType.CANDIDATE and r != StatusType.CANDIDATE)))


# ------------------------------------------------------------------ C03
@contract(M + "site:Site.status_type")
class set_site_status:
    prop = "C03"
    setter = True
    modifies = ["Site._status_type"]

    def raises(self, status_type):
        return {TopologyException: final(self._status_type) or final(status_type)}

    def post(self, status_type):
        return {"the new status is stored": self._status_type == status_type, "other sites keep theirs": unchanged(Site, "_status_type", self)}


@contract(M + "sector:Sector.status_type")
class set_sector_status:
    prop = "C03"
    setter = True
    modifies = ["Sector._status_type"]

    def raises(self, status_type):
        return {TopologyException: final(self._status_type) or final(status_type) or not sector_may(self._site._status_type, status_type)}

    def post(self, status_type):
        return {"the new status is stored": self._status_type == status_type, "other sectors keep theirs": unchanged(Sector, "_status_type", self)}


@contract(M + "link:Link.status_type")
class set_link_status:
    prop = "C03"
    setter = True
    modifies = ["Link._status_type"]

    def raises(self, status_type):
        return {TopologyException: final(self._status_type) or final(status_type) or not link_may(self._tx_site._status_type, self._rx_site._status_type, status_type)}

    def post(self, status_type):
        return {"the new status is stored": self._status_type == status_type, "other links keep theirs": unchanged(Link, "_status_type", self)}


@contract(M + "sector:Sector.__init__")
class new_sector:
    prop = ("C03", "C04")
    types = {"self": TObj(Sector), "site": SITE, "node_id": TInt(), "position_in_node": TInt(), "ant_azimuth": TReal(), "status_type": TEnum(StatusType), "channel": TInt()}

    def raises(site, status_type):
        return {TopologyException: not sector_may(site._status_type, status_type)}

    def post(self, site, node_id, position_in_node, ant_azimuth, status_type, channel):
        return {
            "status as given": self._status_type == status_type,
            "client sector exactly on client sites": self._sector_type == (SectorType.CN if site._site_type == SiteType.CN else SectorType.DN),
            "site, node, position, azimuth and channel as given": self._site is site and self._node_id == node_id and self._position_in_node == position_in_node and self.ant_azimuth == ant_azimuth and self.channel == channel,
            "id determined by site, node, position and type": self._sector_id == f"{site._site_id}-{node_id}-{position_in_node}-{self._sector_type.name}",
        }


@contract(M + "link:Link.__init__")
class new_link:
    prop = ("C03", "C04")
    types = {"self": TObj(Link)}

    def raises(tx_site, rx_site, tx_sector, rx_sector, status_type):
        t = tx_site if tx_site is not None else (tx_sector._site if tx_sector is not None else None)
        r = rx_site if rx_site is not None else (rx_sector._site if rx_sector is not None else None)
        return {TopologyException: t is None or r is None or t._site_type == SiteType.CN
                or (tx_sector is None) != (rx_sector is None)
                or (tx_sector is not None and tx_sector._site is not t)
                or (rx_sector is not None and rx_sector._site is not r)
                or not link_may(t._status_type, r._status_type, status_type)}

    def post(self, tx_site, rx_site, tx_sector, rx_sector, status_type, is_wireless, confidence_level):
        return {
            "status as given": self._status_type == status_type,
            "ends as given": (tx_site is None or self._tx_site is tx_site) and (rx_site is None or self._rx_site is rx_site),
            "ends of the sectors": (tx_sector is None or self._tx_site is tx_sector._site) and (rx_sector is None or self._rx_site is rx_sector._site),
            "sectors as given": self._tx_sector is tx_sector and self._rx_sector is rx_sector,
            "both sectors or neither": (self._tx_sector is None) == (self._rx_sector is None),
            "medium and confidence as given": self.is_wireless == is_wireless and self.confidence_level == confidence_level,
            "id determined by the ends": self._link_id == f"{self._tx_site._site_id}-{self._rx_site._site_id}",
            "never out of a client": self._tx_site._site_type != SiteType.CN,
        }


# ------------------------------------------------------------------ C04
@contract(M + "site:Site.__init__")
class new_site:
    prop = ("C04", "C03")
    types = {"self": TObj(Site)}

    def raises(site_type, device, location_type, building_id):
        return {TopologyException: (location_type == LocationType.ROOFTOP) != (building_id is not None)
                or (site_type == SiteType.CN) != (device.device_type == DeviceType.CN)}

    def post(self, site_type, location, device, status_type, location_type, building_id, name):
        return {
            "type, location, device and status as given": self._site_type == site_type and self._location is location and self._device is device and self._status_type == status_type,
            "location type, building and name as given": self._location_type == location_type and self._building_id == building_id and self._name == name,
            "id is a function of type, location, altitude and device": self._site_id == deterministic_hash(site_type.value, location.latitude, location.longitude, location.altitude, device.device_sku),
            "polarity unassigned": self.polarity == PolarityType.UNASSIGNED,
        }


@contract(M + "link:Link.tx_sector")
class replace_tx_sector:
    prop = "C04"
    setter = True
    modifies = ["Link._tx_sector"]

    def raises(self, tx_sector):
        return {TopologyException: tx_sector._site is not self._tx_site}

    def post(self, tx_sector):
        return {"stored": self._tx_sector is tx_sector, "no other link changes": unchanged(Link, "_tx_sector", self)}


@contract(M + "link:Link.rx_sector")
class replace_rx_sector:
    prop = "C04"
    setter = True
    modifies = ["Link._rx_sector"]

    def raises(self, rx_sector):
        return {TopologyException: rx_sector._site is not self._rx_site}

    def post(self, rx_sector):
        return {"stored": self._rx_sector is rx_sector, "no other link changes": unchanged(Link, "_rx_sector", self)}


@contract(M + "link:Link.clear_sectors")
class clear_sectors:
    prop = ("C04", "C01")
    modifies = ["Link._tx_sector", "Link._rx_sector"]

    def post(self):
        return {"no sectors left": self._tx_sector is None and self._rx_sector is None,
                "no other link changes": unchanged(Link, "_tx_sector", self) and unchanged(Link, "_rx_sector", self)}


@contract(M + "link:Link.link_type")
class link_type:
    prop = "C04"

    def post(self, result):
        return {
            "wired exactly if not wireless": (result == LinkType.ETHERNET) == (not self.is_wireless),
            "client link exactly if wireless and ending at a client": (result == LinkType.WIRELESS_ACCESS) == (self.is_wireless and self._rx_site._site_type == SiteType.CN),
        }


@contract(M + "link:Link.link_channel")
class link_channel:
    prop = "C04"

    def raises(self):
        return {TopologyException: active(self._status_type) and self._tx_sector is not None and self._rx_sector is not None and self._tx_sector.channel != self._rx_sector.channel}

    def post(self, result):
        return {"of the sectors when active, else unassigned":
                result == (self._tx_sector.channel if active(self._status_type) and self._tx_sector is not None and self._rx_sector is not None else -1)}


@contract(M + "link:Link.sorted_site_ids")
class sorted_site_ids:
    prop = "C04"

    def post(self, result):
        return {"the two ends": (result[0] == self._tx_site._site_id and result[1] == self._rx_site._site_id) or (result[1] == self._tx_site._site_id and result[0] == self._rx_site._site_id),
                "in order": result[0] <= result[1]}


@contract(M + "link:Link.is_out_of_sector")
class is_out_of_sector:
    prop = ("C04", "C02")

    def post(self, result):
        return {"a sector is missing": result == (self._tx_sector is None or self._rx_sector is None)}


@contract(M + "link:Link._update_azimuth")
class update_azimuth:
    prop = "C04"
    modifies = ["Link._tx_beam_azimuth", "Link._rx_beam_azimuth"]

    def post(self):
        return {"in one turn": 0 <= self._tx_beam_azimuth and self._tx_beam_azimuth < 360 and 0 <= self._rx_beam_azimuth and self._rx_beam_azimuth < 360,
                "half a turn apart": self._rx_beam_azimuth - self._tx_beam_azimuth == 180 or self._rx_beam_azimuth - self._tx_beam_azimuth == -180}


def spans(a, b):
    return haversine_distance(a._location.longitude, a._location.latitude, b._location.longitude, b._location.latitude)


@contract(M + "link:Link.distance")
class distance:
    prop = "C04"
    modifies = ["Link._distance"]

    def pre(self):
        return {"not asked before": self._distance is None, "latitudes": -90 <= self._tx_site._location.latitude and self._tx_site._location.latitude <= 90 and -90 <= self._rx_site._location.latitude and self._rx_site._location.latitude <= 90,
                "cosine of a latitude is not negative": np.cos(np.radians(self._tx_site._location.latitude)) >= 0 and np.cos(np.radians(self._rx_site._location.latitude)) >= 0,
                "product law of cosines": np.cos(np.radians(self._rx_site._location.latitude)) * np.cos(np.radians(self._tx_site._location.latitude)) <= 1 - np.sin(np.radians(self._rx_site._location.latitude - self._tx_site._location.latitude) / 2.0) ** 2}

    def post(self, result):
        t, r = self._tx_site, self._rx_site
        return {
            "not negative": result >= 0,
            "horizontal when an altitude is unknown": (t._location.altitude is not None and r._location.altitude is not None) or result == spans(t, r),
            "otherwise three-dimensional": t._location.altitude is None or r._location.altitude is None or result ** 2 == spans(t, r) ** 2 + (t._location.altitude - r._location.altitude) ** 2,
            "the same from the other end": (t._location.altitude is not None and r._location.altitude is not None) or result == spans(r, t),
            "the same from the other end in space": t._location.altitude is None or r._location.altitude is None or result ** 2 == spans(r, t) ** 2 + (r._location.altitude - t._location.altitude) ** 2,
            "kept": self._distance == result,
        }


@contract(M + "link:Link.el_dev")
class el_dev:
    prop = "C04"

    def pre(self):
        return {"length known": self._distance is not None and self._distance >= 0,
                "length at least the height": self._tx_site._location.altitude is None or self._rx_site._location.altitude is None or (self._tx_site._location.altitude - self._rx_site._location.altitude <= self._distance and self._rx_site._location.altitude - self._tx_site._location.altitude <= self._distance)}

    def post(self, result):
        t, r, d = self._tx_site._location.altitude, self._rx_site._location.altitude, self._distance
        return {
            "flat when an altitude is unknown": (t is not None and r is not None) or result == 0,
            "opposite of the reverse direction": t is None or r is None or d <= 0 or result == -math.degrees(math.asin((t - r) / d)),
            "up when the receiver is higher": t is None or r is None or d <= 0 or implies(r >= t, result >= 0),
            "within a right angle": -90 <= result and result <= 90,
        }


@contract(M + "link:Link.tx_dev")
class tx_dev:
    prop = "C04"

    def pre(self):
        return {"a sector azimuth": self._tx_sector is None or (0 <= self._tx_sector.ant_azimuth and self._tx_sector.ant_azimuth <= 360),
                "beam known": self._tx_beam_azimuth is not None and 0 <= self._tx_beam_azimuth and self._tx_beam_azimuth < 360}

    def post(self, result):
        return {"absent without a sector or a beam": (result is None) == (not self.is_wireless or self._tx_sector is None),
                "in a half turn": result is None or (-180 < result and result <= 180),
                "beam against sector": result is None or turns(result, self._tx_beam_azimuth - self._tx_sector.ant_azimuth)}


@contract(M + "link:Link.rx_dev")
class rx_dev:
    prop = "C04"

    def pre(self):
        return {"a sector azimuth": self._rx_sector is None or (0 <= self._rx_sector.ant_azimuth and self._rx_sector.ant_azimuth <= 360),
                "beam known": self._rx_beam_azimuth is not None and 0 <= self._rx_beam_azimuth and self._rx_beam_azimuth < 360}

    def post(self, result):
        return {"absent without a sector or a beam": (result is None) == (not self.is_wireless or self._rx_sector is None),
                "in a half turn": result is None or (-180 < result and result <= 180),
                "beam against sector": result is None or turns(result, self._rx_beam_azimuth - self._rx_sector.ant_azimuth)}


def turns(a, b): return a == b or a == b + 360 or a == b - 360


@contract(M + "link:Link.link_hash")
class link_hash:
    prop = "C04"

    def post(self, result):
        a, b = self._tx_site._site_hash + "_" + self._tx_site._site_type.name, self._rx_site._site_hash + "_" + self._rx_site._site_type.name
        return {"of the unordered ends": result == "-".join([a, b]) or result == "-".join([b, a]),
                "in a fixed order": (result == "-".join([a, b]) and a <= b) or (result == "-".join([b, a]) and b <= a)}


@contract(M + "site:Site.number_of_subscribers")
class subscribers:
    prop = "C04"

    def post(self, result):
        n = self._number_of_subscribers
        return {"clients have at least one unless told otherwise": result == (0 if self._site_type != SiteType.CN else (1 if n is None or n == 0 else n))}
