"""C10: angles, zones, distances."""
import numpy as np

from contracts.common import *
from terragraph_planner.common.exceptions import GeoSystemException
from terragraph_planner.common.geos import GeoLocation, bearing_in_degrees, haversine_distance, _law_of_cosines, _get_length_ratio

G = "terragraph_planner.common.geos:"


@contract(G + "angle_delta")
class angle_delta:
    prop = "C10"

    def pre(angle1, angle2):
        return {"headings": 0 <= angle1 and angle1 <= 360 and 0 <= angle2 and angle2 <= 360}

    def post(angle1, angle2, result):
        return {
            "in the half-open half turn": -180 < result and result <= 180,
            "the difference modulo a full turn": result == angle1 - angle2 or result == angle1 - angle2 + 360 or result == angle1 - angle2 - 360,
        }


@contract(G + "_longitude_to_utm_zone")
class longitude_to_utm_zone:
    prop = "C10"

    def pre(longitude):
        return {"a longitude": -180 <= longitude and longitude <= 180}

    def post(longitude, result):
        return {
            "one of sixty zones": 1 <= result and result <= 60,
            "the six-degree zone containing the longitude": (-180 + 6 * (result - 1) <= longitude and longitude < -180 + 6 * result) or (longitude == 180 and result == 1),
        }


@contract(G + "lat_lon_to_utm_epsg")
class lat_lon_to_utm_epsg:
    prop = "C10"

    def pre(longitude):
        return {"a longitude": -180 <= longitude and longitude <= 180}

    def post(latitutde, longitude, result):
        return {
            "northern codes": implies(latitutde >= 0, 32600 < result and result <= 32660),
            "southern codes": implies(latitutde < 0, 32700 < result and result <= 32760),
            "zone of the longitude": longitude == 180 or (-180 + 6 * (result % 100 - 1) <= longitude and longitude < -180 + 6 * (result % 100)),
        }


@contract(G + "haversine_distance")
class haversine:
    prop = "C10"

    def pre(longitude_a, latitude_a, longitude_b, latitude_b):
        return {
            "latitudes": -90 <= latitude_a and latitude_a <= 90 and -90 <= latitude_b and latitude_b <= 90,
            "cosine of a latitude is not negative": np.cos(np.radians(latitude_a)) >= 0 and np.cos(np.radians(latitude_b)) >= 0,
            "product law of cosines": np.cos(np.radians(latitude_a)) * np.cos(np.radians(latitude_b)) <= 1 - np.sin(np.radians(latitude_b - latitude_a) / 2.0) ** 2,
        }

    def post(longitude_a, latitude_a, longitude_b, latitude_b, result):
        return {
            "not negative": result >= 0,
            "at most half the circumference": result <= 6378100.0 * 3.1415926536,
            "symmetric": haversine_distance(longitude_b, latitude_b, longitude_a, latitude_a) == result,
        }


@contract(G + "haversine_distance")
class haversine_of_a_point_to_itself:
    prop = "C10"

    def pre(longitude_a, latitude_a, longitude_b, latitude_b):
        return {"same point": longitude_a == longitude_b and latitude_a == latitude_b, "sine of zero": np.sin(np.radians(latitude_b - latitude_a) / 2.0) == 0 and np.sin(np.radians(longitude_b - longitude_a) / 2.0) == 0}

    def post(result):
        return {"zero": result == 0}


@contract(G + "bearing_in_degrees")
class bearing:
    prop = "C10"

    def post(result):
        return {"in one turn": 0 <= result and result < 360}


@contract(G + "_law_of_cosines")
class law_of_cosines:
    prop = "C10"
    raises = None

    def pre(len1, len2, len3):
        return {"lengths": len1 > 0 and len2 > 0 and len3 >= 0}

    def post(len1, len2, len3, result):
        return {
            "between zero and half a turn": 0 <= result and result <= 180,
            "symmetric in the two sides": _law_of_cosines(len2, len1, len3) == result,
            "zero for a degenerate triangle": implies(len3 == 0, result == 0),
        }


@contract(G + "_get_length_ratio")
class length_ratio:
    prop = "C10"

    def pre(len1, len2):
        return {"lengths": len1 > 0 and len2 > 0}

    def post(len1, len2, result):
        return {
            "at least one": result >= 1,
            "longer over shorter": result * len1 == len2 or result * len2 == len1,
            "symmetric": _get_length_ratio(len2, len1) == result,
        }


@contract(G + "GeoLocation.__init__")
class geo_location:
    prop = "C10"
    types = {"self": TObj(GeoLocation)}

    def raises(latitude, longitude, utm_x, utm_y, utm_epsg):
        return {GeoSystemException: not (
            (latitude is not None and longitude is not None and -90 <= latitude and latitude <= 90 and -180 <= longitude and longitude <= 180)
            or ((latitude is None or longitude is None) and utm_x is not None and utm_y is not None and utm_epsg is not None
                and ((32600 < utm_epsg and utm_epsg <= 32660) or (32700 < utm_epsg and utm_epsg <= 32760))))}

    def post(self, latitude, longitude, utm_x, utm_y, utm_epsg, altitude):
        return {
            "geographic coordinates are kept": (latitude is None or longitude is None) or (self._latitude == latitude and self._longitude == longitude),
            "metric coordinates are kept": (latitude is not None and longitude is not None) or (self._utm_x == utm_x and self._utm_y == utm_y and self._utm_epsg == utm_epsg),
            "altitude is kept": self.altitude == altitude,
        }
