"""C11, C13: line-of-sight filters, Fresnel geometry, raster addressing."""
import math
from functools import partial

from scipy.spatial import cKDTree
from shapely.geometry import LineString
from shapely.prepared import PreparedGeometry, prep

from contracts.common import *
from terragraph_planner.common.configuration.constants import UNKNOWN_BUILDING_ID
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.data_io.constants import MIN_RES_TO_OUTPUT_AS_LIST, NO_DATA_VALUE
from terragraph_planner.common.data_io.patterns import GISData
from terragraph_planner.common.exceptions import DataException, LOSException
from terragraph_planner.common.structs import Point3D, UTMBoundingBox
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.base_los_validator import BaseLOSValidator
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.elevation import Elevation, ElevationKDTree
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
from terragraph_planner.los.fresnel_zone import FresnelZone

L = "terragraph_planner.los."
BASE, CYL, ELL, FZ, ELEV = TObj(BaseLOSValidator), TObj(CylindricalLOSValidator), TObj(EllipsoidalLOSValidator), TObj(FresnelZone), TObj(Elevation)
REG.entities |= {PreparedGeometry, Elevation, ElevationKDTree}
REG.identity_eq |= {PreparedGeometry}
ZONE = TRef(PreparedGeometry)
CELL = TTup([TInt(), TInt()])
POINT2, POINT3 = TTup([TReal(), TReal()]), TTup([TReal(), TReal(), TReal()])
REG.types.update({
    (BaseLOSValidator, "_exclusion_zones"): TSeq(ZONE),
    (BaseLOSValidator, "_los_confidence_threshold"): TReal(),
    (BaseLOSValidator, "_surface_elevation"): TOpt(TRef(Elevation)),
    (Elevation, "data_matrix"): TGrid(),
    (Elevation, "elevation_kd_tree"): TOpt(TRef(ElevationKDTree)),
    (Elevation, "elevation_search_radius"): TInt(),
    (Elevation, "spatial_reference"): TOpaque("Srs"),
})
ZONE_CONSTANTS = ("_x_m", "_y_m", "_z_m", "_cos_a", "_cos_b", "_sin_a", "_sin_b", "_half_distance_sq", "_half_xy_distance_sq", "_outer_fresnel_radius", "_outer_fresnel_radius_sq",
                  "_inner_fresnel_radius", "_inner_fresnel_radius_sq", "_a_over_c", "_b_over_c", "_d_over_c")
for _a in ZONE_CONSTANTS: REG.types[(FresnelZone, _a)] = TReal()


def _line(eng, a, kw):
    """the horizontal segment between two points, whichever is named first"""
    (x1, y1), (x2, y2) = [[term(x, TReal()) for x in p] for p in a[0]]
    first = z3.Or(x1 < x2, z3.And(x1 == x2, y1 <= y2))
    return tuple(Sym(z3.If(first, p, q), TReal()) for p, q in ((x1, x2), (y1, y2), (x2, x1), (y2, y1)))


def _touches(eng, a, kw):
    """whether a zone meets a segment: a fact about the zone and the segment alone"""
    ts = [term(x, TReal()) for x in a[1]]
    return Sym(eng.func("zone_meets", ref_sort(PreparedGeometry), *[t.sort() for t in ts], z3.BoolSort())(a[0].t, *ts), TBool())


def _prep(eng, a, kw):
    return Sym(eng.func("prepared", ref_sort("Polygon"), ref_sort(PreparedGeometry))(a[0].t), ZONE)


REG.models[LineString] = _line
REG.models[PreparedGeometry.intersects] = _touches
REG.models[prep] = _prep


# ------------------------------------------------------------------ C11
def dist_sq(p, q):
    dz = p.altitude - q.altitude if p.altitude is not None and q.altitude is not None else 0.0
    return (p.utm_x - q.utm_x) ** 2 + (p.utm_y - q.utm_y) ** 2 + dz ** 2


@contract(L + "base_los_validator:BaseLOSValidator.__init__")
class new_validator:
    prop = "C11"
    types = {"self": BASE, "exclusion_zones": TSeq(TOpaque("Polygon")), "surface_elevation": TOpt(TRef(Elevation))}

    def raises(max_los_distance, min_los_distance, max_el_dev, los_confidence_threshold):
        return {LOSException: min_los_distance <= 0 or max_los_distance <= min_los_distance or max_el_dev < 0 or max_el_dev > 90
                or los_confidence_threshold < 0 or los_confidence_threshold > 1}

    def post(self, surface_elevation, max_los_distance, min_los_distance, max_el_dev, exclusion_zones, los_confidence_threshold):
        return {
            "limits kept": self._max_los_distance == max_los_distance and self._min_los_distance == min_los_distance and self._max_el_dev == max_el_dev,
            "threshold kept": self._los_confidence_threshold == los_confidence_threshold,
            "every zone kept": len(self._exclusion_zones) == len(exclusion_zones),
            "surface kept": self._surface_elevation is surface_elevation,
        }


@contract(L + "base_los_validator:BaseLOSValidator._comp_los_distance")
class los_distance:
    prop = ("C11", "C12")

    def post(site1, site2, result):
        return {
            "not negative": result >= 0,
            "straight-line distance, horizontal when an altitude is unknown": result * result == dist_sq(site1, site2),
            "symmetric": BaseLOSValidator._comp_los_distance(site2, site1) == result,
        }


@contract(L + "base_los_validator:BaseLOSValidator._passes_simple_checks")
class passes_simple_checks:
    prop = ("C11", "C12")
    types = {"self": CYL}

    def pre(self):
        return {"limits": self._min_los_distance > 0 and self._max_los_distance > self._min_los_distance and 0 <= self._max_el_dev and self._max_el_dev <= 90}

    def post(self, site1, site2, result):
        return {
            "same place": implies(site1.utm_x == site2.utm_x and site1.utm_y == site2.utm_y, not result),
            "same known building": implies(site1.location_type == LocationType.ROOFTOP.value and site2.location_type == LocationType.ROOFTOP.value
                                           and site1.building_id is not None and site1.building_id != UNKNOWN_BUILDING_ID and site1.building_id == site2.building_id, not result),
            "too far": implies(dist_sq(site1, site2) > self._max_los_distance ** 2, not result),
            "too near": implies(dist_sq(site1, site2) < self._min_los_distance ** 2, not result),
            "too steep": site1.altitude is None or site2.altitude is None or dist_sq(site1, site2) == 0 or not result
                or math.degrees(math.asin(abs(site1.altitude - site2.altitude) / math.sqrt(dist_sq(site1, site2)))) <= self._max_el_dev,
            "no zone touched": implies(result, all(not z.intersects(LineString(((site1.utm_x, site1.utm_y), (site2.utm_x, site2.utm_y)))) for z in self._exclusion_zones)),
        }


def same_place(p, q): return p.utm_x == q.utm_x and p.utm_y == q.utm_y


def same_building(p, q):
    return p.location_type == LocationType.ROOFTOP.value and q.location_type == LocationType.ROOFTOP.value and p.building_id != UNKNOWN_BUILDING_ID and p.building_id == q.building_id


def too_steep(p, q, d, limit):
    return p.altitude is not None and q.altitude is not None and math.degrees(math.asin(abs(p.altitude - q.altitude) / d)) > limit


@contract(L + "base_los_validator:BaseLOSValidator._passes_simple_checks")
class passes_otherwise:
    prop = ("C11", "C12")
    types = {"self": ELL}

    def pre(self, site1, site2):
        return {"limits": self._min_los_distance > 0 and self._max_los_distance > self._min_los_distance and 0 <= self._max_el_dev and self._max_el_dev <= 90,
                "none of the reasons": not same_place(site1, site2) and not same_building(site1, site2)
                and self._min_los_distance ** 2 <= dist_sq(site1, site2) and dist_sq(site1, site2) <= self._max_los_distance ** 2,
                "gentle": not too_steep(site1, site2, math.sqrt(dist_sq(site1, site2)), self._max_el_dev),
                "no zone": all(not z.intersects(LineString(((site1.utm_x, site1.utm_y), (site2.utm_x, site2.utm_y)))) for z in self._exclusion_zones)}

    def post(result):
        return {"passes": result}


@contract(L + "base_los_validator:BaseLOSValidator._passes_simple_checks")
class passes_either_way:
    prop = "C12"
    types = {"self": ELL}
    pre = passes_simple_checks.pre

    def post(self, site1, site2, result):
        return {"same from the other end": self._passes_simple_checks(site2, site1) == result}


@contract(L + "base_los_validator:BaseLOSValidator._get_four_corners_of_rectangle")
class four_corners:
    prop = "C11"
    modular = True
    pure = True
    ret = TTup([POINT2, POINT2, POINT2, POINT2])
    modifies = []
    types = {"self": BASE}

    def pre(utm_x1, utm_y1, utm_x2, utm_y2, radius):
        return {"two places": utm_x1 != utm_x2 or utm_y1 != utm_y2, "radius": radius >= 0}

    def post(utm_x1, utm_y1, utm_x2, utm_y2, radius, result):
        a, b, c, d = result
        return {
            "one side centred on the first site": a[0] + b[0] == 2 * utm_x1 and a[1] + b[1] == 2 * utm_y1,
            "the other on the second": c[0] + d[0] == 2 * utm_x2 and c[1] + d[1] == 2 * utm_y2,
            "two radii wide": (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 == 4 * radius ** 2,
            "square to the line": (a[0] - b[0]) * (utm_x2 - utm_x1) + (a[1] - b[1]) * (utm_y2 - utm_y1) == 0,
            "sides parallel": c[0] - a[0] == utm_x2 - utm_x1 and c[1] - a[1] == utm_y2 - utm_y1,
        }


def line_args(bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq):
    return {"lengths of the line": b_len_2d_sq == bx * bx + by * by and b_len_2d_sq > 0 and b_len_2d > 0 and b_len_2d * b_len_2d == b_len_2d_sq and b_len_3d_sq == b_len_2d_sq + bz * bz}


def between(grid, ax, ay, bx, by, b_len_2d_sq):
    return 0 <= (grid.x - ax) * bx + (grid.y - ay) * by and (grid.x - ax) * bx + (grid.y - ay) * by <= b_len_2d_sq


def off(t, b, d): return (t * b - d) * (t * b - d)


@lemma
class pythagoras:
    """the foot f of the perpendicular from d to the line t*b: distances add up in squares"""
    prop = "C11"
    types = dict(dx=TReal(), dy=TReal(), dz=TReal(), bx=TReal(), by=TReal(), bz=TReal(), t=TReal(), f=TReal())

    def pre(dx, dy, dz, bx, by, bz, f):
        return {"foot": f * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz}

    def post(dx, dy, dz, bx, by, bz, t, f):
        return {
            "lemma: identity": off(t, bx, dx) + off(t, by, dy) + off(t, bz, dz) - (off(f, bx, dx) + off(f, by, dy) + off(f, bz, dz)) - (t - f) * (t - f) * (bx * bx + by * by + bz * bz)
                == 2 * (t - f) * (f * (bx * bx + by * by + bz * bz) - (dx * bx + dy * by + dz * bz)),
            "sum of squares": off(t, bx, dx) + off(t, by, dy) + off(t, bz, dz) == off(f, bx, dx) + off(f, by, dy) + off(f, bz, dz) + (t - f) * (t - f) * (bx * bx + by * by + bz * bz),
            "nearest": off(t, bx, dx) + off(t, by, dy) + off(t, bz, dz) >= off(f, bx, dx) + off(f, by, dy) + off(f, bz, dz),
        }


@lemma
class squares_grow:
    prop = "C11"
    types = dict(a=TReal(), b=TReal(), c=TReal())

    def pre(a, b, c): return {"between": (0 <= a and a <= b) or (b <= a and a <= 0), "factor": c >= 0}
    def post(a, b, c): return {"squares": a * a <= b * b, "lemma: as above": b * b - a * a >= 0, "scaled": a * a * c <= b * b * c}


@lemma
class transitive:
    prop = "C11"
    types = dict(a=TReal(), b=TReal(), c=TReal(), d=TReal())

    def pre(a, b, c, d): return {"steps": a <= b and b <= c and d >= 0}
    def post(a, b, c, d): return {"sum": a <= c + d}


@lemma
class roots_grow:
    prop = "C11"
    types = dict(a=TReal(), b=TReal())

    def pre(a, b): return {"squares": a * a <= b * b, "not negative": a >= 0 and b >= 0}
    def post(a, b): return {"roots": a <= b}


@lemma
class cancel:
    prop = "C11"
    types = dict(r=TReal(), l=TReal(), x=TReal(), s=TReal(), c=TReal())

    def pre(r, l, x, s, c): return {"scaled": (r * l) * (r * l) == c, "area": c == x * s, "length": l > 0 and l * l == s}
    def post(r, l, x, s, c): return {"lemma: factor": (r * r - x) * s == 0 and s > 0, "equal": r * r == x}


@lemma
class column_below_line:
    """the line passes above the top d of a column; every point t of the line, every point w below the top"""
    prop = "C11"
    types = dict(dx=TReal(), dy=TReal(), dz=TReal(), bx=TReal(), by=TReal(), bz=TReal(), t=TReal(), w=TReal(), p=TReal(), f=TReal())

    def pre(dx, dy, dz, bx, by, bz, w, p, f):
        return {"foot": f * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz, "foot in the plan": p * (bx * bx + by * by) == dx * bx + dy * by,
                "line above the top": dz <= p * bz, "below": w >= 0}

    def post(dx, dy, dz, bx, by, bz, t, w, p, f):
        h = t * bz - dz
        u = dz / bz if bz != 0 else p
        near = off(f, bx, dx) + off(f, by, dy) + off(f, bz, dz)
        return {
            "use: pythagoras at t": use(pythagoras, dx, dy, dz, bx, by, bz, t, f),
            "use: lower point": h < 0 or use(squares_grow, h, h + w, 1.0),
            "lemma: line above": h < 0 or near <= off(t, bx, dx) + off(t, by, dy) + (h + w) * (h + w),
            "lemma: level": h >= 0 or bz != 0,
            "lemma: between": h >= 0 or (u * bz == dz and ((t - p <= u - p and u - p <= 0) or (0 <= u - p and u - p <= t - p))),
            "lemma: at the top's height": h >= 0 or off(u, bz, dz) == 0,
            "use: pythagoras at u": use(pythagoras, dx, dy, dz, bx, by, bz, u, f),
            "use: plan at u": use(pythagoras, dx, dy, 0.0, bx, by, 0.0, u, p),
            "use: plan at t": use(pythagoras, dx, dy, 0.0, bx, by, 0.0, t, p),
            "use: nearer": h >= 0 or use(squares_grow, u - p, t - p, bx * bx + by * by),
            "lemma: 1": h >= 0 or near <= off(u, bx, dx) + off(u, by, dy),
            "lemma: 2": h >= 0 or off(u, bx, dx) + off(u, by, dy) <= off(t, bx, dx) + off(t, by, dy),
            "lemma: 3": (h + w) * (h + w) >= 0,
            "use: line below": h >= 0 or use(transitive, near, off(u, bx, dx) + off(u, by, dy), off(t, bx, dx) + off(t, by, dy), (h + w) * (h + w)),
            "nearest": near <= off(t, bx, dx) + off(t, by, dy) + (h + w) * (h + w),
        }


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._distance_between_grid_and_center_line")
class column_distance:
    """the distance of the column below the cell's top from the line of sight"""
    prop = "C11"
    types = {"self": CYL}
    ghost = {"t": TReal(), "z": TReal()}

    def pre(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq, t, z):
        return {**line_args(bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq),
                "cell beside the line": between(grid, ax, ay, bx, by, b_len_2d_sq),
                "any point of the line": 0 <= t and t <= 1, "any point of the column": z <= grid.z}

    def post(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_3d_sq, result, t, z):
        dx, dy, dz = grid.x - ax, grid.y - ay, grid.z - az
        p = (dx * bx + dy * by) / b_len_2d_sq
        foot = (dx * bx + dy * by + dz * bz) / b_len_3d_sq
        above = result is None or dz > p * bz
        return {
            "not negative": result is None or result >= 0,
            "lemma: foot": foot * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz,
            "lemma: foot in the plan": p * (bx * bx + by * by) == dx * bx + dy * by,
            "lemma: distance": above or result * result == off(foot, bx, dx) + off(foot, by, dy) + off(foot, bz, dz),
            "lemma: distance in the plan": result is None or not above or result * result == off(p, bx, dx) + off(p, by, dy),
            "use: top below the line": above or use(column_below_line, dx, dy, dz, bx, by, bz, t, grid.z - z, p, foot),
            "use: top above the line": use(pythagoras, dx, dy, 0.0, bx, by, 0.0, t, p),
            "lemma: same point": off(t, bx, dx) == (ax + t * bx - grid.x) ** 2 and off(t, by, dy) == (ay + t * by - grid.y) ** 2 and (t * bz - dz + (grid.z - z)) ** 2 == (az + t * bz - z) ** 2,
            "no point of the column is nearer": result is None or result * result <= (ax + t * bx - grid.x) ** 2 + (ay + t * by - grid.y) ** 2 + (az + t * bz - z) ** 2,
        }


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._distance_between_grid_and_center_line")
class column_distance_attained:
    prop = "C11"
    types = {"self": CYL}

    def pre(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq):
        return {**line_args(bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq)}

    def post(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_3d_sq, result):
        p = ((grid.x - ax) * bx + (grid.y - ay) * by) / b_len_2d_sq
        t = ((grid.x - ax) * bx + (grid.y - ay) * by + (grid.z - az) * bz) / b_len_3d_sq
        top = grid.z - az > p * bz
        return {
            "of the line above the cell, when that is below its top": result is None or not top or result * result == (ax + p * bx - grid.x) ** 2 + (ay + p * by - grid.y) ** 2,
            "of the nearest point of the line, when the top is below it": result is None or top
            or result * result == (ax + t * bx - grid.x) ** 2 + (ay + t * by - grid.y) ** 2 + (az + t * bz - grid.z) ** 2,
            "none exactly beyond the ends": iff(result is None, (p < 0 or p > 1) if top else (t < 0 or t > 1)),
        }


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._distance_between_grid_and_center_line")
class higher_column_is_not_farther:
    prop = "C11"
    types = {"self": CYL}
    ghost = {"higher": TReal()}

    def pre(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq, higher):
        return {**line_args(bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq),
                "cell beside the line": between(grid, ax, ay, bx, by, b_len_2d_sq), "a higher top": higher >= grid.z}

    def post(self, grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq, higher, result):
        r2 = self._distance_between_grid_and_center_line(Point3D(grid.x, grid.y, higher), ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq)
        dx, dy, dz, hz = grid.x - ax, grid.y - ay, grid.z - az, higher - az
        p = (dx * bx + dy * by) / b_len_2d_sq
        foot = (dx * bx + dy * by + dz * bz) / b_len_3d_sq
        foot2 = (dx * bx + dy * by + hz * bz) / b_len_3d_sq
        gone = result is None or r2 is None
        return {
            "lemma: lengths": b_len_2d > 0 and b_len_2d * b_len_2d == bx * bx + by * by and b_len_2d_sq == bx * bx + by * by,
            "lemma: in the plan": p * (bx * bx + by * by) == dx * bx + dy * by,
            "lemma: area": (dy * bx - dx * by) * (dy * bx - dx * by) == (off(p, bx, dx) + off(p, by, dy)) * (bx * bx + by * by),
            "lemma: the higher distance times the length": gone or hz <= p * bz or abs(r2 * b_len_2d) == abs(dy * bx - dx * by),
            "lemma: the higher distance is the area over the length": gone or hz <= p * bz or (r2 * b_len_2d) * (r2 * b_len_2d) == (dy * bx - dx * by) * (dy * bx - dx * by),
            "use: cancel": gone or hz <= p * bz or use(cancel, r2, b_len_2d, off(p, bx, dx) + off(p, by, dy), bx * bx + by * by, (dy * bx - dx * by) * (dy * bx - dx * by)),
            "lemma: feet": foot * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz and foot2 * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + hz * bz and p * (bx * bx + by * by) == dx * bx + dy * by,
            "lemma: distance": gone or dz > p * bz or result * result == off(foot, bx, dx) + off(foot, by, dy) + off(foot, bz, dz),
            "lemma: distance in the plan": gone or dz <= p * bz or result * result == off(p, bx, dx) + off(p, by, dy),
            "lemma: the higher distance": gone or hz > p * bz or r2 * r2 == off(foot2, bx, dx) + off(foot2, by, dy) + off(foot2, bz, hz),
            "lemma: the higher distance in the plan": gone or hz <= p * bz or r2 * r2 == off(p, bx, dx) + off(p, by, dy),
            "use: the lower top is a point of the higher column": hz > p * bz or use(column_below_line, dx, dy, hz, bx, by, bz, foot, higher - grid.z, p, foot2),
            "use: plan": use(pythagoras, dx, dy, 0.0, bx, by, 0.0, foot, p),
            "lemma: same height": (foot * bz - hz + (higher - grid.z)) * (foot * bz - hz + (higher - grid.z)) == off(foot, bz, dz) and off(foot, bz, dz) >= 0,
            "lemma: squares": gone or r2 * r2 <= result * result,
            "lemma: not negative": gone or (r2 >= 0 and result >= 0),
            "use: roots": gone or use(roots_grow, r2, result),
            "still obstructs": result is None or r2 is not None,
            "not farther": result is None or r2 is None or r2 <= result,
        }


# ------------------------------------------------------------------ C13
# the tree itself (scipy) is assumed: it holds the points it was built from, and query answers the nearest one strictly within the bound
REG.entities |= {cKDTree}
REG.identity_eq |= {cKDTree}
TREE = TRef(cKDTree)
REG.types.update({(ElevationKDTree, "kdtree"): TREE, (ElevationKDTree, "elevation_data"): TSeq(POINT3), (ElevationKDTree, "average_elevation"): TReal()})


def tree_size(t): "number of points of the tree"
def tree_point(t, k): "the k-th point of the tree"


def far2(px, py, x, y): "square of the distance of (px, py) and (x, y): the same function in the assumed query and in the specification, never expanded"
def _far(eng, a, kw): return Sym(eng.func("far2", *[z3.RealSort()] * 5)(*[x if z3.is_expr(x) else term(x, TReal()) for x in a]), TReal())


def _tree_fn(eng, nm, *sorts): return eng.func(nm, ref_sort(cKDTree), *sorts)


def _tree_size(eng, a, kw): return Sym(_tree_fn(eng, "tree_size", z3.IntSort())(a[0].t), TInt())


def _tree_xy(eng, t, k): return [_tree_fn(eng, f"tree_{c}", z3.IntSort(), z3.RealSort())(t, k) for c in "xy"]
def _tree_point(eng, a, kw): return tuple(Sym(x, TReal()) for x in _tree_xy(eng, a[0].t, term(a[1], TInt())))


def _new_tree(eng, a, kw):
    """cKDTree(points): holds exactly those points, in order"""
    pts = eng.to_seq(eng.deref(a[0]))
    r = eng.mk(TREE, "tree")
    eng.fact(_tree_fn(eng, "tree_size", z3.IntSort())(r.t) == pts.n)
    k = z3.FreshInt("k")
    x, y = _tree_xy(eng, r.t, k)
    p = pts.get(k)
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < pts.n), z3.And(x == term(p[0], TReal()), y == term(p[1], TReal())))))
    return r


def _query(eng, a, kw):
    """tree.query(points, distance_upper_bound=r): per point the index of a nearest point strictly within r, or the size of the tree"""
    t, pts, r = a[0].t, eng.to_seq(eng.deref(a[1])), term(kw["distance_upper_bound"], TReal())
    n = _tree_fn(eng, "tree_size", z3.IntSort())(t)
    no = next(eng.fresh_no)
    f, g = z3.Function(f"nearest{no}", z3.IntSort(), z3.IntSort()), z3.Function(f"howfar{no}", z3.IntSort(), z3.RealSort())
    k, m = z3.FreshInt("k"), z3.FreshInt("m")
    p = [term(c, TReal()) for c in pts.get(k)]

    def d(i):
        x, y = _tree_xy(eng, t, i)
        return _far(eng, (*p, x, y), None).t
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < pts.n), z3.And(f(k) >= 0, f(k) <= n, z3.Implies(f(k) < n, z3.And(r > 0, d(f(k)) < r * r))))))
    eng.fact(z3.ForAll([k, m], z3.Implies(z3.And(k >= 0, k < pts.n, m >= 0, m < n), z3.If(f(k) < n, d(f(k)) <= d(m), z3.Or(r <= 0, d(m) >= r * r)))))
    return (SSeq(pts.n, lambda j: Sym(g(j), TReal()), TReal()), SSeq(pts.n, lambda j: Sym(f(j), TInt()), TInt()))


REG.models[far2] = _far
REG.models[tree_size] = _tree_size
REG.models[tree_point] = _tree_point
REG.models[cKDTree] = _new_tree
REG.models[cKDTree.query] = _query


def raster(self):
    return {"a raster": self.x_size >= 1 and self.y_size >= 1 and self.x_resolution > 0 and self.y_resolution > 0}


def cell(self, j, i): return 0 <= i and i < self.x_size and 0 <= j and j < self.y_size


def holds(t):
    return (tree_size(t.kdtree) == len(t.elevation_data)
            and forall(TInt(), lambda k: not (0 <= k and k < len(t.elevation_data)) or (tree_point(t.kdtree, k)[0] == t.elevation_data[k][0] and tree_point(t.kdtree, k)[1] == t.elevation_data[k][1])))


def tree_ok(self): return {"the tree, once built, is of its own data": self.elevation_kd_tree is None or holds(self.elevation_kd_tree)}


@contract(L + "elevation:Elevation.idx_to_utm")
class idx_to_utm:
    prop = "C13"
    types = {"self": TRef(Elevation)}

    def pre(self): return {**raster(self)}

    def post(self, idx_x, idx_y, result):
        i, j = self.utm_to_idx(result[0], result[1])
        return {
            "columns go east": result[0] == self.left_top_x + idx_x * self.x_resolution,
            "rows go south": result[1] == self.left_top_y - idx_y * self.y_resolution,
            "back to the column": not (0 <= idx_x and idx_x < self.x_size) or i == idx_x,
            "back to the row": not (0 <= idx_y and idx_y < self.y_size) or j == idx_y,
        }


@lemma
class nearest_cell:
    prop = "C13"
    types = dict(v=TReal(), i=TInt(), k=TInt(), n=TInt())

    def pre(v, i, k, n): return {"cells": 0 <= i and i < n and 0 <= k and k < n, "nearest": abs(v - i) <= 0.5 or (i == 0 and v < 0.5) or (i == n - 1 and v > i - 0.5)}
    def post(v, i, k, n): return {"lemma: whole steps": k <= i - 1 or k == i or k >= i + 1, "nearer than any other": abs(v - i) <= abs(v - k)}


@lemma
class nearer_centre:
    prop = "C13"
    types = dict(res=TReal(), d=TReal(), v=TReal(), i=TInt(), k=TInt())

    def pre(res, d, v, i, k): return {"in cells": v * res == d, "size": res > 0, "nearer": abs(v - i) <= abs(v - k)}

    def post(res, d, v, i, k):
        return {"lemma: scaled": abs(d - i * res) == abs(v - i) * res and abs(d - k * res) == abs(v - k) * res, "lemma: product": (abs(v - k) - abs(v - i)) * res >= 0,
                "nearer": abs(d - i * res) <= abs(d - k * res)}


@contract(L + "elevation:Elevation.utm_to_idx")
class utm_to_idx:
    prop = "C13"
    types = {"self": TRef(Elevation)}
    ghost = {"k": TInt()}

    def pre(self, k): return {**raster(self), "any column or row": 0 <= k}

    def post(self, utm_x, utm_y, k, result):
        i, j = result
        v, w = (utm_x - self.left_top_x) / self.x_resolution, (self.left_top_y - utm_y) / self.y_resolution
        return {
            "lemma: nearest cell of the column": abs(v - i) <= 0.5 or (i == 0 and v < 0.5) or (i == self.x_size - 1 and v > i - 0.5),
            "lemma: nearest cell of the row": abs(w - j) <= 0.5 or (j == 0 and w < 0.5) or (j == self.y_size - 1 and w > j - 0.5),
            "use: nearest column": k >= self.x_size or use(nearest_cell, v, i, k, self.x_size),
            "use: nearest row": k >= self.y_size or use(nearest_cell, w, j, k, self.y_size),
            "lemma: nearest column": k >= self.x_size or abs(v - i) <= abs(v - k),
            "lemma: nearest row": k >= self.y_size or abs(w - j) <= abs(w - k),
            "use: column": k >= self.x_size or use(nearer_centre, self.x_resolution, utm_x - self.left_top_x, v, i, k),
            "use: row": k >= self.y_size or use(nearer_centre, self.y_resolution, self.left_top_y - utm_y, w, j, k),
            "a column of the raster": 0 <= i and i < self.x_size,
            "a row of the raster": 0 <= j and j < self.y_size,
            "no centre is nearer in x": k >= self.x_size or abs(utm_x - (self.left_top_x + i * self.x_resolution)) <= abs(utm_x - (self.left_top_x + k * self.x_resolution)),
            "no centre is nearer in y": k >= self.y_size or abs(utm_y - (self.left_top_y - j * self.y_resolution)) <= abs(utm_y - (self.left_top_y - k * self.y_resolution)),
        }


@contract(L + "elevation:Elevation.find_closest_valid_elevation")
class closest_value:
    prop = "C13"
    modular = True
    types = {"self": TRef(Elevation), "points": TSeq(TTup([TReal(), TReal()]))}
    ret = TSeq(TReal())
    modifies = ["Elevation.elevation_kd_tree", "ElevationKDTree.kdtree", "ElevationKDTree.elevation_data", "ElevationKDTree.average_elevation"]

    def pre(self): return {**raster(self), **tree_ok(self)}
    def may_raise(self): return {DataException: True}
    def post(self, points, result): return {"one value per point": len(result) == len(points), **tree_ok(self)}


@contract(L + "elevation:Elevation.get_value")
class get_value:
    prop = "C13"
    types = {"self": TRef(Elevation)}

    def pre(self): return {**raster(self), **tree_ok(self)}
    def may_raise(self): return {DataException: True}

    def post(self, x, y, result):
        i, j = self.utm_to_idx(x, y)
        return {
            "the value of the nearest cell": result == self.data_matrix[j, i],
            "which is the stored one, if there is one": old(lambda: self.data_matrix[j, i]) == NO_DATA_VALUE or result == old(lambda: self.data_matrix[j, i]),
            "every other cell as before": forall(CELL, lambda b, a: (a == i and b == j) or not cell(self, b, a) or self.data_matrix[b, a] == old(lambda: self.data_matrix[b, a])),
            **raster(self),
        }


def in_box(self, x, y):
    u = self.utm_bounding_box
    return u.min_utm_x <= x and x <= u.max_utm_x and u.min_utm_y <= y and y <= u.max_utm_y


def centre_x(self, i): return self.left_top_x + self.x_resolution * i
def centre_y(self, j): return self.left_top_y - self.y_resolution * j


@lemma
class in_cells:
    prop = "C13"
    types = dict(res=TReal(), d=TReal(), v=TReal(), i=TInt())

    def pre(res, d, v, i): return {"in cells": v * res == d, "size": res > 0}
    def post(res, d, v, i): return {"lemma: product": d - i * res == (v - i) * res, "below": implies(d <= i * res, v <= i), "above": implies(d >= i * res, v >= i)}


def clamp(v, lo, hi): return min(max(v, lo), hi)


@contract(L + "elevation:Elevation.get_all_obstructions")
class get_all_obstructions:
    prop = ("C13", "C11")
    modular = True
    ret = TSeq(TRec(Point3D, (("x", TReal()), ("y", TReal()), ("z", TReal()))))
    modifies = []
    types = {"self": TRef(Elevation), "point_within_bounds": TFun([TReal(), TReal()], TBool())}
    ghost = {"i": TInt(), "j": TInt()}

    def pre(self):
        return {**raster(self), "a box": self.utm_bounding_box.min_utm_x <= self.utm_bounding_box.max_utm_x and self.utm_bounding_box.min_utm_y <= self.utm_bounding_box.max_utm_y}

    def post(self, utm_x1, utm_y1, utm_x2, utm_y2, point_within_bounds, i, j, result):
        u = self.utm_bounding_box
        x, y = centre_x(self, i), centre_y(self, j)
        x1, x2 = clamp(utm_x1, u.min_utm_x, u.max_utm_x), clamp(utm_x2, u.min_utm_x, u.max_utm_x)
        y1, y2 = clamp(utm_y1, u.min_utm_y, u.max_utm_y), clamp(utm_y2, u.min_utm_y, u.max_utm_y)
        inside = cell(self, j, i) and min(x1, x2) <= x and x <= max(x1, x2) and min(y1, y2) <= y and y <= max(y1, y2)
        return {
            "use: west": use(in_cells, self.x_resolution, min(x1, x2) - self.left_top_x, (min(x1, x2) - self.left_top_x) / self.x_resolution, i),
            "use: east": use(in_cells, self.x_resolution, max(x1, x2) - self.left_top_x, (max(x1, x2) - self.left_top_x) / self.x_resolution, i),
            "use: north": use(in_cells, self.y_resolution, self.left_top_y - max(y1, y2), (self.left_top_y - max(y1, y2)) / self.y_resolution, j),
            "use: south": use(in_cells, self.y_resolution, self.left_top_y - min(y1, y2), (self.left_top_y - min(y1, y2)) / self.y_resolution, j),
            "lemma: columns of the window": not inside or (self.utm_to_idx(min(x1, x2), max(y1, y2))[0] <= i and i <= self.utm_to_idx(max(x1, x2), min(y1, y2))[0]),
            "lemma: rows of the window": not inside or (self.utm_to_idx(min(x1, x2), max(y1, y2))[1] <= j and j <= self.utm_to_idx(max(x1, x2), min(y1, y2))[1]),
            "every cell of the window that passes": not inside or not point_within_bounds(x, y) or any(g.x == x and g.y == y and g.z == self.data_matrix[j, i] for g in result),
            "only cells that pass, each with its own value": all(point_within_bounds(g.x, g.y) and exists(CELL, lambda j, i: cell(self, j, i) and g.x == centre_x(self, i) and g.y == centre_y(self, j) and g.z == self.data_matrix[j, i]) for g in result),
        }


def no_holes(self): return forall(CELL, lambda j, i: not cell(self, j, i) or self.data_matrix[j, i] != NO_DATA_VALUE)


def nearest_value(self, x, y):
    k = self.utm_to_idx(x, y)
    return self.data_matrix[k[1], k[0]]


@contract(L + "elevation:Elevation.get_value")
class get_value_without_holes:
    prop = "C13"
    modular = True
    types = {"self": TRef(Elevation)}
    ret = TReal()
    modifies = []

    def pre(self): return {**raster(self), "every cell has a value": no_holes(self)}

    def post(self, x, y, result):
        i, j = self.utm_to_idx(x, y)
        return {"the value of the nearest cell": result == self.data_matrix[j, i]}


@contract(L + "elevation:Elevation.get_value_matrix_within_bound")
class matrix_within_bound:
    prop = "C13"
    types = {"self": TRef(Elevation)}
    ghost = {"i": TInt(), "j": TInt()}

    def pre(self, i, j): return {**raster(self), "any cell": cell(self, j, i), "every cell has a value": no_holes(self)}

    def post(self, min_utm_x, min_utm_y, max_utm_x, max_utm_y, i, j, result):
        x, y = centre_x(self, i), centre_y(self, j)
        i0, j0 = max(math.ceil((min_utm_x - self.left_top_x) / self.x_resolution), 0), max(math.ceil((self.left_top_y - max_utm_y) / self.y_resolution), 0)
        i1, j1 = min(math.floor((max_utm_x - self.left_top_x) / self.x_resolution), self.x_size - 1), min(math.floor((self.left_top_y - min_utm_y) / self.y_resolution), self.y_size - 1)
        inside = min_utm_x <= x and x <= max_utm_x and min_utm_y <= y and y <= max_utm_y
        h, w = result.shape
        k = self.utm_to_idx(min_utm_x, min_utm_y)
        return {
            "use: west": use(in_cells, self.x_resolution, min_utm_x - self.left_top_x, (min_utm_x - self.left_top_x) / self.x_resolution, i),
            "use: east": use(in_cells, self.x_resolution, max_utm_x - self.left_top_x, (max_utm_x - self.left_top_x) / self.x_resolution, i),
            "use: north": use(in_cells, self.y_resolution, self.left_top_y - max_utm_y, (self.left_top_y - max_utm_y) / self.y_resolution, j),
            "use: south": use(in_cells, self.y_resolution, self.left_top_y - min_utm_y, (self.left_top_y - min_utm_y) / self.y_resolution, j),
            "lemma: rows and columns of the bound": not inside or (i0 <= i and i <= i1 and j0 <= j and j <= j1),
            "lemma: never empty": h >= 1 and w >= 1,
            "every cell of the bound, with its own value": not inside or (i - i0 < w and j - j0 < h and result[j - j0, i - i0] == self.data_matrix[j, i]),
            "only cells of the bound": i1 < i0 or j1 < j0 or (h == j1 - j0 + 1 and w == i1 - i0 + 1 and iff(inside, i0 <= i and i <= i1 and j0 <= j and j <= j1)),
            "the nearest cell when no cell is in the bound": (i0 <= i1 and j0 <= j1) or (not inside and h == 1 and w == 1 and result[0, 0] == self.data_matrix[k[1], k[0]]),
        }


@contract(L + "elevation:Elevation.get_value_list_within_bound")
class list_within_bound:
    prop = "C13"
    types = {"self": TRef(Elevation)}
    ghost = {"i": TInt(), "j": TInt()}

    def pre(self, i, j): return {**raster(self), "every cell has a value": no_holes(self)}

    def post(self, min_utm_x, min_utm_y, max_utm_x, max_utm_y, i, j, result):
        x, y = centre_x(self, i), centre_y(self, j)
        inside = min_utm_x <= x and x <= max_utm_x and min_utm_y <= y and y <= max_utm_y
        k = self.utm_to_idx(x, y)
        return {
            "use: west": use(in_cells, self.x_resolution, min_utm_x - self.left_top_x, (min_utm_x - self.left_top_x) / self.x_resolution, i),
            "use: east": use(in_cells, self.x_resolution, max_utm_x - self.left_top_x, (max_utm_x - self.left_top_x) / self.x_resolution, i),
            "use: north": use(in_cells, self.y_resolution, self.left_top_y - max_utm_y, (self.left_top_y - max_utm_y) / self.y_resolution, j),
            "use: south": use(in_cells, self.y_resolution, self.left_top_y - min_utm_y, (self.left_top_y - min_utm_y) / self.y_resolution, j),
            "every centre in the bound, with its value": not inside or any(g.x == x and g.y == y and g.z == self.data_matrix[k[1], k[0]] for g in result),
            "a cell of the raster has its own value": not cell(self, j, i) or (k[0] == i and k[1] == j),
            "nothing else": all(exists(CELL, lambda j, i: g.x == centre_x(self, i) and g.y == centre_y(self, j)) for g in result),
        }


@contract(L + "elevation:Elevation.set_resolution")
class resample:
    prop = "C13"
    types = {"self": TRef(Elevation), "x_resolution": TReal(), "y_resolution": TReal()}
    ghost = {"i": TInt(), "j": TInt()}
    loops = {0: Inv(lambda self, x_resolution, y_resolution, data_matrix, y_size, x_size, done_n: {
                "rows seen": data_matrix.shape[0] == y_size and data_matrix.shape[1] == x_size and forall(CELL, lambda b, a: not (0 <= b and b < done_n and 0 <= a and a < x_size) or data_matrix[b, a] == nearest_value(self, self.left_top_x + x_resolution * a, self.left_top_y - y_resolution * b))}),
             1: Inv(lambda self, x_resolution, y_resolution, data_matrix, y_size, x_size, idx_y, done_n: {
                "rows seen": data_matrix.shape[0] == y_size and data_matrix.shape[1] == x_size and forall(CELL, lambda b, a: not (0 <= b and (b < idx_y or (b == idx_y and a < done_n)) and 0 <= a and a < x_size) or data_matrix[b, a] == nearest_value(self, self.left_top_x + x_resolution * a, self.left_top_y - y_resolution * b))})}

    def pre(self, x_resolution, y_resolution): return {**raster(self), "every cell has a value": no_holes(self), "sizes": x_resolution > 0 and y_resolution > 0,
            "the first cell touches the box": self.left_top_x <= self.utm_bounding_box.max_utm_x + x_resolution / 2 and self.utm_bounding_box.min_utm_y <= self.left_top_y + y_resolution / 2}

    def post(self, x_resolution, y_resolution, i, j):
        x, y = self.left_top_x + x_resolution * i, self.left_top_y - y_resolution * j
        return {
            "the new cell size": self.x_resolution == x_resolution and self.y_resolution == y_resolution,
            "every cell has the value of the nearest old one": not cell(self, j, i) or self.data_matrix[j, i] == old(lambda: nearest_value(self, x, y)),
            "covers the box": not cell(self, j, i) or old(lambda: self.x_resolution) == x_resolution and old(lambda: self.y_resolution) == y_resolution or (x <= self.utm_bounding_box.max_utm_x + x_resolution / 2 and y >= self.utm_bounding_box.min_utm_y - y_resolution / 2),
        }


@contract(L + "elevation:Elevation.get_data_as_list")
class data_as_list:
    prop = "C13"
    modular = True
    types = {"self": TRef(Elevation)}
    ghost = {"i": TInt(), "j": TInt()}
    ret = TSeq(POINT3)
    modifies = []

    def pre(self): return {**raster(self)}

    def post(self, i, j, result):
        every = self.x_resolution >= MIN_RES_TO_OUTPUT_AS_LIST and self.y_resolution >= MIN_RES_TO_OUTPUT_AS_LIST
        return {
            "only cells that have a value, each with its own": all(exists(CELL, lambda j, i: cell(self, j, i) and p[0] == centre_x(self, i) and p[1] == centre_y(self, j) and p[2] == self.data_matrix[j, i] and p[2] != NO_DATA_VALUE) for p in result),
            "every cell that has a value, when cells are not too small": not cell(self, j, i) or not every or self.data_matrix[j, i] == NO_DATA_VALUE or any(p[0] == centre_x(self, i) and p[1] == centre_y(self, j) and p[2] == self.data_matrix[j, i] for p in result),
            "not empty": len(result) > 0,
        }

    def may_raise(self): return {DataException: True}


REG.abstract[(GISData, "crs_epsg_code")] = TInt()
REG.abstract[(Elevation, "crs_epsg_code")] = TInt()


def same_grid(p, q):
    return (p.crs_epsg_code == q.crs_epsg_code and p.x_size == q.x_size and p.y_size == q.y_size and p.x_resolution == q.x_resolution
            and p.y_resolution == q.y_resolution and p.left_top_x == q.left_top_x and p.left_top_y == q.left_top_y)


@contract(L + "elevation:Elevation.__add__")
class sum_of_rasters:
    prop = "C13"
    types = {"self": TRef(Elevation), "other_geogrids": TRef(Elevation)}
    ghost = {"i": TInt(), "j": TInt()}

    def pre(self, i, j): return {**raster(self), "any cell": cell(self, j, i)}
    def raises(self, other_geogrids): return {DataException: not same_grid(self, other_geogrids)}

    def post(self, other_geogrids, i, j, result):
        return {
            "cell by cell": result.data_matrix[j, i] == self.data_matrix[j, i] + other_geogrids.data_matrix[j, i],
            "on the same grid": result.x_size == self.x_size and result.y_size == self.y_size and result.x_resolution == self.x_resolution and result.y_resolution == self.y_resolution
                and result.left_top_x == self.left_top_x and result.left_top_y == self.left_top_y,
            "operands as before": self.data_matrix[j, i] == old(lambda: self.data_matrix[j, i]) and other_geogrids.data_matrix[j, i] == old(lambda: other_geogrids.data_matrix[j, i]),
        }


@contract(L + "elevation:Elevation.__sub__")
class difference_of_rasters:
    prop = "C13"
    types = {"self": TRef(Elevation), "other_geogrids": TRef(Elevation)}
    ghost = {"i": TInt(), "j": TInt()}

    def pre(self, i, j): return {**raster(self), "any cell": cell(self, j, i)}
    def raises(self, other_geogrids): return {DataException: not same_grid(self, other_geogrids)}

    def post(self, other_geogrids, i, j, result):
        return {
            "cell by cell": result.data_matrix[j, i] == self.data_matrix[j, i] - other_geogrids.data_matrix[j, i],
            "on the same grid": result.x_size == self.x_size and result.y_size == self.y_size and result.x_resolution == self.x_resolution and result.y_resolution == self.y_resolution
                and result.left_top_x == self.left_top_x and result.left_top_y == self.left_top_y,
            "operands as before": self.data_matrix[j, i] == old(lambda: self.data_matrix[j, i]) and other_geogrids.data_matrix[j, i] == old(lambda: other_geogrids.data_matrix[j, i]),
        }


@contract(L + "elevation:ElevationKDTree.__init__")
class new_tree:
    prop = "C13"
    types = {"self": TObj(ElevationKDTree), "elevation_data": TSeq(POINT3)}

    def pre(elevation_data): return {"some data": len(elevation_data) > 0}

    def post(self, elevation_data):
        return {"tree of the data": holds(self), "the data kept": len(self.elevation_data) == len(elevation_data) and all(p in elevation_data for p in self.elevation_data),
                "the mean elevation": self.average_elevation * len(elevation_data) == sum(p[2] for p in elevation_data)}


@contract(L + "elevation:ElevationKDTree.find_closest_valid_elevation")
class closest_in_tree:
    prop = "C13"
    types = {"self": TRef(ElevationKDTree), "points": TSeq(POINT2), "elevation_search_radius": TReal()}
    ghost = {"q": TInt(), "m": TInt()}

    def pre(self, points, elevation_search_radius, q, m):
        return {"tree of the data": holds(self), "radius": elevation_search_radius > 0, "any point": 0 <= q and q < len(points), "any datum": 0 <= m and m < len(self.elevation_data)}

    def post(self, points, elevation_search_radius, q, m, result):
        p, d = points[q], self.elevation_data[m]
        far = far2(p[0], p[1], d[0], d[1])
        return {
            "one value per point": len(result) == len(points),
            "the value of a datum as near as any, or the mean when none is within the radius":
                any(e[2] == result[q] and far2(p[0], p[1], e[0], e[1]) <= far and far2(p[0], p[1], e[0], e[1]) < elevation_search_radius ** 2 for e in self.elevation_data)
                or (result[q] == self.average_elevation and far >= elevation_search_radius ** 2),
        }


@contract(L + "elevation:Elevation.find_closest_valid_elevation")
class closest_in_raster:
    prop = "C13"
    types = {"self": TRef(Elevation), "points": TSeq(POINT2)}
    ghost = {"q": TInt(), "i": TInt(), "j": TInt()}

    def pre(self, points, q, i, j):
        return {**raster(self), "not built yet": self.elevation_kd_tree is None, "radius": self.elevation_search_radius > 0, "any point": 0 <= q and q < len(points),
                "any cell that has a value": cell(self, j, i) and self.data_matrix[j, i] != NO_DATA_VALUE, "cells not too small": self.x_resolution >= MIN_RES_TO_OUTPUT_AS_LIST and self.y_resolution >= MIN_RES_TO_OUTPUT_AS_LIST}

    def may_raise(self): return {DataException: True}

    def post(self, points, q, i, j, result):
        p = points[q]
        far = far2(p[0], p[1], centre_x(self, i), centre_y(self, j))
        return {
            "one value per point": len(result) == len(points),
            "lemma: the cell is a datum": any(e[0] == centre_x(self, i) and e[1] == centre_y(self, j) for e in self.elevation_kd_tree.elevation_data),
            "lemma: which is in the tree": exists(TInt(), lambda m: 0 <= m and m < tree_size(self.elevation_kd_tree.kdtree) and far2(p[0], p[1], tree_point(self.elevation_kd_tree.kdtree, m)[0], tree_point(self.elevation_kd_tree.kdtree, m)[1]) == far),
            "lemma: a datum": far >= self.elevation_search_radius ** 2 or any(e[2] == result[q] and far2(p[0], p[1], e[0], e[1]) <= far for e in self.elevation_kd_tree.elevation_data),
            "the value of a cell as near as any, or the mean when none is within the radius": far >= self.elevation_search_radius ** 2 or exists(CELL, lambda b, a: cell(self, b, a) and self.data_matrix[b, a] != NO_DATA_VALUE and result[q] == self.data_matrix[b, a]
                and far2(p[0], p[1], centre_x(self, a), centre_y(self, b)) <= far),
        }


# ------------------------------------------------------------------ C11: confidence of the cylinder
@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._distance_between_grid_and_center_line")
class distance_function:
    prop = "C11"
    modular = True
    pure = True
    types = {"self": CYL}
    modifies = []

    def pre(b_len_2d_sq, b_len_2d, b_len_3d_sq): return {"lengths of the line": b_len_2d_sq > 0 and b_len_2d > 0 and b_len_3d_sq > 0}
    def post(result): return {"not negative": result is None or result >= 0}


def clearance(self, g, s, t):
    """distance of a cell from the line between two sites, as the validator measures it"""
    bx, by, bz = t.utm_x - s.utm_x, t.utm_y - s.utm_y, t.altitude - s.altitude
    n = bx * bx + by * by
    return self._distance_between_grid_and_center_line(g, s.utm_x, s.utm_y, s.altitude, bx, by, bz, n, math.sqrt(n), n + bz * bz)


@lemma
class across:
    """q is square to b and 2r long: the shadow of v on q against the distance of v from the line along b"""
    prop = "C11"
    types = dict(vx=TReal(), vy=TReal(), bx=TReal(), by=TReal(), qx=TReal(), qy=TReal(), r=TReal())

    def pre(vx, vy, bx, by, qx, qy, r):
        return {"a line": bx * bx + by * by > 0, "square": qx * bx + qy * by == 0, "length": qx * qx + qy * qy == 4 * r * r, "width": r > 0,
                "beside the line": (vx * by - vy * bx) ** 2 <= r * r * (bx * bx + by * by)}

    def post(vx, vy, bx, by, qx, qy, r):
        n = bx * bx + by * by
        k = (qy * bx - qx * by) / n
        c = vy * bx - vx * by
        d = vx * qx + vy * qy
        return {
            "lemma: k": k * n == qy * bx - qx * by,
            "lemma: qx": (qx + k * by) * n == 0 and (qy - k * bx) * n == 0,
            "lemma: components": qx == -k * by and qy == k * bx,
            "lemma: k squared": k * k * n == 4 * r * r,
            "lemma: shadow": d == k * c,
            "lemma: scaled": k * k * (c * c) <= k * k * (r * r * n),
            "lemma: squares": d * d <= 4 * r * r * (r * r),
            "use: roots": use(roots_grow, abs(d), 2 * r * r),
            "the shadow is within half of q": d <= 2 * r * r and -d <= 2 * r * r,
        }


@lemma
class decomposed:
    """m in the sides q and b of a rectangle"""
    prop = "C11"
    types = dict(mx=TReal(), my=TReal(), bx=TReal(), by=TReal(), qx=TReal(), qy=TReal())

    def pre(mx, my, bx, by, qx, qy):
        return {"sides": bx * bx + by * by > 0 and qx * qx + qy * qy > 0, "square": qx * bx + qy * by == 0}

    def post(mx, my, bx, by, qx, qy):
        n, w = bx * bx + by * by, qx * qx + qy * qy
        k = (qy * bx - qx * by) / n
        s, t = (mx * qx + my * qy) / w, (mx * bx + my * by) / n
        return {
            "lemma: k": k * n == qy * bx - qx * by,
            "lemma: qx": (qx + k * by) * n == 0 and (qy - k * bx) * n == 0,
            "lemma: components": qx == -k * by and qy == k * bx,
            "lemma: width": w == k * k * n and k != 0,
            "lemma: s": s * w == mx * qx + my * qy,
            "lemma: t": t * n == mx * bx + my * by,
            "lemma: s by k": (s * (k * n) - (my * bx - mx * by)) * k == 0,
            "lemma: s alone": s * k * n == my * bx - mx * by,
            "lemma: x": (s * qx + t * bx - mx) * n == 0,
            "lemma: y": (s * qy + t * by - my) * n == 0,
            "sum": s * qx + t * bx == mx and s * qy + t * by == my,
        }


@lemma
class shifted:
    """from the middle of a side to its corner"""
    prop = "C11"
    types = dict(vx=TReal(), vy=TReal(), qx=TReal(), qy=TReal(), bx=TReal(), by=TReal(), mx=TReal(), my=TReal())

    def pre(vx, vy, qx, qy, mx, my): return {"corner": mx == vx + qx / 2 and my == vy + qy / 2}

    def post(vx, vy, qx, qy, bx, by, mx, my):
        return {"along q": mx * qx + my * qy == vx * qx + vy * qy + (qx * qx + qy * qy) / 2, "along b": mx * bx + my * by == vx * bx + vy * by + (qx * bx + qy * by) / 2}


@lemma
class fraction:
    prop = "C11"
    types = dict(v=TReal(), w=TReal())

    def pre(v, w): return {"part": 0 <= v and v <= w, "whole": w > 0}
    def post(v, w): return {"fraction": 0 <= v / w and v / w <= 1}


@lemma
class replaced:
    prop = "C11"
    types = dict(ux=TReal(), uy=TReal(), px=TReal(), py=TReal(), bx=TReal(), by=TReal())

    def pre(px, py, bx, by): return {"same": px == bx and py == by}
    def post(ux, uy, px, py, bx, by): return {"same product": ux * px + uy * py == ux * bx + uy * by and px * ux + py * uy == bx * ux + by * uy}


@lemma
class within_box:
    prop = "C11"
    types = dict(a=TReal(), q=TReal(), b=TReal(), s=TReal(), t=TReal())

    def pre(s, t): return {"parts": 0 <= s and s <= 1 and 0 <= t and t <= 1}

    def post(a, q, b, s, t):
        return {"lemma: parts": min(0, q) <= s * q and s * q <= max(0, q) and min(0, b) <= t * b and t * b <= max(0, b),
                "in the box": min(a, a + q, a + b, a + q + b) <= a + s * q + t * b and a + s * q + t * b <= max(a, a + q, a + b, a + q + b)}


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._compute_confidence_by_radius")
class confidence_by_radius:
    prop = "C11"
    types = {"self": CYL}
    ghost = {"i": TInt(), "j": TInt()}
    loops = {0: Inv(lambda self, site1, site2, minimal_distance, minimal_radius, highest_site_altitude, done: {
        "a distance so far": minimal_radius <= minimal_distance and minimal_distance <= self._fresnel_radius,
        "the distance of a cell seen": minimal_distance == self._fresnel_radius or any(clearance(self, g, site1, site2) == minimal_distance for g in done),
        "no cell seen is nearer": all(not seen_near(self, g, site1, site2, minimal_distance) for g in done),
        "not too high": self._los_confidence_threshold != 1.0 or all(g.z <= highest_site_altitude for g in done),
    })}

    def pre(self, site1, site2, i, j):
        e = self._surface_elevation
        return {"limits": self._fresnel_radius > 0 and 0 <= self._los_confidence_threshold and self._los_confidence_threshold <= 1, "altitudes": site1.altitude is not None and site2.altitude is not None,
                "two places": not same_place(site1, site2), "a surface": e is not None, **raster(e),
                "a box": e.utm_bounding_box.min_utm_x <= e.utm_bounding_box.max_utm_x and e.utm_bounding_box.min_utm_y <= e.utm_bounding_box.max_utm_y,
                "any cell": cell(e, j, i),
                "of the box": e.utm_bounding_box.min_utm_x <= centre_x(e, i) and centre_x(e, i) <= e.utm_bounding_box.max_utm_x and e.utm_bounding_box.min_utm_y <= centre_y(e, j) and centre_y(e, j) <= e.utm_bounding_box.max_utm_y,
                "beside the line": beside(centre_x(e, i), centre_y(e, j), site1, site2, self._fresnel_radius)}

    def post(self, site1, site2, i, j, local_obstructions, result):
        e = self._surface_elevation
        u = e.utm_bounding_box
        a, b, c, d = self._get_four_corners_of_rectangle(site1.utm_x, site1.utm_y, site2.utm_x, site2.utm_y, self._fresnel_radius)
        x, y, r = centre_x(e, i), centre_y(e, j), self._fresnel_radius
        bx, by, qx, qy, mx, my = site2.utm_x - site1.utm_x, site2.utm_y - site1.utm_y, b[0] - a[0], b[1] - a[1], x - a[0], y - a[1]
        n = bx * bx + by * by
        px, py = c[0] - a[0], c[1] - a[1]
        g = Point3D(x, y, e.data_matrix[j, i])
        s, t = (mx * qx + my * qy) / (qx * qx + qy * qy), (mx * bx + my * by) / n
        near = clearance(self, g, site1, site2)
        x1, x2 = clamp(min(a[0], b[0], c[0], d[0]), u.min_utm_x, u.max_utm_x), clamp(max(a[0], b[0], c[0], d[0]), u.min_utm_x, u.max_utm_x)
        y1, y2 = clamp(max(a[1], b[1], c[1], d[1]), u.min_utm_y, u.max_utm_y), clamp(min(a[1], b[1], c[1], d[1]), u.min_utm_y, u.max_utm_y)
        return {
            "between zero and one": 0 <= result and result <= 1,
            "zero or at least the threshold": result == 0 or result >= self._los_confidence_threshold,
            "lemma: square": qx * bx + qy * by == 0,
            "lemma: length": qx * qx + qy * qy == 4 * r * r,
            "use: across": use(across, x - site1.utm_x, y - site1.utm_y, bx, by, qx, qy, r),
            "lemma: corner": a[0] == site1.utm_x - qx / 2 and a[1] == site1.utm_y - qy / 2 and c[0] == a[0] + bx and c[1] == a[1] + by and d[0] == a[0] + qx + bx and d[1] == a[1] + qy + by,
            "use: shifted": use(shifted, x - site1.utm_x, y - site1.utm_y, qx, qy, bx, by, mx, my),
            "lemma: along q": mx * qx + my * qy == (x - site1.utm_x) * qx + (y - site1.utm_y) * qy + 2 * r * r,
            "lemma: in q": 0 <= mx * qx + my * qy and mx * qx + my * qy <= 4 * r * r,
            "lemma: along b": mx * bx + my * by == (x - site1.utm_x) * bx + (y - site1.utm_y) * by,
            "lemma: in b": 0 <= mx * bx + my * by and mx * bx + my * by <= n,
            "use: decomposed": use(decomposed, mx, my, bx, by, qx, qy),
            "use: part of q": use(fraction, mx * qx + my * qy, qx * qx + qy * qy),
            "use: part of b": use(fraction, mx * bx + my * by, n),
            "lemma: parts": 0 <= s and s <= 1 and 0 <= t and t <= 1,
            "use: x in the box": use(within_box, a[0], qx, bx, s, t),
            "use: y in the box": use(within_box, a[1], qy, by, s, t),
            "lemma: x in the box": min(a[0], b[0], c[0], d[0]) <= x and x <= max(a[0], b[0], c[0], d[0]),
            "lemma: y in the box": min(a[1], b[1], c[1], d[1]) <= y and y <= max(a[1], b[1], c[1], d[1]),
            "lemma: in the window": min(x1, x2) <= x and x <= max(x1, x2) and min(y1, y2) <= y and y <= max(y1, y2),
            "lemma: side": px == bx and py == by,
            "use: along the side": use(replaced, mx, my, px, py, bx, by),
            "use: length of the side": use(replaced, px, py, px, py, bx, by),
            "use: length of the side again": use(replaced, bx, by, px, py, bx, by),
            "lemma: in the side": 0 <= mx * px + my * py and mx * px + my * py <= px * px + py * py,
            "lemma: in the width": mx * qx + my * qy <= qx * qx + qy * qy,
            "lemma: passes": within(self, x, y, site1, site2),
            "lemma: an obstruction": any(o.x == g.x and o.y == g.y and o.z == g.z for o in local_obstructions),
            "every cell beside the line counts": near is None or result == 0 or result * r <= near,
            "blocked when a cell is too near": near is None or near >= r * self._los_confidence_threshold or result == 0,
            "lemma: obstructions are cells of the rectangle": all(within(self, o.x, o.y, site1, site2) and exists(CELL, lambda b, a: cell(e, b, a) and o.x == centre_x(e, a) and o.y == centre_y(e, b) and o.z == e.data_matrix[b, a]) for o in local_obstructions),
            "lemma: blocked by an obstruction": result != 0 or any(blocks(self, o, site1, site2) for o in local_obstructions),
            "blocked only by a cell of the rectangle": result != 0 or exists(CELL, lambda b, a: cell(e, b, a) and within(self, centre_x(e, a), centre_y(e, b), site1, site2) and blocks(self, Point3D(centre_x(e, a), centre_y(e, b), e.data_matrix[b, a]), site1, site2)),
            "lemma: the distance of an obstruction": result == 0 or result == 1 or any(clearance(self, o, site1, site2) == result * r for o in local_obstructions),
            "the distance of a cell of the rectangle": result == 0 or result == 1
                or exists(CELL, lambda b, a: cell(e, b, a) and within(self, centre_x(e, a), centre_y(e, b), site1, site2) and clearance(self, Point3D(centre_x(e, a), centre_y(e, b), e.data_matrix[b, a]), site1, site2) == result * r),
        }


def within(self, x, y, s, t):
    """the rectangle of the link in the plan, as the validator filters it"""
    p, q, r, _ = self._get_four_corners_of_rectangle(s.utm_x, s.utm_y, t.utm_x, t.utm_y, self._fresnel_radius)
    pq, pr = (q[0] - p[0], q[1] - p[1]), (r[0] - p[0], r[1] - p[1])
    return self._filter_points_outside_of_rectangle(p, pq, pr, (pq[0] * pq[0]) + (pq[1] * pq[1]), (pr[0] * pr[0]) + (pr[1] * pr[1]))(x, y)


def blocks(self, g, s, t):
    c = clearance(self, g, s, t)
    return (self._los_confidence_threshold == 1.0 and g.z > max(s.altitude, t.altitude)) or (c is not None and (c < self._fresnel_radius * self._los_confidence_threshold or c == 0))


def beside(x, y, s, t, r):
    bx, by, vx, vy = t.utm_x - s.utm_x, t.utm_y - s.utm_y, x - s.utm_x, y - s.utm_y
    return (vx * by - vy * bx) ** 2 <= r * r * (bx * bx + by * by) and 0 <= vx * bx + vy * by and vx * bx + vy * by <= bx * bx + by * by


def seen_near(self, g, s, t, d):
    c = clearance(self, g, s, t)
    return c is not None and c < d


@lemma
class other_end:
    """the line from its other end: the same parts counted from there"""
    prop = "C12"
    types = dict(dx=TReal(), dy=TReal(), dz=TReal(), bx=TReal(), by=TReal(), bz=TReal(), p=TReal(), f=TReal())

    def pre(dx, dy, dz, bx, by, bz, p, f):
        return {"parts": p * (bx * bx + by * by) == dx * bx + dy * by and f * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz}

    def post(dx, dy, dz, bx, by, bz, p, f):
        ex, ey, ez = dx - bx, dy - by, dz - bz
        return {"parts": (1 - p) * (bx * bx + by * by) == -(ex * bx + ey * by) and (1 - f) * (bx * bx + by * by + bz * bz) == -(ex * bx + ey * by + ez * bz),
                "height": ez - (1 - p) * -bz == dz - p * bz, "cross": ey * bx - ex * by == dy * bx - dx * by,
                "same point": off(1 - f, -bx, ex) == off(f, bx, dx) and off(1 - f, -by, ey) == off(f, by, dy) and off(1 - f, -bz, ez) == off(f, bz, dz)}


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._distance_between_grid_and_center_line")
class distance_either_way:
    prop = "C12"
    types = {"self": CYL}

    def pre(grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq): return line_args(bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq)

    def post(self, grid, ax, ay, az, bx, by, bz, b_len_2d_sq, b_len_2d, b_len_3d_sq, result):
        other = self._distance_between_grid_and_center_line(grid, ax + bx, ay + by, az + bz, -bx, -by, -bz, b_len_2d_sq, b_len_2d, b_len_3d_sq)
        dx, dy, dz = grid.x - ax, grid.y - ay, grid.z - az
        p, f = (dx * bx + dy * by) / b_len_2d_sq, (dx * bx + dy * by + dz * bz) / b_len_3d_sq
        return {"lemma: parts": p * (bx * bx + by * by) == dx * bx + dy * by and f * (bx * bx + by * by + bz * bz) == dx * bx + dy * by + dz * bz,
                "use: other end": use(other_end, dx, dy, dz, bx, by, bz, p, f),
                "same from the other end": iff(result is None, other is None) and (result is None or other is None or result == other)}


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator._compute_confidence_by_radius")
class confidence_in_range:
    prop = ("C11", "C12")
    modular = True
    ret = TReal()
    modifies = []
    types = {"self": CYL}
    loops = confidence_by_radius.loops

    def pre(self, site1, site2):
        e = self._surface_elevation
        return {"limits": self._fresnel_radius > 0 and 0 <= self._los_confidence_threshold and self._los_confidence_threshold <= 1, "altitudes": site1.altitude is not None and site2.altitude is not None,
                "two places": not same_place(site1, site2), "a surface": e is not None, **raster(e),
                "a box": e.utm_bounding_box.min_utm_x <= e.utm_bounding_box.max_utm_x and e.utm_bounding_box.min_utm_y <= e.utm_bounding_box.max_utm_y}

    def post(self, result):
        return {"between zero and one": 0 <= result and result <= 1, "zero or at least the threshold": result == 0 or result >= self._los_confidence_threshold}


@contract(L + "cylindrical_los_validator:CylindricalLOSValidator.compute_confidence")
class cylinder_confidence:
    prop = "C11"
    types = {"self": CYL}

    def pre(self, site1, site2):
        e = self._surface_elevation
        return {"limits": self._fresnel_radius > 0 and 0 <= self._los_confidence_threshold and self._los_confidence_threshold <= 1,
                "los limits": self._min_los_distance > 0 and self._max_los_distance > self._min_los_distance and 0 <= self._max_el_dev and self._max_el_dev <= 90,
                "altitudes": e is None or (site1.altitude is not None and site2.altitude is not None),
                "a raster": e is None or (e.x_size >= 1 and e.y_size >= 1 and e.x_resolution > 0 and e.y_resolution > 0
                    and e.utm_bounding_box.min_utm_x <= e.utm_bounding_box.max_utm_x and e.utm_bounding_box.min_utm_y <= e.utm_bounding_box.max_utm_y)}

    def post(self, site1, site2, result):
        return {"between zero and one": 0 <= result and result <= 1,
                "zero or at least the threshold": result == 0 or result >= self._los_confidence_threshold,
                "none when it fails the simple checks": self._passes_simple_checks(site1, site2) or result == 0,
                "full without a surface": self._surface_elevation is not None or result == (1 if self._passes_simple_checks(site1, site2) else 0)}


# ------------------------------------------------------------------ C11: Fresnel zone
def zone(self):
    """what the constants of a zone satisfy: unit vectors, positive sizes"""
    return {"direction": self._cos_a * self._cos_a + self._sin_a * self._sin_a == 1 and self._cos_b * self._cos_b + self._sin_b * self._sin_b == 1 and self._cos_b > 0,
            "sizes": self._half_distance_sq > 0 and self._half_xy_distance_sq > 0 and self._half_xy_distance_sq == self._half_distance_sq * self._cos_b * self._cos_b,
            "radius": self._outer_fresnel_radius > 0 and self._outer_fresnel_radius_sq == self._outer_fresnel_radius * self._outer_fresnel_radius}


@contract(L + "fresnel_zone:FresnelZone._get_equation_constants")
class zone_constants:
    prop = "C11"
    modular = True
    types = {"self": FZ}
    modifies = ["self." + a for a in ZONE_CONSTANTS]

    def pre(self): return {"two places": not same_place(self._site1, self._site2), "altitudes": self._site1.altitude is not None and self._site2.altitude is not None, "frequency": self._frequency_mhz > 0,
                           "threshold": 0 <= self._los_confidence_threshold}

    def post(self):
        s, t = self._site1, self._site2
        dx, dy, dz = t.utm_x - s.utm_x, t.utm_y - s.utm_y, t.altitude - s.altitude
        xy = math.sqrt(dx * dx + dy * dy)
        d = math.sqrt(dx * dx + dy * dy + dz * dz)
        return {
            "lemma: lengths": xy > 0 and d > 0 and xy * xy == dx * dx + dy * dy and d * d == xy * xy + dz * dz,
            "direction in the plan": self._cos_a * xy == dx and self._sin_a * xy == dy,
            "slope": self._cos_b * d == xy and self._sin_b * d == dz,
            "lemma: unit 1": (self._cos_a * self._cos_a + self._sin_a * self._sin_a) * (xy * xy) == xy * xy,
            "lemma: unit 2": (self._cos_b * self._cos_b + self._sin_b * self._sin_b) * (d * d) == d * d,
            **zone(self),
            "half the distance": 4 * self._half_distance_sq == d * d and 4 * self._half_xy_distance_sq == xy * xy,
            "middle": 2 * self._x_m == s.utm_x + t.utm_x and 2 * self._y_m == s.utm_y + t.utm_y and 2 * self._z_m == s.altitude + t.altitude,
            "first zone": self._outer_fresnel_radius_sq * self._frequency_mhz == FresnelZone.FIRST_ZONE_MULTIPLIER * (FresnelZone.FIRST_ZONE_MULTIPLIER * d),
            "inner zone": self._inner_fresnel_radius == self._outer_fresnel_radius * self._los_confidence_threshold and self._inner_fresnel_radius_sq == self._inner_fresnel_radius * self._inner_fresnel_radius,
            "plane through both sites": -(self._a_over_c * s.utm_x + self._b_over_c * s.utm_y + self._d_over_c) == s.altitude and -(self._a_over_c * t.utm_x + self._b_over_c * t.utm_y + self._d_over_c) == t.altitude,
            "level across the link": self._a_over_c * dy == self._b_over_c * dx,
        }


def along(self, x, y): return (x - self._x_m) * self._cos_a + (y - self._y_m) * self._sin_a
def aside(self, x, y): return (x - self._x_m) * self._sin_a - (y - self._y_m) * self._cos_a
def along3(self, x, y, z): return (x - self._x_m) * self._cos_a * self._cos_b + (y - self._y_m) * self._sin_a * self._cos_b + (z - self._z_m) * self._sin_b
def above3(self, x, y, z): return (z - self._z_m) * self._cos_b - (x - self._x_m) * self._cos_a * self._sin_b - (y - self._y_m) * self._sin_a * self._sin_b


@contract(L + "fresnel_zone:FresnelZone._filter_points_outside_of_ellipse")
class in_ellipse:
    prop = "C11"
    types = {"self": FZ}

    def pre(self, fresnel_radius_sq): return {**zone(self), "size": fresnel_radius_sq > 0}

    def post(self, fresnel_radius_sq, utm_x, utm_y, result):
        p, q = along(self, utm_x, utm_y), aside(self, utm_x, utm_y)
        return {"in the ellipse": iff(result, p * p / self._half_xy_distance_sq + q * q / fresnel_radius_sq <= 1)}


@contract(L + "fresnel_zone:FresnelZone._solve_for_max_fresnel_radius_2d")
class radius_2d:
    prop = "C11"
    types = {"self": FZ}

    def pre(self): return {**zone(self)}

    def post(self, x, y, result):
        p, q = along(self, x, y), aside(self, x, y)
        return {"beyond the ends": p * p < self._half_xy_distance_sq or result == self._outer_fresnel_radius,
                "lemma: part": p * p >= self._half_xy_distance_sq or p * p / self._half_xy_distance_sq < 1,
                "the ellipse through the point": p * p >= self._half_xy_distance_sq or result * result * (1 - p * p / self._half_xy_distance_sq) == q * q,
                "not negative": result >= 0}


@lemma
class quotient:
    prop = "C11"
    types = dict(r=TReal(), v=TReal(), w=TReal())

    def pre(r, v, w): return {"quotient": w != 0 and r == v / w}
    def post(r, v, w): return {"product": r * w == v}


@contract(L + "fresnel_zone:FresnelZone._solve_for_max_fresnel_radius_3d")
class radius_3d:
    prop = "C11"
    types = {"self": FZ}

    def pre(self): return {**zone(self)}

    def post(self, x, y, z, local_first_term_numerator, local_a, local_b, local_c, result):
        p, q, w = along3(self, x, y, z), aside(self, x, y), above3(self, x, y, z)
        return {"lemma: along": local_first_term_numerator == p, "lemma: ratio": local_a == p * p / self._half_distance_sq, "lemma: aside": local_b == q * q, "lemma: above": local_c == w * w,
                "lemma: squared": local_a >= 1 or result * result == (local_b + local_c) / (1 - local_a),
                "use: quotient": local_a >= 1 or use(quotient, result * result, local_b + local_c, 1 - local_a),
                "lemma: radius": local_a >= 1 or result * result * (1 - local_a) == local_b + local_c,
                "beyond the ends": p * p < self._half_distance_sq or result == self._outer_fresnel_radius,
                "lemma: part": p * p >= self._half_distance_sq or p * p / self._half_distance_sq < 1,
                "the ellipsoid through the point": p * p >= self._half_distance_sq or result * result * (1 - p * p / self._half_distance_sq) == q * q + w * w,
                "not negative": result >= 0}


@lemma
class lower_root:
    prop = "C11"
    types = dict(a=TReal(), b=TReal(), c=TReal(), s=TReal(), r=TReal(), z=TReal())

    def pre(a, b, c, s, r):
        return {"parabola": a > 0, "roots": s >= 0 and s * s == b * b - 4 * a * c, "lower root": (b >= 0 and r * (2 * a) == -b - s) or (b < 0 and r * (s - b) == 2 * c)}

    def post(a, b, c, s, r, z):
        return {"lemma: other form": (2 * a * r + b + s) * (s - b) == 0 or b >= 0,
                "lemma: root": 2 * a * r + b == -s,
                "lemma: square": 4 * a * (a * z * z + b * z + c) == (2 * a * z + b) * (2 * a * z + b) - s * s,
                "lemma: square at the root": 4 * a * (a * r * r + b * r + c) == 0,
                "on it": a * r * r + b * r + c == 0,
                "lemma: lower": z >= r or a * z < a * r,
                "lemma: less": z >= r or 2 * a * z + b < -s,
                "lemma: positive": z >= r or 4 * a * (a * z * z + b * z + c) > 0,
                "outside below": z >= r or a * z * z + b * z + c > 0}


@lemma
class no_root:
    prop = "C11"
    types = dict(a=TReal(), b=TReal(), c=TReal(), z=TReal())

    def pre(a, b, c): return {"parabola": a > 0, "roots": b * b - 4 * a * c <= 0}

    def post(a, b, c, z):
        return {"lemma: square": 4 * a * (a * z * z + b * z + c) == (2 * a * z + b) * (2 * a * z + b) - (b * b - 4 * a * c), "outside": a * z * z + b * z + c >= 0}


def plan1(self, x, y): return (x - self._x_m) * self._cos_a * self._cos_b + (y - self._y_m) * self._sin_a * self._cos_b
def plan2(self, x, y): return (self._x_m - x) * self._cos_a * self._sin_b + (self._y_m - y) * self._sin_a * self._sin_b


def ellipsoid(t1, t2, u, sb, cb, asq, r2, h):
    """less than zero inside, zero on it, more outside"""
    return (t1 + h * sb) * (t1 + h * sb) / asq + (u * u + (t2 + h * cb) * (t2 + h * cb)) / r2 - 1


def surface(self, x, y, h, r2): return ellipsoid(plan1(self, x, y), plan2(self, x, y), aside(self, x, y), self._sin_b, self._cos_b, self._half_distance_sq, r2, h)


@lemma
class parabola:
    prop = "C11"
    types = dict(t1=TReal(), t2=TReal(), u=TReal(), sb=TReal(), cb=TReal(), asq=TReal(), r2=TReal(), h=TReal())

    def pre(asq, r2): return {"sizes": asq > 0 and r2 > 0}

    def post(t1, t2, u, sb, cb, asq, r2, h):
        return {"in h": ellipsoid(t1, t2, u, sb, cb, asq, r2, h) == (sb * sb / asq + cb * cb / r2) * h * h + 2 * (t1 * sb / asq + t2 * cb / r2) * h + (t1 * t1 / asq + t2 * t2 / r2 + u * u / r2 - 1)}


@contract(L + "fresnel_zone:FresnelZone._solve_for_lower_ellipsoid_height")
class lower_height:
    prop = "C11"
    types = {"self": FZ}
    ghost = {"z": TReal()}

    def pre(self, fresnel_radius_sq): return {**zone(self), "size": fresnel_radius_sq > 0}

    def post(self, x, y, fresnel_radius_sq, z, local_quad_a, local_quad_b, local_quad_c, local_quad_d, result):
        s = math.sqrt(max(local_quad_d, 0))
        h, r = z - self._z_m, result - self._z_m
        t1, t2, u = plan1(self, x, y), plan2(self, x, y), aside(self, x, y)
        none = local_quad_d <= 0
        return {
            "lemma: a": local_quad_a == self._sin_b * self._sin_b / self._half_distance_sq + self._cos_b * self._cos_b / fresnel_radius_sq,
            "lemma: b": local_quad_b == 2 * (t1 * self._sin_b / self._half_distance_sq + t2 * self._cos_b / fresnel_radius_sq),
            "lemma: c": local_quad_c == t1 * t1 / self._half_distance_sq + t2 * t2 / fresnel_radius_sq + u * u / fresnel_radius_sq - 1,
            "use: parabola": use(parabola, t1, t2, u, self._sin_b, self._cos_b, self._half_distance_sq, fresnel_radius_sq, h),
            "use: parabola at the height": none or use(parabola, t1, t2, u, self._sin_b, self._cos_b, self._half_distance_sq, fresnel_radius_sq, r),
            "lemma: parabola": surface(self, x, y, h, fresnel_radius_sq) == local_quad_a * h * h + local_quad_b * h + local_quad_c,
            "lemma: parabola at the height": none or surface(self, x, y, r, fresnel_radius_sq) == local_quad_a * r * r + local_quad_b * r + local_quad_c,
            "lemma: root": none or (s >= 0 and s * s == local_quad_b * local_quad_b - 4 * local_quad_a * local_quad_c),
            "lemma: upper": none or local_quad_b < 0 or r * (2 * local_quad_a) == -local_quad_b - s,
            "use: lower": none or local_quad_b >= 0 or use(quotient, r, 2 * local_quad_c, s - local_quad_b),
            "use: height": none or use(lower_root, local_quad_a, local_quad_b, local_quad_c, s, r, h),
            "use: no height": not none or use(no_root, local_quad_a, local_quad_b, local_quad_c, h),
            "no point inside is lower": result <= z or surface(self, x, y, h, fresnel_radius_sq) >= 0,
            "the height is on it": none or surface(self, x, y, r, fresnel_radius_sq) == 0,
            "none when nothing of it is at the place": not none or result == math.inf,
        }


def at_end(self, p): return (p.x == self._site1.utm_x and p.y == self._site1.utm_y) or (p.x == self._site2.utm_x and p.y == self._site2.utm_y)


def inner(self):
    return {"threshold": 0 <= self._los_confidence_threshold and self._los_confidence_threshold <= 1,
            "inner radius": self._inner_fresnel_radius == self._outer_fresnel_radius * self._los_confidence_threshold and self._inner_fresnel_radius_sq == self._inner_fresnel_radius * self._inner_fresnel_radius}


@contract(L + "fresnel_zone:FresnelZone.check_point_obstruct_inner_fresnel_zone")
class obstructs:
    prop = "C11"
    types = {"self": FZ}

    def setup(self): self.check_point_within_inner_ellipse = partial(self._filter_points_outside_of_ellipse, self._inner_fresnel_radius_sq)
    def pre(self): return {**zone(self), **inner(self)}

    def post(self, point, result):
        r2 = self._inner_fresnel_radius_sq
        free = at_end(self, point) or self._los_confidence_threshold == 0
        p, q = along(self, point.x, point.y), aside(self, point.x, point.y)
        return {"a point at an end of the link, or no threshold, obstructs nothing": not free or not result,
                "outside the inner ellipse it obstructs nothing": free or p * p / self._half_xy_distance_sq + q * q / r2 <= 1 or not result,
                "inside, it obstructs exactly when not below the ellipsoid": free or p * p / self._half_xy_distance_sq + q * q / r2 > 1
                    or result == (point.z >= self._solve_for_lower_ellipsoid_height(point.x, point.y, r2))}


@contract(L + "fresnel_zone:FresnelZone.check_point_obstruct_inner_fresnel_zone")
class obstructs_safely:
    """for callers that need no more than that it returns"""
    prop = "C11"
    modular = True
    ret = TBool()
    modifies = []
    types = {"self": FZ}
    setup = obstructs.setup

    def pre(self): return {**zone(self), **inner(self)}


@contract(L + "fresnel_zone:FresnelZone.get_max_fresnel_radius")
class clear_radius:
    prop = "C11"
    modular = True
    ret = TReal()
    modifies = []
    types = {"self": FZ}

    def pre(self): return {**zone(self)}

    def post(self, point, result):
        return {"not negative": result >= 0,
                "a point at an end of the link takes nothing": not at_end(self, point) or result == self._outer_fresnel_radius,
                "nor one below the zone": at_end(self, point) or point.z >= self._solve_for_lower_ellipsoid_height(point.x, point.y, self._outer_fresnel_radius_sq) or result == self._outer_fresnel_radius}


@contract(L + "ellipsoidal_los_validator:EllipsoidalLOSValidator.compute_confidence")
class ellipsoid_confidence:
    prop = "C11"
    types = {"self": ELL}
    loops = {0: Inv(lambda min_fresnel_radius, fresnel_zone: {"a radius so far": 0 <= min_fresnel_radius and min_fresnel_radius <= fresnel_zone._outer_fresnel_radius})}

    def pre(self, site1, site2):
        e = self._surface_elevation
        return {"limits": self._frequency_mhz > 0 and 0 <= self._los_confidence_threshold and self._los_confidence_threshold <= 1,
                "los limits": self._min_los_distance > 0 and self._max_los_distance > self._min_los_distance and 0 <= self._max_el_dev and self._max_el_dev <= 90,
                "altitudes": e is None or (site1.altitude is not None and site2.altitude is not None),
                "a raster": e is None or (e.x_size >= 1 and e.y_size >= 1 and e.x_resolution > 0 and e.y_resolution > 0
                    and e.utm_bounding_box.min_utm_x <= e.utm_bounding_box.max_utm_x and e.utm_bounding_box.min_utm_y <= e.utm_bounding_box.max_utm_y)}

    def post(self, site1, site2, result):
        return {"between zero and one": 0 <= result and result <= 1,
                "none when it fails the simple checks": self._passes_simple_checks(site1, site2) or result == 0,
                "full without a surface": self._surface_elevation is not None or result == (1 if self._passes_simple_checks(site1, site2) else 0)}
