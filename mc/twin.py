"""Computes enumerated results in one execution mode: python -m mc.twin GROUP TIER OUT.

Run with NUMBA_DISABLE_JIT set to 0 or 1, the results are compared by the check X01.
"""

import importlib
import itertools
import os
import pickle
import sys

import numpy as np


def plain(x, depth=0):
    """Lists, numbers, strings."""
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((plain(v) for v in x), key=str)]
    if isinstance(x, dict):
        return ["dict", sorted(([plain(k), plain(v)] for k, v in x.items()), key=lambda p: str(p[0]))]
    if isinstance(x, bool) or x is None or isinstance(x, (str, int, float)):
        return x
    if hasattr(x, "pts") and hasattr(x, "tri"):
        return ["polygon", x.name, plain(x.pts), plain(x.tri), plain(x.vn)]
    return ["object", type(x).__name__]


def lookup(path):
    module, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("building3d." + module), name)


class Recorder:
    def __init__(self):
        self.results = {}

    def call(self, path, *args, **kw):
        self.do(path, args if not kw else (args, sorted(kw.items())), lambda: lookup(path)(*args, **kw))

    def do(self, what, key, thunk):
        try:
            value = ["value", plain(thunk())]
        except (ImportError, AttributeError) as e:
            if what in str(e) or what.rsplit(".", 1)[-1] in str(e):
                return  # Does not exist
            value = ["raises", type(e).__name__]
        except Exception as e:
            value = ["raises", type(e).__name__]
        self.results[f"{what} {plain(key)}"] = value


def pt(*xyz):
    return np.array(xyz, dtype=float)


LATTICE = [pt(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
SPECIAL = [pt(0.5, 0, 0), pt(0.5, 0.5, 0.5), pt(2, 2, 2), pt(-1, 0.3, 1e-9), pt(0.1 + 0.2, 0.3, 1 / 3), pt(4, -3, 2)]


def points(rec, tier):
    all_pts = LATTICE + SPECIAL
    for a in LATTICE + [pt(1000, -2000, 500)]:
        rec.call("geom.vectors.angle", a, pt(-500, 20, 3000))
        rec.call("geom.vectors.normal", a, pt(-500, 20, 3000), pt(2, 700, 1))
        rec.call("geom.triangles.triangle_area", a, pt(-500, 20, 3000), pt(2, 700, 1))
    for a in all_pts:
        rec.call("geom.points.is_valid_pt", a)
    rec.call("geom.points.is_valid_pt", pt(0, np.nan, 0))
    for a, b in itertools.product(all_pts, repeat=2):
        rec.call("geom.points.points_equal", a, b)
        rec.call("geom.vectors.angle", a, b)
        rec.call("geom.points.new_point_between_2_points", a, b, 0.3)
        rec.call("geom.points.many_new_points_between_2_points", a, b, 3)
        rec.call("geom.points.points_equal", a, b + 1e-14)
        rec.call("geom.points.points_equal", a, b + 1e-9)
        if np.linalg.norm(a) > 0:
            for phi in (0.0, 0.5, np.pi, -2.0):
                rec.call("geom.rotation.rotation_matrix", a / np.linalg.norm(a), phi)
                rec.call("geom.rotation.rotate_points_around_vector", np.vstack((b, a, pt(1, 2, 3))), a, phi)
        u = b / np.linalg.norm(b) if np.linalg.norm(b) > 0 else pt(0, 0, 1)
        rec.call("geom.rotation.rotate_points_to_plane", np.vstack((a, pt(1, 0, 0), pt(0, 1, 0.5))), a, u, 0.5)
    for a, b, c in itertools.product(all_pts, repeat=3):
        rec.call("geom.points.are_points_collinear", np.vstack((a, b, c)))
        rec.call("geom.points.is_point_on_segment", a, b, c)
        rec.call("geom.points.distance.distance_point_to_edge", a, b, c)
        rec.call("geom.vectors.normal", a, b, c)
        rec.call("geom.triangles.triangle_area", a, b, c)
        rec.call("geom.triangles.triangle_centroid", a, b, c)
        rec.call("geom.bboxes.is_point_inside_bbox", a, np.vstack((b, c)))
        rec.call("geom.points.is_point_in_array", a, np.vstack((b, c)))
        rec.call("geom.points.roll_forward", np.vstack((a, b, c)))
        rec.call("geom.bboxes.bounding_box", np.vstack((a, b, c)))
        rec.call("geom.triangles.is_corner_convex", a, b, c, pt(0, 0, 1))
    four = list(itertools.product(LATTICE, repeat=4)) if tier == "thorough" else list(
        itertools.product(LATTICE[:2], LATTICE, LATTICE + SPECIAL, LATTICE[1:4] + SPECIAL)
    )
    for a, b, c, d in four:
        rec.call("geom.points.are_points_coplanar", np.vstack((a, b, c, d)))
        rec.call("geom.points.are_points_collinear", np.vstack((a, b, c, d)))
        rec.call("geom.points.intersections.line_intersection", a, b, c, d)
        rec.call("geom.points.intersections.line_segment_intersection", a, b, c, d)
        rec.call("geom.triangles.is_point_on_same_side", a, b, c, d)
        rec.call("geom.triangles.is_point_inside", d, a, b, c)
        rec.call("geom.tetrahedrons.tetrahedron_volume", a, b, c, d)
        rec.call("geom.tetrahedrons.tetrahedron_centroid", a, b, c, d)
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        rec.call("geom.bboxes.are_bboxes_overlapping", (lo, hi), (np.minimum(c, d), np.maximum(c, d)))
        if tier == "thorough" or len(rec.results) % 5 == 0:
            edges = np.array([[a, b], [b, d]])
            rec.call("geom.points.visibility.visibility_matrix", np.vstack((a, b, c, d)), edges)
            rec.call("geom.points.visibility.are_points_visible", a, b, np.array([[c, d]]), edges)
    for n in (1, 2, 3):
        p, q = np.vstack(LATTICE[:4]), np.vstack(LATTICE[3:] + SPECIAL[:2])
        for vis in (True, False):
            rec.call("geom.points.find_close_pairs.find_close_pairs", p, q, n, vis)
            rec.call("geom.points.find_close_pairs.find_close_pairs", q, p + 0.5, n, vis)
    rec.call("geom.bboxes.cube_edges", (0.0, 0.0, 0.0), (1.0, 2.0, 3.0))
    rec.call("geom.bboxes.cube_polygons", (0.0, -1.0, 0.0), (1.0, 2.0, 3.0))
    buffer()(rec, tier)


def buffer():
    def go(rec, tier):
        for size in (1, 2, 3, 4):
            for n in range(2 * size + 2):
                def fill():
                    put, flat = lookup("types.cyclic_buffer.cyclic_buf"), lookup("types.cyclic_buffer.convert_to_contiguous")
                    buf, head, tail = np.zeros((size, 2)), 0, 0
                    for i in range(n):
                        buf, head, tail = put(buf, head, tail, np.array([i, -i], dtype=float), size)
                    return buf, head, tail, flat(buf, head, tail)

                rec.do("cyclic_buffer", (size, n), fill)

    return go


def some_polygons(tier):
    from mc import polys
    from mc.shapes import PLANES, Plane

    planes = [Plane(name) for name in PLANES]
    rings = list(polys.classes(polys.all_3x3()) if tier == "quick" else polys.all_3x3()) + [f[-1] for f in polys.family(3)]
    for k, ring in enumerate(rings):
        yield k, planes[k % len(planes)], list(ring)


def make(plane, ring, rec, key):
    from building3d.geom.polygon import Polygon

    out = []

    def go():
        p = Polygon(plane.pts(ring), name="p", vn=plane.n.copy())
        out.append(p)
        return p, plain(p.edges) if hasattr(p, "edges") else None

    rec.do("polygon", key, go)
    return out[0] if out else None


def polygons(rec, tier):
    for k, plane, ring in some_polygons(tier):
        n = len(ring)
        for start in range(n) if tier == "thorough" else (0, n // 2):
            turned = list(ring[start:]) + list(ring[:start])
            p = make(plane, turned, rec, (k, start))
            if p is None:
                continue
            pts, tri, vn = p.pts, p.tri, p.vn
            for name in ("polygon_edges",):
                rec.call("geom.polygon.edges." + name, pts)
            rec.call("geom.polygon.area.polygon_area", pts, vn)
            rec.call("geom.polygon.centroid.polygon_centroid", pts, tri)
            rec.call("geom.polygon.plane.plane_coefficients", pts)
            rec.call("geom.polygon.plane.projection_coefficients", pts[0], vn)
            rec.call("geom.triangles.triangulate", pts, vn)
            rec.do("flip", (k, start), lambda: p.flip("f"))
            mid = pts.mean(axis=0)
            tests = [mid, pts[0], (pts[0] + pts[1]) / 2, pts[1] * 2 - pts[0], mid + vn, (pts[0] + pts[2]) / 2, mid + 0.3 * vn + 0.2]
            for t in tests:
                rec.call("geom.polygon.ispointinside.is_point_inside", t, pts, tri)
                rec.call("geom.polygon.ispointinside.is_point_inside", t, pts, tri, False)
                rec.call("geom.polygon.ispointinside.is_point_at_boundary", t, pts)
                rec.call("geom.polygon.ispointinside.is_point_inside_margin", t, 0.1, pts, tri)
                rec.call("geom.polygon.ispointinside.is_point_inside_ortho_projection", t + vn, pts, tri)
                rec.call("geom.polygon.ispointinside.is_point_inside_projection", t + vn, -vn, pts, tri)
                rec.call("geom.polygon.ispointinside.is_point_inside_projection", t + vn, vn, pts, tri)
                rec.call("geom.polygon.distance.distance_point_to_polygon", t, pts, tri, vn)
                rec.call("geom.polygon.crossing.is_line_segment_crossing_polygon", t + vn, t - vn, pts, tri)
                rec.call("geom.polygon.crossing.is_line_segment_crossing_polygon", t, pts[0] + vn, pts, tri)
            lo = tuple(mid - 0.25)
            hi = tuple(mid + 0.25)
            rec.call("geom.polygon.crossing.is_polygon_crossing_cube", pts, tri, lo, hi)
            rec.call(
                "geom.polygon.crossing.is_polygon_crossing_cube", pts, tri, tuple(mid + 5 * vn), tuple(mid + 5 * vn + 0.5)
            )


def relations(rec, tier):
    from building3d.geom.polygon import Polygon
    from mc.checks.b01 import ALPHABET

    made = {k: Polygon(np.array(v, dtype=float), name=k) for k, v in ALPHABET.items()}
    for a, b in itertools.product(made, repeat=2):
        p, q = made[a], made[b]
        rec.do("facing", (a, b), lambda: p.is_facing_polygon(q))
        rec.do("crossing", (a, b), lambda: p.is_crossing_polygon(q))
        rec.do("touching", (a, b), lambda: p.is_touching_polygon(q))
        rec.do("equal", (a, b), lambda: p == q)
    graph(rec)


def graph(rec):
    from mc.checks.b01 import build, PLACES, NAMES

    for i, kinds in enumerate(itertools.combinations(NAMES[:9], 3)):
        for levels in ("polygon", "solid"):
            def go():
                bdg = build(kinds, PLACES[i % len(PLACES)])[0]
                return bdg.get_graph(level=levels, facing=True, overlapping=True, touching=i % 2 == 0)

            if i % 3 == 0:
                rec.do("graph", (kinds, levels), go)


def slicing(rec, tier):
    from building3d.geom.polygon import Polygon
    from building3d.geom.polygon.slice import slice_polygon
    from mc import polys
    from mc.shapes import PLANES, Plane

    rings = polys.classes(polys.all_3x3()) if tier == "quick" else polys.all_3x3()
    lattice = [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)]
    for k, ring in enumerate(rings):
        plane = Plane(list(PLANES)[k % len(PLANES)])
        for a, b in itertools.permutations(lattice[:: 1 if tier == "thorough" else 2], 2):
            rec.do(
                "slice",
                (k, a, b),
                lambda: slice_polygon(Polygon(plane.pts(ring), name="p", vn=plane.n.copy()), plane.pts([a, b]), name1="a", name2="b"),
            )
        for chain in (((0, 0), (1, 1), (2, 0)), ((0, 1), (1, 1), (1, 2)), ((1, 0), (1, 1), (2, 1)), ((5, 5), (1, 1), (2, 2))):
            rec.do(
                "slice",
                (k, chain),
                lambda: slice_polygon(Polygon(plane.pts(ring), name="p", vn=plane.n.copy()), plane.pts(list(chain)), name1="a", name2="b"),
            )


def whole(bdg):
    from mc.checks.r05 import polygons as all_polygons

    return [[p[0], p[3].tolist(), p[4].tolist()] for p in all_polygons(bdg)]


def stitching(rec, tier):
    from building3d.geom.building import Building
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.zone import Zone
    from mc.checks import r05

    chosen = [c for n in (2, 3) for c in r05.sets(n)]
    for c in chosen:
        def go():
            bdg = r05.build(c, [0] * len(c))
            bdg.stitch_solids()
            out = whole(bdg)
            # New polygons have random names
            return [[p[0].rsplit("/", 1)[0], p[1], p[2]] for p in out], bdg.volume()

        rec.do("stitch", c, go)
    plans = [
        [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)],
        [(0, 0), (2, 0), (1, 2)],
        [(2, 0), (4, 0), (4, 2), (2, 2)],
        [(2, -1), (4, -1), (3, 3), (2, 3)],
    ]
    for i, j in itertools.combinations(range(len(plans)), 2):
        for h in (1.0, 2.0):
            def go():
                a = floor_plan(plans[i], 1.0, name="a")
                b = floor_plan(plans[j], h, name="b")
                inside = [a.is_point_inside(np.array(x, dtype=float)) for x in ((0.5, 0.5, 0.5), (2, 0.5, 0.5), (1, 1, 1), (9, 9, 9))]
                bdg = Building([Zone([a, b], name="z")], name="b")
                first = a.volume, b.volume, inside, a.is_adjacent_to_solid(b)
                bdg.stitch_solids()
                return first, [[p[0].rsplit("/", 1)[0], p[1], p[2]] for p in whole(bdg)]

            rec.do("plans", (i, j, h), go)


def formats(rec, tier):
    from building3d.io import arrayformat
    from building3d.sim.rays.find_transparent import find_transparent
    from mc import rays
    from mc.checks import r05
    from mc.checks import r06

    for c in [c for n in (1, 2) for c in r05.sets(n)]:
        def go():
            bdg = r05.build(c, [0] * len(c))
            return arrayformat.to_array_format(bdg), find_transparent(bdg)

        rec.do("array", c, go)

        def back():
            bdg = r05.build(c, list(range(len(c))))
            arrays = arrayformat.to_array_format(bdg)
            return [[p[1], p[2]] for p in whole(arrayformat.from_array_format(*arrays))]

        rec.do("array-back", c, back)
    dirs = np.array(rays.all_directions() + rays.skew_directions())
    for plan in list(rays.PLANS)[:: 2 if tier == "quick" else 1]:
        for pose in ("none", "tilted"):
            room = rays.Room(plan, pose)
            pts, ptl, tri = r06.arrays(room.building())
            for step in (0.5, 1.0):
                rec.do("voxels", (plan, pose, step), lambda: {k: v for k, v in r06.voxels(pts, ptl, step).items()})
            src = rays.sources(room, 0.25, (0.45, 0.3))
            for i, p in enumerate(src[:: max(1, len(src) // 4)]):
                for j, d in enumerate(dirs):
                    rec.call_target(room, p, d, ptl, tri, (plan, pose, i, j))


def call_target(rec, room, p, d, ptl, tri, key):
    from building3d.sim.rays.find_target import find_target_surface

    # Not through edges, where the choice may depend on rounding
    from mc.checks.r06 import hits

    if any(h[0] == "maybe" for h in hits(room, p, d / np.linalg.norm(d))):
        return
    rec.do(
        "target",
        key,
        lambda: find_target_surface(
            room.world(p)[0], room.rot @ d, ptl, tri, set([-1]), set(range(len(ptl))), atol=1e-3
        ),
    )


Recorder.call_target = call_target


def simulation(rec, tier):
    """Every number of threads, in the compiled mode."""
    import numba

    from mc import rays

    compiled = os.environ.get("NUMBA_DISABLE_JIT") != "1"
    threads = range(1, numba.config.NUMBA_NUM_THREADS + 1) if compiled else [1]
    dirs = np.array(rays.skew_directions())
    for plan in ("cube", "L", "house"):
        for pose in ("none", "tilted") if tier == "thorough" or plan == "L" else ("none",):
            room = rays.Room(plan, pose)
            engine = rays.Engine(room.building(), 0.5)
            p, d = rays.fan([(0.45, 0.4, 0.35), (0.7, 0.35, 0.6)], dirs)
            for absorption, layout in ((0.1, []), (0.3, [(0.6, 0.5, 0.4), (0.3, 0.3, 0.7)])):
                for n in (1, 7, len(p)):
                    for t in threads:
                        if compiled:
                            numba.set_num_threads(t)
                        key = (plan, pose, absorption, n)
                        coeffs = np.linspace(absorption, 2 * absorption, len(room.surfaces))
                        world = room.world(np.array(layout)) if layout else None
                        got = Recorder()
                        got.do(
                            "simulation",
                            key,
                            lambda: engine.run(
                                room.world(p[:n]), d[:n] @ room.rot.T, 0.11, 12, coeffs, absorbers=world, radius=0.15
                            ),
                        )
                        for k, v in got.results.items():
                            rec.results[f"{k} threads={t}" if compiled else k] = v


GROUPS = {
    "points": points,
    "polygons": polygons,
    "relations": relations,
    "slicing": slicing,
    "stitching": stitching,
    "formats": formats,
    "simulation": simulation,
}


def main():
    group, tier, out = sys.argv[1:4]
    sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    rec = Recorder()
    GROUPS[group](rec, tier)
    with open(out, "wb") as f:
        pickle.dump(rec.results, f)


if __name__ == "__main__":
    main()
