"""G10: segment-polygon and polygon-cube intersection tests are exact."""

import itertools
from fractions import Fraction as F

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon
from building3d.geom.polygon.crossing import is_polygon_crossing_cube

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G10"
BOUNDS = {
    "quick": "polygons with up to 5 vertices of the 3x3 lattice, one per symmetry class, x all segments from a 5x5 "
    "to a parallel 3x3 or 5x5 lattice at several heights in 4 planes; polygons with up to 4 vertices, one per symmetry class, in 7 lattice planes (axis-aligned "
    "and oblique) x all boxes of 3 sizes at all lattice and half-lattice positions around it",
    "thorough": "all polygons of the 3x3 lattice, one per symmetry class, for segments, all with up to 5 vertices for boxes",
}
ASSUMPTIONS = [
    "segments parallel to the plane of the polygon are expected not to cross it",
    "polygons are not closer than 0.01 to a cube unless they meet it",
]

PLANES = ("xy", "tilt345", "yz", "tilt122")
HEIGHTS = ((1, -1), (2, -1), (-1, 2), (1, 0), (0, -2), (1, 2), (-2, -1), (1, 1), (0, 0))

# Lattice planes: integer origin and directions
FRAMES = {
    "z": ((0, 0, 0), (1, 0, 0), (0, 1, 0)),
    "y": ((0, 1, 0), (1, 0, 0), (0, 0, 1)),
    "x": ((-1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "slope": ((0, 0, 0), (1, 0, 0), (0, 1, 1)),
    "steep": ((0, 0, 0), (1, 0, 2), (0, 1, 0)),
    "oblique": ((0, 0, 2), (1, 0, -1), (0, 1, -1)),
    "skew": ((0, 0, 0), (2, 1, 0), (0, 1, 3)),
}
SIZES = ((1, 1, 1), (F(1, 2), F(1, 2), F(1, 2)), (2, 1, F(1, 2)))


def seg_polys(tier):
    return polys.classes(p for p in polys.all_3x3() if len(p) <= (5 if tier == "quick" else 9))


def cube_polys(tier):
    return polys.classes(polys.upto(3, 3, 4)) if tier == "quick" else polys.upto(3, 3, 5)


def cases(tier):
    out = [["segment", tier, i] for i in range(len(seg_polys(tier)))]
    out += [["cube", tier, i, name] for i in range(len(cube_polys(tier))) for name in FRAMES]
    return out


def run_segment(ctx, tier, i):
    ring = seg_polys(tier)[i]
    lattice = [(x, y) for x in range(-1, 4) for y in range(-1, 4)]
    inner = [(x, y) for x in range(3) for y in range(3)]
    where = {}
    for k, (h0, h1) in enumerate(HEIGHTS):
        plane = Plane(PLANES[(i + k) % 4])
        P = Polygon(plane.pts(ring), vn=plane.n if k % 2 else None) if geo.corner(ring, 0) > 0 else Polygon(
            plane.pts(ring), vn=plane.n
        )
        ends = lattice if abs(h0 - h1) > 1 and h0 * h1 < 0 else inner
        for a, b in itertools.product(lattice, ends):
            if a == b and h0 == h1:
                continue
            expected = False
            if h0 != h1 and h0 * h1 <= 0:
                t = F(h0, h0 - h1)
                x = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
                if x not in where:
                    where[x] = geo.locate(x, ring) >= 0
                expected = where[x]
            ctx.at(polygon=ring, segment=((*a, h0), (*b, h1)), plane=plane.name)
            got = is_line_segment_crossing_polygon(plane.at(*a, h0), plane.at(*b, h1), P.pts, P.tri)
            ctx.check(bool(got) == expected, "segment", got=bool(got), expected=expected)
            ctx.step()
            ctx.trace("segment-crossing" if expected else "segment-apart")
            ctx.state("segment", ring, a, b, h0, h1, plane.name)
    ctx.sample(polygon=ring)


def clip(points, axis, bound, sign):
    """Part of a convex polygon with sign * coordinate <= sign * bound."""
    out = []
    for k in range(len(points)):
        a, b = points[k - 1], points[k]
        da, db = sign * (a[axis] - bound), sign * (b[axis] - bound)
        if (da < 0 < db) or (db < 0 < da):
            t = F(da) / (da - db)
            out.append(tuple(x + t * (y - x) for x, y in zip(a, b)))
        if db <= 0:
            out.append(b)
    return out


def meets_box(triangles, lo, hi):
    for t in triangles:
        pts = list(t)
        for axis in range(3):
            pts = clip(pts, axis, hi[axis], 1)
            if pts:
                pts = clip(pts, axis, lo[axis], -1)
            if not pts:
                break
        if pts:
            return True
    return False


def run_cube(ctx, tier, i, name):
    ring = cube_polys(tier)[i]
    o, u, v = FRAMES[name]

    def at(p):
        return tuple(o[k] + p[0] * u[k] + p[1] * v[k] for k in range(3))

    pts3 = [at(p) for p in ring]
    tri3 = [[at(p) for p in t] for t in geo.ear_triangles(ring)]
    vn = np.cross(np.array(u, dtype=float), np.array(v, dtype=float))
    P = Polygon(np.array(pts3, dtype=float), vn=vn / np.linalg.norm(vn))
    lo3 = [min(p[k] for p in pts3) for k in range(3)]
    hi3 = [max(p[k] for p in pts3) for k in range(3)]
    for s, size in enumerate(SIZES):
        # All positions at which the box can meet the bounding box, and one step around
        steps = [
            [F(n, 2) for n in range(2 * (lo3[k] - int(size[k] + F(1, 2))) - 1, 2 * hi3[k] + 2)] for k in range(3)
        ]
        for lo in itertools.product(*steps):
            # Large boxes at lattice points and in the centres between them
            if tier == "quick" and s != 1 and len({x.denominator for x in lo}) > 1:
                continue
            hi = tuple(a + b for a, b in zip(lo, size))
            expected = meets_box(tri3, lo, hi)
            ctx.at(polygon=pts3, min=lo, max=hi)
            got = is_polygon_crossing_cube(
                P.pts, P.tri, tuple(float(x) for x in lo), tuple(float(x) for x in hi)
            )
            ctx.check(bool(got) == expected, "cube", got=bool(got), expected=expected)
            ctx.step()
            ctx.trace("cube-meets" if expected else "cube-apart")
            ctx.state("cube", name, ring, lo, size)


def run(case, ctx):
    if case[0] == "segment":
        run_segment(ctx, *case[1:])
    else:
        run_cube(ctx, *case[1:])
