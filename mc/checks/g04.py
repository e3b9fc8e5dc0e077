"""G04: point-to-polygon and point-to-edge distances are exact."""

from fractions import Fraction as F
from itertools import product

import numpy as np

from building3d.geom.points.distance import distance_point_to_edge
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.distance import distance_point_to_polygon

from mc import geo
from mc import polys
from mc.checks.g03 import dist2_to_outline
from mc.shapes import Plane

ID = "G04"
BOUNDS = {
    "quick": "all simple polygons on the 3x3 lattice (1 plane; up to 4 vertices: 7 more planes) x half-integer lattice "
    "points one unit around x 5 heights, and points close to the corners and edges; all segments of the {0,1,2}^3 lattice x "
    "points of {-1..3}^3 and points close to both ends",
    "thorough": "as quick with all planes for all polygons, 4x3 polygons up to 6 vertices, points two units around",
}
ASSUMPTIONS = ["coordinates up to a few hundred"]
ALL = ["xy", "yx", "xz", "yz", "tilt345", "tilt122", "big", "frac"]


def sets(tier):
    if tier == "quick":
        return {
            "3x3": (polys.all_3x3, ["tilt345"]),
            "3x3n4": (lambda: polys.upto(3, 3, 4), [p for p in ALL if p != "tilt345"]),
        }
    return {"3x3": (polys.all_3x3, ALL), "4x3n6": (lambda: polys.upto(4, 3, 6), ["tilt122", "big"])}


def cases(tier):
    out = []
    for name, (get, planes) in sets(tier).items():
        for pl in planes:
            out += [[name, pl, a, b] for a, b in polys.chunks(len(get()), 10)]
    out += [["segments", "", i, i + 1] for i in range(27)]
    return out


def explore(ctx, base, plane, idx):
    rings = list(geo.rotations(base))
    d, ring = rings[(idx * 7) % len(rings)]
    poly = Polygon(plane.pts(ring), vn=plane.n * d)
    r = 1 if ctx.tier == "quick" else 2
    x1, y1 = max(p[0] for p in base), max(p[1] for p in base)
    heights = (F(0), F(1, 2), F(-2)) if idx % 2 else (F(0), F(1), F(-1, 4))
    points = []
    for i, j in product(range(-2 * r, 2 * (x1 + r) + 1), range(-2 * r, 2 * (y1 + r) + 1)):
        points.append((F(i, 2), F(j, 2), heights if (i + j) % 2 == 0 else heights[:2]))
    # Close to the corners and to the middles of the edges, on both sides
    for n, (x, y) in enumerate(ring):
        u, v = ring[(n + 1) % len(ring)]
        for a, b in ((F(x), F(y)), (F(x + u, 2), F(y + v, 2))):
            for p, q in ((F(1, 1000), F(1, 700)), (F(-1, 800), F(1, 3000))):
                points += [(a + p, b + q, (F(0), F(1, 900))), (a - p, b - q, (F(0),))]
    for x, y, hh in points:
        p = (x, y)
        inside = geo.locate(p, base) >= 0
        d2 = F(0) if inside else dist2_to_outline(p, base)
        for h in hh:
            ctx.at(ring=ring, plane=plane.name, point=(float(x), float(y), float(h)))
            expected = float(d2 + h * h) ** 0.5 * plane.len
            got = distance_point_to_polygon(plane.at(p[0], p[1], h), poly.pts, poly.tri, poly.vn)
            ctx.check(abs(got - expected) < 1e-8 * (1 + plane.len), "polygon-distance", got=got, expected=expected)
            ctx.state(ring, plane.name, p, h)
            ctx.step()
            ctx.trace("above" if inside else "beside")


def explore_segments(ctx, i):
    lattice = list(product(range(3), repeat=3))
    a = lattice[i]
    for b in lattice:
        if a == b:
            continue
        e = [y - x for x, y in zip(a, b)]
        ee = sum(x * x for x in e)
        close = []
        for t in (F(-1, 100), F(-1, 1000), F(-1, 9000), F(1, 2000), F(1999, 2000), F(9001, 9000), F(1001, 1000), F(101, 100)):
            for o in (F(0), F(1, 500)):
                close.append((a[0] + t * e[0] + o, a[1] + t * e[1], a[2] + t * e[2] - o))
        for p in list(product(range(-1, 4), repeat=3)) + close:
            w = [x - y for x, y in zip(p, a)]
            t = max(F(0), min(F(1), F(sum(x * y for x, y in zip(w, e))) / ee))
            d2 = sum((x - t * y) ** 2 for x, y in zip(w, e))
            ctx.at(segment=(a, b), point=p)
            for s, o in ((1.0, 0.0), (0.3, -17.7)):
                got = distance_point_to_edge(*(np.array([float(c) for c in q]) * s + o for q in (p, a, b)))
                ctx.check(abs(got - float(d2) ** 0.5 * s) < 1e-9, "segment-distance", got=got, scale=s)
                ctx.step()
            ctx.state("segment", a, b, p)
            ctx.trace("start" if t == 0 else "end" if t == 1 else "middle")


def run(case, ctx):
    name, pl, a, b = case
    if name == "segments":
        explore_segments(ctx, a)
        return
    plane = Plane(pl)
    for i, base in list(enumerate(sets(ctx.tier)[name][0]()))[a:b]:
        explore(ctx, base, plane, i)
        ctx.sample(ring=base, plane=pl)
