"""G03: point-in-polygon tests agree with exact geometry."""

from fractions import Fraction as F

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.ispointinside import is_point_at_boundary
from building3d.geom.polygon.ispointinside import is_point_inside_margin
from building3d.geom.polygon.ispointinside import is_point_inside_ortho_projection
from building3d.geom.polygon.ispointinside import is_point_inside_projection

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G03"
BOUNDS = {
    "quick": "all simple polygons on the 3x3 lattice x all points of the half-integer lattice one unit around it, in the "
    "plane and off the plane; up to 4 vertices in 3 more planes; starts varied; margins; 4 projection directions, "
    "both with and without backward hits; combs, spirals and stars up to parameter 4",
    "thorough": "as quick, with quarter-lattice points, all planes and 4x3 polygons up to 6 vertices",
}
ASSUMPTIONS = [
    "coordinates of moderate size (up to a few hundred); points off the outline are at least 1e-4 edge lengths away from it",
    "projection directions are not parallel to the plane",
]
ALL = ["xy", "yx", "xz", "yz", "tilt345", "tilt122", "big", "frac"]
# Projection directions in lattice coordinates (along u, v, n)
DIRS = [(0, 0, 1), (0, 0, -1), (1, -1, 2), (-1, 2, -2)]


def sets(tier):
    if tier == "quick":
        return {
            "3x3": (polys.all_3x3, ["tilt122"]),
            "3x3n4": (lambda: polys.upto(3, 3, 4), ["xy", "tilt345", "frac"]),
        }
    return {
        "3x3": (polys.all_3x3, ALL),
        "4x3n6": (lambda: polys.upto(4, 3, 6), ["tilt122", "xy"]),
    }


def fam(tier):
    return [f for f in polys.family(4 if tier == "quick" else 6) if f[0] in ("comb", "spiral", "star")]


def cases(tier):
    out = []
    for name, (get, planes) in sets(tier).items():
        for pl in planes:
            out += [[name, pl, a, b] for a, b in polys.chunks(len(get()), 8)]
    for i in range(len(fam(tier))):
        out.append(["family", "xz", i, i + 1])
    return out


def dist2_to_outline(p, ring):
    best = None
    for a, b in geo.edges(ring):
        ex, ey = b[0] - a[0], b[1] - a[1]
        t = ((p[0] - a[0]) * ex + (p[1] - a[1]) * ey) / F(ex * ex + ey * ey)
        t = max(F(0), min(F(1), t))
        dx, dy = p[0] - a[0] - t * ex, p[1] - a[1] - t * ey
        d = dx * dx + dy * dy
        best = d if best is None or d < best else best
    return best


def explore(ctx, base, plane, label, idx):
    # The start vertex and direction vary with the index, so that all of them are used
    rings = list(geo.rotations(base))
    d, ring = rings[idx % len(rings)]
    poly = Polygon(plane.pts(ring), vn=plane.n * d)
    pts, tri = poly.pts, poly.tri
    x1, y1 = max(p[0] for p in base), max(p[1] for p in base)
    x0, y0 = min(p[0] for p in base), min(p[1] for p in base)
    q = 4 if ctx.tier == "thorough" and x1 - x0 <= 3 else 2
    if x1 - x0 > 20:
        # Star: large coordinates, coarse lattice
        step = F(8)
        xs = [F(x0) + i * step for i in range(int((x1 - x0) / step) + 2)]
        ys = [F(y0) + i * step for i in range(int((y1 - y0) / step) + 2)]
        grid = [(x, y) for x in xs for y in ys] + [(F(a), F(b)) for a, b in base]
        grid += [(F(a[0] + b[0], 2), F(a[1] + b[1], 2)) for a, b in geo.edges(base)]
    else:
        grid = [
            (F(i, q), F(j, q)) for i in range((x0 - 1) * q, (x1 + 1) * q + 1) for j in range((y0 - 1) * q, (y1 + 1) * q + 1)
        ]
    k = plane.len
    # Points very close to the edges, their extensions and the corners
    for a, b in geo.edges(base):
        ex, ey = b[0] - a[0], b[1] - a[1]
        for t in (F(1, 2), F(-1, 1000), F(1001, 1000), F(1, 1000)):
            for e in (F(1, 1000), F(-1, 1000), F(1, 5000), F(-1, 5000), F(0)):
                x, y = a[0] + t * ex - e * ey, a[1] + t * ey + e * ex
                loc = geo.locate((x, y), base)
                ctx.at(ring=ring, plane=plane.name, near=(float(x), float(y)))
                ctx.state(ring, plane.name, x, y)
                pt = plane.at(x, y)
                if e != 0 or plane.name in ("xy", "xz"):
                    ctx.check(bool(poly.is_point_inside(pt)) == (loc >= 0), "near-edge", loc=loc)
                    if e != 0:
                        got = poly.is_point_inside(pt, boundary_in=False)
                        ctx.check(bool(got) == (loc > 0), "near-edge-strict", loc=loc)
                    ctx.step(2)
                if e == 0 and t == F(1, 2):
                    for h in (F(1, 1000), F(-1, 10**6)):
                        off = plane.at(x, y, h)
                        ctx.check(not poly.is_point_inside(off), "near-plane", h=float(h))
                        ctx.step()
                ctx.trace("near")
    for n, (x, y) in enumerate(grid):
        loc = geo.locate((x, y), base)
        p = plane.at(x, y)
        ctx.at(ring=ring, plane=plane.name, point=(float(x), float(y)))
        ctx.state(ring, plane.name, x, y)
        ctx.check(bool(poly.is_point_inside(p)) == (loc >= 0), "inside", loc=loc)
        ctx.check(bool(poly.is_point_inside(p, boundary_in=False)) == (loc > 0), "strictly-inside", loc=loc)
        ctx.check(bool(is_point_at_boundary(p, pts)) == (loc == 0), "boundary", loc=loc)
        ctx.step(3)
        if loc > 0:
            dd = float(dist2_to_outline((x, y), base)) ** 0.5 * k
            ctx.check(bool(is_point_inside_margin(p, dd * 0.9, pts, tri)), "margin-too-small", dist=dd)
            ctx.check(not is_point_inside_margin(p, dd * 1.1, pts, tri), "margin-too-large", dist=dd)
            ctx.step(2)
        elif n % 3 == 0:
            ctx.check(not is_point_inside_margin(p, k * 0.01, pts, tri), "margin-outside", loc=loc)
            ctx.step()
        # Off the plane: never inside, but projections may hit
        for h in (F(1, 2), F(-1)):
            if (n + (h > 0)) % 2:
                continue
            off = plane.at(x, y, h)
            ctx.at(ring=ring, plane=plane.name, point=(float(x), float(y), float(h)))
            ctx.check(not poly.is_point_inside(off), "inside-off-plane", loc=loc)
            ctx.check(
                bool(is_point_inside_ortho_projection(off, pts, tri)) == (loc >= 0), "orthogonal-projection", loc=loc
            )
            ctx.step(2)
            for v in DIRS[(n // 2) % 2 :: 2]:
                t = -h / v[2]
                hit = geo.locate((x + t * v[0], y + t * v[1]), base) >= 0
                v3 = v[0] * plane.u + v[1] * plane.v + v[2] * k * plane.n
                got = is_point_inside_projection(off, v3, pts, tri, fwd_only=True, atol=1e-9)
                ctx.check(bool(got) == (hit and t >= 0), "projection", v=v, hit=hit, t=float(t))
                got = is_point_inside_projection(off, v3, pts, tri, fwd_only=False, atol=1e-9)
                ctx.check(bool(got) == hit, "projection-both-ways", v=v, hit=hit)
                ctx.step(2)
        ctx.trace(("outside", "boundary", "inside")[loc + 1])


def run(case, ctx):
    name, pl, a, b = case
    plane = Plane(pl)
    if name == "family":
        todo = [(i, r) for i, (n, k, r) in enumerate(fam(ctx.tier))][a:b]
    else:
        todo = list(enumerate(sets(ctx.tier)[name][0]()))[a:b]
    for i, base in todo:
        explore(ctx, base, plane, name, i)
        ctx.sample(ring=base, plane=pl)
