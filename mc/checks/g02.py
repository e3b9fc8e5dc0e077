"""G02: polygon area, centroid, normal and plane are geometrically correct."""

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.area import polygon_area
from building3d.geom.polygon.plane import plane_coefficients

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G02"
BOUNDS = {
    "quick": "all simple polygons on the 3x3 lattice x starts x directions x given/missing normal x 2 planes, up to 4 "
    "vertices x 6 planes; triangles on the 4x4 lattice; families of parameter <= 6; each with its flipped copy",
    "thorough": "as quick with 3x3 polygons in 8 planes, 4x3 up to 7 vertices, 4x4 up to 5, families <= 12",
}
ASSUMPTIONS = ["without a given normal the first corner must be convex (documented limitation of the class)"]
ALL = ["xy", "yx", "xz", "yz", "tilt345", "tilt122", "big", "frac"]


def sets(tier):
    if tier == "quick":
        return {
            "3x3": (polys.all_3x3, ["yx", "tilt122"]),
            "3x3n4": (lambda: polys.upto(3, 3, 4), ["xz", "tilt345", "big", "frac"]),
            "4x4n3": (lambda: polys.upto(4, 4, 3), ["tilt345"]),
        }
    return {
        "3x3": (polys.all_3x3, ALL),
        "4x3n7": (lambda: polys.upto(4, 3, 7), ["tilt122", "frac"]),
        "4x4n5": (lambda: polys.upto(4, 4, 5), ["tilt345"]),
    }


def fam(tier):
    return polys.family(6 if tier == "quick" else 12)


def cases(tier):
    out = []
    for name, (get, planes) in sets(tier).items():
        for pl in planes:
            out += [[name, pl, a, b] for a, b in polys.chunks(len(get()), 20 if name == "3x3" else 50)]
    for i in range(len(fam(tier))):
        for pl in ("tilt122", "frac"):
            out.append(["family", pl, i, i + 1])
    return out


def judge(ctx, poly, base, plane, sign, what):
    k = plane.len
    area = abs(geo.area2(base)) / 2 * k * k
    cx, cy = geo.centroid(base)
    ctr = plane.at(float(cx), float(cy))
    size = 1.0 + np.abs(poly.pts).max()
    tol = 1e-9 * size
    ctx.check(abs(poly.area - area) < 1e-9 * max(1.0, area) * size, what + "area", got=poly.area, expected=area)
    ctx.check(np.allclose(poly.ctr, ctr, rtol=0, atol=tol), what + "centroid", got=poly.ctr, expected=ctr)
    ctx.check(np.allclose(poly.vn, sign * plane.n, rtol=0, atol=1e-9), what + "normal", got=poly.vn, sign=sign)
    a, b, c, d = poly.plane_coefficients
    co = np.array([a, b, c])
    ctx.check(
        abs(np.linalg.norm(co) - 1) < 1e-9 and np.allclose(np.dot(poly.pts, co) + d, 0, rtol=0, atol=tol),
        what + "plane",
        got=[a, b, c, d],
    )
    ctx.check(np.allclose(co, poly.vn, rtol=0, atol=1e-9), what + "plane-direction", got=[a, b, c, d], vn=poly.vn)
    back = [plane.back_int(p) for p in poly.pts]
    ctx.check(geo.same_ring(back, base), what + "points", got=back)
    ctx.check(geo.area2(back) * sign > 0, what + "right-hand-rule", got=back, sign=sign)
    x, y, h = plane.back(poly.get_some_interior_point())
    ctx.check(abs(h) < 1e-9 and geo.locate((x, y), base) == 1, what + "interior-point", got=(x, y, h))
    lo, hi = poly.bbox()
    ctx.check(
        np.array_equal(lo, poly.pts.min(axis=0)) and np.array_equal(hi, poly.pts.max(axis=0)), what + "bbox"
    )


def explore(ctx, base, plane, label):
    for d, ring in geo.rotations(base):
        p3 = plane.pts(ring)
        for vs in (1, -1, 0):
            if vs == 0 and geo.cross(ring[-1], ring[0], ring[1]) * d <= 0:
                continue
            sign = vs or d
            ctx.at(ring=ring, plane=plane.name, vn=vs)
            given = p3.copy()
            poly = Polygon(given, vn=plane.n * vs) if vs else Polygon(given)
            ctx.check(np.array_equal(given, p3), "input-modified")
            judge(ctx, poly, base, plane, sign, "")
            before = (poly.pts.copy(), poly.tri.copy(), poly.vn.copy(), poly.name)
            flipped = poly.flip("other")
            judge(ctx, flipped, base, plane, -sign, "flipped-")
            ctx.check(flipped.name == "other", "flipped-name")
            back = flipped.flip()
            judge(ctx, back, base, plane, sign, "twice-flipped-")
            same = np.array_equal(before[0], poly.pts) and np.array_equal(before[1], poly.tri)
            ctx.check(same and np.array_equal(before[2], poly.vn) and poly.name == before[3], "flip-changed-original")
            ctx.state(ring, plane.name, vs)
            ctx.step(3)
            ctx.trace(label)
        # The functions alone
        area = abs(geo.area2(base)) / 2 * plane.len**2
        got = polygon_area(p3, plane.n)
        ctx.check(abs(got - area) < 1e-9 * max(1.0, area) * (1 + np.abs(p3).max()), "area-function", got=got)
        if geo.cross(ring[-1], ring[0], ring[1]) != 0:
            a, b, c, dd = plane_coefficients(p3)
            off = np.dot(p3, np.array([a, b, c])) + dd
            ctx.check(np.allclose(off, 0, rtol=0, atol=1e-9 * (1 + np.abs(p3).max())), "plane-function", got=off)
        ctx.step(2)


def run(case, ctx):
    name, pl, a, b = case
    plane = Plane(pl)
    if name == "family":
        todo = [(f"{n}", r) for n, k, r in fam(ctx.tier)[a:b]]
    else:
        todo = [(f"n{len(r)}", r) for r in sets(ctx.tier)[name][0]()[a:b]]
    for label, base in todo:
        explore(ctx, base, plane, label)
        ctx.sample(ring=base, plane=pl, area2=geo.area2(base))
