"""G01: triangulation tiles every simple polygon exactly."""

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.triangles import triangulate

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G01"
BOUNDS = {
    "quick": "all simple polygons on the 3x3 lattice (one per translation class) x all starting vertices x both "
    "directions x both given normals and none x 2 planes, those with up to 5 vertices x 8 planes; all simple "
    "polygons with up to 4 vertices on the 4x4 lattice in 1 plane; combs, spirals, stars, beaded squares and regular polygons of parameter <= 6",
    "thorough": "as quick, with 4x3 polygons up to 7 vertices in all planes, 4x4 polygons up to 6 vertices, families <= 12",
}
ASSUMPTIONS = [
    "without a given normal the first corner must be convex (documented limitation of the class)",
]
PLANES = ["xy", "yx", "xz", "yz", "tilt345", "tilt122", "big", "frac"]


def sets(tier):
    if tier == "quick":
        return {
            "3x3": (polys.all_3x3, ["xy", "tilt122"]),
            "3x3n5": (lambda: polys.upto(3, 3, 5), ["yx", "xz", "yz", "tilt345", "big", "frac"]),
            "4x4n4": (lambda: polys.upto(4, 4, 4), ["xz"]),
        }
    return {
        "3x3": (polys.all_3x3, PLANES),
        "4x3n7": (lambda: polys.upto(4, 3, 7), PLANES),
        "4x4n6": (lambda: polys.upto(4, 4, 6), ["tilt122"]),
    }


def cases(tier):
    out = []
    for name, (get, planes) in sets(tier).items():
        n = len(get())
        for pl in planes:
            size = 20 if name == "3x3" else 50
            out += [[name, pl, a, b] for a, b in polys.chunks(n, size)]
    fam = polys.family(6 if tier == "quick" else 12)
    for i in range(len(fam)):
        for pl in ("tilt122", "xz"):
            out.append(["family", pl, i, i + 1])
    return out


def check_tiling(ctx, ring, vn_sign, pts, tri, plane):
    """ring: lattice ring given; pts, tri: result; vn_sign: orientation of the normal."""
    n = len(ring)
    back = [plane.back_int(p) for p in pts]
    ctx.check(geo.same_ring(back, ring), "vertices-changed", back=back)
    ctx.check(tri.shape == (n - 2, 3), "number-of-triangles", tri=tri)
    chain = {}
    for t in tri:
        i, j, k = (int(x) for x in t)
        if not (0 <= i < n and 0 <= j < n and 0 <= k < n):
            ctx.fail("index-range", tri=tri)
            return
        if geo.cross(back[i], back[j], back[k]) * vn_sign <= 0:
            ctx.fail("triangle-orientation", tri=tri, back=back)
            return
        for a, b in ((i, j), (j, k), (k, i)):
            if chain.get((b, a), 0):
                chain[(b, a)] -= 1
            else:
                chain[(a, b)] = chain.get((a, b), 0) + 1
    left = {e for e, c in chain.items() if c}
    # What remains after cancelling must be the outline, oriented like the normal
    ori = 1 if geo.area2(back) > 0 else -1
    if ori * vn_sign > 0:
        outline = {(i, (i + 1) % n) for i in range(n)}
    else:
        outline = {((i + 1) % n, i) for i in range(n)}
    ctx.check(left == outline, "not-a-tiling", tri=tri, back=back)


def explore_ring(ctx, base, plane, label):
    for d, ring in geo.rotations(base):
        p3 = plane.pts(ring)
        for vn_sign in (1, -1, 0):
            if vn_sign == 0:
                # The first corner must be convex
                c = geo.cross(ring[-1], ring[0], ring[1])
                if c * d <= 0:
                    continue
                sign = d
                ctx.at(ring=ring, plane=plane.name, vn=None)
                poly = Polygon(p3.copy())
            else:
                sign = vn_sign
                ctx.at(ring=ring, plane=plane.name, vn=vn_sign)
                poly = Polygon(p3.copy(), vn=plane.n * vn_sign)
            ctx.state(ring, plane.name, vn_sign)
            ctx.step(len(poly.tri))  # clipped ears
            check_tiling(ctx, ring, sign, poly.pts, poly.tri, plane)
            if not np.allclose(poly.vn, plane.n * sign, atol=1e-9):
                ctx.fail("normal", vn=poly.vn)
            ctx.trace(f"{label}-{len(ring)}")
        # The function alone, with the normal pointing either way
        for sign in (1, -1):
            ctx.at(ring=ring, plane=plane.name, function=True, vn=sign)
            pts, tri = triangulate(p3.copy(), plane.n * sign)
            ctx.step(len(tri))
            check_tiling(ctx, ring, sign, pts, tri, plane)
            ctx.trace(f"{label}-function")


def run(case, ctx):
    name, pl, a, b = case
    plane = Plane(pl)
    if name == "family":
        fam = polys.family(6 if ctx.tier == "quick" else 12)
        for fname, k, base in fam[a:b]:
            explore_ring(ctx, base, plane, fname)
            ctx.sample(family=fname, k=k, ring=base, plane=pl)
        return
    get, _ = sets(ctx.tier)[name]
    for base in get()[a:b]:
        explore_ring(ctx, base, plane, "n")
        ctx.sample(ring=base, plane=pl)
