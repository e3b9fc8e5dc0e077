"""G07: slicing a polygon gives two parts which exactly make up the polygon."""

from fractions import Fraction

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.slice import slice_polygon

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G07"
BOUNDS = {
    "quick": "all polygons with up to 5 vertices and those with more vertices (3x3 lattice), up to 6 vertices (4x2) or 4 vertices (4x4 lattice), one per symmetry class, "
    "several vertex rotations, all polylines through lattice points (up to 2 inner ones) cutting the polygon into two "
    "parts, both directions, with and without additional points beyond the polygon; naming of the parts; 4 planes",
    "thorough": "all polygons of the 3x3 lattice, up to 2 inner points, all rotations starting at a convex corner",
}
ASSUMPTIONS = ["the slicing line goes through the interior of the polygon only once"]

PLANES = ("xy", "tilt345", "yz", "tilt122")


def warmup():
    p = Polygon(Plane("xy").pts([(0, 0), (2, 0), (2, 2), (1, 1), (0, 2)]), vn=np.array([0.0, 0.0, 1.0]))
    slice_polygon(p, Plane("xy").pts([(1, 0), (1, 1)]))


def inputs(tier):
    if tier == "thorough":
        return polys.all_3x3() + polys.upto(4, 2, 8) + polys.upto(4, 4, 4)
    small = [p for p in polys.upto(3, 3, 6) if len(p) <= 5]
    more = polys.classes(p for p in polys.all_3x3() if len(p) > 5)
    flat = polys.classes(p for p in polys.upto(4, 2, 6) if max(x for x, _ in p) == 3)
    wide = polys.classes(p for p in polys.upto(4, 4, 4) if min(max(x for x, _ in p), max(y for _, y in p)) == 3)
    return tuple(small) + more + flat + wide


def cases(tier):
    return [[tier, a, b] for a, b in polys.chunks(len(inputs(tier)), 4)]


def chains(poly, maxint):
    """All simple polylines with ends on the outline and everything else strictly inside."""
    w, h = max(x for x, _ in poly), max(y for _, y in poly)
    pts = [(x, y) for x in range(w + 1) for y in range(h + 1)]
    where = {p: geo.locate(p, poly) for p in pts}
    bnd = [p for p in pts if where[p] == 0]
    inn = [p for p in pts if where[p] == 1]
    memo = {}

    def inside(a, b):
        key = (a, b) if a < b else (b, a)
        if key not in memo:
            memo[key] = _inside(a, b)
        return memo[key]

    def _inside(a, b):
        for c, d in geo.edges(poly):
            if geo.segments_cross_properly(a, b, c, d):
                return False
        for q in poly:
            if q not in (a, b) and geo.on_segment(q, a, b):
                return False
        m = (Fraction(a[0] + b[0], 2), Fraction(a[1] + b[1], 2))
        return geo.locate(m, poly) == 1

    def free(ch, q):
        a = ch[-1]
        if not inside(a, q):
            return False
        for i in range(len(ch) - 2):
            if geo.segments_meet(ch[i], ch[i + 1], a, q):
                return False
        return len(ch) < 2 or not (geo.on_segment(ch[-2], a, q) or geo.on_segment(q, ch[-2], a))

    out = []

    def grow(ch):
        for q in bnd:
            if q != ch[0] and free(ch, q):
                out.append(tuple(ch + [q]))
        if len(ch) - 1 < maxint:
            for q in inn:
                if q not in ch and free(ch, q):
                    grow(ch + [q])

    for b in bnd:
        grow([b])
    return out


def expected_parts(poly, chain):
    """Rings of both parts including all points of the chain, without points on straight lines."""
    n = len(poly)

    def place(p):
        for i in range(n):
            a, b = poly[i], poly[(i + 1) % n]
            if p == a:
                return i, Fraction(0)
            if p != b and geo.on_segment(p, a, b):
                return i, geo.param(p, a, b)
        raise ValueError(p)

    def walk(start, end):
        """Outline from start to end, counter-clockwise."""
        si, st = place(start)
        ei, et = place(end)
        ring = [start]
        steps = (ei - si) % n
        if steps == 0 and et < st:
            steps = n
        for k in range(1, steps + 1):
            ring.append(poly[(si + k) % n])
        if ring[-1] != end:
            ring.append(end)
        return ring

    s, e = chain[0], chain[-1]
    one = walk(s, e) + list(chain[::-1][1:-1])
    two = walk(e, s) + list(chain[1:-1])
    return essential(one), essential(two)


def essential(ring):
    """Ring without vertices on straight lines."""
    ring = list(ring)
    changed = True
    while changed:
        changed = False
        for i in range(len(ring)):
            if geo.cross(ring[i - 1], ring[i], ring[(i + 1) % len(ring)]) == 0:
                del ring[i]
                changed = True
                break
    return tuple(ring)


def check_slice(ctx, plane, poly, P, pts, chain):
    a, b = slice_polygon(P, pts)
    ctx.step()
    for part in (a, b):
        ctx.check(np.allclose(part.vn, P.vn, atol=1e-9), "normal", got=part.vn)
    ctx.check(abs(a.area + b.area - P.area) < 1e-9 * max(1.0, P.area), "area", a=a.area, b=b.area, whole=P.area)
    ring_a = tuple(plane.back_int(p) for p in a.pts)
    ring_b = tuple(plane.back_int(p) for p in b.pts)
    exp = expected_parts(poly, chain)
    got = (essential(ring_a), essential(ring_b))
    ok = (geo.same_ring(got[0], exp[0]) and geo.same_ring(got[1], exp[1])) or (
        geo.same_ring(got[0], exp[1]) and geo.same_ring(got[1], exp[0])
    )
    ctx.check(ok, "parts", got=(ring_a, ring_b), expected=exp)
    for ring, part in ((ring_a, a), (ring_b, b)):
        ctx.check(geo.is_simple(ring), "part-not-simple", ring=ring)
        ctx.check(abs(part.area - abs(geo.area2(ring)) / 2 * plane.len**2) < 1e-9 * max(1, plane.len**2), "part-area")
    return a, b


def run(case, ctx):
    tier, lo, hi = case
    for k, base in enumerate(inputs(tier)[lo:hi]):
        k += lo
        rots = [r for d, r in geo.rotations(base) if d > 0]
        if tier == "quick":
            rots = rots[k % 2 :: 2] if len(base) <= 4 else rots[k % 3 :: 3]
        all_chains = chains(base, 2)
        if tier == "quick" and len(all_chains) > 100:
            all_chains = all_chains[k % 4 :: 4]
        for r, ring in enumerate(rots):
            for c, chain in enumerate(all_chains):
                plane = Plane(PLANES[(k + r + c) % 4])
                ctx.at(poly=ring, chain=chain, plane=plane.name)
                P = Polygon(plane.pts(ring), vn=plane.n)
                check_slice(ctx, plane, ring, P, plane.pts(chain), chain)
                ctx.state(ring, chain, plane.name)
                ctx.trace(f"chain{len(chain)}")
            extras(ctx, ring, all_chains, k + r)
    ctx.sample(poly=base, chains=len(all_chains))


def extras(ctx, ring, all_chains, k):
    """Names of the parts, clockwise polygons and slicing points beyond the polygon."""
    for c, chain in enumerate(all_chains):
        if (c + k) % 5:
            continue
        plane = Plane(PLANES[(k + c) % 4])
        P = Polygon(plane.pts(ring[::-1]), vn=-plane.n)
        ctx.at(poly=ring[::-1], chain=chain, plane=plane.name, clockwise=True)
        a, b = check_slice(ctx, plane, ring, P, plane.pts(chain), chain)
        ctx.trace("clockwise")
        # Parts named by points inside of them
        e = expected_parts(ring, chain)
        inner = [interior_point(x) for x in e]
        for first, second in ((0, 1), (1, 0)):
            p1, p2 = plane.at(*inner[first]), plane.at(*inner[second])
            for points in (dict(pt1=p1, pt2=p2), dict(pt1=p1), dict(pt2=p2)):
                ctx.at(poly=ring[::-1], chain=chain, plane=plane.name, named=points)
                a, b = slice_polygon(P, plane.pts(chain), name1="one", name2="two", **points)
                ctx.step()
                ctx.check({a.name, b.name} == {"one", "two"}, "names", got=(a.name, b.name))
                for part in (a, b):
                    mine = e[first] if part.name == "one" else e[second]
                    got = essential(tuple(plane.back_int(p) for p in part.pts))
                    ctx.check(geo.same_ring(got, mine), "name-of-part", name=part.name, got=got, expected=mine)
                ctx.trace("named")
        if len(chain) == 2:
            # Longer line, if its ends are outside and the line does not meet the polygon elsewhere
            (x0, y0), (x1, y1) = chain
            longer = ((2 * x0 - x1, 2 * y0 - y1), (2 * x1 - x0, 2 * y1 - y0))
            if meets_only(ring, longer, chain):
                ctx.at(poly=ring, line=longer, plane=plane.name)
                check_slice(ctx, plane, ring, P, plane.pts(longer), chain)
                ctx.trace("beyond")
        ctx.state("extra", ring, chain, plane.name)


def meets_only(ring, line, chain):
    """True if the part of the line beyond the chain does not meet the polygon."""
    for a, b in ((line[0], chain[0]), (line[1], chain[1])):
        if geo.locate(a, ring) != -1:
            return False
        for c, d in geo.edges(ring):
            if geo.on_segment(b, c, d):
                # The edge which is cut: only a single common point is fine
                if geo.cross(a, b, c) == 0 and geo.cross(a, b, d) == 0:
                    return False
                if b in (c, d):
                    return False
                continue
            if geo.segments_meet(a, b, c, d):
                return False
    return True


def interior_point(ring):
    t = geo.ear_triangles(ring)[0]
    return tuple(Fraction(sum(v[i] for v in t), 3) for i in range(2))
