"""G06: polygon relations facing, crossing and touching are correct and symmetric."""

import numpy as np

from building3d.geom.polygon import Polygon

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G06"
BOUNDS = {
    "quick": "all pairs of polygons with up to 4 vertices on the 3x3 lattice (one per translation class, the first "
    "of each pair one per symmetry class of the lattice) in all relative positions with overlapping boxes, both argument orders; "
    "all polygons of the 3x3 lattice against all vertex rotations and mirror images of themselves; rectangles and triangles with sides 1..19 in many relative positions; pairs in parallel "
    "and perpendicular planes; 4 planes",
    "thorough": "all pairs of polygons with up to 4 vertices, all pairs with 5 vertices against 3, 6 planes",
}
ASSUMPTIONS = [
    "crossing is not judged if one polygon lies in the other and shares a part of the outline with it",
    "touching out of plane is judged only if one polygon is on one side of the other and meets its plane with single vertices",
]


def warmup():
    p = Polygon(Plane("xy").pts([(0, 0), (1, 0), (1, 1), (0, 1)]))
    q = Polygon(Plane("xy").pts([(0, 0), (1, 0), (1, 1)]), vn=np.array([0.0, 0.0, 1.0]))
    p.is_facing_polygon(q)
    p.is_crossing_polygon(q)
    p.is_touching_polygon(q)
    p.flip()


def cases(tier):
    n4 = polys.upto(3, 3, 4)
    first = polys.classes(n4) if tier == "quick" else n4
    out = [["pairs", "n4", i] for i, p in enumerate(n4) if p in first]
    out += [["self", "3x3", a, b] for a, b in polys.chunks(len(polys.all_3x3()), 30)]
    out += [["bars", w, h] for w in SIDES for h in SIDES]
    out += [["planes", "n4", i] for i in range(len(polys.classes(n4)))]
    if tier == "thorough":
        n5 = polys.upto(3, 3, 5)
        out += [["pairs", "n5", i] for i in range(len(n5))]
    return out


SIDES = (1, 2, 7, 19)


def strictly_within(p, q):
    return all(geo.locate(v, q) == 1 for v in p) and not geo.boundaries_meet(p, q)


def shifts(p, q):
    px, py = max(x for x, _ in p), max(y for _, y in p)
    qx, qy = max(x for x, _ in q), max(y for _, y in q)
    return [(dx, dy) for dx in range(-qx, px + 1) for dy in range(-qy, py + 1)] + [(px + 1, 0)]


def both(ctx, name, P, Q):
    f = {"facing": "is_facing_polygon", "crossing": "is_crossing_polygon", "touching": "is_touching_polygon"}[name]
    a, b = bool(getattr(P, f)(Q)), bool(getattr(Q, f)(P))
    ctx.step(2)
    ctx.check(a == b, name + "-not-symmetric", one=a, other=b)
    return a


def judge(ctx, p, q, P, Q, sign):
    """p, q: coplanar lattice rings; sign: product of the normals."""
    same = geo.same_ring(p, q)
    facing = both(ctx, "facing", P, Q)
    ctx.check(facing == (same and sign < 0), "facing", got=facing, same=same, sign=sign)
    crossing = both(ctx, "crossing", P, Q)
    touching = both(ctx, "touching", P, Q)
    proper = any(geo.segments_cross_properly(*e, *g) for e in geo.edges(p) for g in geo.edges(q))
    interiors = geo.interiors_meet(p, q)
    within = strictly_within(p, q) or strictly_within(q, p)
    if proper:
        ctx.check(crossing, "crossing-not-reported")
    if same or within or not interiors:
        ctx.check(not crossing, "crossing-reported", same=same, within=within, interiors=interiors)
    expected = geo.closed_sets_meet(p, q) and not interiors
    ctx.check(touching == expected, "touching", got=touching, expected=expected)
    if same:
        return "same"
    if within:
        return "within"
    if proper:
        return "proper"
    if interiors:
        return "overlap"
    return "touch" if expected else "apart"


def variant(base, k):
    rings = list(geo.rotations(base))
    return rings[k % len(rings)]


def run_pairs(ctx, which, i):
    polygons = polys.upto(3, 3, 4 if which == "n4" else 5)
    planes = [Plane(n) for n in ("xy", "tilt345", "xz", "tilt122")]
    p = polygons[i]
    for j, q0 in enumerate(polygons):
        if which == "n5":
            if len(p) != 5 or len(q0) != 3:
                continue
        for k, (dx, dy) in enumerate(shifts(p, q0)):
            plane = planes[(i + j + k) % len(planes)]
            q = tuple((x + dx, y + dy) for x, y in q0)
            d1, r1 = variant(p, i + k)
            d2, r2 = variant(q, j * 3 + k)
            s2 = 1 if (j + k) % 3 else -1
            ctx.at(p=r1, q=r2, plane=plane.name, vn=(d1, s2))
            P = Polygon(plane.pts(r1), vn=plane.n * d1)
            Q = Polygon(plane.pts(r2), vn=plane.n * s2)
            kind = judge(ctx, p, q, P, Q, d1 * s2)
            ctx.state(r1, r2, plane.name, s2)
            ctx.trace(kind)
    ctx.sample(p=p, against=len(polygons))


def run_self(ctx, a, b):
    plane = Plane("tilt122")
    for base in polys.all_3x3()[a:b]:
        P = Polygon(plane.pts(base), vn=plane.n)
        mirrors = {base}
        w, h = max(x for x, _ in base), max(y for _, y in base)
        mirrors.add(tuple((w - x, y) for x, y in base))
        mirrors.add(tuple((x, h - y) for x, y in base))
        # Same points connected in another order
        for m in geo_same_points(base):
            mirrors.add(m)
        for m in mirrors:
            rots = list(geo.rotations(m)) if m == base else list(geo.rotations(m))[:1]
            for d, ring in rots:
                for s in (1, -1):
                    ctx.at(p=base, q=ring, plane=plane.name, vn=(1, s))
                    Q = Polygon(plane.pts(ring), vn=plane.n * s)
                    judge(ctx, base, ring, P, Q, s)
                    ctx.state("self", base, ring, s)
                    ctx.trace("self" if m == base else "mirror")


def geo_same_points(base):
    """Other simple polygons with the same vertices (at most three)."""
    key = frozenset(base)
    return [q for q in by_points().get(key, ()) if not geo.same_ring(q, base)][:3]


_by_points = {}


def by_points():
    if not _by_points:
        for q in geo.simple_polygons(3, 3, 9):
            _by_points.setdefault(frozenset(q), []).append(q)
    return _by_points


def clear_side(heights):
    """True if a ring is on one side of a plane and meets it with single vertices at most."""
    n = len(heights)
    if min(heights) < 0 < max(heights):
        return False
    return not any(heights[k] == 0 and heights[(k + 1) % n] == 0 for k in range(n))


def run_bars(ctx, w, h):
    """Long rectangles and triangles, which have small parts in common."""
    plane = Plane("tilt345" if w < h else "xy")
    p = ((0, 0), (w, 0), (w, h), (0, h))
    others = []
    for a in SIDES:
        for b in SIDES:
            others.append(((0, 0), (a, 0), (a, b), (0, b)))
            others.append(((0, 0), (a, 0), (0, b)))
            others.append(((0, b // 2), (a, 0), (a // 2, b)))
    P = Polygon(plane.pts(p), vn=plane.n)
    for q0 in others:
        if geo.area2(q0) == 0:
            continue
        a, b = max(x for x, _ in q0), max(y for _, y in q0)
        xs = sorted({-a, 1 - a, -a // 2, 0, w // 2, w - 1, w})
        ys = sorted({-b, 1 - b, -b // 3, 0, h // 3, h - 1, h})
        for dx in xs:
            for dy in ys:
                q = tuple((x + dx, y + dy) for x, y in q0)
                ctx.at(p=p, q=q, plane=plane.name)
                Q = Polygon(plane.pts(q), vn=-plane.n)
                judge(ctx, p, q, P, Q, -1)
                ctx.state("bars", p, q)
                ctx.trace("bars")


def run_planes(ctx, i):
    """Polygons in parallel and perpendicular planes."""
    polygons = polys.classes(polys.upto(3, 3, 4))
    p = polygons[i]
    plane = Plane("xy")
    P = Polygon(plane.pts(p), vn=plane.n)
    for j, q in enumerate(polygons):
        for h in (1.0, -0.001):
            for s in (1, -1):
                ctx.at(p=p, q=q, height=h, vn=(1, s))
                Q = Polygon(plane.pts(q, h), vn=plane.n * s)
                for name in ("facing", "crossing", "touching"):
                    ctx.check(not both(ctx, name, P, Q), name + "-parallel-planes")
                ctx.state("parallel", p, q, h, s)
                ctx.trace("parallel")
        # Perpendicular: q stands on the line y = c with its lattice x along x and y upwards
        for c in range(-1, 4):
            for up in (0, -1):
                q3 = np.array([(x, c, y + up) for x, y in q], dtype=float)
                nq = np.array([0.0, -1.0, 0.0])
                ctx.at(p=p, q=q3.tolist(), perpendicular=True)
                Q = Polygon(q3, vn=nq)
                ctx.check(not both(ctx, "facing", P, Q), "facing-perpendicular")
                ctx.check(not both(ctx, "crossing", P, Q), "crossing-perpendicular")
                got = both(ctx, "touching", P, Q)
                # Vertices of one on the outline of, or within, the other
                on_p = [geo.locate((x, c), p) for x, y in q if y + up == 0]
                on_q = [geo.locate((x, -up), q) for x, y in p if y == c]
                clear = clear_side([y + up for _, y in q]) or clear_side([y - c for _, y in p])
                if 1 in on_p or 1 in on_q:
                    ctx.check(not got, "touching-with-vertex-inside")
                    ctx.trace("perpendicular-inside")
                elif clear and 0 not in on_p and 0 not in on_q:
                    ctx.check(not got, "touching-without-contact")
                    ctx.trace("perpendicular-apart")
                elif clear:
                    ctx.check(got, "touching-not-reported")
                    ctx.trace("perpendicular-touch")
                ctx.state("perpendicular", p, q, c, up)


def run(case, ctx):
    if case[0] == "pairs":
        run_pairs(ctx, case[1], case[2])
    elif case[0] == "self":
        run_self(ctx, case[2], case[3])
    elif case[0] == "bars":
        run_bars(ctx, case[1], case[2])
    else:
        run_planes(ctx, case[2])
