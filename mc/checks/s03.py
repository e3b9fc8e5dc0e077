"""S03: stitching makes touching solids match without changing their shape."""

import itertools
from fractions import Fraction

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.solid.stitch import stitch_solids
from building3d.geom.zone import Zone

from mc import geo
from mc import polys
from mc.core import Context

ID = "S03"
BOUNDS = {
    "quick": "two boxes with face sizes 1..3 in all offsets at both sides, along all axes, the order of the solids changing "
    "in turn; non-convex rectilinear plans below and above boxes and other plans in all offsets; all plans with up to 4 vertices of the 3x3 lattice and larger ones, one per symmetry class, above a box in 4 offsets; three boxes on a common "
    "face, in a row and around a corner, all orders, divided into zones in two ways; stitching twice",
    "thorough": "as quick with both orders for every pair of boxes, more sizes",
}
ASSUMPTIONS = [
    "no vertex of a floor plan lies on a straight edge",
    "solids do not overlap",
]

PLANS = {
    "L": ((0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)),
    "U": ((0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)),
    "T": ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (0, 2), (0, 1), (1, 1)),
    "I": ((0, 0), (1, 0), (1, 3), (0, 3)),
    "O": ((0, 0), (2, 0), (2, 2), (0, 2)),
    "S": ((0, 0), (2, 0), (2, 1), (3, 1), (3, 2), (1, 2), (1, 1), (0, 1)),
}


def warmup():
    a = box(3, 3, 3, (0, 0, 0), "a")
    b = box(1, 1, 1, (3, 1, 1), "b")
    stitch_solids(a, b)
    run_plans(Context(), 0, 15)
    run_pairs(Context(), "quick", 0, 10)


def polygons(s):
    return [p for w in s.children.values() for p in w.children.values()]


def pair_jobs(tier):
    jobs = []
    n = 0
    sizes = (1, 2, 3) if tier == "quick" else (1, 2, 3, 5)
    for d1 in itertools.product(sizes, repeat=2):
        for d2 in itertools.product(sizes, repeat=2):
            for dy in range(-max(sizes), max(sizes) + 1):
                for dz in range(-max(sizes), max(sizes) + 1):
                    if dy > d1[0] or dy < -d2[0] or dz > d1[1] or dz < -d2[1]:
                        continue
                    for side in (0, 1):
                        n += 1
                        for ax in range(3):
                            orders = (0, 1) if tier == "thorough" else ((n + ax) % 2,)
                            jobs += [(d1, d2, dy, dz, side, ax, o) for o in orders]
    return jobs


def plan_jobs():
    jobs = []
    for a, b in itertools.product(PLANS, repeat=2):
        wa, ha = max(x for x, _ in PLANS[a]), max(y for _, y in PLANS[a])
        wb, hb = max(x for x, _ in PLANS[b]), max(y for _, y in PLANS[b])
        for dx in range(-wb, wa + 1):
            for dy in range(-hb, ha + 1):
                jobs.append((a, b, dx, dy))
    return jobs


def cases(tier):
    jobs = pair_jobs(tier)
    out = [["pair", tier, i, min(i + 40, len(jobs))] for i in range(0, len(jobs), 40)]
    n = len(plan_jobs())
    out += [["plan", i, min(i + 15, n)] for i in range(0, n, 15)]
    n = len(polygon_jobs(tier))
    out += [["polygon", tier, i, min(i + 15, n)] for i in range(0, n, 15)]
    out += [["building", i] for i in range(len(scenes()))]
    return out


class Snapshot:
    """What has to stay the same."""

    def __init__(self, solid):
        self.volume = solid.volume
        self.walls = list(solid.children)
        self.names = {w.name: list(w.children) for w in solid.children.values()}
        self.area = {}
        self.faces = {}
        for w in solid.children.values():
            for p in w.children.values():
                k = (w.name, plane_key(p))
                self.area[k] = self.area.get(k, 0.0) + p.area
                self.faces.setdefault(k, []).append(p)


def plane_key(p):
    return tuple(np.round(p.vn, 6) + 0.0), round(float(np.dot(p.vn, p.pts[0])), 6) + 0.0


def check_same(ctx, before, solid, moved=True):
    after = Snapshot(solid)
    ctx.check(abs(after.volume - before.volume) < 1e-8, "volume", before=before.volume, after=after.volume)
    ctx.check(sorted(after.walls) == sorted(before.walls), "walls", before=before.walls, after=after.walls)
    ctx.check(set(after.area) == set(before.area), "planes", before=list(before.area), after=list(after.area))
    for k, area in before.area.items():
        ctx.check(abs(after.area.get(k, 0) - area) < 1e-8, "area", face=k, before=area, after=after.area.get(k))
        for p in after.faces.get(k, ()):
            old = before.faces[k]
            for q in list(p.pts) + [p.pts[t].mean(axis=0) for t in p.tri]:
                ctx.check(any(f.is_point_inside(q) for f in old), "outside-of-the-face", face=k, point=q)
    for w in solid.children.values():
        ctx.check(w.parent is solid, "parent-of-wall")
        for name, p in w.children.items():
            ctx.check(p.parent is w and p.name == name, "parent-of-polygon")
    if not moved:
        ctx.check(after.names == before.names, "divided-without-contact", before=before.names, after=after.names)


def facing_area(a, b):
    pairs = [(p, q) for p in polygons(a) for q in polygons(b) if p.is_facing_polygon(q)]
    # Every polygon has at most one counterpart
    return sum(p.area for p, _ in pairs), len({id(p) for p, _ in pairs}) == len(pairs) == len({id(q) for _, q in pairs})


def check_stitched(ctx, before, solids, contact):
    for s, b in zip(solids, before):
        check_same(ctx, b, s, moved=any(c > 0 for (i, j), c in contact.items() if s in (solids[i], solids[j])))
    for (i, j), area in contact.items():
        got, unique = facing_area(solids[i], solids[j])
        ctx.check(unique, "more-than-one-counterpart", solids=(i, j))
        ctx.check(abs(got - area) < 1e-8, "facing-area", solids=(i, j), got=got, expected=area)


def names_of(solids):
    return [{w.name: list(w.children) for w in s.children.values()} for s in solids]


def box_contact(A, B):
    """Common area of two boxes given by (size, position)."""
    ext = []
    for k in range(3):
        lo, hi = max(A[1][k], B[1][k]), min(A[1][k] + A[0][k], B[1][k] + B[0][k])
        ext.append(hi - lo)
    ext.sort()
    return ext[1] * ext[2] if ext[0] == 0 and ext[1] > 0 else 0


def run_pairs(ctx, tier, lo, hi):
    for d1, d2, dy, dz, side, axis, order in pair_jobs(tier)[lo:hi]:

        def sh(t):
            return t[-axis:] + t[:-axis] if axis else t

        A = (sh((2,) + d1), sh((0, 1, -1)))
        B = (sh((1,) + d2), sh((2 if side == 0 else -1, 1 + dy, -1 + dz)))
        ctx.at(a=A, b=B, order=order)
        a, b = box(*A[0], A[1], "a"), box(*B[0], B[1], "b")
        solids = [a, b]
        before = [Snapshot(s) for s in solids]
        contact = {(0, 1): box_contact(A, B)}
        stitch_solids(*(solids if order == 0 else solids[::-1]))
        ctx.step()
        check_stitched(ctx, before, solids, contact)
        names = names_of(solids)
        stitch_solids(*(solids[::-1] if order == 0 else solids))
        ctx.step()
        ctx.check(names_of(solids) == names, "stitching-again")
        ctx.state("pair", A, B, order)
        ctx.trace("contact" if contact[(0, 1)] else "no-contact")
    ctx.sample(a=A, b=B)


def cells(ring, dx=0, dy=0):
    w, h = max(x for x, _ in ring), max(y for _, y in ring)
    return {
        (x + dx, y + dy)
        for x in range(w)
        for y in range(h)
        if geo.locate((x + 0.5, y + 0.5), ring) == 1
    }


def clip(points, axis, bound, sign):
    out = []
    for k in range(len(points)):
        a, b = points[k - 1], points[k]
        da, db = sign * (a[axis] - bound), sign * (b[axis] - bound)
        if (da < 0 < db) or (db < 0 < da):
            t = Fraction(da) / (da - db)
            out.append(tuple(x + t * (y - x) for x, y in zip(a, b)))
        if db <= 0:
            out.append(b)
    return out


def area_in_rectangle(ring, w, h):
    """Area of the part of a polygon within (0, 0)-(w, h)."""
    total = Fraction(0)
    for t in geo.ear_triangles(ring):
        pts = list(t)
        for axis, bound, sign in ((0, 0, -1), (0, w, 1), (1, 0, -1), (1, h, 1)):
            pts = clip(pts, axis, bound, sign) if pts else pts
        if len(pts) > 2:
            total += abs(Fraction(geo.area2(pts))) / 2
    return total


def polygon_jobs(tier):
    rings = polys.upto(3, 3, 4) if tier == "quick" else polys.upto(3, 3, 6)
    more = list(polys.classes(p for p in polys.all_3x3() if len(p) > 4))
    shifts = [(0, 0), (1, 0), (-1, 1), (2, 0)]
    straight = lambda r: any(geo.cross(r[i - 2], r[i - 1], r[i]) == 0 for i in range(len(r)))
    return [(r, s) for r in list(rings) + more if not straight(r) for s in shifts]


def run_polygons(ctx, tier, lo, hi):
    """Plans with oblique edges on top of a box."""
    for k, (ring, (dx, dy)) in enumerate(polygon_jobs(tier)[lo:hi]):
        k += lo
        moved = tuple((x + dx, y + dy) for x, y in ring)
        area = float(area_in_rectangle(moved, 2, 2))
        ctx.at(plan=ring, shift=(dx, dy))
        a = box(2, 2, 1, (0, 0, 0), "a")
        b = floor_plan(ring, 1, translate=(dx, dy, 1), name="b")
        solids = [a, b]
        before = [Snapshot(s) for s in solids]
        stitch_solids(*(solids if k % 2 == 0 else solids[::-1]))
        ctx.step()
        check_stitched(ctx, before, solids, {(0, 1): area})
        names = names_of(solids)
        stitch_solids(*solids)
        ctx.step()
        ctx.check(names_of(solids) == names, "stitching-again")
        ctx.state("polygon", ring, dx, dy)
        ctx.trace("polygon-contact" if area else "polygon-no-contact")


def run_plans(ctx, lo, hi):
    for k, (na, nb, dx, dy) in enumerate(plan_jobs()[lo:hi]):
        k += lo
        ra, rb = PLANS[na], PLANS[nb]
        ca, cb = cells(ra), cells(rb, dx, dy)
        common = ca & cb
        ctx.at(below=na, above=nb, dx=dx, dy=dy)
        a = floor_plan(ra, 1, name="a")
        b = floor_plan(rb, 2, translate=(dx, dy, 1), name="b")
        solids = [a, b]
        before = [Snapshot(s) for s in solids]
        stitch_solids(*(solids if k % 2 == 0 else solids[::-1]))
        ctx.step()
        check_stitched(ctx, before, solids, {(0, 1): len(common)})
        names = names_of(solids)
        stitch_solids(*solids)
        ctx.step()
        ctx.check(names_of(solids) == names, "stitching-again")
        ctx.state("plan", na, nb, dx, dy)
        ctx.trace("plan-contact" if common else "plan-no-contact")


def scenes():
    base = [
        # on a common face
        [((4, 4, 1), (0, 0, 0)), ((2, 2, 1), (0, 0, 1)), ((2, 2, 1), (2, 2, 1))],
        [((4, 2, 1), (0, 0, 0)), ((2, 1, 1), (0, 0, 1)), ((1, 2, 2), (3, 0, 1))],
        [((3, 3, 1), (0, 0, 0)), ((1, 1, 1), (1, 1, 1)), ((1, 1, 1), (3, 1, 0))],
        # in a row, different sizes
        [((1, 2, 2), (0, 0, 0)), ((1, 1, 1), (1, 0, 0)), ((1, 2, 2), (2, 0, 0))],
        [((1, 1, 1), (0, 0, 0)), ((1, 1, 1), (1, 0, 0)), ((1, 1, 1), (2, 0, 0))],
        [((2, 3, 1), (0, 0, 0)), ((2, 3, 1), (2, 1, 0)), ((2, 3, 1), (4, -1, 0))],
        # around a corner
        [((2, 2, 2), (0, 0, 0)), ((2, 2, 2), (2, 0, 0)), ((4, 2, 2), (0, 2, 0))],
        [((2, 2, 2), (0, 0, 0)), ((1, 2, 2), (2, 0, 0)), ((4, 1, 3), (0, 2, 0))],
        [((2, 2, 1), (0, 0, 0)), ((1, 1, 1), (2, 0, 0)), ((3, 3, 1), (0, 0, 1))],
        # not everything in contact
        [((1, 1, 1), (0, 0, 0)), ((1, 1, 1), (5, 0, 0)), ((2, 2, 2), (1, 0, 0))],
    ]
    four = [
        [((2, 2, 1), (0, 0, 0)), ((2, 2, 1), (2, 0, 0)), ((2, 2, 1), (0, 2, 0)), ((3, 3, 1), (0, 0, 1))],
        [((4, 4, 1), (0, 0, 0)), ((2, 2, 1), (1, 1, 1)), ((4, 4, 1), (0, 0, 2)), ((1, 4, 3), (4, 0, 0))],
    ]
    out = []
    for s in base:
        out += [(list(o), z) for o in itertools.permutations(s) for z in (0, 1)]
    for s in four:
        out += [(list(o), z) for k, o in enumerate(itertools.permutations(s)) for z in (k % 2,)]
    return out


def run_building(ctx, i):
    scene, split = scenes()[i]
    ctx.at(scene=scene, split=split)
    solids = [box(*size, pos, f"s{k}") for k, (size, pos) in enumerate(scene)]
    if split == 0:
        zones = [Zone(solids, "z")]
    else:
        zones = [Zone(solids[:1], "z1"), Zone(solids[1:], "z2")]
    building = Building(zones, "b")
    before = [Snapshot(s) for s in solids]
    contact = {
        (a, b): box_contact(scene[a], scene[b]) for a, b in itertools.combinations(range(len(scene)), 2)
    }
    building.stitch_solids()
    ctx.step()
    check_stitched(ctx, before, solids, contact)
    ctx.check(abs(building.volume() - sum(b.volume for b in before)) < 1e-8, "building-volume")
    names = names_of(solids)
    building.stitch_solids()
    ctx.step()
    ctx.check(names_of(solids) == names, "stitching-again")
    ctx.state("building", i)
    ctx.trace("building")


def run(case, ctx):
    if case[0] == "pair":
        run_pairs(ctx, *case[1:])
    elif case[0] == "plan":
        run_plans(ctx, *case[1:])
    elif case[0] == "polygon":
        run_polygons(ctx, *case[1:])
    else:
        run_building(ctx, case[1])
