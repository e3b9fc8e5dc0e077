"""S01: solid volume and point-in-solid are correct for every closed solid."""

import itertools
import math
from fractions import Fraction as F

import numpy as np

from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.wall import Wall

from mc import geo
from mc import polys
from mc import shapes
from mc import solids
from mc.solids import MOVES
from mc.solids import Move

ID = "S01"
BOUNDS = {
    "quick": "volume: prisms over all polygons of the 3x3 lattice and parametric families, each with whole and with divided "
    "faces, all tetrahedra of the {0,1,2}x{0,1}x{0,1} lattice, positions and rotations out of 8 in turn; location: "
    "prisms over polygons, tetrahedra (one per symmetry class each) and boxes x all half-lattice points in and around (for large plans those with all coordinates whole or none); tall prisms "
    "over spirals and combs, whose points see many faces in one direction; solids asked while they are built wall by wall and "
    "while all the walls are replaced, up to every number of edits",
    "thorough": "all tetrahedra and all 8 positions for each solid",
}
ASSUMPTIONS = [
    "solids are closed and all polygons are oriented outwards",
    "points at the boundary are judged with the rounding of coordinates below 300",
]

NAMES = list(MOVES)


def poly(pts, outward, name=None):
    vn = np.array(outward, dtype=float)
    return Polygon(np.array(pts, dtype=float), vn=vn / np.linalg.norm(vn), name=name)


def divided_prism(ring, height, move):
    """Prism with triangulated floor and ceiling and with walls divided in two."""
    up = np.array([0.0, 0.0, 1.0])
    floor, ceiling, walls = [], [], []
    for t in geo.ear_triangles(ring):
        floor.append(poly([move.at(*p, 0) for p in t], -up))
        ceiling.append(poly([move.at(*p, height) for p in t], up))
    for a, b in geo.edges(ring):
        m = F(height, 2)
        n = np.cross(move.at(*b, 0) - move.at(*a, 0), up)
        low = [move.at(*a, 0), move.at(*b, 0), move.at(*b, m), move.at(*a, m)]
        high = [move.at(*a, m), move.at(*b, m), move.at(*b, height), move.at(*a, height)]
        walls.append(Wall([poly(low, n), poly(high, n)]))
    return Solid([Wall(floor), Wall(ceiling)] + walls)


def whole_prism(ring, height, move):
    plan = [(x * move.k, y * move.k) for x, y in ring]
    return floor_plan(plan, height * move.k, translate=tuple(move.t), rot_angle=move.angle)


def tetrahedra(sizes=(3, 2, 2)):
    pts = list(itertools.product(*[range(n) for n in sizes]))
    return [t for t in itertools.combinations(pts, 4) if solids.orient(*t) != 0]


def under_symmetries(t):
    """All images of a tetrahedron under the symmetries of the lattice."""
    out = set()
    for fx, fy, fz, swap in itertools.product((0, 1), repeat=4):
        q = [(2 - x if fx else x, 1 - y if fy else y, 1 - z if fz else z) for x, y, z in t]
        out.add(tuple(sorted((x, z, y) if swap else (x, y, z) for x, y, z in q)))
    return out


def tetra_solid(t, move):
    pts = [move.at(*p) for p in t]
    ctr = np.mean(pts, axis=0)
    walls = []
    for k in range(4):
        f = [pts[i] for i in range(4) if i != k]
        n = np.cross(f[1] - f[0], f[2] - f[0])
        if np.dot(n, f[0] - ctr) < 0:
            n = -n
        walls.append(Wall([poly(f, n)]))
    return Solid(walls)


def plans():
    return list(polys.all_3x3()) + [r for name, k, r in polys.family(4) if name in ("comb", "spiral", "beads")]


def cases(tier):
    out = [["volume", a, b] for a, b in polys.chunks(len(plans()), 60)]
    n = len(tetrahedra())
    out += [["tetra-volume", a, b] for a, b in polys.chunks(n, 60)]
    first = set(polys.classes(polys.all_3x3()))
    picks = [i for i, p in enumerate(plans()) if p in first or i >= len(polys.all_3x3())]
    for j, i in enumerate(picks):
        moves = [NAMES[(j * 3) % 8]] if tier == "quick" else NAMES
        out += [["prism", i, m] for m in moves]
    picks = [i for i, t in enumerate(tetrahedra()) if tier != "quick" or t == min(under_symmetries(t))]
    for j, i in enumerate(picks):
        out += [["tetra", i, m] for m in ([NAMES[j % 8]] if tier == "quick" else NAMES)]
    out += [["box", d, m] for d in ([1, 1, 1], [2, 1, 3]) for m in ("none", "corner", "away", "big", "small")]
    out += [["tall", i, m] for i in range(len(tall_plans())) for m in (["none", "turn30"] if tier == "quick" else NAMES)]
    out += [["edited", i, j, m] for i, j in itertools.permutations(range(4), 2) for m in NAMES[::2]]
    return out


def tall_plans():
    return [shapes.comb(k) for k in (3, 5)] + [shapes.spiral(k) for k in (5, 8, 9, 10)]


EDITED = [
    (((0, 0), (1, 0), (1, 1), (0, 1)), 1),
    (((0, 0), (2, 0), (2, 2), (0, 2)), 2),
    (((1, 1), (3, 1), (3, 2), (1, 2)), 1),
    (((-1, 0), (0, 0), (0, 3), (-1, 3)), 3),
]


def ask(solid):
    """The answers for an open solid do not matter."""
    for question in (lambda: solid.bbox(), lambda: solid.volume, lambda: solid.is_point_inside(np.array([0.5, 0.5, 0.5]))):
        try:
            question()
        except Exception:
            pass


def run_edited(ctx, i, j, move):
    """Build a solid wall by wall, then replace each wall by one of another solid, asking in between."""
    points = solids.half_lattice((-1, 0, 0), (3, 3, 3), margin=1)
    points = [p for p in points if len({F(c).denominator for c in p}) == 1]
    (ring1, h1), (ring2, h2) = EDITED[i], EDITED[j]
    first = list(whole_prism(ring1, h1, move).walls.values())
    second = list(whole_prism(ring2, h2, move).walls.values())
    for every in (1, 2, 3, len(first)):
        solid = Solid([], name="s")
        for n, w in enumerate(first):
            solid.add_wall(Wall(list(w.polygons.values()), name=f"a{n}"))
            if (n + 1) % every == 0:
                ask(solid)
        ctx.at(solid=EDITED[i], every=every, move=move.name)
        check_volume(ctx, solid, float(F(geo.area2(ring1), 2) * h1) * move.k**3, "built")
        locate_all(ctx, solid, lambda p: solids.where_in_prism(ring1, h1, p), points, move, ("built", ring1, h1, every))
        for n, w in enumerate(second):
            solid.replace_wall(f"a{n}", Wall(list(w.polygons.values()), name=f"b{n}"))
            if (n + 1) % every == 0:
                ask(solid)
        ctx.at(solid=EDITED[j], before=EDITED[i], every=every, move=move.name)
        check_volume(ctx, solid, float(F(geo.area2(ring2), 2) * h2) * move.k**3, "replaced")
        locate_all(ctx, solid, lambda p: solids.where_in_prism(ring2, h2, p), points, move, ("replaced", ring1, ring2, every))


def check_volume(ctx, solid, expected, what):
    got = solid.volume
    ctx.step()
    ctx.check(
        isinstance(got, float) and abs(got - expected) < 1e-8 * max(1.0, expected), "volume", got=got, expected=expected, solid=what
    )
    ctx.trace("volume")


def run_volume(ctx, lo, hi):
    for i, ring in enumerate(plans()[lo:hi]):
        i += lo
        for k in range(2 if ctx.tier == "quick" else 8):
            move = Move(NAMES[(i + 3 * k) % 8])
            h = 1 + (i + k) % 3
            expected = float(F(geo.area2(ring), 2) * h) * move.k**3
            ctx.at(plan=ring, height=h, move=move.name)
            if k % 2 == 0:
                check_volume(ctx, whole_prism(ring, h, move), expected, "whole")
            else:
                check_volume(ctx, divided_prism(ring, h, move), expected, "divided")
            ctx.state("volume", ring, h, move.name, k % 2)
    ctx.sample(plan=ring, height=h, move=move.name)


def run_tetra_volume(ctx, lo, hi):
    for i, t in enumerate(tetrahedra()[lo:hi]):
        for k in range(2):
            move = Move(NAMES[(i + 3 * k) % 8])
            ctx.at(tetrahedron=t, move=move.name)
            expected = abs(solids.orient(*t)) / 6 * move.k**3
            check_volume(ctx, tetra_solid(t, move), expected, "tetrahedron")
            ctx.state("volume", t, move.name)


def locate_all(ctx, solid, where, points, move, fingerprint):
    for p in points:
        expected = where(p)
        q = move.at(*p)
        keep = q.copy()
        ctx.at(solid=fingerprint, point=p, move=move.name)
        got = solid.is_point_inside(q)
        ctx.check(bool(got) == (expected >= 0), "inside", got=bool(got), expected=expected)
        bnd = solid.is_point_at_boundary(q)
        ctx.check(bool(bnd) == (expected == 0), "boundary", got=bool(bnd), expected=expected)
        ctx.check((q == keep).all(), "point-changed")
        ctx.step(2)
        ctx.state("locate", fingerprint, p, move.name)
        ctx.trace({1: "inside", 0: "boundary", -1: "outside"}[expected])


def run(case, ctx):
    kind = case[0]
    if kind == "volume":
        run_volume(ctx, case[1], case[2])
    elif kind == "tetra-volume":
        run_tetra_volume(ctx, case[1], case[2])
    elif kind == "prism":
        ring = plans()[case[1]]
        move = Move(case[2])
        h = 2 if len(ring) < 10 else 1
        solid = whole_prism(ring, h, move) if case[1] % 2 == 0 else divided_prism(ring, h, move)
        xs, ys = [x for x, _ in ring], [y for _, y in ring]
        points = solids.half_lattice((min(xs), min(ys), 0), (max(xs), max(ys), h))
        if ctx.tier == "quick" and len(points) > 300:
            # Only lattice points and centres between them
            points = [p for p in points if len({F(c).denominator for c in p}) == 1]
        locate_all(ctx, solid, lambda p: solids.where_in_prism(ring, h, p), points, move, (ring, h))
    elif kind == "tall":
        ring, h = tall_plans()[case[1]], 20
        move = Move(case[2])
        xs, ys = [x for x, _ in ring], [y for _, y in ring]
        points = solids.half_lattice((min(xs), min(ys), 0), (max(xs), max(ys), h))
        points = [p for p in points if all(F(c).denominator == 2 for c in p) and abs(p[2] - 8) < 1]
        solid = whole_prism(ring, h, move)
        locate_all(ctx, solid, lambda p: solids.where_in_prism(ring, h, p), points, move, (ring, h))
    elif kind == "edited":
        run_edited(ctx, case[1], case[2], Move(case[3]))
    elif kind == "tetra":
        t = tetrahedra()[case[1]]
        move = Move(case[2])
        points = solids.half_lattice((0, 0, 0), (2, 1, 1))
        locate_all(ctx, tetra_solid(t, move), lambda p: solids.where_in_tetra(t, p), points, move, t)
    else:
        (x, y, z), move = case[1], Move(case[2])
        ring = ((0, 0), (x, 0), (x, y), (0, y))
        if move.s == 0:
            solid = box(x * move.k, y * move.k, z * move.k, tuple(move.t))
        else:
            solid = whole_prism(ring, z, move)
        points = solids.half_lattice((0, 0, 0), (x, y, z))
        locate_all(ctx, solid, lambda p: solids.where_in_prism(ring, z, p), points, move, ("box", x, y, z))
