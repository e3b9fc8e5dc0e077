"""S02: generated solids are closed, outward-oriented and named as documented."""

import itertools
from fractions import Fraction as F

import numpy as np

from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan

from mc import geo
from mc import polys
from mc.solids import MOVES
from mc.solids import Move

ID = "S02"
BOUNDS = {
    "quick": "plans: all polygons with up to 5 vertices of the 3x3 lattice and larger ones, one per symmetry class, plus parametric "
    "families, from all starting corners in both directions, in turn with 8 positions and rotations, heights and "
    "wall names; wrong lists of names; boxes with 6^3 sizes at 5 positions",
    "thorough": "all polygons of the 3x3 lattice, all starting corners, directions and 8 positions",
}
ASSUMPTIONS = ["plans without repeated points"]

NAMES = list(MOVES)
HEIGHTS = (1, F(1, 2), 3, F(5, 2))


def plans(tier):
    fam = [r for name, k, r in polys.family(5)]
    if tier == "thorough":
        return list(polys.all_3x3()) + fam
    small = [p for p in polys.all_3x3() if len(p) <= 5]
    return small + list(polys.classes(p for p in polys.all_3x3() if len(p) > 5)) + fam


def cases(tier):
    out = [["plan", tier, a, b] for a, b in polys.chunks(len(plans(tier)), 12)]
    out += [["box", x] for x in (1, 2, 0.5, 0.1, 7.3, 40)]
    out += [["names", k] for k in range(4)]
    return out


def key(p):
    return tuple(int(round(x * 1e6)) for x in p)


def faces_of(solid):
    return [(w, p) for w in solid.children.values() for p in w.children.values()]


def check_closed(ctx, rings):
    count = {}
    for ring in rings:
        for a, b in zip(ring, ring[1:] + ring[:1]):
            count[(a, b)] = count.get((a, b), 0) + 1
    for (a, b), n in count.items():
        ctx.check(n == 1 and count.get((b, a), 0) == 1, "not-closed", edge=(a, b), n=n, back=count.get((b, a), 0))


def check_plan(ctx, ring, height, move, names, floor_name, ceiling_name, solid_name):
    """Builds the solid and compares it with the plan."""
    n = len(ring)
    kw = {}
    if names is not None:
        kw["wall_names"] = list(names)
    if floor_name:
        kw["floor_name"] = floor_name
    if ceiling_name:
        kw["ceiling_name"] = ceiling_name
    plan = [(x * move.k, y * move.k) for x, y in ring]
    solid = floor_plan(
        plan, float(height) * move.k, translate=tuple(move.t), rot_angle=move.angle, name=solid_name, **kw
    )
    ctx.step()
    wall_names = list(names) if names is not None else [f"wall-{i}" for i in range(n)]
    floor_name, ceiling_name = floor_name or "floor", ceiling_name or "ceiling"
    if solid_name is not None:
        ctx.check(solid.name == solid_name, "solid-name", got=solid.name)
    ctx.check(
        set(solid.children) == set(wall_names) | {floor_name, ceiling_name} and len(solid.children) == n + 2,
        "wall-names",
        got=list(solid.children),
    )
    ccw = geo.area2(ring) > 0
    h = float(height)
    rings = []

    def local(poly):
        return [key(move.back(p)) for p in poly.pts]

    def one(name):
        wall = solid.children[name]
        ctx.check(list(wall.children) == [name], "polygon-name", wall=name, got=list(wall.children))
        return list(wall.children.values())[0]

    for i in range(n):
        (ax, ay), (bx, by) = ring[i], ring[(i + 1) % n]
        poly = one(wall_names[i])
        expected = {key(q) for q in ((ax, ay, 0), (bx, by, 0), (bx, by, h), (ax, ay, h))}
        got = local(poly)
        ctx.check(len(got) == 4 and set(got) == expected, "wall-position", wall=i, got=got, expected=expected)
        nx, ny = (by - ay), -(bx - ax)
        if not ccw:
            nx, ny = -nx, -ny
        v = move.back(poly.vn + move.t) * move.k
        length = (nx * nx + ny * ny) ** 0.5
        ctx.check(
            abs(v[0] - nx / length) < 1e-8 and abs(v[1] - ny / length) < 1e-8 and abs(v[2]) < 1e-8,
            "wall-normal",
            wall=i,
            got=v,
            expected=(nx / length, ny / length, 0),
        )
        rings.append(got)
    for name, z, s in ((floor_name, 0.0, -1.0), (ceiling_name, h, 1.0)):
        poly = one(name)
        got = local(poly)
        ctx.check(set(got) == {key((x, y, z)) for x, y in ring} and len(got) == n, "slab-position", slab=name, got=got)
        ctx.check(np.abs(poly.vn - np.array([0, 0, s])).max() < 1e-8, "slab-normal", slab=name, got=poly.vn)
        rings.append(got)
    # The order of the vertices agrees with the normal vectors
    for (_, poly), r in zip([(None, one(w)) for w in wall_names + [floor_name, ceiling_name]], rings):
        total = np.zeros(3)
        pts = poly.pts - poly.pts[0]
        for a, b in zip(pts, np.roll(pts, -1, axis=0)):
            total += np.cross(a, b)
        ctx.check(np.dot(total, poly.vn) > 0, "vertex-order", ring=r)
    check_closed(ctx, rings)
    vol = abs(geo.area2(ring)) / 2 * h * move.k**3
    ctx.check(abs(solid.volume - vol) < 1e-7 * max(1, vol), "volume", got=solid.volume, expected=vol)


def run_plan(ctx, tier, lo, hi):
    for j, base in enumerate(plans(tier)[lo:hi]):
        j += lo
        n = len(base)
        for k, (_, ring) in enumerate(geo.rotations(base)):
            for m in [NAMES[(j + k) % 8]] if tier == "quick" or n > 9 else NAMES:
                move = Move(m)
                height = HEIGHTS[(j + 2 * k) % 4]
                names = [None, [f"w {chr(97 + i)}" for i in range(n)], [f"{n - i}" for i in range(n)]][(j + k) % 3]
                floor, ceiling = ((None, None), ("down", None), ("zz", "up"))[(j + k // 3) % 3]
                ctx.at(plan=ring, height=height, move=m, names=names, floor=floor, ceiling=ceiling)
                check_plan(ctx, ring, height, move, names, floor, ceiling, None if k % 2 else "room")
                ctx.state("plan", ring, height, m)
                ctx.trace("ccw" if geo.area2(ring) > 0 else "cw")
    ctx.sample(plan=ring, move=m)


FACES = {
    ("floor", "floor"): (2, 0, -1),
    ("wall_0", "poly_0"): (1, 0, -1),
    ("wall_1", "poly_1"): (0, 1, 1),
    ("wall_2", "poly_2"): (1, 1, 1),
    ("wall_3", "poly_3"): (0, 0, -1),
    ("ceiling", "ceiling"): (2, 1, 1),
}


def run_box(ctx, x):
    sizes = (1, 2, 0.5, 0.1, 7.3, 40)
    moves = ((0, 0, 0), (1, 2, 3), (-4, -0.5, 2), (100, -200, 50), (0.1, 0.2, 0.3))
    for y, z, mv in itertools.product(sizes, sizes, moves):
        ctx.at(size=(x, y, z), move=mv)
        solid = box(x, y, z, mv, name="b") if mv != (0, 0, 0) else box(x, y, z, name="b")
        ctx.step()
        size = (x, y, z)
        got = {(w.name, p.name): p for w, p in faces_of(solid)}
        ctx.check(set(got) == set(FACES), "box-names", got=list(got))
        ctx.check(solid.name == "b", "solid-name", got=solid.name)
        rings = []
        for name, (axis, side, sign) in FACES.items():
            poly = got[name]
            corners = {
                key([mv[k] + c[k] * size[k] for k in range(3)])
                for c in itertools.product((0, 1), repeat=3)
                if c[axis] == side
            }
            ring = [key(p) for p in poly.pts]
            ctx.check(set(ring) == corners and len(ring) == 4, "box-face", face=name, got=ring, expected=corners)
            vn = np.zeros(3)
            vn[axis] = sign
            ctx.check(np.abs(poly.vn - vn).max() < 1e-8, "box-normal", face=name, got=poly.vn)
            rings.append(ring)
        check_closed(ctx, rings)
        vol = x * y * z
        ctx.check(abs(solid.volume - vol) < 1e-7 * max(1, vol), "volume", got=solid.volume, expected=vol)
        lo, hi = solid.bbox()
        ctx.check(
            np.allclose(lo, mv) and np.allclose(hi, np.array(mv) + np.array(size)), "box-bounds", lo=lo, hi=hi
        )
        ctx.state("box", size, mv)
        ctx.trace("box")


def run_names(ctx, k):
    """Wrong lists of names are rejected."""
    rings = polys.classes(p for p in polys.all_3x3() if len(p) == 3 + k)
    for ring in rings:
        n = len(ring)
        good = [f"n{i}" for i in range(n)]
        bad = [good[:-1], good + ["extra"], [], good[:1] * n]
        for i, j in itertools.combinations(range(n), 2):
            bad.append([good[i] if q == j else name for q, name in enumerate(good)])
        bad += [[g if q != i else "floor" for q, g in enumerate(good)] for i in range(n)]
        bad += [[g if q != i else "ceiling" for q, g in enumerate(good)] for i in range(n)]
        bad += [[g if q != i else "a/b" for q, g in enumerate(good)] for i in range(n)]
        for names in bad:
            ctx.at(plan=ring, names=names)
            ctx.step()
            try:
                floor_plan(list(ring), 1.0, wall_names=names)
            except Exception:
                ctx.trace("rejected")
            else:
                ctx.fail("wrong-names-accepted")
            ctx.state("names", ring, tuple(names))
        ctx.at(plan=ring, names=good)
        check_plan(ctx, ring, 1, Move("none"), good, None, None, "s")
        ctx.trace("accepted")


def run(case, ctx):
    if case[0] == "plan":
        run_plan(ctx, *case[1:])
    elif case[0] == "box":
        run_box(ctx, case[1])
    else:
        run_names(ctx, case[1])
