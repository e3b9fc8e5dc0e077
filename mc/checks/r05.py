"""Transparent surfaces are exactly the interfaces inside a zone."""

import itertools

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid.box import box
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.find_transparent import find_transparent
from building3d.sim.rays.simulation import Simulation
from mc import rays

ID = "R05"
BOUNDS = {
    "quick": "all sets of 1 to 3 out of 9 boxes without common interior (neighbours in all directions, of different sizes, "
    "shifted, at a distance of 0.01, touching in an edge only) x all distributions over 1 to 3 zones; all histories of "
    "3 operations out of 8 (queries, graph, stitching, additions, splitting and restoring an interface, replacing a wall) in 5 "
    "arrangements, a question after each operation; 30 rays from each box of 14 arrangements, before and after stitching",
    "thorough": "all sets of 1 to 4 boxes, all histories of 4 operations in 5 arrangements, rays in all sets of up to 3 boxes",
}
ASSUMPTIONS = [
    "solids do not overlap, so that a polygon faces at most one other",
    "after additions and replacements the names of polygons are unique",
]
STEP = 0.2
# One begins like the other
ZONES = ["z1", "z10", "z", "z100"]

# size, position
BOXES = [
    ((1, 1, 1), (0, 0, 0)),
    ((1, 1, 1), (1, 0, 0)),
    ((1, 1, 1), (0, 1, 0)),
    ((1, 1, 1), (0, 0, 1)),
    ((1, 1, 1), (-1, 0, 0)),
    ((1, 2, 1), (1, 0, 0)),
    ((1, 1, 1), (0, 0.5, -1)),
    ((1, 1, 1), (1.01, 0, 0)),
    ((1, 1, 1), (1, 1, 0)),
]


def apart(i, j):
    """No common interior."""
    (s, p), (t, q) = BOXES[i], BOXES[j]
    return any(p[k] + s[k] <= q[k] or q[k] + t[k] <= p[k] for k in range(3))


def sets(n):
    for c in itertools.combinations(range(len(BOXES)), n):
        if all(apart(i, j) for i, j in itertools.combinations(c, 2)):
            yield list(c)


def distributions(n):
    """Numbers of zones, each new one is the next number."""
    if n == 0:
        yield []
        return
    for d in distributions(n - 1):
        for z in range(max(d, default=-1) + 2):
            yield d + [z]


OPS = ["ask", "graph", "stitch", "add-same", "add-other", "split", "restore", "swap-wall"]
STARTS = [
    ([0, 1], [0, 0]),
    ([0, 1], [0, 1]),
    ([0, 5], [0, 0]),
    ([0, 1, 3], [0, 0, 1]),
    ([2, 0, 4], [0, 1, 0]),
]


def cases(tier):
    out = []
    for n in range(1, 4 if tier == "quick" else 5):
        for c in sets(n):
            out.append(["place", c])
    for k in range(len(STARTS)):
        for h in itertools.product(OPS, repeat=3 if tier == "quick" else 4):
            if h[0] != "restore":
                out.append(["history", k, list(h)])
    if tier == "quick":
        chosen = [([0], [0])] + [([i, j], z) for i, j in ((0, 1), (0, 3), (0, 5), (0, 6), (0, 7)) for z in ([0, 0], [0, 1])]
        chosen += [([0, 1, 8], [0, 0, 0]), ([0, 1, 4], [0, 1, 0]), ([0, 2, 5], [0, 0, 0])]
    else:
        chosen = [(c, z) for n in (1, 2, 3) for c in sets(n) for z in distributions(n)]
    for c, z in chosen:
        for stitched in (False, True):
            out.append(["rays", c, z, stitched])
    return out


def build(which, zones):
    made = {}
    for i, z in zip(which, zones):
        size, pos = BOXES[i]
        made.setdefault(z, []).append(box(*map(float, size), tuple(map(float, pos)), name=f"s{i}"))
    return Building([Zone(s, name=ZONES[z]) for z, s in made.items()], name="b")


def polygons(bdg):
    """(path, zone, solid, points, normal)"""
    out = []
    for z in bdg.children.values():
        for s in z.children.values():
            for w in s.children.values():
                for p in w.children.values():
                    path = "/".join([bdg.name, z.name, s.name, w.name, p.name])
                    out.append((path, z.name, s.name, p.pts, p.vn, p))
    return out


def matching(p, q):
    if len(p) != len(q):
        return False
    d = np.abs(p[:, None] - q[None]).max(axis=2) < 1e-6
    return bool(d.any(axis=0).all() and d.any(axis=1).all())


def interfaces(bdg):
    found = set()
    for a, b in itertools.combinations(polygons(bdg), 2):
        if a[1] == b[1] and a[2] != b[2] and matching(a[3], b[3]) and np.allclose(a[4], -b[4], atol=1e-6):
            found |= {a[0], b[0]}
    return found


def question(bdg, ctx, what):
    expected = interfaces(bdg)
    got = find_transparent(bdg)
    ctx.step()
    ctx.check(
        set(got) == expected, "transparent", missing=sorted(expected - set(got)), wrong=sorted(set(got) - expected)
    )
    # The numbers used in the simulation
    to_array_format(bdg)
    numbers = Simulation.get_transparent_polygon_numbers(bdg)
    ctx.step()
    num = {p[0]: p[5].num for p in polygons(bdg)}
    ctx.check(
        {n for n in numbers if n >= 0} == {num[p] for p in expected},
        "transparent-numbers",
        expected=sorted(num[p] for p in expected),
        got=sorted(numbers),
    )
    ctx.state(what, tuple(sorted(num)), tuple(sorted(expected)))
    ctx.trace(f"{len(expected)}-transparent")
    return numbers


def run(case, ctx):
    if case[0] == "place":
        for zones in distributions(len(case[1])):
            ctx.at(boxes=case[1], zones=zones)
            question(build(case[1], zones), ctx, (tuple(case[1]), tuple(zones)))
    elif case[0] == "history":
        history(case, ctx)
    else:
        shoot(case, ctx)
    ctx.sample(case=case)


def history(case, ctx):
    _, k, ops = case
    which, zones = STARTS[k]
    bdg = build(which, zones)
    used = list(which)
    undo = []
    for n, op in enumerate(ops):
        ctx.at(start=k, operations=ops[: n + 1])
        change(bdg, op, n, used, undo)
        ctx.step()
        question(bdg, ctx, (k, tuple(ops[: n + 1])))


def change(bdg, op, n, used, undo):
    if op == "ask":
        find_transparent(bdg)
    elif op == "graph":
        bdg.get_graph(facing=True, overlapping=False)
    elif op == "stitch":
        bdg.stitch_solids()
    elif op in ("add-same", "add-other"):
        for i in range(len(BOXES)):
            if i not in used and all(apart(i, j) for j in used):
                break
        else:
            return
        used.append(i)
        size, pos = BOXES[i]
        solid = box(*map(float, size), tuple(map(float, pos)), name=f"s{i}")
        if op == "add-same":
            list(bdg.children.values())[0].add_solid(solid)
        else:
            bdg.add_zone(Zone([solid], name=f"new{n}"))
    elif op == "split":
        # An interface if there is one
        inner = interfaces(bdg)
        p = [p for p in polygons(bdg) if p[0] in inner or not inner][0][5]
        wall = p.parent
        a, b, c, d = p.pts[:4]
        if len(p.pts) != 4:
            return
        m1, m2 = (a + b) / 2, (c + d) / 2
        wall.replace_polygon(
            p.name,
            Polygon(np.array([a, m1, m2, d]), name=f"left{n}"),
            Polygon(np.array([m1, b, c, m2]), name=f"right{n}"),
        )
        undo.append((wall, [f"left{n}", f"right{n}"], p.pts.copy(), n))
    elif op == "restore":
        if not undo:
            return
        wall, names, pts, n0 = undo.pop()
        if not all(name in wall.children for name in names):
            return
        wall.replace_polygon(names[0], Polygon(pts, name=f"whole{n0}"))
        del wall.polygons[names[1]]
    elif op == "swap-wall":
        inner = interfaces(bdg)
        p = [p for p in polygons(bdg) if p[0] in inner or not inner][-1][5]
        wall = p.parent
        solid = wall.parent
        new = Wall([Polygon(q.pts.copy(), name=q.name + "-new") for q in wall.children.values()], name=f"swapped{n}")
        solid.replace_wall(wall.name, new)


def shoot(case, ctx):
    """Rays from the middle of each box."""
    _, which, zones, stitched = case
    bdg = build(which, zones)
    if stitched:
        bdg.stitch_solids()
    ctx.at(boxes=which, zones=zones, stitched=stitched)
    numbers = question(bdg, ctx, (tuple(which), tuple(zones), stitched))
    expected = interfaces(bdg)
    engine = rays.Engine(bdg, 0.5)
    opaque, clear = [], []
    for path, _, _, pts, vn, _ in polygons(bdg):
        (clear if path in expected else opaque).append((pts.min(axis=0), pts.max(axis=0)))
    src, way = [], []
    for i in which:
        size, pos = BOXES[i]
        mid = np.array(pos) + np.array(size) * (0.5, 0.37, 0.55)
        for axis in range(3):
            for sign in (-1.0, 1.0):
                d = np.array([0.01, 0.02, -0.015])
                d[axis] = sign
                src.append(mid)
                way.append(d / np.linalg.norm(d))
        # Oblique ones, reflected next to the interfaces
        for a, b in itertools.permutations(range(3), 2):
            for u, v in itertools.product((-0.6, 0.6), (-0.8, 0.8)):
                d = np.full(3, 0.07)
                d[a], d[b] = u, v
                src.append(mid)
                way.append(d / np.linalg.norm(d))
    src, way = np.array(src), np.array(way)
    steps = 20
    pos, enr, _ = engine.run(src, way, STEP, steps, np.full(len(opaque) + len(clear), 0.01), transparent=numbers)
    ctx.step(steps * len(src))
    for r in range(len(src)):
        d = way[r]
        crossed = 0
        ctx.at(boxes=which, zones=zones, stitched=stitched, source=src[r], direction=way[r])
        for s in range(steps):
            p, q = pos[s, r], pos[s + 1, r]
            new = (q - p) / STEP
            ctx.check(abs(np.linalg.norm(new) - 1) < 1e-9, "step", step=s, position=p, next=q)
            hit = [f for f in opaque if passes(p, q, *f)]
            ctx.check(not hit, "passed-opaque-surface", step=s, position=p, next=q, surface=hit[:1])
            crossed += sum(passes(p, q, *f) for f in clear)
            for axis in np.flatnonzero(np.abs(new - d) > 1e-9):
                # Reflected by an opaque surface ahead, perpendicular to this axis
                ok = abs(new[axis] + d[axis]) < 1e-9 and any(
                    lo[axis] == hi[axis] and (lo[axis] - p[axis]) * d[axis] > 0 and gap(p, lo, hi) < 1.02 * STEP
                    for lo, hi in opaque
                )
                ctx.check(ok, "turned-without-surface", step=s, position=p, before=d, after=new)
            drop = enr[s, r] - enr[s + 1, r]
            turns = int((np.abs(new - d) > 1e-9).sum())
            ctx.check(abs(drop - 0.01 * turns) < 1e-9, "energy", step=s, drop=drop, turns=turns)
            d = new
        ctx.trace("crossing" if crossed else "inside")


def passes(p, q, lo, hi):
    """The segment crosses the rectangle."""
    axis = int(np.argmin(hi - lo))
    a, b = p[axis] - lo[axis], q[axis] - lo[axis]
    if a * b >= 0:
        return False
    x = p + (q - p) * a / (a - b)
    return all(lo[k] < x[k] < hi[k] for k in range(3) if k != axis)


def gap(p, lo, hi):
    return float(np.linalg.norm(np.maximum(np.maximum(lo - p, p - hi), 0)))
