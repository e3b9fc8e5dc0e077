"""B02: point location returns a solid that contains the point."""

import itertools
from fractions import Fraction as F

import numpy as np

from building3d.geom.building import Building
from building3d.geom.building.find_location import find_location
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.zone import Zone

from mc.solids import where_in_prism

ID = "B02"
BOUNDS = {
    "quick": "9 arrangements of up to 4 solids (side by side, overlapping, nested, separate, non-convex, rotated names) in up "
    "to 3 zones, all points of the half lattice around them, all ordered lists of suggested solids; 30 solids in 1 to "
    "30 zones",
    "thorough": "all ordered lists of suggested solids",
}
ASSUMPTIONS = ["suggested paths are those of existing solids"]

SQ = ((0, 0), (1, 0), (1, 1), (0, 1))
LL = ((0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3))
UU = ((0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2))


def sq(w, d):
    return ((0, 0), (w, 0), (w, d), (0, d))


# (zone, name, plan, height, position)
ARRANGEMENTS = [
    [("z0", "a", sq(1, 1), 1, (0, 0, 0)), ("z0", "b", sq(1, 1), 1, (1, 0, 0)), ("z1", "a", sq(2, 1), 1, (0, 0, 1))],
    [("z0", "a", sq(2, 2), 2, (0, 0, 0)), ("z1", "a", sq(1, 1), 1, (0, 1, 0)), ("z1", "b", sq(2, 1), 1, (1, 1, 1))],
    [("z", "a", LL, 1, (0, 0, 0)), ("z", "b", sq(1, 1), 1, (1, 1, 0)), ("y", "b", sq(1, 1), 1, (2, 2, 0))],
    [("z", "u", UU, 2, (-1, -1, -1)), ("z", "in", sq(1, 1), 1, (0, 0, -1))],
    [("a", "a", sq(1, 1), 1, (-2, 0, 0)), ("a", "b", sq(1, 1), 1, (2, 0, 0)), ("b", "a", sq(1, 1), 1, (0, 0, 0))],
    [("1", "1", sq(2, 2), 1, (10, -10, 5)), ("1", "10", sq(2, 2), 1, (10, -10, 6)), ("10", "1", sq(1, 2), 2, (12, -10, 5))],
    [("z", "only", sq(3, 2), 2, (0, 0, 0))],
    [
        ("p", "a", sq(1, 2), 2, (0, 0, 0)),
        ("q", "a", sq(1, 2), 2, (1, 0, 0)),
        ("r", "a", sq(1, 2), 2, (2, 0, 0)),
        ("p", "b", sq(3, 1), 1, (0, 0, 0)),
    ],
    [("z", "a" * (i + 1), sq(1, 1), 1, (i, -i, 0)) for i in range(4)],
]
# Many solids and zones, no suggestions or a single one
LONG = [[(f"z{i * zones // 30}", f"s{i}", sq(1, 1), 1, (i % 6, i // 6, 0)) for i in range(30)] for zones in (1, 2, 6, 30)]


def make(arr):
    zones = {}
    for z, name, plan, h, at in arr:
        if len(plan) == 4 and h != 2:
            s = box(plan[2][0], plan[2][1], h, at, name=name)
        else:
            s = floor_plan(list(plan), h, translate=at, name=name)
        zones.setdefault(z, []).append(s)
    bdg = Building([Zone(v, name=k) for k, v in zones.items()], name="b")
    return bdg, {f"b/{z}/{name}": (plan, h, at) for z, name, plan, h, at in arr}


def points(arr):
    lo = [min(at[k] for _, _, _, _, at in arr) for k in range(3)]
    hi = [
        max(at[k] + (h if k == 2 else max(p[k] for p in plan)) for _, _, plan, h, at in arr) for k in range(3)
    ]
    axes = [[F(n, 2) for n in range(2 * lo[k] - 1, 2 * hi[k] + 2)] for k in range(3)]
    return list(itertools.product(*axes))


def cases(tier):
    out = []
    for i, arr in enumerate(ARRANGEMENTS):
        n = len(points(arr))
        out += [[i, a, min(a + 24, n), tier] for a in range(0, n, 24)]
    out += [[-1 - k, 0, 0, tier] for k in range(len(LONG))]
    return out


def run(case, ctx):
    i, lo, hi, tier = case
    arr = ARRANGEMENTS[i] if i >= 0 else LONG[-1 - i]
    bdg, solids = make(arr)
    paths = list(solids)
    if i < 0:
        lists = [(), (paths[0],), (paths[-1],), tuple(paths[::-1])]
        inner = [(x + F(1, 2), y + F(1, 2), F(1, 2)) for x in range(-1, 7) for y in range(-1, 6)]
    else:
        inner = points(arr)[lo:hi]
        lists = [s for n in range(len(paths) + 1) for s in itertools.permutations(paths, n)]
    for j, pt in enumerate(inner):
        inside = {
            p for p, (plan, h, at) in solids.items() if where_in_prism(plan, h, [c - o for c, o in zip(pt, at)]) >= 0
        }
        p = np.array([float(c) for c in pt])
        for k, first in enumerate(lists):
            ctx.at(arrangement=i, point=pt, first=first)
            ctx.step()
            try:
                got = find_location(p.copy(), bdg, *first)
            except Exception as e:
                ctx.check(not inside, "not-found", error=repr(e), inside=inside)
                got = None
            else:
                ctx.check(got in inside, "wrong-solid", got=got, inside=inside)
                wanted = [f for f in first if f in inside]
                ctx.check(not wanted or got == wanted[0], "suggestion-ignored", got=got, wanted=wanted)
            ctx.state(i, pt, first)
            ctx.trace("not-found" if got is None else "suggested" if got in first else "found")
    ctx.sample(arrangement=i, points=(lo, hi))
