"""I04: the array format preserves geometry and hierarchy."""

import itertools

import numpy as np

from building3d.io.arrayformat import count_objects
from building3d.io.arrayformat import from_array_format
from building3d.io.arrayformat import get_polygon_points_and_faces
from building3d.io.arrayformat import to_array_format

from mc import trees
from mc.polys import chunks

ID = "I04"
BOUNDS = {
    "quick": "all trees of zones, solids, walls and polygons with up to 9 members, all 900 polygons of the 3x3 lattice with "
    "every start and direction at 12 positions, buildings after all sequences of up to 3 out of 7 changes with a "
    "conversion after every change; all pairs of 40 buildings converted in turn",
    "thorough": "trees with up to 11 members, 4 changes",
}
ASSUMPTIONS = ["zones without solids behind the last zone with solids cannot be represented and may be lost"]


def forest(tier):
    return trees.trees(9 if tier == "quick" else 11)


def pool():
    """Different buildings."""
    f = trees.trees(7)
    return [t for t in f[:: len(f) // 40]][:40]


def cases(tier):
    out = [["tree", a, b, tier] for a, b in chunks(len(forest(tier)), 60)]
    out += [["shape", a, b, tier] for a, b in chunks(len(trees.figures()), 120)]
    out += [["history", a, b, tier] for a, b in chunks(len(trees.histories(tier)), 10)]
    out += [["pair", a, a + 1, tier] for a in range(len(pool()))]
    return out


def nesting(bdg):
    zones = [
        [[len(w.polygons) for w in s.walls.values()] for s in z.solids.values()] for z in bdg.zones.values()
    ]
    while zones and not zones[-1]:
        zones.pop()
    return zones


def numbers(ctx, bdg, arrays):
    """The numbers of the objects are array positions."""
    points, faces, polygons, walls, solids, zones = arrays
    pn = wn = sn = 0
    for zn, z in enumerate(bdg.zones.values()):
        ctx.check(z.num == zn, "zone-number", got=z.num, expected=zn)
        for s in z.solids.values():
            ctx.check(s.num == sn and zones[sn] == zn, "solid-number", got=s.num, expected=sn)
            for w in s.walls.values():
                ctx.check(w.num == wn and solids[wn] == sn, "wall-number", got=w.num, expected=wn)
                for p in w.polygons.values():
                    ctx.check(p.num == pn and walls[pn] == wn, "polygon-number", got=p.num, expected=pn)
                    pts, tri = get_polygon_points_and_faces(points, faces, polygons, pn)
                    ctx.step()
                    same = (
                        pts.shape == p.pts.shape
                        and tri.shape == p.tri.shape
                        and (pts == p.pts).all()
                        and (tri == p.tri).all()
                    )
                    ctx.check(same, "extracted", polygon=p.path, got=(pts, tri), expected=(p.pts, p.tri))
                    own = faces[np.array(polygons) == pn]
                    ctx.check((points[own] == p.pts[p.tri]).all(), "face-corners", polygon=p.path)
                    pn += 1
                wn += 1
            sn += 1
    ctx.check((len(walls), len(solids), len(zones)) == (pn, wn, sn), "lengths")
    ctx.check(len(polygons) == len(faces) == sum(len(p.tri) for p in trees.all_polygons(bdg)), "faces")


def cycle(ctx, bdg):
    before = trees.full(bdg)
    arrays = to_array_format(bdg)
    ctx.step()
    ctx.check(trees.full(bdg) == before, "building-modified")
    numbers(ctx, bdg, arrays)
    copies = [a.copy() for a in arrays]
    back = from_array_format(*arrays)
    ctx.step()
    ctx.check(all((a == c).all() for a, c in zip(arrays, copies)), "arrays-modified")
    ctx.check(nesting(back) == nesting(bdg), "nesting", got=nesting(back), expected=nesting(bdg))
    ctx.check(trees.linked(back), "links")
    for p, q in zip(trees.all_polygons(bdg), trees.all_polygons(back)):
        ctx.check(trees.same_geometry(p, q), "geometry", got=trees.geometry(q), expected=trees.geometry(p))
    return back


def run(case, ctx):
    kind, lo, hi, tier = case
    if kind == "tree":
        for i, tree in enumerate(forest(tier)[lo:hi]):
            ctx.at(kind=kind, tree=tree, number=lo + i)
            bdg = trees.Maker(first=lo + i).building(tree)
            back = cycle(ctx, bdg)
            cycle(ctx, back)
            ctx.check(count_objects(bdg)[1:] == count_objects(back)[1:], "counts")
            ctx.state(kind, tree)
            ctx.trace("tree")
    elif kind == "shape":
        figures = trees.figures()
        for i in range(lo, hi, 6):
            n = min(i + 6, hi) - i
            ctx.at(kind=kind, rings=figures[i : i + n], first=i)
            cycle(ctx, trees.Maker(first=i, rings=figures).building(trees.one_wall(n)))
            for k in range(n):
                ctx.state(kind, i + k)
            ctx.trace("shape", n)
    elif kind == "history":
        for k, history in trees.histories(tier)[lo:hi]:
            ctx.at(kind=kind, building=k, history=history)
            bdg = trees.start(k)
            for n, op in enumerate(history):
                if (n + k) % 2:
                    to_array_format(bdg)
                trees.change(bdg, op, n)
                ctx.step(2)
            cycle(ctx, bdg)
            ctx.state(kind, k, history)
            ctx.trace("history")
    else:
        # Numbers of a building do not depend on other conversions
        for a, b in itertools.product(pool()[lo:hi], pool()):
            ctx.at(kind=kind, first=a, second=b)
            one = trees.Maker(first=1).building(a)
            two = trees.Maker(first=2).building(b)
            x = to_array_format(one)
            y = to_array_format(two)
            ctx.step(2)
            numbers(ctx, one, x)
            numbers(ctx, two, y)
            cycle(ctx, one)
            ctx.state(kind, a, b)
            ctx.trace("pair")
    ctx.sample(kind=kind, items=(lo, hi))
