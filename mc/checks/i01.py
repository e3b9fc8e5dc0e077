"""I01: native files reproduce the building exactly."""

import os
import shutil
import tempfile

from building3d.io.b3d import read_b3d
from building3d.io.b3d import write_b3d

from mc import trees
from mc.polys import chunks

ID = "I01"
BOUNDS = {
    "quick": "all trees of zones, solids, walls and polygons with up to 9 members (also without children), 15 kinds of "
    "names used repeatedly; all 900 polygons of the 3x3 lattice with every start and direction at 12 positions; all files "
    "written over the previous one, over a longer one or in new directories; two write/read cycles; buildings after all sequences of up to 3 out of 7 changes (stitching, replacing, adding)",
    "thorough": "trees with up to 11 members, 4 changes",
}
ASSUMPTIONS = ["names do not contain the path separator"]


def forest(tier):
    return trees.trees(9 if tier == "quick" else 11)


def cases(tier):
    out = [["tree", a, b, tier] for a, b in chunks(len(forest(tier)), 60)]
    out += [["shape", a, b, tier] for a, b in chunks(len(trees.figures()), 120)]
    out += [["history", a, b, tier] for a, b in chunks(len(trees.histories(tier)), 10)]
    return out


def compare(ctx, bdg, back):
    ctx.check(back.name == bdg.name, "building-name", got=back.name)

    def names(b):
        return [
            (z.name, [(s.name, [(w.name, list(w.polygons)) for w in s.walls.values()]) for s in z.solids.values()])
            for z in b.zones.values()
        ]

    ctx.check(names(back) == names(bdg), "names", got=names(back), expected=names(bdg))
    ctx.check(trees.linked(back), "links")
    old, new = trees.all_polygons(bdg), trees.all_polygons(back)
    for p, q in zip(old, new):
        ctx.check(p.uid == q.uid, "uid", got=q.uid, expected=p.uid)
        ctx.check(trees.same_geometry(p, q), "geometry", got=trees.geometry(q), expected=trees.geometry(p))


def cycle(ctx, bdg, path):
    before = trees.full(bdg)
    write_b3d(path, bdg)
    ctx.step()
    ctx.check(trees.full(bdg) == before, "written-building-modified")
    back = read_b3d(path)
    ctx.step()
    compare(ctx, bdg, back)
    return back


def run(case, ctx):
    kind, lo, hi, tier = case
    root = tempfile.mkdtemp(prefix="mc-i01-")
    try:
        if kind == "tree":
            for i, tree in enumerate(forest(tier)[lo:hi]):
                ctx.at(kind=kind, tree=tree, number=lo + i)
                bdg = trees.Maker(first=lo + i).building(tree)
                # Mostly over the previous file, which can be longer or shorter
                path = os.path.join(root, "x.b3d") if (lo + i) % 3 else os.path.join(root, f"new {i}", "d", "x.b3d")
                back = cycle(ctx, bdg, path)
                again = cycle(ctx, back, os.path.join(root, "y.b3d"))
                compare(ctx, bdg, again)
                ctx.state(kind, tree)
                ctx.trace(f"nodes-{count(tree)}")
        elif kind == "history":
            for k, history in trees.histories(tier)[lo:hi]:
                ctx.at(kind=kind, building=k, history=history)
                bdg = trees.after(k, history)
                ctx.step(len(history))
                cycle(ctx, cycle(ctx, bdg, os.path.join(root, "x.b3d")), os.path.join(root, "x.b3d"))
                ctx.state(kind, k, history)
                ctx.trace("history")
        else:
            figures = trees.figures()
            for i in range(lo, hi, 6):
                rings = figures[i : min(i + 6, hi)]
                ctx.at(kind=kind, rings=rings, first=i)
                maker = trees.Maker(first=i, rings=figures)
                bdg = maker.building(trees.one_wall(len(rings)))
                ctx.check(len(trees.all_polygons(bdg)) == len(rings), "polygons")
                cycle(ctx, bdg, os.path.join(root, "x.b3d"))
                for k in range(len(rings)):
                    ctx.state(kind, i + k)
                ctx.trace("shape", len(rings))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(kind=kind, items=(lo, hi))


def count(tree):
    return sum(1 + count(t) for t in tree)
