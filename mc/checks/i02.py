"""I02: dotbim files reproduce the building exactly."""

import json
import os
import shutil
import tempfile

from building3d.io.dotbim import read_dotbim
from building3d.io.dotbim import write_dotbim

from mc import trees
from mc.polys import chunks

ID = "I02"
BOUNDS = {
    "quick": "all trees of zones, solids, walls and polygons with up to 8 members (also without children), 15 kinds of "
    "names used repeatedly; all 900 polygons of the 3x3 lattice with every start and direction at 12 positions; all files "
    "written over the previous one or in new directories; two write/read cycles; buildings after all sequences of up to 3 "
    "out of 7 changes; 8 kinds of foreign files",
    "thorough": "trees with up to 10 members, 4 changes",
}
ASSUMPTIONS = ["names do not contain the path separator", "identifiers are unique within the building"]


def forest(tier):
    return trees.trees(8 if tier == "quick" else 10)


def cases(tier):
    out = [["tree", a, b, tier] for a, b in chunks(len(forest(tier)), 50)]
    out += [["shape", a, b, tier] for a, b in chunks(len(trees.figures()), 120)]
    out += [["history", a, b, tier] for a, b in chunks(len(trees.histories(tier)), 10)]
    out += [["foreign", 0, 0, tier]]
    return out


def chain(z, s, w, p):
    return (z.name, z.uid, s.name, s.uid, w.name, w.uid, p.name, p.uid)


def compare(ctx, bdg, back):
    ctx.check((back.name, back.uid) == (bdg.name, bdg.uid), "building", got=(back.name, back.uid))
    old, new = trees.flat(bdg, chain), trees.flat(back, chain)
    ctx.check(old == new, "names", got=new, expected=old)
    ctx.check(trees.linked(back), "links")
    # Nothing else
    empty = [z.name for z in back.zones.values() if not z.solids]
    empty += [s.name for z in back.zones.values() for s in z.solids.values() if not s.walls]
    empty += [w.name for z in back.zones.values() for s in z.solids.values() for w in s.walls.values() if not w.polygons]
    existing = {z.name for z in bdg.zones.values()} | {s.name for z in bdg.zones.values() for s in z.solids.values()}
    existing |= {w.name for z in bdg.zones.values() for s in z.solids.values() for w in s.walls.values()}
    ctx.check(set(empty) <= existing, "invented", got=empty)
    for p, q in zip(trees.all_polygons(bdg), trees.all_polygons(back)):
        ctx.check(trees.same_geometry(p, q), "geometry", got=trees.geometry(q), expected=trees.geometry(p))


def cycle(ctx, bdg, path):
    before = trees.full(bdg)
    write_dotbim(path, bdg)
    ctx.step()
    ctx.check(trees.full(bdg) == before, "written-building-modified")
    back = read_dotbim(path)
    ctx.step()
    compare(ctx, bdg, back)
    return back


def foreign(ctx, root):
    path = os.path.join(root, "x.bim")
    write_dotbim(path, trees.start(0))
    with open(path) as f:
        good = json.load(f)
    read_dotbim(path)
    ctx.step(2)
    tools = [None, "", "building3d", "Building3D ", "Building3DX", "FreeCAD", 3, ["Building3D"]]
    for tool in tools:
        other = json.loads(json.dumps(good))
        if tool is None:
            del other["info"]["generated_by"]
        else:
            other["info"]["generated_by"] = tool
        with open(path, "w") as f:
            json.dump(other, f)
        ctx.at(kind="foreign", tool=tool)
        ctx.step()
        try:
            read_dotbim(path)
        except Exception:
            pass
        else:
            ctx.fail("foreign-file-accepted", tool=tool)
        ctx.state("foreign", str(tool))
        ctx.trace("foreign")


def run(case, ctx):
    kind, lo, hi, tier = case
    root = tempfile.mkdtemp(prefix="mc-i02-")
    path = os.path.join(root, "x.bim")
    try:
        if kind == "tree":
            for i, tree in enumerate(forest(tier)[lo:hi]):
                ctx.at(kind=kind, tree=tree, number=lo + i)
                bdg = trees.Maker(first=lo + i, uids=(lo + i) % 2).building(tree)
                back = cycle(ctx, bdg, path if (lo + i) % 3 else os.path.join(root, f"new {i}", "d", "x.bim"))
                compare(ctx, bdg, cycle(ctx, back, path))
                ctx.state(kind, tree)
                ctx.trace("tree")
        elif kind == "history":
            for k, history in trees.histories(tier)[lo:hi]:
                ctx.at(kind=kind, building=k, history=history)
                bdg = trees.after(k, history)
                ctx.step(len(history))
                compare(ctx, bdg, cycle(ctx, cycle(ctx, bdg, path), path))
                ctx.state(kind, k, history)
                ctx.trace("history")
        elif kind == "shape":
            figures = trees.figures()
            for i in range(lo, hi, 6):
                n = min(i + 6, hi) - i
                ctx.at(kind=kind, rings=figures[i : i + n], first=i)
                bdg = trees.Maker(first=i, rings=figures).building(trees.one_wall(n))
                cycle(ctx, bdg, path)
                for k in range(n):
                    ctx.state(kind, i + k)
                ctx.trace("shape", n)
        else:
            foreign(ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(kind=kind, items=(lo, hi))
