"""I03: STL files keep the geometry of every solid."""

import os
import shutil
import tempfile

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.zone import Zone
from building3d.io.stl import read_stl
from building3d.io.stl import write_stl

from mc import polys
from mc import trees
from mc.polys import chunks

ID = "I03"
BOUNDS = {
    "quick": "all trees of zones, solids, walls and polygons with up to 8 members, all 900 polygons of the 3x3 lattice with "
    "every start and direction at 12 positions (thirds, sevenths, far away, small), closed prisms over all polygons without "
    "straight corners in 1 to 3 zones, with 5 kinds of identifiers; files written over longer ones and in new directories; "
    "buildings after all sequences of up to 2 out of 7 changes",
    "thorough": "trees with up to 10 members, 3 changes",
}
ASSUMPTIONS = ["identifiers consist of printable characters and have no spaces at their ends"]

UIDS = ["s-{}", "Room {}", "solid {}", "endsolid {}", "facet normal 0 0 {}"]


def forest(tier):
    return trees.trees(8 if tier == "quick" else 10)


def stories(tier):
    return [h for h in trees.histories("quick") if len(h[1]) < 3 or tier == "thorough"]


def plans():
    return polys.upto(3, 3, 9, False)


def cases(tier):
    out = [["tree", a, b, tier] for a, b in chunks(len(forest(tier)), 50)]
    out += [["shape", a, b, tier] for a, b in chunks(len(trees.figures()), 120)]
    out += [["prism", a, b, tier] for a, b in chunks(len(plans()), 10)]
    out += [["history", a, b, tier] for a, b in chunks(len(stories(tier)), 10)]
    return out


def turn(t):
    """Triangle beginning with its smallest corner, same orientation."""
    t = [tuple(float(c) for c in p) for p in t]
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


def triangles(solid):
    return sorted(
        turn(p.pts[list(f)]) for w in solid.walls.values() for p in w.polygons.values() for f in p.tri
    )


def solids(bdg):
    return [s for z in bdg.zones.values() for s in z.solids.values()]


def parse(text):
    """Strict reader of the STL text syntax: [(name, [(normal, triangle)])]."""
    out, lines = [], [line.split() for line in text.splitlines() if line.strip()]
    i = 0
    while i < len(lines):
        assert lines[i][0] == "solid", lines[i]
        name = " ".join(lines[i][1:])
        i += 1
        facets = []
        while lines[i][0] == "facet":
            assert lines[i][:2] == ["facet", "normal"] and len(lines[i]) == 5, lines[i]
            n = [float(x) for x in lines[i][2:]]
            assert lines[i + 1] == ["outer", "loop"], lines[i + 1]
            tri = []
            for k in range(3):
                v = lines[i + 2 + k]
                assert v[0] == "vertex" and len(v) == 4, v
                tri.append(tuple(float(x) for x in v[1:]))
            assert lines[i + 5] == ["endloop"] and lines[i + 6] == ["endfacet"], lines[i + 5 : i + 7]
            facets.append((n, tri))
            i += 7
        assert lines[i][0] == "endsolid" and " ".join(lines[i][1:]) == name, lines[i]
        i += 1
        out.append((name, facets))
    return out


def unit_normal(t):
    a, b, c = (np.array(p) for p in t)
    n = np.cross(b - a, c - a)
    return n / np.sqrt(np.dot(n, n))


def cycle(ctx, bdg, path, volume=False):
    before = trees.full(bdg)
    write_stl(path, bdg)
    ctx.step()
    ctx.check(trees.full(bdg) == before, "written-building-modified")
    with open(path) as f:
        text = f.read()
    try:
        parsed = parse(text)
    except Exception as e:
        ctx.fail("syntax", error=repr(e))
        return
    expected = solids(bdg)
    ctx.check([n for n, _ in parsed] == [s.uid for s in expected], "file-solids", got=[n for n, _ in parsed])
    for (name, facets), s in zip(parsed, expected):
        ctx.check(sorted(turn(t) for _, t in facets) == triangles(s), "file-triangles", solid=name)
        for n, t in facets:
            ctx.check(np.abs(unit_normal(t) - n).max() < 1e-6, "file-normal", normal=n, triangle=t)
    back = read_stl(path)
    ctx.step()
    got = solids(back)
    ctx.check([s.uid for s in got] == [s.uid for s in expected], "solids", got=[s.uid for s in got])
    for s, t in zip(expected, got):
        ctx.check(triangles(t) == triangles(s), "triangles", solid=s.uid)
        for w in t.walls.values():
            for p in w.polygons.values():
                for f in p.tri:
                    ctx.check(np.abs(unit_normal(p.pts[list(f)]) - p.vn).max() < 1e-6, "normal", got=p.vn)
        area = sum(p.area for w in s.walls.values() for p in w.polygons.values())
        new = sum(p.area for w in t.walls.values() for p in w.polygons.values())
        ctx.check(abs(area - new) <= 1e-6 * abs(area), "area", got=new, expected=area)
        if volume:
            a, b = s.volume, t.volume
            ctx.check(abs(a - b) <= 1e-6 * abs(a), "volume", got=b, expected=a)


def prisms(i, ring):
    """Building of prisms in several zones."""
    zones = []
    for z in range(1 + i % 3):
        inside = []
        for k in range(1 + (i + z) % 2):
            factor = (1.0, 1 / 3, 0.1)[(i + z + k) % 3]
            plan = [(x * factor, y * factor) for x, y in ring]
            uid = UIDS[(i + z + k) % len(UIDS)].format(f"{i}{z}{k}")
            at = (3 * z + 1 / 3, 3 * k, i / 7)
            name = f"s{k}"
            if (i + k) % 4 == 3:
                s = box(factor, 1.1, 0.7, at, name=name)
            else:
                s = floor_plan(plan, 1 + factor, translate=at, name=name)
            s.uid = uid
            inside.append(s)
        zones.append(Zone(inside, name=f"z{z}"))
    return Building(zones, name="b")


def run(case, ctx):
    kind, lo, hi, tier = case
    root = tempfile.mkdtemp(prefix="mc-i03-")
    path = os.path.join(root, "x.stl")
    try:
        if kind == "tree":
            for i, tree in enumerate(forest(tier)[lo:hi]):
                ctx.at(kind=kind, tree=tree, number=lo + i)
                bdg = trees.Maker(first=lo + i).building(tree)
                cycle(ctx, bdg, path if (lo + i) % 3 else os.path.join(root, f"new {i}", "d", "x.stl"))
                ctx.state(kind, tree)
                ctx.trace("tree")
        elif kind == "shape":
            figures = trees.figures()
            for i in range(lo, hi, 6):
                n = min(i + 6, hi) - i
                ctx.at(kind=kind, rings=figures[i : i + n], first=i)
                cycle(ctx, trees.Maker(first=i, rings=figures).building(trees.one_wall(n)), path)
                for k in range(n):
                    ctx.state(kind, i + k)
                ctx.trace("shape", n)
        elif kind == "prism":
            for i, ring in enumerate(plans()[lo:hi]):
                ctx.at(kind=kind, plan=ring, number=lo + i)
                cycle(ctx, prisms(lo + i, ring), path, volume=True)
                ctx.state(kind, ring)
                ctx.trace("prism")
        else:
            for k, history in stories(tier)[lo:hi]:
                ctx.at(kind=kind, building=k, history=history)
                cycle(ctx, trees.after(k, history), path)
                ctx.step(len(history))
                ctx.state(kind, k, history)
                ctx.trace("history")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(kind=kind, items=(lo, hi))
