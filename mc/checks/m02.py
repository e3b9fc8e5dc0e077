"""M02: meshes, volumes and bounding boxes aggregate exactly the children."""

import itertools

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

ID = "M02"
BOUNDS = {
    "quick": "walls with 0-3 polygons of 3 shapes, all solids with up to 2 and all zones with up to 2 members made of 6 kinds "
    "of walls, all buildings with up to 2 zones from a subset of 60, members without children at every level; 1-2500 "
    "members at each level; sums of volumes for all lists of up to 4 solids from 4 in up to 3 zones",
    "thorough": "all pairs of zones from a subset of 400",
}
ASSUMPTIONS = []

SHAPES = {
    "t": [[0, 0, 0], [1, 0, 0], [0, 1, 0]],
    "q": [[0, 0, 0], [2, 0, 0], [2, 0, 1], [0, 0, 1]],
    "L": [[0, 0, 0], [0, 3, 0], [0, 3, 1], [0, 1, 1], [0, 1, 3], [0, 0, 3]],
}
WALLS = ["", "t", "q", "tL", "Lqt", "qq"]


class Maker:
    """Makes objects together with the meshes expected for them."""

    def __init__(self):
        self.num = 0
        self.cache = {}

    def polygon(self, kind):
        k = self.num
        self.num += 1
        shift = np.array([(k * 7) % 11 - 5.0, (k * 5) % 13 - 6.25, (k * 3) % 7 - 3.0])
        if kind not in self.cache:
            self.cache[kind] = Polygon(np.array(SHAPES[kind], dtype=float))
        p = self.cache[kind]
        new = Polygon(p.pts + shift, name=f"p{k}", tri=p.tri.copy(), vn=p.vn.copy())
        return new, [(new.pts.copy(), new.tri.copy())]

    def group(self, cls, pairs):
        self.num += 1
        obj = cls([o for o, _ in pairs], name=f"n{self.num}")
        return obj, [m for _, mesh in pairs for m in mesh]

    def wall(self, kinds):
        return self.group(Wall, [self.polygon(k) for k in kinds])

    def solid(self, walls):
        return self.group(Solid, [self.wall(w) for w in walls])

    def zone(self, solids):
        return self.group(Zone, [self.solid(s) for s in solids])

    def building(self, zones):
        return self.group(Building, [self.zone(z) for z in zones])


def verify(ctx, obj, meshes):
    pts, tri = obj.get_mesh()
    ctx.step()
    n = 0
    all_pts, all_tri = [], []
    for p, t in meshes:
        all_pts.extend(p.tolist())
        all_tri.extend((np.asarray(t) + n).tolist())
        n += len(p)
    ctx.check(np.shape(pts) == (n, 3) and np.shape(tri) == (len(all_tri), 3), "shape", pts=np.shape(pts), tri=np.shape(tri))
    ctx.check(pts.tolist() == all_pts, "points", got=pts[:20], expected=all_pts[:20])
    ctx.check(tri.tolist() == all_tri, "faces", got=tri[:20], expected=all_tri[:20])
    ctx.check(np.issubdtype(tri.dtype, np.integer), "dtype", dtype=str(tri.dtype))
    if n:
        lo, hi = obj.bbox()
        ctx.step()
        cols = list(zip(*all_pts))
        ctx.check(
            list(lo) == [min(c) for c in cols] and list(hi) == [max(c) for c in cols], "bbox", lo=lo, hi=hi
        )


def verify_all(ctx, obj, meshes):
    """Verifies the object and all its members."""
    verify(ctx, obj, meshes)
    k = 0

    def members(o):
        if isinstance(o, Polygon):
            return [o]
        return [p for c in o.children.values() for p in members(c)]

    for c in obj.children.values():
        m = len(members(c))
        if isinstance(c, Polygon):
            verify(ctx, c, meshes[k : k + m])
        else:
            verify_all(ctx, c, meshes[k : k + m])
        k += m
    ctx.check(k == len(meshes), "number", got=k, expected=len(meshes))


def solids():
    return [s for n in range(3) for s in itertools.product(WALLS, repeat=n)]


def zones():
    return [z for n in range(3) for z in itertools.product(solids(), repeat=n)]


def subset(tier):
    zs = zones()
    num = 60 if tier == "quick" else 400
    return [zs[0], zs[1]] + zs[2 :: max(1, len(zs) // num)]


def cases(tier):
    out = [["zone", i, i + 60] for i in range(0, len(zones()), 60)]
    n = len(subset(tier))
    out += [["building", tier, i] for i in range(n)]
    out += [["many", level, n] for level in range(4) for n in (1, 10, 255, 257, 999, 1000, 1001, 1500, 2500)]
    out += [["volume", i] for i in range(4)]
    return out


def run(case, ctx):
    if case[0] == "zone":
        for z in zones()[case[1] : case[2]]:
            ctx.at(zone=z)
            obj, meshes = Maker().zone(z)
            verify_all(ctx, obj, meshes)
            ctx.state("zone", z)
            ctx.trace("zone" if meshes else "zone-empty")
        ctx.sample(zone=z)
    elif case[0] == "building":
        zs = subset(case[1])
        first = zs[case[2]]
        for second in [None] + zs:
            b = [first] if second is None else [first, second]
            ctx.at(building=b)
            obj, meshes = Maker().building(b)
            verify_all(ctx, obj, meshes)
            ctx.state("building", str(b))
            ctx.trace("building" if meshes else "building-empty")
    elif case[0] == "many":
        _, level, n = case
        ctx.at(level=level, members=n)
        mk = Maker()
        if level == 0:
            obj, meshes = mk.wall(["t", "q"][k % 2] for k in range(n))
        elif level == 1:
            obj, meshes = mk.solid(["tq", "", "q"][k % 3] for k in range(n))
        elif level == 2:
            obj, meshes = mk.zone([("t",), ("q", "t")][k % 2] for k in range(n))
        else:
            obj, meshes = mk.building([(("t",),), (("q",), ("t",))][k % 2] for k in range(n))
        verify(ctx, obj, meshes)
        ctx.state("many", level, n)
        ctx.trace("many")
    else:
        run_volume(ctx, case[1])


def run_volume(ctx, first):
    def make(kind, k):
        at = (3.0 * k, -7.0, 100.0 * k)
        if kind == 0:
            return box(1, 1, 1, at, name=f"s{k}"), 1.0
        if kind == 1:
            return box(2, 2, 0.5, at, name=f"s{k}"), 2.0
        if kind == 2:
            plan = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]
            return floor_plan(plan, 2, translate=at, name=f"s{k}"), 10.0
        return floor_plan([(0, 0), (4, 0), (0, 4)], 5, translate=at, name=f"s{k}"), 40.0

    for n in range(0, 4):
        for kinds in itertools.product(range(4), repeat=n):
            kinds = (first,) + kinds
            # All ways to cut the list into up to 3 zones, also empty ones
            for i in range(len(kinds) + 1):
                for j in range(i, len(kinds) + 1):
                    ctx.at(solids=kinds, cuts=(i, j))
                    made = [make(kind, k) for k, kind in enumerate(kinds)]
                    parts = [made[:i], made[i:j], made[j:]]
                    zs = [Zone([s for s, _ in part], name=f"z{q}") for q, part in enumerate(parts)]
                    b = Building(zs, name="b")
                    for z, part in zip(zs, parts):
                        expected = sum(v for _, v in part)
                        ctx.check(abs(z.volume() - expected) < 1e-8 * max(1, expected), "zone-volume", got=z.volume())
                    total = sum(v for _, v in made)
                    ctx.check(abs(b.volume() - total) < 1e-8 * total, "building-volume", got=b.volume(), expected=total)
                    ctx.step(4)
                    ctx.state("volume", kinds, i, j)
                    ctx.trace("volume")
