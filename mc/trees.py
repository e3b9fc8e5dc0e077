"""Small buildings of every shape, used by the input and output checks."""

import itertools
from functools import lru_cache

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from mc import geo
from mc import polys
from mc.shapes import PLANES
from mc.shapes import Plane

NAMES = ["a", "b c", 'q"u\'o', "é中\U0001f600", "a.b", "0", "uid", "pts", "tab\t", "back\\slash", "{x}", "zones", "name", "line\nbreak", " "]

# plane, factor, shift
SPOTS = [(name, 1.0, 0.0) for name in PLANES] + [
    ("xy", 1 / 3, 0.1 + 0.2),
    ("tilt122", 1 / 7, -12.3456789),
    ("xz", 1e-3, 1 / 3),
    ("yz", 1e3, 1e5 + 1 / 3),
]

SMALL = [
    ((0, 0), (1, 0), (0, 1)),
    ((0, 0), (1, 0), (1, 1), (0, 1)),
    ((1, 1), (0, 2), (0, 0), (2, 0), (2, 2)),  # starts at a non-convex corner
    ((1, 0), (2, 0), (2, 2), (0, 2), (0, 0)),  # starts at a straight corner
]


@lru_cache(None)
def forests(nodes, depth):
    """All sequences of trees with that many nodes altogether and at most that many levels."""
    if nodes == 0:
        return ((),)
    if depth == 0:
        return ()
    out = []
    for first in range(1, nodes + 1):
        for sub in forests(first - 1, depth - 1):
            for rest in forests(nodes - first, depth):
                out.append((sub,) + rest)
    return tuple(out)


def trees(max_nodes):
    """All zones/solids/walls/polygons below a building."""
    return [f for n in range(max_nodes + 1) for f in forests(n, 4)]


def one_wall(n):
    """One wall with n polygons."""
    wall = ((),) * n
    solid = (wall,)
    zone = (solid,)
    return (zone,)


def figures():
    """All polygons of the 3x3 lattice with any start and direction."""
    return [ring for p in polys.all_3x3() for _, ring in geo.rotations(p)]


def place(ring, spot):
    """Points in space and normal."""
    name, factor, shift = spot
    plane = Plane(name)
    up = 1.0 if geo.area2(ring) > 0 else -1.0
    return plane.pts(ring) * factor + shift, plane.n * up


class Maker:
    """Creates buildings; names and figures are taken in turn."""

    def __init__(self, first=0, names=NAMES, rings=SMALL, uids=True):
        self.k = first
        self.names = names
        self.rings = rings
        self.uids = uids
        self.num = 0

    def polygon(self, name):
        k = self.k + self.num
        pts, vn = place(self.rings[k % len(self.rings)], SPOTS[k % len(SPOTS)])
        self.num += 1
        if self.uids:
            return Polygon(pts, name=name, uid=f"uid {k}", vn=vn)
        return Polygon(pts, name=name, vn=vn)

    def members(self, n, level):
        """The same names are used at several places."""
        return [self.names[(self.k + level + i) % len(self.names)] for i in range(n)]

    def building(self, tree):
        zones = []
        for zn, zt in zip(self.members(len(tree), 0), tree):
            solids = []
            for sn, st in zip(self.members(len(zt), 0), zt):
                walls = []
                for wn, wt in zip(self.members(len(st), 1), st):
                    walls.append(Wall([self.polygon(pn) for pn in self.members(len(wt), 2)], name=wn))
                solids.append(Solid(walls, name=sn))
            zones.append(Zone(solids, name=zn))
        return Building(zones, name=self.names[self.k % len(self.names)])


def geometry(p):
    return p.pts.tolist(), p.tri.tolist(), p.vn.tolist()


def full(bdg):
    """Everything, to be compared for equality."""
    return (
        bdg.name,
        bdg.uid,
        [
            (z.name, z.uid, [
                (s.name, s.uid, [
                    (w.name, w.uid, [(p.name, p.uid, geometry(p)) for p in w.polygons.values()])
                    for w in s.walls.values()
                ])
                for s in z.solids.values()
            ])
            for z in bdg.zones.values()
        ],
    )


def flat(bdg, content):
    """All polygons with what is to be compared."""
    return [
        content(z, s, w, p)
        for z in bdg.zones.values()
        for s in z.solids.values()
        for w in s.walls.values()
        for p in w.polygons.values()
    ]


def linked(bdg):
    """Children know their parents and are stored under their names."""
    for zn, z in bdg.zones.items():
        if zn != z.name or z.parent is not bdg:
            return False
        for sn, s in z.solids.items():
            if sn != s.name or s.parent is not z:
                return False
            for wn, w in s.walls.items():
                if wn != w.name or w.parent is not s:
                    return False
                for pn, p in w.polygons.items():
                    if pn != p.name or p.parent is not w:
                        return False
    return True


def same_geometry(p, q):
    """Exactly the same points and triangles, same normal up to rounding."""
    return (
        p.pts.shape == q.pts.shape
        and p.tri.shape == q.tri.shape
        and bool((p.pts == q.pts).all())
        and bool((p.tri == q.tri).all())
        and bool(np.abs(p.vn - q.vn).max() < 1e-9)
    )


def all_polygons(bdg):
    return flat(bdg, lambda z, s, w, p: p)


# Buildings changed after their creation

OPERATIONS = ["stitch", "replace-polygon", "replace-wall", "split-polygon", "add-wall", "add-zone", "number"]


def start(k):
    from building3d.geom.solid.box import box
    from building3d.geom.solid.floor_plan import floor_plan

    if k == 0:
        return Building([Zone([box(1, 1, 1, name="a"), box(1, 2, 1, (1, 0, 0), name="b")], name="z")], name="bdg")
    if k == 1:
        plan = [(0, 0), (2, 0), (2, 2), (1, 1), (0, 2)]
        return Building(
            [Zone([floor_plan(plan, 1.5, name="a")], name="z"), Zone([box(0.1, 0.2, 0.3, (2, 0, 0), name="a")], name="y")],
            name="bdg",
        )
    raise ValueError(k)


def duplicate(p, name):
    return Polygon(p.pts.copy(), name=name, vn=p.vn.copy())


def histories(tier):
    """All sequences of changes, beginning with one of the buildings."""
    length = 3 if tier == "quick" else 4
    return [(k, h) for k in (0, 1) for n in range(length + 1) for h in itertools.product(OPERATIONS, repeat=n)]


def after(k, history):
    bdg = start(k)
    for n, op in enumerate(history):
        change(bdg, op, n)
    return bdg


def change(bdg, op, n):
    """Modifies the building, n makes the names of new members unique."""
    from building3d.io.arrayformat import to_array_format

    zone = list(bdg.zones.values())[0]
    solid = list(zone.solids.values())[-1]
    if op == "stitch":
        bdg.stitch_solids()
    elif op == "replace-polygon":
        wall = list(solid.walls.values())[0]
        old = list(wall.polygons.values())[0]
        wall.replace_polygon(old.name, duplicate(old, f"new-{n}"))
    elif op == "replace-wall":
        old = list(solid.walls.values())[0]
        solid.replace_wall(old.name, Wall([duplicate(p, p.name) for p in old.polygons.values()], name=f"replaced-{n}"))
    elif op == "split-polygon":
        wall = list(solid.walls.values())[1]
        old = list(wall.polygons.values())[-1]
        parts = [
            Polygon(np.array([old.pts[i] for i in t]), name=f"part-{n}-{k}", vn=old.vn.copy())
            for k, t in enumerate(old.tri)
        ]
        wall.replace_polygon(old.name, *parts)
    elif op == "add-wall":
        pts, vn = place(SMALL[2], SPOTS[9])
        solid.add_wall(Wall([Polygon(pts, name="p", vn=vn)], name=f"added-{n}"))
    elif op == "add-zone":
        bdg.add_zone(Zone(name=f"zone-{n}"))
        pts, vn = place(SMALL[3], SPOTS[8])
        bdg.add_zone(Zone([Solid([Wall([Polygon(pts, vn=vn)], name="w")], name="s")], name=f"zone2-{n}"))
    elif op == "number":
        to_array_format(bdg)
    else:
        raise ValueError(op)
