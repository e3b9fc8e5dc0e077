"""Rooms with exactly known surfaces, ray simulations in them and what they have to obey.

The positions are judged in the coordinates of the room (before it is turned, scaled and moved).
"""

import math

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone
from building3d.io.arrayformat import get_polygon_points_and_faces
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation_loop import simulation_loop
from building3d.sim.rays.voxel_grid import make_voxel_grid

SPEED = 343.0

PLANS = {
    "cube": (((0, 0), (1, 0), (1, 1), (0, 1)), 1.0),
    "flat": (((0, 0), (4, 0), (4, 1), (0, 1)), 0.75),
    "tower": (((0, 0), (1, 0), (1, 1), (0, 1)), 3.0),
    "L": (((0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)), 1.0),
    "U": (((0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)), 1.0),
    "T": (((1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (0, 2), (0, 1), (1, 1)), 1.0),
    "plus": (((1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (2, 2), (2, 3), (1, 3), (1, 2), (0, 2), (0, 1), (1, 1)), 1.0),
    "triangle": (((0, 0), (2, 0), (0, 2)), 1.0),
    "wedge": (((0, 0), (3, 0), (3, 1)), 1.0),
    "arrow": (((0, 0), (2, 1), (0, 2), (1, 1)), 1.0),
    "house": (((0, 0), (2, 0), (2, 1), (1, 2), (0, 1)), 1.0),
    "hexagon": (((1, 0), (3, 0), (4, 2), (3, 4), (1, 4), (0, 2)), 2.0),
}


def turn(ax, ay, az):
    cx, sx, cy, sy, cz, sz = (f(math.radians(a)) for a in (ax, ay, az) for f in (math.cos, math.sin))
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return rz @ ry @ rx


# name: (rotation, scale, translation)
POSES = {
    "none": (np.eye(3), 1.0, (0, 0, 0)),
    "centred": (np.eye(3), 1.0, (-0.5, -0.5, -0.5)),
    "negative": (np.eye(3), 1.0, (-7.0, -3.0, -5.0)),
    "odd": (np.eye(3), 1.0, (0.37, -1.21, 12.3)),
    "far": (np.eye(3), 1.0, (1000.0, -2000.0, 500.0)),
    "big": (np.eye(3), 10.0, (3.0, 0.1, -20.0)),
    "small": (np.eye(3), 0.2, (-0.1, 0.3, 0.05)),
    "swapped": (np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]), 1.0, (0, 0, 0)),
    "mirror-turned": (np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]), 1.0, (0.3, 0.3, 0.3)),
    "turned30": (turn(0, 0, 30), 1.0, (0, 0, 0)),
    "turned45": (turn(0, 0, 45), 1.0, (2.0, -1.0, 0.5)),
    "tilted": (turn(20, 35, 50), 1.0, (-1.5, 0.25, 4.0)),
}


class Surface:
    """Part of a plane: vertical rectangle or a horizontal polygon, in the coordinates of the room."""

    def __init__(self, name, ring, normal, pts):
        self.name = name
        self.ring = ring  # horizontal polygons
        self.n = np.array(normal, dtype=float)
        self.pts = np.array(pts, dtype=float)
        if ring is None:
            self.lo = self.pts.min(axis=0)
            self.hi = self.pts.max(axis=0)
            self.a, self.b = self.pts[0][:2], self.pts[1][:2]

    def distance(self, p):
        """Distance of points shaped (n, 3)."""
        if self.ring is None:
            u = self.b - self.a
            t = np.clip(((p[:, :2] - self.a) @ u) / (u @ u), 0, 1)
            foot = self.a + t[:, None] * u
            dz = np.maximum(np.maximum(self.lo[2] - p[:, 2], p[:, 2] - self.hi[2]), 0)
            return np.sqrt(((p[:, :2] - foot) ** 2).sum(axis=1) + dz**2)
        dz = np.abs(p[:, 2] - self.pts[0][2])
        out = outline_distance(self.ring, p)
        out[inside_ring(self.ring, p)] = 0.0
        return np.sqrt(out**2 + dz**2)


def inside_ring(ring, p):
    """Even-odd rule for points (n, 2+)."""
    x, y = p[:, 0], p[:, 1]
    inside = np.zeros(len(p), dtype=bool)
    for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
        if y1 == y2:
            continue
        cond = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
        inside ^= cond
    return inside


def outline_distance(ring, p):
    best = np.full(len(p), np.inf)
    for a, b in zip(ring, ring[1:] + ring[:1]):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        u = b - a
        t = np.clip(((p[:, :2] - a) @ u) / (u @ u), 0, 1)
        best = np.minimum(best, np.sqrt(((p[:, :2] - a - t[:, None] * u) ** 2).sum(axis=1)))
    return best


class Room:
    """Closed room, its walls can be divided into several polygons."""

    def __init__(self, plan, pose="none", divided=False):
        ring, self.height = PLANS[plan]
        self.plan, self.pose = plan, pose
        self.ring = tuple((float(x), float(y)) for x, y in ring)
        self.rot, self.k, t = POSES[pose]
        self.t = np.array(t, dtype=float)
        h = self.height
        self.surfaces = []
        low = [(x, y, 0.0) for x, y in self.ring]
        top = [(x, y, h) for x, y in self.ring]
        self.surfaces.append(Surface("floor", self.ring, (0, 0, -1), low[::-1]))
        self.surfaces.append(Surface("roof", self.ring, (0, 0, 1), top))
        n = len(self.ring)
        for i in range(n):
            a, b = self.ring[i], self.ring[(i + 1) % n]
            u = np.array(b) - np.array(a)
            normal = np.array([u[1], -u[0], 0.0]) / math.hypot(*u)
            cuts = [0.0, h / 2, h] if divided and i % 2 == 0 else [0.0, h]
            for z0, z1 in zip(cuts[:-1], cuts[1:]):
                pts = [(*a, z0), (*b, z0), (*b, z1), (*a, z1)]
                self.surfaces.append(Surface(f"wall-{i}-{z0}", None, normal, pts))
        self.normals = np.array([s.n for s in self.surfaces])
        self.planes = np.array([s.pts[0] for s in self.surfaces])

    def world(self, p):
        return (np.atleast_2d(np.asarray(p, dtype=float)) @ self.rot.T) * self.k + self.t

    def local(self, p):
        return ((np.asarray(p, dtype=float) - self.t) @ self.rot) / self.k

    def building(self, order=1):
        polygons = []
        for s in self.surfaces:
            polygons.append(Polygon(self.world(s.pts), name=s.name, vn=self.rot @ s.n))
        walls = [Wall([p], name=p.name) for p in polygons[::order]]
        return Building([Zone([Solid(walls, name="s")], name="z")], name="b")

    def outside(self, p):
        """By how much points are outside."""
        dz = np.maximum(np.maximum(-p[:, 2], p[:, 2] - self.height), 0)
        d = outline_distance(self.ring, p)
        d[inside_ring(self.ring, p)] = 0.0
        return np.maximum(dz, d)

    def distances(self, p):
        return np.array([s.distance(p) for s in self.surfaces]).T


class Engine:
    """Arrays and voxel grid of a building, as prepared by the simulation."""

    def __init__(self, bdg, voxel):
        self.arrays = to_array_format(bdg)
        points, faces, polygons, walls = self.arrays[:4]
        self.pts = []
        for n in range(len(walls)):
            pts, _ = get_polygon_points_and_faces(points, faces, polygons, n)
            self.pts.append(pts)
        self.voxel = voxel
        lo, hi = points.min(axis=0), points.max(axis=0)
        self.grid = make_voxel_grid(
            min_xyz=(lo[0], lo[1], lo[2]), max_xyz=(hi[0], hi[1], hi[2]), poly_pts=self.pts, step=voxel, verbose=False
        )

    def run(
        self, pos, direction, length, steps, absorption, absorbers=None, radius=0.1, transparent=(-1,), energy=None, hits=None
    ):
        """length: distance covered in one step"""
        points, faces, polygons, walls = self.arrays[:4]
        pos = np.array(pos, dtype=float)
        direction = np.array(direction, dtype=float)
        velocity = direction / np.sqrt((direction**2).sum(axis=1))[:, None] * SPEED
        if absorbers is None:
            absorbers = [(1e6, 1e6, 1e6)]
        absorbers = np.array(absorbers, dtype=float).reshape(-1, 3)
        return simulation_loop(
            init_step=0,
            num_steps=steps,
            num_rays=len(pos),
            ray_speed=SPEED,
            time_step=length / SPEED,
            grid_step=self.voxel,
            grid=self.grid,
            position=pos,
            velocity=velocity,
            energy=np.ones(len(pos)) if energy is None else np.array(energy, dtype=float),
            hits=np.zeros(len(absorbers)) if hits is None else np.array(hits, dtype=float),
            absorbers=absorbers,
            absorber_radius=float(radius),
            points=points,
            faces=faces,
            polygons=polygons,
            walls=walls,
            transparent_polygons=set(transparent),
            surf_absorption=np.array(absorption, dtype=float),
            verbose=False,
        )


def reflections(normals, v, near, limit=30, width=200):
    """All (direction, reflecting surfaces) obtained by mirror reflections at near surfaces ahead, also none.

    Normals point from the ray's position to the plane of the surface.

    Sequences leading to the same direction with the same numbers of reflections are given once.
    """
    layer = [(np.array(v), ())]
    found = list(layer)
    seen = set()
    for _ in range(limit):
        new = []
        for d, path in layer:
            for j in near:
                along = d @ normals[j]
                if along > 1e-12 and (not path or path[-1] != j):
                    e = d - 2 * along * normals[j]
                    key = (tuple(np.round(e, 6) + 0.0), tuple(sorted(path + (j,))))
                    if key not in seen:
                        seen.add(key)
                        new.append((e, path + (j,)))
        found += new
        layer = new[:width]
        if not layer:
            break
    return found


class Film:
    """Recorded rays in the coordinates of the room, with everything needed to judge them.

    Lengths are in units of the room, also if it is scaled.
    """

    def __init__(self, room, pos, enr, direction, length):
        self.room = room
        self.pos = np.array([room.local(p) for p in pos])
        self.enr = np.array(enr)
        self.length = length
        self.steps = len(pos) - 1
        d = np.array(direction, dtype=float)
        self.start = d / np.sqrt((d**2).sum(axis=1))[:, None]
        # Rounding of world coordinates, expressed in units of the room
        self.tol = 1e-10 + 1e-13 * np.abs(pos[0]).max() / room.k
        self.move = self.pos[1:] - self.pos[:-1]
        self.alive = self.enr[1:] > 1e-6
        self.dirs = self.move / length
        # Directions before each step
        self.before = np.concatenate([self.start[None], self.dirs[:-1]])
        # Rays running within the plane of a surface are not judged
        grazing = np.zeros(self.alive.shape, dtype=bool)
        for s in room.surfaces:
            for d in (self.before, self.dirs):
                off = np.abs((self.pos[:-1] - s.pts[0]) @ s.n)
                grazing |= (off < 1e-6) & (np.abs(d @ s.n) < 1e-6)
        self.judged = ~np.logical_or.accumulate(grazing, axis=0)

    def outside(self):
        n, m, _ = self.pos.shape
        return self.room.outside(self.pos.reshape(-1, 3)).reshape(n, m)

    def turns(self):
        """Steps and rays at which the direction changes."""
        change = np.abs(self.dirs - self.before).max(axis=2) > 1e-7
        return change & self.alive & self.judged

    def near(self, s, r, reach):
        """Normals pointing away from the ray, indices of near surfaces."""
        p = self.pos[s, r]
        near = np.flatnonzero(self.room.distances(p[None])[0] <= reach * self.length + 10 * self.tol)
        # Edges between walls can be hit from behind one of them
        behind = ((self.room.planes - p) * self.room.normals).sum(axis=1) < 0
        return np.where(behind[:, None], -self.room.normals, self.room.normals), near

    def explained(self, s, r, reach, tol=1e-7):
        """Mirror sequences leading to the direction taken by ray r in step s."""
        normals, near = self.near(s, r, reach)
        return [
            path
            for d, path in reflections(normals, self.before[s, r], near)
            if np.abs(d - self.dirs[s, r]).max() < tol
        ]

    def simple_turns(self, turns, reach):
        """Index of the only near surface explaining the turn, or -1, for (step, ray) pairs."""
        s, r = np.nonzero(turns)
        found = np.full(len(s), -1)
        if len(s) == 0:
            return s, r, found
        near = self.room.distances(self.pos[s, r]) <= reach * self.length + 10 * self.tol
        old, new = self.before[s, r], self.dirs[s, r]
        for j, n in enumerate(self.room.normals):
            along = old @ n
            mirrored = old - 2 * along[:, None] * n
            same = np.abs(mirrored - new).max(axis=1) < 1e-7
            found[same & near[:, j] & (along > 1e-12)] = j
        return s, r, found


def sources(room, step, heights):
    """Lattice points in the room and off the surfaces, alternating between the heights."""
    ring = np.array(room.ring)
    lo, hi = ring.min(axis=0), ring.max(axis=0)
    pts = []
    for i in range(1, int(round((hi[0] - lo[0]) / step))):
        for j in range(1, int(round((hi[1] - lo[1]) / step))):
            z = heights[(i + j) % len(heights)]
            pts.append((lo[0] + i * step, lo[1] + j * step, z * room.height))
    pts = np.array(pts, dtype=float).reshape(-1, 3)
    ok = (room.outside(pts) == 0) & (room.distances(pts).min(axis=1) > 1e-3)
    return pts[ok]


def fan(points, directions):
    """All points x all directions."""
    return (
        np.repeat(np.array(points), len(directions), axis=0),
        np.tile(np.array(directions, dtype=float), (len(points), 1)),
    )


def all_directions():
    out = []
    for x in (-1, 0, 1):
        for y in (-1, 0, 1):
            for z in (-1, 0, 1):
                if x or y or z:
                    out.append((float(x), float(y), float(z)))
    return out


def skew_directions():
    out = []
    for a in ((3, 1, 2), (1, 5, -1), (-2, 1, 7), (0.1, -1, 0.02), (-1, -0.3, 0.001), (5, -4, -3)):
        for s in ((1, 1, 1), (-1, 1, -1), (1, -1, -1)):
            out.append(tuple(x * y for x, y in zip(a, s)))
    return out


def fingerprints(film, *tag):
    """Hashes of distinct (ray state) of a film."""
    s = np.concatenate([film.pos[:-1], film.before, film.enr[:-1, :, None]], axis=2).reshape(-1, 7)
    k = np.round(s * 1e6).astype(np.int64).astype(np.uint64)
    h = np.full(len(k), hash(tag) & 0xFFFFFFFFFFFFFFFF, dtype=np.uint64)
    for c in range(k.shape[1]):
        h = (h ^ k[:, c]) * np.uint64(0x9E3779B97F4A7C15)
        h ^= h >> np.uint64(29)
    return np.unique(h).astype(np.int64)
