"""The ray's next surface is never overlooked."""

import itertools

import numpy as np

from building3d.io.arrayformat import get_polygon_points_and_faces
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.find_nearby_polygons import find_nearby_polygons
from building3d.sim.rays.find_target import find_target_surface
from building3d.sim.rays.voxel_grid import make_voxel_grid
from mc import rays

ID = "R06"
BOUNDS = {
    "quick": "candidates: 12 room plans in 12 positions, sizes and orientations x 5 cell sizes, and boxes with each "
    "coordinate of a corner at -40 to 40 cells, shifted by 0 and +-0.0001, x 7 cell sizes; all lattice points, corners "
    "of cells and points next to surfaces. Targets: 12 room plans in 4 positions (also with some walls transparent, "
    "with some walls not examined, seen from outside) x lattice points x 44 directions; 2 and 3 parallel surfaces at distances "
    "of 0.003 to 1 in all orders, along 3 axes, from 3 sides x 10 directions",
    "thorough": "candidates: as in the quick tier with a finer lattice; targets: 12 room plans in 12 positions",
}
ASSUMPTIONS = [
    "nearest surface: by distance to the surface or along the ray",
    "surfaces hit within 0.005 of their edges or passed nearly parallel may be the target or not",
]


def arrays(bdg):
    points, faces, polygons, walls = to_array_format(bdg)[:4]
    pts, tri = [], []
    for n in range(len(walls)):
        p, t = get_polygon_points_and_faces(points, faces, polygons, n)
        pts.append(p)
        tri.append(t)
    return points, pts, tri


def voxels(points, pts, step):
    lo, hi = points.min(axis=0), points.max(axis=0)
    return make_voxel_grid(
        min_xyz=(lo[0], lo[1], lo[2]), max_xyz=(hi[0], hi[1], hi[2]), poly_pts=pts, step=step, verbose=False
    )


def cases(tier):
    out = []
    for plan in rays.PLANS:
        for pose in rays.POSES:
            out.append(["near", plan, pose])
            if tier == "thorough" or pose in ("none", "odd", "tilted", "turned45"):
                out.append(["target", plan, pose])
    for step in (0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 1.0):
        for first in range(-40, 41, 9):
            out.append(["corner", step, first])
    out += [["parallel", axis, n] for axis in range(3) for n in (2, 3)]
    return out


def run(case, ctx):
    {"near": near, "corner": corner, "target": target, "parallel": parallel}[case[0]](case, ctx)


def examine(ctx, grid, step, world, dist, tag):
    """All surfaces within a cell size of the points must be among the candidates."""
    done = {}
    for p, d in zip(world, dist):
        key = tuple(int(np.floor(x / step)) for x in p)
        if key not in done:
            done[key] = set(int(i) for i in find_nearby_polygons(*key, grid))
            ctx.step()
            ctx.state(tag, key, step)
        need = set(np.flatnonzero(d < step * (1 - 1e-9)).tolist())
        if not ctx.check(
            need <= done[key],
            "surface-overlooked",
            position=p,
            cell=key,
            step=step,
            missing=sorted(need - done[key]),
            distances=d,
        ):
            return


def near(case, ctx):
    _, plan, pose = case
    room = rays.Room(plan, pose)
    points, pts, _ = arrays(room.building())
    lattice = 0.25 if ctx.tier == "quick" else 0.125
    size = np.array(room.ring).max(axis=0)
    axes = [np.arange(0, v + 1e-9, lattice) for v in (*size, room.height)]
    p = np.array(list(itertools.product(*axes)))
    # Next to the surfaces
    mids = np.array([s.pts.mean(axis=0) for s in room.surfaces])
    close = np.concatenate([mids - o * room.normals for o in (1e-6, 1e-3, 0.05)])
    p = np.concatenate([p, close])
    p = p[room.outside(p) == 0]
    dist = room.distances(p) * room.k
    world = room.world(p)
    for step in (0.13, 0.3, 0.5, 1.0, 4.0):
        ctx.at(case=case, step=step)
        step = step * room.k
        grid = voxels(points, pts, step)
        examine(ctx, grid, step, world, dist, (plan, pose))
        ctx.trace("room", len(p))
    ctx.sample(case=case, points=len(p))


def corner(case, ctx):
    """Boxes with faces close to the borders of cells."""
    _, step, first = case
    room = rays.Room("cube")
    for k in range(first, min(first + 9, 41)):
        for eps in (0.0, 1e-4, -1e-4):
            for axis in range(3):
                ctx.at(case=case, k=k, eps=eps, axis=axis)
                room.t = np.array([0.1 * step] * 3)
                room.t[axis] = k * step + eps
                room.k = 2.3 * step
                bdg = room.building()
                points, pts, _ = arrays(bdg)
                grid = voxels(points, pts, step)
                lo, hi = points.min(axis=0), points.max(axis=0)
                p = []
                values = [[lo[i] + 0.3 * step] for i in range(3)]
                values[axis] = [lo[axis], hi[axis]] + [lo[axis] + f * step for f in (1e-9, 0.5, 1.0, 1.5, 2.0, 2.2)]
                for v in range(int(np.floor(lo[axis] / step)), int(np.floor(hi[axis] / step)) + 2):
                    if lo[axis] <= v * step <= hi[axis]:
                        values[axis].append(v * step)
                p = np.array(list(itertools.product(*values)))
                dist = room.distances(room.local(p)) * room.k
                examine(ctx, grid, step, p, dist, (step, k, eps, axis))
                ctx.trace("box", len(p))
                ctx.sample(case=case, lo=lo, hi=hi)


def hits(room, p, d):
    """Distance along the ray to each surface, "sure", "maybe" or "no"."""
    out = []
    for s in room.surfaces:
        along = d @ s.n
        off = (s.pts[0] - p) @ s.n
        if abs(along) < 1e-9:
            # Parallel: the surface is hit only if the ray is in its plane
            out.append(("maybe" if abs(off) < 0.005 else "no", 0.0))
            continue
        t = off / along
        if abs(off) < 0.005:
            out.append(("maybe", abs(t)))
            continue
        if t < 0:
            out.append(("no", t))
            continue
        x = p + t * d
        # Distance in the plane of the surface to its outline
        if s.ring is not None:
            edge = rays.outline_distance(s.ring, x[None])[0]
            inner = rays.inside_ring(s.ring, x[None])[0]
        else:
            u = s.b - s.a
            w = np.linalg.norm(u)
            a = (x[:2] - s.a) @ u / w
            gaps = (a, w - a, x[2] - s.lo[2], s.hi[2] - x[2])
            inner = min(gaps) > 0
            edge = abs(min(gaps))
        sure = 0.005 * max(1.0, 1.0 / abs(along))
        out.append(("maybe" if edge < sure else "sure" if inner else "no", t))
    return out


def target(case, ctx):
    _, plan, pose = case
    room = rays.Room(plan, pose)
    points, pts, tri = arrays(room.building())
    n = len(pts)
    src = rays.sources(room, 0.5, (0.5, 0.3))
    if len(src) < 4:
        src = rays.sources(room, 0.25, (0.5, 0.3))
    src = src[:: max(1, len(src) // 4)][:5]
    ring = np.array(room.ring)
    out = np.array([[-0.5, 0.3, 0.4 * room.height], [*(ring.max(axis=0) + 0.4), room.height + 0.3], [0.4, 0.35, -0.3]])
    dirs = np.array(rays.all_directions() + rays.skew_directions())
    dirs = dirs / np.sqrt((dirs**2).sum(axis=1))[:, None]
    views = [(set([-1]), set(range(n)), "all")]
    for k in range(2):
        views.append((set(range(k, n, 2)), set(range(n)), "transparent"))
        views.append((set([-1]), set(range(k, n, 2)), "some"))
    views.append((set([n - 1, 0]), set(range(n - 1)) | {n - 1}, "transparent"))
    for i, p in enumerate(np.concatenate([src, out])):
        dist = room.distances(p[None])[0]
        for j, d in enumerate(dirs):
            verdict = hits(room, p, d)
            # All views for the first point, in turn for the others
            for transparent, examined, what in views if i == 0 else (views[0], views[1 + (i + j) % (len(views) - 1)]):
                ctx.at(case=case, position=p, direction=d, transparent=sorted(transparent), examined=sorted(examined))
                got = find_target_surface(
                    room.world(p)[0],
                    (room.rot @ d) * 343.0,
                    pts,
                    tri,
                    set(transparent),
                    set(examined),
                    atol=1e-3,
                )
                ctx.step()
                ctx.state(plan, pose, i, j, tuple(sorted(transparent)), tuple(sorted(examined)))
                usable = [q for q in range(n) if q in examined and q not in transparent]
                sure = [q for q in usable if verdict[q][0] == "sure"]
                if got < 0:
                    ctx.check(not sure, "target-missed", surfaces=sure)
                    ctx.trace("none")
                    continue
                if not ctx.check(got in usable, "not-a-candidate", got=got):
                    continue
                if not ctx.check(verdict[got][0] != "no", "not-hit", got=got, along=verdict[got][1]):
                    continue
                nearest = not sure or (
                    dist[got] <= min(dist[q] for q in sure) + 1e-9
                    or verdict[got][1] <= min(verdict[q][1] for q in sure) + 1e-9
                )
                ctx.check(
                    nearest,
                    "not-nearest",
                    got=got,
                    distance=dist[got],
                    along=verdict[got][1],
                    others={q: [dist[q], verdict[q][1]] for q in sure},
                )
                ctx.trace("target-" + what)
    ctx.sample(case=case, points=len(src))


def parallel(case, ctx):
    """Surfaces close behind one another."""
    _, axis, n = case
    square = np.array([[0.0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0]])
    tri = [np.array([[0, 1, 2], [0, 2, 3]], dtype=np.int32)] * n
    turn = lambda p: np.ascontiguousarray(np.roll(p, axis, axis=-1))
    for gaps in itertools.product((0.003, 0.008, 0.03, 0.2, 1.0), repeat=n - 1):
        heights = np.concatenate([[0.0], np.cumsum(gaps)])
        for order in itertools.permutations(range(n)):
            levels = heights[list(order)]
            pts = [turn(square + [0, 0, h]) for h in levels]
            # Below, above and between the surfaces
            for start in (-0.5, heights[-1] + 0.5, heights[0] + 0.5 * gaps[0]):
                for d in [(x, y, z) for x in (0.0, 0.3) for y in (0.0, -0.5) for z in (1.0, -1.0)] + [(1, 0, 0), (0.7, 0.7, 0)]:
                    p = np.array([2.0, 2.0, start])
                    ctx.at(case=case, levels=levels, position=p, direction=d)
                    got = find_target_surface(
                        turn(p), turn(np.array(d, dtype=float)) * 343.0, pts, tri, set([-1]), set(range(n)), atol=1e-3
                    )
                    ctx.step()
                    ctx.state(axis, gaps, order, start, d)
                    ahead = [(abs(h - start), q) for q, h in enumerate(levels) if (h - start) * d[2] > 0]
                    expected = min(ahead)[1] if ahead else -1
                    ctx.check(got == expected, "not-nearest", got=got, expected=expected)
                    ctx.trace("parallel" if ahead else "none")
    ctx.sample(case=case)
