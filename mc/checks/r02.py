"""Rays keep their speed, reflect like in a mirror and stay in the room."""

import numpy as np

from mc import rays

ID = "R02"
BOUNDS = {
    "quick": "12 room plans (convex, non-convex, oblique) x 6 to 12 positions, sizes and orientations in space x all "
    "source points of a lattice x 44 directions (26 axial and diagonal ones, which run into edges and corners, and 18 "
    "others) x step lengths 0.05, 0.1, 0.2 x cell sizes from the smallest admissible one to the whole room, 40 steps "
    "each; sources exactly at the reflection distance from each surface; walls divided into several polygons",
    "thorough": "12 room plans x 12 positions, sizes and orientations x finer lattice of source points x 44 directions "
    "x 3 step lengths x 3 cell sizes, 80 steps each; sources exactly at the reflection distance; divided walls",
}
ASSUMPTIONS = [
    "a ray does not run exactly within the plane of a wall",
    "rooms and cells are larger than the reflection distance",
    "surfaces absorb a small amount of energy",
]
WORKERS = 7
CPU_LIMIT = {"quick": 350, "thorough": 3000}
BUDGET = {"quick": 600, "thorough": 9000}

# Surfaces closer than this many step lengths may reflect
REACH = 1.02
QUICK_POSES = ["none", "centred", "far", "small", "turned30", "tilted"]


def cases(tier):
    out = []
    for plan in rays.PLANS:
        for pose in rays.POSES:
            quick = pose in QUICK_POSES
            if tier == "thorough":
                for length in (0.05, 0.1, 0.2):
                    for voxel in (1.02 * length, 0.5, 5.0):
                        for divided in (False, True):
                            out.append([plan, pose, length, voxel, divided, True, 80])
                continue
            out.append([plan, pose, 0.1, 0.5, False, False, 40])
            if quick:
                out.append([plan, pose, 0.2, 0.25, True, False, 25])
                out.append([plan, pose, 0.05, 5.0, False, False, 40])
                out.append([plan, pose, 0.1, 0.102, False, False, 25])
    return out


def start(room, length, fine):
    """Sources and directions."""
    # The coarsest lattice with some points in the room
    for step in (1.0, 0.5, 0.25):
        pts = rays.sources(room, step, (0.5, 0.3))
        if len(pts) >= 4:
            break
    if fine:
        pts = rays.sources(room, step / 2, (0.5, 0.3))
    p, d = rays.fan(pts, rays.all_directions() + rays.skew_directions())
    # Exactly at the reflection distance from a surface, moving towards it and away from it
    reach = 1.01 * (rays.SPEED * (length / rays.SPEED))
    inner = rays.sources(room, 0.25, (0.5,))
    edge, way = [], []
    for s in room.surfaces:
        for q in inner[:: max(1, len(inner) // 5)]:
            off = (s.pts[0] - q) @ s.n
            x = q + (off - reach) * s.n
            if room.outside(x[None])[0] > 0 or room.distances(x[None])[0].min() < 1e-3:
                continue
            for v in (s.n, -s.n, s.n + np.array([0.3, 0.2, 0.1])):
                edge.append(x)
                way.append(v)
    if edge:
        p = np.concatenate([p, np.array(edge)])
        d = np.concatenate([d, np.array(way)])
    return p, d


def run(case, ctx):
    plan, pose, length, voxel, divided, fine, steps = case
    ctx.at(case=case)
    room = rays.Room(plan, pose, divided)
    engine = rays.Engine(room.building(), voxel * room.k)
    p, d = start(room, length, fine)
    pos, enr, _ = engine.run(
        room.world(p), d @ room.rot.T, length * room.k, steps, np.full(len(room.surfaces), 0.004)
    )
    film = rays.Film(room, pos, enr, d, length)
    judge(film, ctx, case)
    ctx.states.update(rays.fingerprints(film, *case).tolist())
    ctx.step(pos.shape[0] * pos.shape[1] - pos.shape[1])
    ctx.trace(plan, len(p))
    ctx.sample(case=case, source=p[0], direction=d[0], last=film.pos[-1][0], energy=film.enr[-1][0])


def judge(film, ctx, case):
    room, length = film.room, film.length
    ok = film.alive & film.judged

    def report(key, mask, **more):
        for s, r in np.argwhere(mask)[:2]:
            ctx.fail(
                key,
                source=film.pos[0, r],
                direction=film.start[r],
                step=int(s),
                position=film.pos[max(0, s - 1) : s + 2, r],
                energy=film.enr[max(0, s - 1) : s + 2, r],
                **more,
            )

    ctx.check(film.pos.shape[1] == len(film.start), "rays", n=film.pos.shape)
    # A ray may lose all of its energy only at surfaces, here never within these numbers of steps
    report("energy-lost", (film.enr[1:] <= 1e-6) & film.judged)
    size = np.sqrt((film.move**2).sum(axis=2))
    report("step-length", ok & (np.abs(size - length) > 100 * film.tol))
    report("left-the-room", (film.outside()[1:] > 1e-7) & film.judged)
    turns = film.turns()
    s, r, found = film.simple_turns(turns, REACH)
    for s, r in zip(s[found < 0], r[found < 0]):
        if not ctx.check(
            film.explained(s, r, REACH),
            "no-mirror-reflection",
            source=film.pos[0, r],
            direction=film.start[r],
            step=int(s),
            position=film.pos[max(0, s - 1) : s + 2, r],
            before=film.before[s, r],
            after=film.dirs[s, r],
        ):
            break
