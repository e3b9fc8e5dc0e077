"""Ray energy is fully accounted for."""

import numpy as np

from mc import rays
from mc.checks.r02 import REACH
from mc.checks.r02 import start

ID = "R03"
BOUNDS = {
    "quick": "12 room plans x 4 positions, sizes and orientations in space x all source points of a lattice x 44 "
    "directions x 2 sets of absorption coefficients (all sums distinct; 0 to 1) x 7 absorber layouts (some in 2 positions; none, one, at "
    "the source, by a wall, overlapping ones, identical ones, one covering the room), starting energies from 0 to 1, "
    "24 steps each",
    "thorough": "12 room plans x 12 positions, sizes and orientations x finer lattice of source points x 44 "
    "directions x 2 sets of absorption coefficients x 7 absorber layouts, 3 step lengths, 60 steps each",
}
ASSUMPTIONS = [
    "a ray does not run exactly within the plane of a wall",
    "a ray within the radius of several absorbers is recorded by any one of them",
    "rays exactly at the radius of an absorber may be recorded or not",
]
WORKERS = 7
CPU_LIMIT = {"quick": 350, "thorough": 3000}
BUDGET = {"quick": 600, "thorough": 9000}
EPS = 1e-6

LAYOUTS = ["none", "one", "source", "wall", "overlapping", "identical", "covering"]


def cases(tier):
    out = []
    poses = list(rays.POSES) if tier == "thorough" else ["none", "odd", "big", "tilted"]
    i = 0
    for plan in rays.PLANS:
        for pose in poses:
            for coeffs in ("distinct", "strong"):
                for layout in LAYOUTS:
                    if tier == "thorough":
                        for length in (0.05, 0.1, 0.2):
                            out.append([plan, pose, coeffs, layout, length, True, 60])
                        continue
                    # Without absorbers it is a matter of surfaces only
                    if coeffs == "strong" and layout not in ("none", "overlapping"):
                        continue
                    if layout in ("covering", "identical", "source") and pose not in ("none", "tilted"):
                        continue
                    out.append([plan, pose, coeffs, layout, (0.1, 0.2, 0.05)[i % 3], False, 24])
                    i += 1
    return out


def coefficients(name, n):
    if name == "distinct":
        return 0.005 + 1e-5 * 2.0 ** np.arange(n)
    return np.array([(0.0, 0.3, 0.5, 1.0, 0.25, 0.999999, 0.1)[i % 7] for i in range(n)])


def layout_points(name, room, src):
    """Absorbers and their radius, in room coordinates."""
    ring = np.array(room.ring)
    mid = src[len(src) // 2]
    if name == "none":
        return np.array([[50.0, 50.0, 50.0]]), 0.1
    if name == "one":
        return np.array([mid + (0.05, 0.02, -0.1)]), 0.15
    if name == "source":
        return np.array([src[0], src[-1]]), 0.13
    if name == "wall":
        a = (ring[0] + ring[1]) / 2
        b = ring[2]
        return np.array([[a[0], a[1], room.height / 2], [b[0], b[1], 0.0]]), 0.23
    if name == "overlapping":
        return np.array([mid + (0.1, 0, 0), mid, mid + (0, 0.13, 0.05)]), 0.17
    if name == "identical":
        return np.array([mid + (0.07, 0.1, 0)] * 2 + [mid - (0.2, 0.1, 0)]), 0.1
    return np.array([mid]), 20.0


def energies(n, layout):
    if layout in ("one", "overlapping", "wall"):
        return np.array([(1.0, 0.5, 0.0, 1.0, 0.015, 1e-7, 1.0)[i % 7] for i in range(n)])
    return np.ones(n)


def run(case, ctx):
    plan, pose, coeffs, layout, length, fine, steps = case
    ctx.at(case=case)
    room = rays.Room(plan, pose)
    engine = rays.Engine(room.building(), max(0.25, 1.02 * length) * room.k)
    p, d = start(room, length, fine)
    absorption = coefficients(coeffs, len(room.surfaces))
    absorbers, radius = layout_points(layout, room, p)
    energy = energies(len(p), layout)
    before = [0.5] * len(absorbers)
    pos, enr, hit = engine.run(
        room.world(p),
        d @ room.rot.T,
        length * room.k,
        steps,
        absorption,
        absorbers=room.world(absorbers),
        radius=radius * room.k,
        energy=energy,
        hits=before,
    )
    ctx.check(np.array_equal(enr[0], energy), "initial-energy", expected=energy[:9], got=enr[0][:9])
    ctx.check(np.array_equal(hit[0], before), "initial-hits", got=hit[0])
    film = rays.Film(room, pos, enr, d, length)
    judge(film, hit, absorption, absorbers, radius, ctx)
    ctx.states.update(rays.fingerprints(film, *case).tolist())
    ctx.step(pos.shape[0] * pos.shape[1] - pos.shape[1])
    ctx.trace(layout, len(p))
    ctx.sample(case=case, source=p[0], direction=d[0], energy=film.enr[::5, 0], hits=hit[-1])


def judge(film, hit, absorption, absorbers, radius, ctx):
    room = film.room
    e0, e1 = film.enr[:-1], film.enr[1:]
    active = e0 > EPS
    still = np.abs(film.move).max(axis=2) == 0

    def report(key, mask, **more):
        for s, r in np.argwhere(mask)[:2]:
            ctx.fail(
                key,
                source=film.pos[0, r],
                direction=film.start[r],
                step=int(s),
                position=film.pos[max(0, s - 1) : s + 2, r],
                energy=film.enr[max(0, s - 1) : s + 2, r],
                **more,
            )

    report("energy-grows", e1 > e0)
    report("negative-energy", e1 < 0)

    # Absorbers
    inside = np.zeros((len(absorbers),) + e0.shape, dtype=bool)
    rim = np.zeros(e0.shape, dtype=bool)
    for k, a in enumerate(absorbers):
        dist = np.sqrt(((film.pos[:-1] - a) ** 2).sum(axis=2))
        inside[k] = active & (dist < radius)
        rim |= active & (np.abs(dist - radius) < 1e-9)
    captured = inside.any(axis=0)
    report("not-absorbed", captured & ~rim & (e1 != 0))
    report("absorbed-ray-moves", captured & ~rim & ~still)
    several = inside.sum(axis=0) > 1
    for s in range(film.steps):
        sure = ~rim[s] & captured[s]
        low = [e0[s][inside[k, s] & sure & ~several[s]].sum() for k in range(len(absorbers))]
        high = [e0[s][(inside[k, s] & sure) | rim[s]].sum() for k in range(len(absorbers))]
        got = hit[s + 1]
        ok = all(a - 1e-9 <= x <= b + 1e-9 for a, x, b in zip(low, got, high))
        total = e0[s][sure].sum()
        ok = ok and total - 1e-9 <= got.sum() <= total + e0[s][rim[s]].sum() + 1e-9
        if not ctx.check(ok, "hits", step=s, recorded=got, at_least=low, at_most=high, total=total):
            break

    # Rays without energy
    dead = ~active
    report("dead-ray-moves", dead & ~still)
    report("dead-ray-changes", dead & (e1 != e0) & (e1 != 0))

    # Surfaces
    free = active & ~captured & ~rim & film.judged
    turns = film.turns() & free
    report("energy-lost-on-the-way", free & film.alive & ~film.turns() & (e0 - e1 > 0) & lost(film, free, absorption))
    s, r, found = film.simple_turns(turns, REACH)
    drop = (e0 - e1)[s, r]
    good = (found >= 0) & (np.abs(drop - absorption[found]) < 1e-12)
    for s, r in zip(s[~good], r[~good]):
        sums = [sum(absorption[j] for j in path) for path in film.explained(s, r, REACH)]
        if sums and not ctx.check(
            any(abs(e0[s, r] - e1[s, r] - x) < 1e-9 for x in sums),
            "absorption",
            source=film.pos[0, r],
            direction=film.start[r],
            step=int(s),
            position=film.pos[s, r],
            energy=[e0[s, r], e1[s, r]],
            expected=sums[:5],
        ):
            break

    # Rays losing all of their energy at surfaces
    for s, r in np.argwhere(free & (e1 <= EPS)):
        ctx.check(e1[s, r] == 0 and still[s, r], "extinct-ray", step=int(s), source=film.pos[0, r])
        near = film.near(s, r, REACH)
        sums = [sum(absorption[j] for j in path) for _, path in rays.reflections(near[0], film.before[s, r], near[1])]
        if not ctx.check(
            max(sums) >= e0[s, r] - EPS - 1e-9,
            "energy-lost",
            source=film.pos[0, r],
            direction=film.start[r],
            step=int(s),
            position=film.pos[s, r],
            energy=[e0[s, r], e1[s, r]],
        ):
            break


def lost(film, mask, absorption):
    """Rays which go on unchanged, but whose loss of energy is not due to reflections."""
    out = np.zeros(mask.shape, dtype=bool)
    e0, e1 = film.enr[:-1], film.enr[1:]
    for s, r in np.argwhere(mask & film.alive & ~film.turns() & (e0 - e1 > 0)):
        sums = [sum(absorption[j] for j in path) for path in film.explained(s, r, REACH)]
        out[s, r] = not any(abs(e0[s, r] - e1[s, r] - x) < 1e-9 for x in sums)
    return out
