"""G11: elementary geometry agrees with exact arithmetic."""

import itertools
import math

import numpy as np

from building3d.geom import bboxes
from building3d.geom import points as gp
from building3d.geom import tetrahedrons
from building3d.geom import triangles
from building3d.geom import vectors

ID = "G11"
BOUNDS = {
    "quick": "all ordered triples of distinct points of a 3x3x3 lattice, 4-tuples of 3x3x2, 5-tuples of 2x2x3, 3- to 5-tuples of "
    "8 points of thin shapes, each in 5 poses (plain, scaled by 0.1 and 40, moved away, turned)",
    "thorough": "4-tuples of 3x3x3, 5-tuples of 3x3x2 and 6-tuples of 2x2x3",
}
ASSUMPTIONS = ["points are distinct", "near misses are above the relative tolerance of 1e-5"]

LATTICES = {
    "333": list(itertools.product(range(3), repeat=3)),
    "332": list(itertools.product(range(3), range(3), range(2))),
    "223": list(itertools.product(range(2), range(2), range(3))),
    "thin": [(0, 0, 0), (1000, 0, 0), (2000, 0, 0), (3000, 1, 0), (500, 0, 1), (0, 100, 0), (2500, 3, 0), (-700, 0, 0)],
}
ROT = np.array([[3, 4, 0], [-4, 3, 0], [0, 0, 5]]) @ np.array([[5, 0, 0], [0, 3, -4], [0, 4, 3]]) / 25.0
POSES = {
    "plain": (np.eye(3), 1.0, (0, 0, 0)),
    "small": (np.eye(3), 0.1, (0.3, -0.7, 0.1)),
    "large": (np.eye(3), 40.0, (-20, 10, 0)),
    "away": (np.eye(3), 1.0, (100, -250, 37)),
    "turned": (ROT, 1.0, (-1, 2, 3)),
}


def cases(tier):
    sets = [("333", 3), ("332", 4), ("223", 5), ("thin", 3), ("thin", 4), ("thin", 5)]
    if tier == "thorough":
        sets += [("333", 4), ("332", 5), ("223", 6)]
    out = [["values", pose, i] for pose in POSES for i in range(27)]
    for name, n in sets:
        for pose in POSES:
            out += [["flat", name, n, pose, i] for i in range(len(LATTICES[name]))]
    return out


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def collinear(ps):
    d = sub(ps[1], ps[0])
    return all(cross(d, sub(p, ps[0])) == (0, 0, 0) for p in ps[2:])


def coplanar(ps):
    if collinear(ps):
        return True
    d = sub(ps[1], ps[0])
    n = next(c for c in (cross(d, sub(p, ps[0])) for p in ps[2:]) if c != (0, 0, 0))
    return all(dot(n, sub(p, ps[0])) == 0 for p in ps)


def posed(name, lattice):
    """The points of a lattice in space."""
    rot, k, move = POSES[name]
    return {p: rot @ np.array(p, dtype=float) * k + np.array(move, dtype=float) for p in lattice}


def run(case, ctx):
    if case[0] == "flat":
        flat(case, ctx)
    else:
        values(case, ctx)


def flat(case, ctx):
    _, name, n, pose, i = case
    lattice = LATTICES[name]
    where = posed(pose, lattice)
    if name == "thin":
        where = {p: 0.01 * where[p] for p in where}
    first = lattice[i]
    rest = [p for p in lattice if p != first]
    for others in itertools.permutations(rest, n - 1):
        ps = (first,) + others
        arr = np.array([where[p] for p in ps])
        ctx.at(points=ps, pose=pose)
        exp = collinear(ps)
        got = gp.are_points_collinear(arr)
        ctx.check(bool(got) == exp, "collinear", got=bool(got), expected=exp)
        exp2 = coplanar(ps)
        got = gp.are_points_coplanar(arr)
        ctx.check(bool(got) == exp2, "coplanar", got=bool(got), expected=exp2)
        ctx.step(2)
        ctx.trace("line" if exp else "plane" if exp2 else "space")
        ctx.state(name, pose, ps)


def close(a, b, scale=1.0):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9 * scale)


def values(case, ctx):
    _, pose, i = case
    rot, k, move = POSES[pose]
    lattice = LATTICES["333"]
    where = posed(pose, lattice)
    size = 3 * k + np.abs(move).max()
    a = lattice[i]
    pa = where[a]
    for b in lattice:
        pb = where[b]
        ctx.at(points=(a, b), pose=pose)
        ctx.check(bool(gp.points_equal(pa, pb)) == (a == b), "equal")
        for f in (0.0, 0.25, 0.5, 0.9, 1.0, -0.5, 2.0):
            got = gp.new_point_between_2_points(pa, pb, f)
            ctx.check(close(got, pa + f * (pb - pa), size), "between", rel=f, got=got)
        for num in (0, 1, 2, 5):
            got = gp.many_new_points_between_2_points(pa, pb, num)
            exp = [pa + (pb - pa) * j / (num + 1) for j in range(num + 2)]
            ctx.check(got.shape == (num + 2, 3) and close(got, np.array(exp), size), "many-between", num=num, got=got)
        u, v = np.array(a, dtype=float) @ rot.T, np.array(b, dtype=float) @ rot.T
        if a != (0, 0, 0) and b != (0, 0, 0):
            got = vectors.angle(u, v)
            exp = math.atan2(math.sqrt(dot(cross(a, b), cross(a, b))), dot(a, b))
            ctx.check(abs(got - exp) < 1e-7, "angle", got=got, expected=exp)
        ctx.step(13)
        ctx.trace("pair")
        ctx.state("pair", pose, a, b)
        for c in lattice:
            if len({a, b, c}) < 3:
                continue
            pc = where[c]
            ctx.at(points=(a, b, c), pose=pose)
            n = cross(sub(b, a), sub(c, a))
            length = math.sqrt(dot(n, n))
            got = vectors.normal(pa, pb, pc)
            if n == (0, 0, 0):
                ctx.check(np.isnan(got).all(), "normal-of-line", got=got)
            else:
                ctx.check(close(got, rot @ np.array(n) / length), "normal", got=got, expected=rot @ np.array(n) / length)
            got = triangles.triangle_area(pa, pb, pc)
            # Heron's formula loses precision for degenerate triangles
            ctx.check(abs(got - length / 2 * k * k) <= 1e-6 * size * size, "area", got=got, expected=length / 2 * k * k)
            got = triangles.triangle_centroid(pa, pb, pc)
            ctx.check(close(got, (pa + pb + pc) / 3, size), "centroid", got=got)
            arr = np.array([pa, pb, pc])
            lo, hi = bboxes.bounding_box(arr)
            ctx.check(np.array_equal(lo, arr.min(axis=0)) and np.array_equal(hi, arr.max(axis=0)), "bbox", got=(lo, hi))
            ctx.check(np.array_equal(gp.roll_forward(arr), np.array([pc, pa, pb])), "roll")
            ctx.check(np.array_equal(gp.list_pts_to_array([pa, pb, pc]), arr), "array")
            for q in (a, b, c, lattice[(i + 5) % 27]):
                ctx.check(bool(gp.is_point_in_array(where[q], arr)) == (q in (a, b, c)), "in-array", point=q)
                exp = bool((where[q] >= lo - 1e-9).all() and (where[q] <= hi + 1e-9).all())
                ctx.check(bool(bboxes.is_point_inside_bbox(where[q], arr)) == exp, "in-bbox", point=q)
            for j in range(0, 27, 4):
                d = lattice[(i + j) % 27]
                pd = where[d]
                got = tetrahedrons.tetrahedron_volume(pa, pb, pc, pd)
                exp = abs(dot(n, sub(d, a))) / 6 * k**3
                ctx.check(abs(got - exp) <= 1e-9 * max(1.0, k**3 * 10), "volume", point=d, got=got, expected=exp)
                got = tetrahedrons.tetrahedron_centroid(pa, pb, pc, pd)
                ctx.check(close(got, (pa + pb + pc + pd) / 4, size), "tetra-centroid", point=d, got=got)
                if pose != "turned":
                    box1 = bboxes.bounding_box(np.array([pa, pb]))
                    box2 = bboxes.bounding_box(np.array([pc, pd]))
                    exp = all(
                        max(min(a[x], b[x]), min(c[x], d[x])) <= min(max(a[x], b[x]), max(c[x], d[x])) for x in range(3)
                    )
                    ctx.check(bool(bboxes.are_bboxes_overlapping(box1, box2)) == exp, "boxes", other=d, expected=exp)
            ctx.step(20)
            ctx.trace("line" if n == (0, 0, 0) else "triangle")
            ctx.state("triple", pose, a, b, c)


def warmup():
    a = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    gp.are_points_coplanar(a)
    gp.are_points_collinear(a)
    vectors.normal(a[0], a[1], a[2])
