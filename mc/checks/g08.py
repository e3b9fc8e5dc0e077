"""G08: rotations are rigid and end in the requested position."""

import itertools
import math

import numpy as np

from building3d.geom.rotation import rotate_points
from building3d.geom.rotation import rotate_points_around_vector
from building3d.geom.rotation import rotate_points_to_plane
from building3d.geom.rotation import rotation_matrix
from building3d.geom.vectors import angle
from building3d.geom.vectors import normal

from mc.shapes import PLANES
from mc.shapes import Plane

ID = "G08"
BOUNDS = {
    "quick": "all axes with components -2..2 x all multiples of 15 degrees within two turns and some small angles x a set of "
    "lattice points; all ordered pairs of angles on the multiples of 45 degrees; polygons in 8 planes x all normals "
    "with components -1..1 and the plane's own normals x anchors x distances",
    "thorough": "axes with components -3..3, multiples of 5 degrees, all target normals with components -2..2",
}
ASSUMPTIONS = ["the first corner of points rotated to a plane is convex and not straight"]

POINTS = np.array(
    [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-2, 3, 5), (100, -40, 7), (0.1, 0.2, -0.3)], dtype=float
)
SMALL = (1e-10, -1e-10, 1e-6, 1e-3, math.radians(1), -math.radians(0.01))


def axes(n):
    out = {}
    for c in itertools.product(range(-n, n + 1), repeat=3):
        if any(c):
            g = math.gcd(*c)
            out[tuple(x // g for x in c)] = None
    return list(out)


def cases(tier):
    n = 2 if tier == "quick" else 3
    out = [["around", list(a)] for a in axes(n)]
    out += [["plane", name, list(u)] for name in PLANES for u in axes(1 if tier == "quick" else 2)]
    out += [["plane", name, s] for name in PLANES for s in (1, -1)]
    return out


def turn(p, u, phi):
    """Point p turned around the unit vector u, right-hand sense."""
    along = sum(a * b for a, b in zip(p, u))
    c, s = math.cos(phi), math.sin(phi)
    cross = (u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0])
    return [p[i] * c + cross[i] * s + u[i] * along * (1 - c) for i in range(3)]


def run_around(ctx, axis):
    length = math.sqrt(sum(x * x for x in axis))
    u = np.array(axis, dtype=float) / length
    step = 15 if ctx.tier == "quick" else 5
    angles = [math.radians(a) for a in range(-720, 721, step)] + list(SMALL)
    for phi in angles:
        ctx.at(axis=axis, phi=phi)
        keep = POINTS.copy()
        got, R = rotate_points_around_vector(keep, u, phi)
        expected = np.array([turn(p, u, phi) for p in POINTS])
        ctx.check(np.abs(got - expected).max() < 1e-10, "rotated-points", got=got, expected=expected)
        ctx.check((keep == POINTS).all(), "input-changed")
        ctx.check(np.abs(R @ R.T - np.eye(3)).max() < 1e-12, "matrix-not-orthonormal", R=R)
        ctx.check(abs(np.linalg.det(R) - 1) < 1e-12, "matrix-mirrors", R=R)
        ctx.check(np.abs(R @ u - u).max() < 1e-12, "axis-moves", R=R)
        ctx.check(np.abs(rotate_points(POINTS, R) - expected).max() < 1e-10, "matrix-does-not-match")
        ctx.check(np.abs(rotation_matrix(u, phi) - R).max() < 1e-12, "rotation-matrix")
        # The angle between a perpendicular vector and its image
        w = perpendicular(u)
        a = angle(w, R @ w)
        full = abs(math.remainder(phi, 2 * math.pi))
        ctx.check(abs(a - full) < 1e-7, "angle", got=a, expected=full)
        ctx.step(4)
        ctx.state("around", tuple(axis), phi)
        ctx.trace("around")
    # A zero axis or angle leaves the points where they are
    for uu, phi in ((np.zeros(3), 1.0), (u, 0.0)):
        got, R = rotate_points_around_vector(POINTS.copy(), uu, phi)
        ctx.check((got == POINTS).all() and np.array_equal(R, np.eye(3)), "no-rotation", R=R)
        ctx.step()
    # Rotations add up
    eighth = [math.radians(a) for a in range(-180, 181, 45)]
    for a, b in itertools.product(eighth, repeat=2):
        one, _ = rotate_points_around_vector(POINTS.copy(), u, a)
        two, _ = rotate_points_around_vector(one, u, b)
        both, _ = rotate_points_around_vector(POINTS.copy(), u, a + b)
        ctx.check(np.abs(two - both).max() < 1e-10, "do-not-add-up", axis=axis, a=a, b=b)
        ctx.step(3)
        ctx.trace("sum")
    ctx.sample(axis=axis, angles=len(angles))


def perpendicular(u):
    k = int(np.argmin(np.abs(u)))
    e = np.zeros(3)
    e[k] = 1.0
    w = e - u * u[k]
    return w / np.linalg.norm(w)


RINGS = [
    ((0, 0), (2, 0), (2, 2), (0, 2)),
    ((0, 0), (3, 0), (0, 1)),
    ((0, 0), (2, 0), (1, 1), (2, 3), (0, 2)),
    ((-1, 0), (0, -1), (5, 0), (0, 2)),
]


def run_plane(ctx, name, target):
    plane = Plane(name)
    u = plane.n * target if isinstance(target, int) else np.array(target, dtype=float)
    u = u / np.linalg.norm(u)
    for ring, rev in itertools.product(RINGS, (False, True)):
        r = (ring[0],) + ring[:0:-1] if rev else ring
        pts = plane.pts(r)
        vn = normal(pts[-1], pts[0], pts[1])
        parallel = bool((np.abs(np.cross(vn, u)) < 1e-12).all())
        for a, d in itertools.product(("first", "second", "centre", "shifted"), (0.0, 1.0, -2.5, 100.0)):
            anchor = {
                "first": pts[0],
                "second": pts[1],
                "centre": pts.mean(axis=0),
                "shifted": plane.at(7, -5),
            }[a].copy()
            # The anchor is one of the points, its image is known
            given = np.vstack((pts[:2], anchor, pts[2:]))
            keep = given.copy()
            ctx.at(plane=name, ring=r, target=u, anchor=a, d=d)
            moved, axis, phi = rotate_points_to_plane(given, anchor, u, d)
            got = np.delete(moved, 2, axis=0)
            ctx.step()
            ctx.check((given == keep).all(), "input-changed")
            place = anchor + u * d
            off = (got - place) @ u
            ctx.check(np.abs(off).max() < 1e-9, "not-in-plane", off=off)
            for i, j in itertools.combinations(range(len(pts)), 2):
                d0 = np.linalg.norm(pts[i] - pts[j])
                d1 = np.linalg.norm(got[i] - got[j])
                ctx.check(abs(d0 - d1) < 1e-9 * max(1, d0), "distance-changed", i=i, j=j)
            for i in range(len(pts)):
                d0 = np.linalg.norm(pts[i] - anchor)
                d1 = np.linalg.norm(got[i] - place)
                ctx.check(abs(d0 - d1) < 1e-9 * max(1, d0), "distance-to-anchor", i=i)
            new = normal(got[-1], got[0], got[1])
            if parallel:
                ctx.check(abs(abs(np.dot(new, u)) - 1) < 1e-9, "normal", got=new)
            else:
                ctx.check(np.abs(new - u).max() < 1e-8, "normal", got=new)
                exp = np.array([turn(p - anchor, axis, phi) for p in pts]) + place
                ctx.check(np.abs(exp - got).max() < 1e-9, "axis-and-angle", axis=axis, phi=phi)
            ctx.check(np.abs(moved[2] - place).max() < 1e-9, "anchor", got=moved[2], expected=place)
            ctx.state("plane", name, r, tuple(np.round(u, 6)), a, d)
            ctx.trace("parallel" if parallel else "to-plane")


def run(case, ctx):
    if case[0] == "around":
        run_around(ctx, case[1])
    else:
        run_plane(ctx, case[1], case[2])
