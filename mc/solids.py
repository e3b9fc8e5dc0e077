"""Solids with exactly known volume and exactly known location of points."""

import math
from fractions import Fraction as F

import numpy as np

from mc import geo

# name: (rotation around z as (cos, sin), scale, translation)
MOVES = {
    "none": ((1.0, 0.0), 1.0, (0.0, 0.0, 0.0)),
    "corner": ((1.0, 0.0), 1.0, (-1.0, -1.0, -1.0)),
    "away": ((1.0, 0.0), 1.0, (12.0, -7.0, 3.0)),
    "quarter": ((0.0, 1.0), 1.0, (1.0, 2.0, -3.0)),
    "turn345": ((0.6, 0.8), 1.0, (0.0, 0.0, 0.0)),
    "turn30": ((math.cos(math.pi / 6), math.sin(math.pi / 6)), 1.0, (-2.0, 5.0, 1.0)),
    "big": ((1.0, 0.0), 5.0, (100.0, 200.0, -50.0)),
    "small": ((0.8, -0.6), 0.25, (0.3, 0.1, 0.7)),
}


class Move:
    def __init__(self, name):
        (self.c, self.s), self.k, t = MOVES[name]
        self.name = name
        self.t = np.array(t)
        self.angle = math.atan2(self.s, self.c)

    def at(self, x, y, z):
        x, y, z = float(x) * self.k, float(y) * self.k, float(z) * self.k
        return np.array([x * self.c - y * self.s, x * self.s + y * self.c, z]) + self.t

    def back(self, p):
        p = (np.asarray(p, dtype=float) - self.t) / self.k
        return np.array([p[0] * self.c + p[1] * self.s, -p[0] * self.s + p[1] * self.c, p[2]])


def where_in_prism(ring, height, p):
    """1 inside, 0 at the boundary, -1 outside."""
    z = p[2]
    if z < 0 or z > height:
        return -1
    here = geo.locate((p[0], p[1]), ring)
    if here == 1 and (z == 0 or z == height):
        return 0
    return here


def det3(a, b, c):
    return (
        a[0] * (b[1] * c[2] - b[2] * c[1])
        - a[1] * (b[0] * c[2] - b[2] * c[0])
        + a[2] * (b[0] * c[1] - b[1] * c[0])
    )


def orient(a, b, c, d):
    """Sign of the volume of a tetrahedron."""
    return det3(*[tuple(q[i] - a[i] for i in range(3)) for q in (b, c, d)])


def where_in_tetra(t, p):
    a, b, c, d = t
    o = orient(a, b, c, d)
    s = 1 if o > 0 else -1
    w = [
        s * orient(p, b, c, d),
        s * orient(a, p, c, d),
        s * orient(a, b, p, d),
        s * orient(a, b, c, p),
    ]
    if min(w) < 0:
        return -1
    return 0 if min(w) == 0 else 1


def half_lattice(lo, hi, margin=1):
    """Points of the half-integer lattice from lo to hi, with a margin in half steps."""
    r = [[F(n, 2) for n in range(2 * lo[k] - margin, 2 * hi[k] + margin + 1)] for k in range(3)]
    return [(x, y, z) for x in r[0] for y in r[1] for z in r[2]]
