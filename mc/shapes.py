"""Embeddings of planar lattice figures in space and families of polygons and buildings."""

import numpy as np

# name: (origin, u, v, scale); u and v are orthogonal and equally long
PLANES = {
    "xy": ((0, 0, 0), (1, 0, 0), (0, 1, 0), 1.0),
    "yx": ((0, 0, 3), (0, 1, 0), (1, 0, 0), 1.0),  # downwards
    "xz": ((-2, 5, -1), (1, 0, 0), (0, 0, 1), 1.0),
    "yz": ((7, -3, 2), (0, 1, 0), (0, 0, 1), 0.5),
    "tilt345": ((1, -2, 4), (3, 4, 0), (0, 0, 5), 1.0),
    "tilt122": ((-4, 3, 2), (1, 2, 2), (2, 1, -2), 1.0),
    "big": ((-100, 250, 40), (0, 0, 8), (8, 0, 0), 1.0),
    "frac": ((0.3, -7.1, 2.7), (0, 1, 0), (-1, 0, 0), 0.1),
}


class Plane:
    def __init__(self, name):
        o, u, v, s = PLANES[name]
        self.name = name
        self.o = np.array(o, dtype=float)
        self.u = np.array(u, dtype=float) * s
        self.v = np.array(v, dtype=float) * s
        self.len = float(np.sqrt(np.dot(self.u, self.u)))
        self.n = np.cross(self.u, self.v) / self.len**2  # unit vector

    def at(self, x, y, h=0.0):
        """Point with lattice coordinates (x, y), h lattice units above the plane."""
        return self.o + float(x) * self.u + float(y) * self.v + float(h) * self.len * self.n

    def pts(self, ring, h=0.0):
        return np.array([self.at(x, y, h) for x, y in ring])

    def back(self, p):
        """Lattice coordinates of a point in space."""
        d = np.asarray(p, dtype=float) - self.o
        k = self.len**2
        return float(np.dot(d, self.u) / k), float(np.dot(d, self.v) / k), float(np.dot(d, self.n) / self.len)

    def back_int(self, p, tol=1e-9):
        x, y, h = self.back(p)
        rx, ry = round(x), round(y)
        if abs(x - rx) > tol or abs(y - ry) > tol or abs(h) > tol:
            raise ValueError(f"{p} is not a lattice point of plane {self.name}")
        return rx, ry


def comb(k):
    """Comb with k teeth, counter-clockwise."""
    ring = [(0, 0), (2 * k - 1, 0)]
    for i in range(k - 1, -1, -1):
        ring += [(2 * i + 1, 3), (2 * i, 3)]
        if i > 0:
            ring += [(2 * i, 1), (2 * i - 1, 1)]
    return tuple(ring)


def spiral(k):
    """Rectangular spiral corridor with k arms, counter-clockwise."""
    x, y = 0, 0
    outer = [(x, y)]
    d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    n = 2 * k + 1
    length = n
    for i in range(k):
        dx, dy = d[i % 4]
        x, y = x + dx * length, y + dy * length
        outer.append((x, y))
        if i >= 1:
            length -= 1 if i % 2 else 1
    # Inner side: offset of each corner by one to the left
    inner = []
    for i, (px, py) in enumerate(outer):
        ix, iy = d[(i - 1) % 4], d[i % 4]
        nx = -ix[1] - iy[1] if 0 < i < k else (-d[0][1] if i == 0 else -d[(k - 1) % 4][1])
        ny = ix[0] + iy[0] if 0 < i < k else (d[0][0] if i == 0 else d[(k - 1) % 4][0])
        inner.append((px + nx, py + ny))
    return tuple(outer + inner[::-1])


def star(k):
    """Star-shaped polygon with k spikes and integer vertices, counter-clockwise."""
    ring = []
    for i in range(2 * k):
        r = 60 if i % 2 == 0 else 23
        a = np.pi * i / k
        ring.append((int(round(r * np.cos(a))), int(round(r * np.sin(a)))))
    return tuple(ring)


def regular(k, r=50):
    """Convex polygon with k vertices, counter-clockwise."""
    return tuple(
        (int(round(r * np.cos(2 * np.pi * i / k))), int(round(r * np.sin(2 * np.pi * i / k))))
        for i in range(k)
    )


def beads(k):
    """Square with k extra vertices on each side."""
    m = k + 1
    ring = [(i, 0) for i in range(m)]
    ring += [(m, i) for i in range(m)]
    ring += [(m - i, m) for i in range(m)]
    ring += [(0, m - i) for i in range(m)]
    return tuple(ring)


def families(kmax):
    out = []
    for k in range(2, kmax + 1):
        for f in (comb, spiral, star, beads):
            if f is spiral and k < 3:
                continue
            if f is star and k < 3:
                continue
            out.append((f.__name__, k, f(k)))
        if k >= 3:
            out.append(("regular", k, regular(k)))
    return out
