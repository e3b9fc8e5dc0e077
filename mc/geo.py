"""Exact planar geometry on integers/rationals: the reference used by the checks.

Nothing in this module imports the code under test.  Points are tuples of ints
or Fractions, polygons are tuples of points, every predicate is exact.
"""

from fractions import Fraction
from itertools import combinations


# ---------------------------------------------------------------- primitives
def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(p, a, b):
    """p lies on the closed segment ab."""
    if cross(a, b, p) != 0:
        return False
    return (
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def sgn(x):
    return (x > 0) - (x < 0)


def segments_meet(a, b, c, d):
    """Closed segments ab and cd share at least one point."""
    s1, s2 = sgn(cross(a, b, c)), sgn(cross(a, b, d))
    s3, s4 = sgn(cross(c, d, a)), sgn(cross(c, d, b))
    if s1 * s2 < 0 and s3 * s4 < 0:
        return True
    return (
        on_segment(c, a, b)
        or on_segment(d, a, b)
        or on_segment(a, c, d)
        or on_segment(b, c, d)
    )


def segments_cross_properly(a, b, c, d):
    s1, s2 = sgn(cross(a, b, c)), sgn(cross(a, b, d))
    s3, s4 = sgn(cross(c, d, a)), sgn(cross(c, d, b))
    return s1 * s2 < 0 and s3 * s4 < 0


def line_meet(a, b, c, d):
    """Intersection point of the lines ab and cd (None when parallel)."""
    r = (b[0] - a[0], b[1] - a[1])
    s = (d[0] - c[0], d[1] - c[1])
    den = r[0] * s[1] - r[1] * s[0]
    if den == 0:
        return None
    t = Fraction((c[0] - a[0]) * s[1] - (c[1] - a[1]) * s[0], den)
    return (a[0] + t * r[0], a[1] + t * r[1])


def edges(poly):
    n = len(poly)
    return [(poly[i], poly[(i + 1) % n]) for i in range(n)]


def area2(poly):
    """Twice the signed area."""
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in edges(poly))


def centroid(poly):
    a2 = area2(poly)
    cx = sum((a[0] + b[0]) * (a[0] * b[1] - b[0] * a[1]) for a, b in edges(poly))
    cy = sum((a[1] + b[1]) * (a[0] * b[1] - b[0] * a[1]) for a, b in edges(poly))
    return (Fraction(cx) / (3 * a2), Fraction(cy) / (3 * a2))


def is_simple(poly):
    """No repeated vertices, no two edges meeting except neighbours at their vertex."""
    n = len(poly)
    if n < 3 or len(set(poly)) != n:
        return False
    es = edges(poly)
    for i in range(n):
        a, b = es[i]
        for j in range(i + 1, n):
            c, d = es[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours share exactly one vertex: the far end may not fall on the other edge
                if j == i + 1:
                    if on_segment(d, a, b) or on_segment(a, c, d):
                        return False
                else:
                    if on_segment(c, a, b) or on_segment(b, c, d):
                        return False
            elif segments_meet(a, b, c, d):
                return False
    return area2(poly) != 0


def locate(p, poly):
    """1 strictly inside, 0 on the boundary, -1 outside."""
    inside = False
    for a, b in edges(poly):
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            # x of the crossing, compared exactly
            t = (p[1] - a[1]) * (b[0] - a[0]) - (p[0] - a[0]) * (b[1] - a[1])
            if (b[1] - a[1]) < 0:
                t = -t
            if t > 0:
                inside = not inside
    return 1 if inside else -1


def corner(poly, i):
    """Sign of the turn at vertex i for a counter-clockwise reading of poly."""
    n = len(poly)
    s = sgn(cross(poly[i - 1], poly[i], poly[(i + 1) % n]))
    return s if area2(poly) > 0 else -s


def has_collinear(poly):
    return any(corner(poly, i) == 0 for i in range(len(poly)))


def ear_triangles(poly):
    """Own exact ear clipping; triangles are counter-clockwise point triples."""
    pts = list(poly) if area2(poly) > 0 else list(poly)[::-1]
    out = []
    while len(pts) > 3:
        n = len(pts)
        for i in range(n):
            a, b, c = pts[i - 1], pts[i], pts[(i + 1) % n]
            k = cross(a, b, c)
            if k < 0:
                continue
            if k == 0:
                pts.pop(i)
                break
            if any(
                locate(q, (a, b, c)) >= 0 for q in pts if q not in (a, b, c)
            ):
                continue
            out.append((a, b, c))
            pts.pop(i)
            break
        else:
            raise AssertionError(f"reference ear clipping failed on {poly}")
    if cross(*pts) > 0:
        out.append(tuple(pts))
    return out


def tri_interiors_meet(t1, t2):
    """Open triangles (both counter-clockwise) share a point: separating axis test."""
    for t, u in ((t1, t2), (t2, t1)):
        for i in range(3):
            a, b = t[i], t[(i + 1) % 3]
            if all(cross(a, b, q) <= 0 for q in u):
                return False
    return True


def interiors_meet(p1, p2):
    return any(
        tri_interiors_meet(a, b) for a in ear_triangles(p1) for b in ear_triangles(p2)
    )


def boundaries_meet(p1, p2):
    return any(segments_meet(a, b, c, d) for a, b in edges(p1) for c, d in edges(p2))


def closed_sets_meet(p1, p2):
    return (
        boundaries_meet(p1, p2)
        or locate(p1[0], p2) >= 0
        or locate(p2[0], p1) >= 0
    )


def same_ring(p1, p2):
    """Same cyclic sequence of vertices, in either direction."""
    if len(p1) != len(p2) or set(p1) != set(p2):
        return False
    n = len(p1)
    k = p2.index(p1[0])
    fwd = tuple(p2[(k + i) % n] for i in range(n))
    bwd = tuple(p2[(k - i) % n] for i in range(n))
    return tuple(p1) in (fwd, bwd)


def contains_region(outer, inner):
    """Every point of inner lies in the closed region outer."""
    if any(locate(p, outer) < 0 for p in inner):
        return False
    # split inner edges at every crossing with outer and test the middles
    for a, b in edges(inner):
        ts = {Fraction(0), Fraction(1)}
        for c, d in edges(outer):
            q = line_meet(a, b, c, d)
            if q is not None:
                ts.add(param(q, a, b))
            for e in (c, d):
                if cross(a, b, e) == 0:
                    ts.add(param(e, a, b))
        ts = sorted(t for t in ts if 0 <= t <= 1)
        for t0, t1 in zip(ts, ts[1:]):
            t = (t0 + t1) / 2
            m = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            if locate(m, outer) < 0:
                return False
    return True


def param(q, a, b):
    if b[0] != a[0]:
        return Fraction(q[0] - a[0]) / (b[0] - a[0])
    return Fraction(q[1] - a[1]) / (b[1] - a[1])


# --------------------------------------------------------------- enumeration
def canon_ring(poly):
    """Lexicographically least reading over rotations and both directions."""
    best = None
    n = len(poly)
    for seq in (tuple(poly), tuple(poly)[::-1]):
        for k in range(n):
            r = seq[k:] + seq[:k]
            if best is None or r < best:
                best = r
    return best


def simple_polygons(nx, ny, nmax, nmin=3, collinear=True):
    """All simple lattice polygons on an nx x ny grid with nmin..nmax vertices.

    Each polygon appears once (up to start vertex and direction), counter-clockwise,
    starting at its lexicographically least vertex.  `collinear` keeps polygons that
    have a vertex in the middle of a straight edge.
    """
    pts = [(x, y) for x in range(nx) for y in range(ny)]
    out = []

    def rec(path):
        n = len(path)
        if n >= nmin and _closes(path):
            # direction fixed by orientation
            if area2(path) > 0 and (collinear or not has_collinear(path)):
                out.append(tuple(path))
        if n == nmax:
            return
        for q in pts:
            if q <= path[0] or q in path:
                continue
            if n >= 2:
                if _extends(path, q):
                    rec(path + [q])
            else:
                rec(path + [q])

    for p in pts:
        rec([p])
    return out


def _extends(path, q):
    """Edge path[-1]->q keeps the open chain simple."""
    a = path[-1]
    n = len(path)
    if cross(path[-2], a, q) == 0:
        # no folding back
        dx = (a[0] - path[-2][0]) * (q[0] - a[0]) + (a[1] - path[-2][1]) * (q[1] - a[1])
        if dx < 0:
            return False
    for i in range(n - 2):
        if segments_meet(path[i], path[i + 1], a, q):
            return False
    return True


def _closes(path):
    n = len(path)
    a, b = path[-1], path[0]
    for i in range(1, n - 2):
        if segments_meet(path[i], path[i + 1], a, b):
            return False
    # the two neighbours of the closing edge must not fold back onto it
    if on_segment(path[1], a, b) or on_segment(path[-2], a, b):
        return False
    if on_segment(b, path[-2], a) or on_segment(a, b, path[1]):
        return False
    return area2(path) != 0


def normalise_translation(polys):
    """Keep one representative per translation class."""
    seen, out = set(), []
    for p in polys:
        mx, my = min(q[0] for q in p), min(q[1] for q in p)
        k = tuple((q[0] - mx, q[1] - my) for q in p)
        if k not in seen:
            seen.add(k)
            out.append(k)
    return out


def rotations(poly):
    n = len(poly)
    for seq, d in ((tuple(poly), 1), (tuple(poly)[::-1], -1)):
        for k in range(n):
            yield d, seq[k:] + seq[:k]
