"""G05: line and segment intersections are exact."""

from fractions import Fraction as F
from itertools import product

import numpy as np

from building3d.geom.points import is_point_on_segment
from building3d.geom.points.intersections import line_intersection
from building3d.geom.points.intersections import line_segment_intersection

from mc.shapes import Plane

ID = "G05"
BOUNDS = {
    "quick": "all pairs of directed segments of the 3x3 lattice in 5 planes and of undirected x directed segments of the "
    "{0,1,2}^3 lattice, as segments and as lines; the same with one segment ending 2% or 0.1% before or behind the common point; all segments of {0,1,2}^3 x points of "
    "the half-integer lattice around",
    "thorough": "all pairs of directed segments of the 4x4 lattice in 6 planes and of {0,1,2}^3",
}
ASSUMPTIONS = ["segments of non-zero length with moderate coordinates"]


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross3(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def meet(p, d, q, e):
    """Parameters (t, s) of the common point p + t d = q + s e of two non-parallel lines, or None."""
    c = cross3(d, e)
    cc = dot(c, c)
    if cc == 0:
        return None
    w = sub(q, p)
    if dot(w, c) != 0:
        return None
    return F(dot(cross3(w, e), c), cc), F(dot(cross3(w, d), c), cc)


def segments(tier, space):
    if space == "3d":
        pts = list(product(range(3), repeat=3))
    else:
        n = 3 if tier == "quick" else 4
        pts = [(x, y, 0) for x in range(n) for y in range(n)]
    return pts, [(a, b) for a in pts for b in pts if a != b]


def cases(tier):
    out = []
    for space in ("xy", "tilt345", "frac", "tilt122", "big") if tier == "quick" else ("xy", "xz", "tilt345", "frac", "tilt122", "big"):
        n = len(segments(tier, space)[1])
        out += [[space, i, min(i + 6, n)] for i in range(0, n, 6)]
    n = len(segments(tier, "3d")[1])
    out += [["3d", i, min(i + 9, n)] for i in range(0, n, 9)]
    out += [["on", i, i + 1] for i in range(27)]
    n = len(segments(tier, "xy")[1])
    out += [["near", i, min(i + 6, n)] for i in range(0, n, 6)]
    return out


def run(case, ctx):
    space, lo, hi = case
    if space == "on":
        return run_on(ctx, lo)
    if space == "near":
        return run_near(ctx, lo, hi)
    pts, segs = segments(ctx.tier, space)
    if space == "3d":
        origin, scale = np.array([-1.0, 2.0, 5.0]), 1.0
        emb = {p: origin + np.array(p, dtype=float) * scale for p in pts}
        first = [s for s in segs[lo:hi] if ctx.tier == "thorough" or s[0] < s[1]]
    else:
        plane = Plane(space)
        emb = {p: plane.at(p[0], p[1]) for p in pts}
        first = segs[lo:hi]
    for a, b in first:
        for c, d in segs:
            m = meet(a, sub(b, a), c, sub(d, c))
            A, B, C, D = emb[a], emb[b], emb[c], emb[d]
            ctx.at(first=(a, b), second=(c, d), space=space)
            ctx.state(space, a, b, c, d)
            got_l = line_intersection(A, B - A, C, D - C)
            got_s = line_segment_intersection(A, B, C, D)
            ctx.step(2)
            if m is None:
                ctx.check(np.isnan(got_l).all(), "lines-do-not-meet", got=got_l)
                ctx.check(np.isnan(got_s).all(), "segments-do-not-meet", got=got_s)
                ctx.trace("no-point")
                continue
            t, s = m
            exp = A + float(t) * (B - A)
            ctx.check(np.allclose(got_l, exp, rtol=0, atol=1e-7), "line-point", got=got_l, expected=exp)
            if 0 <= t <= 1 and 0 <= s <= 1:
                ctx.check(np.allclose(got_s, exp, rtol=0, atol=1e-7), "segment-point", got=got_s, expected=exp)
                ctx.trace("end" if t in (0, 1) or s in (0, 1) else "inner")
            else:
                ctx.check(np.isnan(got_s).all(), "segments-apart", got=got_s, t=float(t), s=float(s))
                ctx.trace("beyond")
        ctx.sample(first=(a, b), space=space, against=len(segs))


def run_near(ctx, lo, hi):
    """Segments which end shortly before or behind the common point."""
    _, segs = segments("quick", "xy")
    for a, b in segs[lo:hi]:
        for k, (c, d) in enumerate(segs):
            m = meet(a, sub(b, a), c, sub(d, c))
            if m is None or not (0 <= m[0] <= 1 and 0 < m[1] <= 1):
                continue
            plane = Plane(("xy", "tilt345", "yz")[k % 3])
            A, B, C, D = (plane.at(p[0], p[1]) for p in (a, b, c, d))
            X = A + float(m[0]) * (B - A)
            for gap in (-0.02, -0.001, 0.001, 0.02):
                end = C + (float(m[1]) + gap) * (D - C)
                for order in range(4):
                    first, second = ((A, B), (C, end)) if order % 2 == 0 else ((C, end), (A, B))
                    if order >= 2:
                        first, second = first[::-1], second[::-1]
                    ctx.at(first=(a, b), second=(c, d), gap=gap, order=order, plane=plane.name)
                    got = line_segment_intersection(*first, *second)
                    ctx.step()
                    if gap > 0:
                        ctx.check(np.allclose(got, X, rtol=0, atol=1e-7), "near-point", got=got, expected=X)
                    else:
                        ctx.check(np.isnan(got).all(), "near-apart", got=got)
                    ctx.trace("behind" if gap > 0 else "before")
                ctx.state("near", a, b, c, d, gap)


def run_on(ctx, i):
    lattice = list(product(range(3), repeat=3))
    a = lattice[i]
    for b in lattice:
        if a == b:
            continue
        e = sub(b, a)
        cands = list(product([F(k, 2) for k in range(-1, 6)], repeat=3))
        for t in (F(-1), F(-1, 8), F(-1, 500), F(501, 500), F(1, 8), F(1, 3), F(7, 8), F(9, 8), F(2)):
            cands.append(tuple(x + t * y for x, y in zip(a, e)))
        for p in cands:
            w = sub(p, a)
            c = cross3(w, e)
            on = c == (0, 0, 0) and 0 <= dot(w, e) <= dot(e, e)
            ctx.at(segment=(a, b), point=tuple(float(x) for x in p))
            got = is_point_on_segment(*(np.array([float(x) for x in q]) for q in (p, a, b)))
            ctx.check(bool(got) == on, "on-segment", expected=on)
            ctx.state("on", a, b, p)
            ctx.step()
            ctx.trace("on" if on else "off")
