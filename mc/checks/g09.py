"""G09: visibility and nearest-pair selection are exact."""

import itertools

import numpy as np

from building3d.geom.points.find_close_pairs import find_close_pairs
from building3d.geom.points.visibility import are_points_visible
from building3d.geom.points.visibility import visibility_matrix

from mc import geo
from mc import polys
from mc.shapes import Plane

ID = "G09"
BOUNDS = {
    "quick": "all pairs of points x all blocking edges of the 3x3 lattice, all pairs of blocking edges for one point "
    "pair per symmetry class, in one and in two groups; visibility matrices of the lattice points for all polygons with up to 5 vertices; "
    "nearest pairs for all pairs of polygons with up to 4 vertices (one per symmetry class) in several relative positions, all "
    "numbers of pairs, with and without visibility; 4 planes",
    "thorough": "all point pairs with all pairs of edges, all polygons of the 3x3 lattice, all polygons with up to 4 vertices",
}
ASSUMPTIONS = ["equally long pairs may be chosen in any order"]

PLANES = ("xy", "tilt345", "yz", "tilt122")
LATTICE = [(x, y) for x in range(3) for y in range(3)]
EDGES = list(itertools.combinations(LATTICE, 2))


def under_symmetries(a, b):
    """All images of a pair of lattice points."""
    out = set()
    for swap, fx, fy in itertools.product((0, 1), repeat=3):
        q = [(2 - x if fx else x, 2 - y if fy else y) for x, y in (a, b)]
        out.add(tuple(sorted((y, x) if swap else (x, y) for x, y in q)))
    return out


# One pair of points per symmetry class of the lattice
FIRST = [e for e in EDGES if tuple(e) == min(under_symmetries(*e))]


def pair_polys(tier):
    some = polys.upto(3, 3, 4)
    return polys.classes(some) if tier == "quick" else some


def cases(tier):
    out = [["blocked", i] for i in range(len(EDGES))]
    n = 5 if tier == "quick" else 9
    m = len([p for p in polys.all_3x3() if len(p) <= n])
    out += [["matrix", n, a, b] for a, b in polys.chunks(m, 40)]
    out += [["pairs", i] for i in range(len(pair_polys(tier)))]
    return out


def blocks(e, a, b):
    """Edge e blocks the view between a and b."""
    if a in e or b in e:
        return False
    if geo.cross(a, b, e[0]) == 0 and geo.cross(a, b, e[1]) == 0:
        return False
    return geo.segments_meet(a, b, e[0], e[1])


def to_space(plane, edges):
    return np.array([plane.pts(e) for e in edges])


def run_blocked(ctx, i):
    a, b = EDGES[i]
    for k, e in enumerate(EDGES):
        plane = Plane(PLANES[(i + k) % 4])
        for (p, q), edge in itertools.product(((a, b), (b, a)), (e, e[::-1])):
            ctx.at(points=(p, q), edges=[edge], plane=plane.name)
            got = are_points_visible(plane.at(*p), plane.at(*q), to_space(plane, [edge]))
            expected = 0 if blocks(edge, p, q) else 1
            ctx.check(int(got) == expected, "visible", got=int(got), expected=expected)
            ctx.step()
            ctx.state("edge", p, q, edge)
            ctx.trace("visible" if expected else "blocked")
    if ctx.tier == "quick" and (a, b) not in FIRST:
        return
    for k, (e, f) in enumerate(itertools.combinations(EDGES, 2)):
        plane = Plane(PLANES[(i + k) % 4])
        groups = [to_space(plane, [e, f])] if k % 2 else [to_space(plane, [e]), to_space(plane, [f])]
        ctx.at(points=(a, b), edges=[e, f], groups=len(groups), plane=plane.name)
        got = are_points_visible(plane.at(*a), plane.at(*b), *groups)
        expected = 0 if blocks(e, a, b) or blocks(f, a, b) else 1
        ctx.check(int(got) == expected, "visible-two-edges", got=int(got), expected=expected)
        ctx.step()
        ctx.state("edges", a, b, e, f)
        ctx.trace("visible" if expected else "blocked")


def run_matrix(ctx, n, lo, hi):
    some = [p for p in polys.all_3x3() if len(p) <= n][lo:hi]
    for k, p in enumerate(some):
        plane = Plane(PLANES[k % 4])
        edges = geo.edges(p)
        half = len(edges) // 2
        for groups in ([edges], [edges[:half], edges[half:]]):
            ctx.at(polygon=p, groups=[len(g) for g in groups], plane=plane.name)
            pts = list(p) + [q for q in LATTICE if q not in p]
            M = visibility_matrix(plane.pts(pts), *[to_space(plane, g) for g in groups])
            ctx.step(len(pts) * (len(pts) - 1) // 2)
            ctx.check(np.array_equal(M, M.T), "not-symmetric", M=M)
            ctx.check((np.diag(M) == 1).all(), "diagonal", M=M)
            for i, j in itertools.combinations(range(len(pts)), 2):
                expected = 0 if any(blocks(e, pts[i], pts[j]) for e in edges) else 1
                ctx.check(M[i, j] == expected, "matrix", points=(pts[i], pts[j]), got=M[i, j])
                ctx.trace("matrix-entry")
            ctx.state("matrix", p, len(groups))
    ctx.sample(polygon=p)


def greedy_sizes(allowed, d2):
    """Numbers of pairs which can be found, for all choices between equally long pairs."""
    memo = {frozenset(): {0}}

    def size(rest):
        if rest not in memo:
            m = min(d2[x] for x in rest)
            out = set()
            for x in rest:
                if d2[x] == m:
                    for s in size(frozenset(y for y in rest if y[0] != x[0] and y[1] != x[1])):
                        out.add(s + 1)
            memo[rest] = out
        return memo[rest]

    return size(frozenset(allowed))


def run_pairs(ctx, i):
    polygons = pair_polys(ctx.tier)
    p = polygons[i]
    for j, q0 in enumerate(polygons):
        for k, (dx, dy) in enumerate(((0, 0), (1, 0), (3, 0), (0, -1), (-2, 2))):
            q = tuple((x + dx, y + dy) for x, y in q0)
            plane = Plane(PLANES[(i + j + k) % 4])
            P, Q = plane.pts(p), plane.pts(q)
            d2 = {
                (a, b): (p[a][0] - q[b][0]) ** 2 + (p[a][1] - q[b][1]) ** 2
                for a in range(len(p))
                for b in range(len(q))
            }
            edges = list(geo.edges(p)) + list(geo.edges(q))
            for vis in (True, False):
                allowed = {
                    (a, b)
                    for a, b in d2
                    if not vis or not any(blocks(e, p[a], q[b]) for e in edges)
                }
                sizes = greedy_sizes(allowed, d2)
                for n in range(0, min(len(p), len(q)) + 2):
                    ctx.at(p=p, q=q, n=n, vis_only=vis, plane=plane.name)
                    ctx.step()
                    ctx.state("pairs", p, q, n, vis)
                    try:
                        res = find_close_pairs(P, Q, n, vis_only=vis)
                    except ValueError:
                        ctx.check(n > min(sizes), "rejected", possible=sizes)
                        ctx.trace("too-many")
                        continue
                    ctx.check(n <= max(sizes), "not-rejected", possible=sizes)
                    if not ctx.check(res.shape == (n, 2, 3), "shape", shape=res.shape):
                        continue
                    judge_pairs(ctx, plane, p, q, res, allowed, d2)
                    ctx.trace("visible-pairs" if vis else "all-pairs")


def judge_pairs(ctx, plane, p, q, res, allowed, d2):
    used0, used1 = set(), set()
    for a3, b3 in res:
        a, b = plane.back_int(a3), plane.back_int(b3)
        if not ctx.check(a in p and b in q, "not-a-vertex", pair=(a, b)):
            return
        x = (p.index(a), q.index(b))
        ctx.check(x in allowed, "not-visible", pair=(a, b))
        ctx.check(x[0] not in used0 and x[1] not in used1, "used-twice", pair=(a, b))
        left = [d2[y] for y in allowed if y[0] not in used0 and y[1] not in used1]
        ctx.check(d2[x] == min(left), "not-closest", pair=(a, b), closest=min(left))
        used0.add(x[0])
        used1.add(x[1])


def run(case, ctx):
    if case[0] == "blocked":
        run_blocked(ctx, case[1])
    elif case[0] == "matrix":
        run_matrix(ctx, *case[1:])
    else:
        run_pairs(ctx, case[1])
