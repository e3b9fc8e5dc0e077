"""Lists of lattice polygons used by several checks (all counter-clockwise)."""

from functools import lru_cache

from mc import geo
from mc import shapes


@lru_cache(None)
def all_3x3():
    """All simple polygons on the 3x3 lattice, one per translation class."""
    return tuple(geo.normalise_translation(geo.simple_polygons(3, 3, 9)))


@lru_cache(None)
def upto(nx, ny, nmax, collinear=True):
    return tuple(geo.normalise_translation(geo.simple_polygons(nx, ny, nmax, collinear=collinear)))


@lru_cache(None)
def family(kmax):
    return tuple(shapes.families(kmax))


def chunks(n, size):
    return [[i, min(i + size, n)] for i in range(0, n, size)]


def canonical(ring):
    """The same ring for all images of a polygon under translations, quarter turns and mirror images."""
    best = None
    for swap in (False, True):
        for sx in (1, -1):
            for sy in (1, -1):
                q = [(sx * y, sy * x) if swap else (sx * x, sy * y) for x, y in ring]
                x0, y0 = min(x for x, _ in q), min(y for _, y in q)
                q = [(x - x0, y - y0) for x, y in q]
                for r in (q, q[::-1]):
                    k = r.index(min(r))
                    r = tuple(r[k:] + r[:k])
                    if best is None or r < best:
                        best = r
    return best


def classes(rings):
    """The first polygon of each symmetry class of the lattice."""
    out = {}
    for ring in rings:
        out.setdefault(canonical(ring), ring)
    return tuple(out.values())
