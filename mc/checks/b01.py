"""B01: the building graph is exact, symmetric and never stale."""

import itertools

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

ID = "B01"
BOUNDS = {
    "quick": "all pairs and triples of 18 polygons (same, facing, overlapping, contained, touching, near and far ones) placed "
    "in a tree in 7 ways, with all subsets of relations (triples in one of the ways in turn); rows and stacks of rooms; "
    "all sequences of 3 queries out of 12 and all sequences of 2 changes out of 6 with queries in between",
    "thorough": "all triples in all ways, sequences of 4 queries and 3 changes",
}
ASSUMPTIONS = [
    "whether a relation holds for two polygons is decided by the polygons' own methods (G06, G07)",
    "after a change an answer may be outdated unless a new graph is requested",
]
SEP = "/"
RELATIONS = ("facing", "overlapping", "touching")
METHODS = {"facing": "is_facing_polygon", "overlapping": "is_crossing_polygon", "touching": "is_touching_polygon"}


def rect(x0, x1, y0, y1, z=0.0, up=True):
    p = [(x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)]
    return p if up else p[::-1]


ALPHABET = {
    "A": rect(0, 1, 0, 1),
    "A2": rect(0, 1, 0, 1)[1:] + rect(0, 1, 0, 1)[:1],
    "Af": rect(0, 1, 0, 1, up=False),
    "Af2": rect(0, 1, 0, 1, up=False)[2:] + rect(0, 1, 0, 1, up=False)[:2],
    "Around": rect(0, 1 + 1e-14, 0, 1, 1e-14, up=False),
    "Anear": rect(0, 1, 0, 1, 1e-3, up=False),
    "B": rect(0, 2, 0, 1, up=False),
    "C": rect(0.5, 1.5, 0, 1),
    "D": rect(1, 2, 0, 1),
    "Dgap": rect(1.01, 2, 0, 1),
    "E": rect(0.25, 0.75, 0.25, 0.75, up=False),
    "R": rect(1, 2, 1, 2, up=False),
    "T": [(0, 0, 0), (1, 1, 0), (1, 0, 0)],
    "G": [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)],
    "Gf": [(1, 0, 1), (1, 1, 1), (1, 1, 0), (1, 0, 0)],
    "H": [(0.5, 0, -1), (0.5, 1, -1), (0.5, 1, 1), (0.5, 0, 1)],
    "S": [(0, 0, 0), (1, 0, 1), (1, 1, 1), (0, 1, 0)],
    "Far": rect(100, 101, 0, 1),
}
PTS = {k: np.array(v, dtype=float) for k, v in ALPHABET.items()}
NAMES = list(ALPHABET)

_made = {}
_relations = {}


def polygon(kind, name):
    if kind not in _made:
        p = Polygon(PTS[kind].copy())
        _made[kind] = (p.pts, p.tri, p.vn)
    pts, tri, vn = _made[kind]
    return Polygon(pts.copy(), name=name, tri=tri.copy(), vn=vn.copy())


def related(ctx, relation, k1, k2):
    key = (relation,) + tuple(sorted((k1, k2)))
    if key not in _relations:
        p, q = polygon(k1, "p"), polygon(k2, "q")
        one, two = (bool(getattr(a, METHODS[relation])(b)) for a, b in ((p, q), (q, p)))
        ctx.check(one == two, "relation-not-symmetric", relation=relation, polygons=(k1, k2))
        _relations[key] = one
    return _relations[key]


# Trees: each polygon gets (zone, solid, wall) -------------------------------------------------

PLACES = [
    [(0, 0, 0), (0, 0, 0), (0, 0, 0)],
    [(0, 0, 0), (0, 0, 1), (0, 0, 2)],
    [(0, 0, 0), (0, 1, 0), (0, 2, 0)],
    [(0, 0, 0), (1, 0, 0), (2, 0, 0)],
    [(0, 0, 0), (0, 1, 0), (1, 0, 0)],
    [(1, 0, 0), (0, 0, 0), (1, 0, 1)],
    [(0, 1, 1), (0, 0, 1), (0, 1, 1)],
]


# One begins like the other
MEMBERS = ["n0", "n01", "n"]


def build(kinds, places):
    """Building with the given polygons, and {path: kind}."""
    tree = {}
    for i, (kind, (z, s, w)) in enumerate(zip(kinds, places)):
        tree.setdefault(z, {}).setdefault(s, {}).setdefault(w, []).append((f"p{i}", kind))
    zones, paths = [], {}
    for z, ss in tree.items():
        solids = []
        for s, ws in ss.items():
            walls = []
            for w, ps in ws.items():
                walls.append(Wall([polygon(k, n) for n, k in ps], name=MEMBERS[w]))
                for n, k in ps:
                    paths[SEP.join(["b", MEMBERS[z], MEMBERS[s], MEMBERS[w], n])] = k
            solids.append(Solid(walls, name=MEMBERS[s]))
        zones.append(Zone(solids, name=MEMBERS[z]))
    return Building(zones, name="b"), paths


def expected_graph(paths, rel):
    """rel(path1, path2) tells if they are connected."""
    g = {p: set() for p in paths}
    for p, q in itertools.combinations(paths, 2):
        if rel(p, q):
            g[p].add(q)
            g[q].add(p)
    return g


def project(g, n):
    up = lambda p: SEP.join(p.split(SEP)[:-n])
    out = {}
    for p, qs in g.items():
        out.setdefault(up(p), set()).update(up(q) for q in qs if up(q) != up(p))
    return out


LEVELS = {"polygon": 0, "wall": 1, "solid": 2, "zone": 3}


def same_graph(got, expected, level):
    if any(len(set(v)) != len(v) for v in got.values()):
        return False
    if len([k for k in expected]) == 1 and level == "polygon":
        return all(not v for v in got.values())
    # Members without polygons may be listed, but have no connections
    if any(v for k, v in got.items() if k not in expected):
        return False
    if level == "polygon" and set(got) != set(expected):
        return False
    return all(set(got.get(k, ())) == v and k in got for k, v in expected.items())


def ask(ctx, bdg, level, rels, new=None):
    kw = {r: r in rels for r in RELATIONS}
    # The defaults are also used as they are
    if rels == ("facing",):
        kw = {}
    if level != "polygon":
        kw["level"] = level
    if new is not None:
        kw["new"] = new
    ctx.step()
    return bdg.get_graph(**kw)


def check_graph(ctx, bdg, g, rels, levels=LEVELS, new=None):
    for level in levels:
        exp = project(g, LEVELS[level]) if LEVELS[level] else g
        if len(g) < 2 and level != "polygon":
            continue
        got = ask(ctx, bdg, level, rels, new)
        ctx.check(same_graph(got, exp, level), "graph", level=level, relations=rels, got=got, expected=exp)


PARTS = 4
SUBSETS = [s for n in range(4) for s in itertools.combinations(RELATIONS, n)]


def run_small(ctx, first, tier, part):
    combos = [(first,)] if first == NAMES[0] else []
    rest = NAMES[NAMES.index(first) + 1 :]
    combos += [(first, k) for k in rest] + [(first, first)]
    triples = [(first, a, b) for a, b in itertools.combinations(rest, 2)]
    for n, kinds in enumerate(combos + triples):
        if n % PARTS != part:
            continue
        n += NAMES.index(first)
        triple = len(kinds) == 3
        for i, places in enumerate(PLACES):
            if triple and (n + i) % 7 and (tier == "quick" or i % 2):
                continue
            order = list(itertools.permutations(kinds))[(n + i) % (6 if triple else len(kinds))]
            bdg, paths = build(order, places)
            ctx.at(polygons=order, places=places[: len(order)])
            for rels in SUBSETS:
                g = expected_graph(paths, lambda p, q: any(related(ctx, r, paths[p], paths[q]) for r in rels))
                check_graph(ctx, bdg, g, rels)
                ctx.state(order, i, rels)
                ctx.trace("connected" if any(g.values()) else "not-connected")
    ctx.sample(first=first)


# Rooms --------------------------------------------------------------------------------------


def rooms(kind, k):
    """Rows, stacks and blocks of rooms with shared faces; returns solids and number of shared faces."""
    out = []
    if kind == "row":
        w = (1.0, 0.3, 1.7, 2.5)[k % 4]
        n = 2 + k % 3
        x = 0.0
        for i in range(n):
            out.append(box(w, 1, 2.6, (x, 0, 0), name=f"s{i}"))
            x = x + w
        return out, n - 1
    if kind == "stack":
        h = (2.7, 0.1, 3.3, 1.0)[k % 4]
        z = 0.1
        for i in range(3):
            out.append(box(2, 3, h, (5, -5, z), name=f"s{i}"))
            z += h
        return out, 2
    if kind == "turned":
        angle = (0.3, 1.0, -2.5, 0.7)[k % 4]
        d = (0.0, 10.0, 100.0, 1000.0)[(k // 4) % 4]
        for i in range(3):
            plan = [(i * 1.7, 0), ((i + 1) * 1.7, 0), ((i + 1) * 1.7, 2.2), (i * 1.7, 2.2)]
            out.append(floor_plan(plan, 2.6, translate=(d, -d, d / 3), rot_angle=angle, name=f"s{i}"))
        return out, 2
    d = (0.1, 1.0, 7.0)[k % 3]
    for i, j in ((0, 0), (1, 0), (0, 1), (1, 1)):
        out.append(box(d, d, d, (i * d + 0.2, j * d, 0), name=f"s{i}{j}"))
    return out, 4


def run_rooms(ctx, kind, k):
    ctx.at(rooms=kind, k=k)
    solids, shared = rooms(kind, k)
    for zoning in range(3):
        groups = [[s for s in solids], [], []] if zoning == 0 else [solids[i::2] for i in range(2)]
        if zoning == 2:
            groups = [[s] for s in solids]
        for s in solids:
            s.parent = None
        bdg = Building([Zone(g, name="z" + "0" * i) for i, g in enumerate(groups)], name="b")
        polys = {p: bdg.get(p) for p in bdg.get_polygon_paths()}

        def facing(p, q):
            a, b = polys[p], polys[q]
            if np.abs(a.vn + b.vn).max() > 1e-6:
                return False
            near = np.abs(a.pts[:, None, :] - b.pts[None, :, :]).max(axis=2).min(axis=1)
            return bool(near.max() < 1e-9)

        g = expected_graph(polys, facing)
        ctx.check(sum(len(v) for v in g.values()) == 2 * shared, "shared-faces", got=g)
        check_graph(ctx, bdg, g, ("facing",))
        ctx.state(kind, k, zoning)
        ctx.trace("rooms")


# Histories ----------------------------------------------------------------------------------

QUERIES = [
    (level, rels, new)
    for level, rels in (
        ("polygon", ("facing",)),
        ("polygon", ("overlapping",)),
        ("polygon", ()),
        ("wall", ("facing", "overlapping")),
        ("solid", ("facing",)),
        ("zone", ("facing", "overlapping")),
    )
    for new in (None, True)
]
START = ("A", "Af", "C", "Gf")
START_PLACES = [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)]


def current(ctx, bdg, kinds, rels):
    paths = bdg.get_polygon_paths()
    return expected_graph(
        paths, lambda p, q: any(related(ctx, r, kinds[p.split(SEP)[-1]], kinds[q.split(SEP)[-1]]) for r in rels)
    )


def answers(ctx, bdg, kinds, query):
    level, rels, new = query
    g = current(ctx, bdg, kinds, rels)
    return project(g, LEVELS[level]) if LEVELS[level] else g


def start():
    bdg, _ = build(START, START_PLACES)
    return bdg, {f"p{i}": k for i, k in enumerate(START)}


def change(bdg, kinds, what, n):
    """Changes the building, kinds maps unique polygon names to their shapes."""
    name = f"c{n}"
    if what == "add":
        bdg["n0"]["n01"]["n0"].add_polygon(polygon("G", name))
        kinds[name] = "G"
    elif what == "replace":
        w = bdg["n0"]["n0"]["n0"]
        old = list(w.children)[0]
        w.replace_polygon(old, polygon("D", name))
        kinds[name] = "D"
    elif what == "split":
        w = bdg["n01"]["n0"]["n0"]
        old = list(w.children)[0]
        w.replace_polygon(old, polygon("B", name), polygon("Far", name + "x"))
        kinds[name], kinds[name + "x"] = "B", "Far"
    elif what == "wall":
        bdg["n01"]["n0"].replace_wall("n01", Wall([polygon("Af2", name)], name="n01"))
        kinds[name] = "Af2"
    elif what == "solid":
        bdg["n0"].add_solid(Solid([Wall([polygon("A2", name)], name="w")], name=name))
        kinds[name] = "A2"
    else:
        bdg.add_zone(Zone([Solid([Wall([polygon("R", name)], name="w")], name="s")], name=name))
        kinds[name] = "R"


CHANGES = ("add", "replace", "split", "wall", "solid", "zone")


def run_queries(ctx, i, depth):
    for seq in itertools.product(range(len(QUERIES)), repeat=depth - 1):
        bdg, kinds = start()
        history = [QUERIES[i]] + [QUERIES[q] for q in seq]
        ctx.at(queries=history)
        for q in history:
            got = ask(ctx, bdg, q[0], q[1], q[2])
            exp = answers(ctx, bdg, kinds, q)
            ctx.check(same_graph(got, exp, q[0]), "answer", query=q, got=got, expected=exp)
        ctx.state("queries", i, seq)
        ctx.trace("queries")


def run_changes(ctx, i, depth):
    for seq in itertools.product(CHANGES, repeat=depth - 1):
        changes = (CHANGES[i],) + seq
        for before in range(i % 2, len(QUERIES), 2):
            bdg, kinds = start()
            past = []
            for n, c in enumerate(changes):
                # Some answer is remembered before the change
                q = QUERIES[(before + 5 * n) % len(QUERIES)]
                ask(ctx, bdg, q[0], q[1], q[2])
                past.append((q[0], q[1], answers(ctx, bdg, kinds, q)))
                change(bdg, kinds, c, n)
                for q in QUERIES[(before + n) % 4 :: 4]:
                    ctx.at(changes=changes[: n + 1], remembered=before, query=q)
                    got = ask(ctx, bdg, q[0], q[1], q[2])
                    exp = answers(ctx, bdg, kinds, q)
                    ok = same_graph(got, exp, q[0])
                    if not ok and q[2] is None:
                        ok = True  # Possibly outdated
                        ctx.outcomes["outdated"] = ctx.outcomes.get("outdated", 0) + 1
                    ctx.check(ok, "answer-after-change", got=got, expected=exp)
            # Requested anew, all answers are about the current building
            for q in QUERIES:
                if q[2]:
                    ctx.at(changes=changes, remembered=before, query=q)
                    got = ask(ctx, bdg, q[0], q[1], q[2])
                    exp = answers(ctx, bdg, kinds, q)
                    ctx.check(same_graph(got, exp, q[0]), "answer-after-change", got=got, expected=exp)
            ctx.state("changes", changes, before)
            ctx.trace("changes")


def cases(tier):
    out = [["small", n, tier, part] for n in NAMES for part in range(PARTS)]
    out += [["rooms", kind, k] for kind in ("row", "stack", "turned", "block") for k in range(12 if kind != "turned" else 16)]
    out += [["queries", i, 3 if tier == "quick" else 4] for i in range(len(QUERIES))]
    out += [["changes", i, 2 if tier == "quick" else 3] for i in range(len(CHANGES))]
    return out


def run(case, ctx):
    {"small": run_small, "rooms": run_rooms, "queries": run_queries, "changes": run_changes}[case[0]](ctx, *case[1:])
