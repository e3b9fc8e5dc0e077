"""M01: the building tree stays consistent under every sequence of edits."""

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

ID = "M01"
BOUNDS = {
    "quick": "all sequences of additions, replacements (also re-using the polygons), moves of walls and polygons, rejected edits: up to 4 edits from the "
    "empty building, 3 from a building with a single polygon, 2 from a building with several members at each level; "
    "6 sets of names",
    "thorough": "one more edit in each sequence",
}
ASSUMPTIONS = ["an object is used in at most one place at a time"]

SEP = "/"
NAMES = [
    ("a", "b"),
    ("x y", "x"),
    ("1", "10"),
    ("ü.b3d", "0"),
    ("wall", "wall-sup"),
    ("'q\"", "{*}"),
]

PTS = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
TRI = np.array([[0, 1, 2]], dtype=np.int32)
VN = np.array([0.0, 0.0, 1.0])


LISTING = [False]  # While the work items are listed nothing is judged


def asked(obj, above=""):
    """The objects are asked for their paths already before they have a parent."""
    path = above + obj.name
    if obj.path != path and not LISTING[0]:
        raise RuntimeError(f"path {obj.path} instead of {path}")
    for c in obj.children.values() if isinstance(obj.children, dict) else ():
        asked(c, path + SEP)
    return obj


def polygon(name):
    return asked(Polygon(PTS.copy(), name=name, tri=TRI.copy(), vn=VN.copy()))


def wall(name, polys=()):
    return asked(Wall([polygon(p) for p in polys], name=name))


def solid(name, walls=()):
    return asked(Solid(list(walls), name=name))


def zone(name, solids=()):
    return asked(Zone(list(solids), name=name))


MAKE = [None, zone, solid, wall, polygon]
ADD = ["add_zone", "add_solid", "add_wall", "add_polygon"]


class Node:
    """Model of an object: level (0 building ... 4 polygon), name and children in order."""

    def __init__(self, level, name, children=()):
        self.level = level
        self.name = name
        self.children = list(children)

    def names(self):
        return [c.name for c in self.children]

    def child(self, name):
        for c in self.children:
            if c.name == name:
                return c
        raise KeyError(name)

    def print(self):
        return (self.name, tuple(c.print() for c in self.children))


def model(real, level=0):
    """Model of an existing tree."""
    if level == 4:
        return Node(4, real.name)
    return Node(level, real.name, [model(c, level + 1) for c in real.children.values()])


def containers(node, path=()):
    if node.level < 4:
        yield path, node
        for c in node.children:
            yield from containers(c, path + (c.name,))


def edits(tree, names):
    """All edits applicable to a tree, as (kind, path of the container, ...)."""
    a, b = names
    for path, node in containers(tree):
        lv = node.level
        for n in names:
            yield ("add", path, n)
        if lv == 2:
            for n in names:
                yield ("add-full", path, n)
            for old in list(node.names()) + ["unknown"]:
                for n in names:
                    yield ("replace-wall", path, old, n)
                    yield ("rewrap-wall", path, old, n)
                for other, onode in containers(tree):
                    if onode.level == 2 and old != "unknown":
                        yield ("move", path, other, old)
        if lv == 3:
            for old in list(node.names()) + ["unknown"]:
                for new in ((a,), (b,), ("c",), (a, b), ("c", a), (b, b), ("c", "d", a)):
                    yield ("replace-polygon", path, old, new)
                for other, onode in containers(tree):
                    if onode.level == 3 and old != "unknown":
                        yield ("move", path, other, old)
        yield ("bad-name", path, a + SEP + b)
        yield ("twice", path, b)
        # An object with a name already used here cannot be taken from another place
        if lv < 4:
            for other, onode in containers(tree):
                if onode.level == lv and other != path:
                    for n in node.names():
                        if n in onode.names():
                            yield ("occupied", path, other, n)


def find(real, path):
    for n in path:
        real = real.children[n]
    return real


def apply(bdg, tree, edit):
    """Applies the edit to the implementation and returns True if it must be accepted.

    Returns (expected, raised, updated children names or None).
    """
    kind, path = edit[0], edit[1]
    node = tree
    for n in path:
        node = node.child(n)
    real = find(bdg, path)
    lv = node.level
    before = node.names()
    error = None
    ok = True
    try:
        if kind == "add":
            ok = edit[2] not in before
            after = before + [edit[2]]
            getattr(real, ADD[lv])(MAKE[lv + 1](edit[2]))
        elif kind == "add-full":
            ok = edit[2] not in before
            after = before + [edit[2]]
            real.add_wall(wall(edit[2], ("c", edit[2])))
        elif kind == "replace-wall":
            _, _, old, new = edit
            ok = old in before and (new == old or new not in before)
            after = ("any", [n for n in before if n != old], [new])
            real.replace_wall(old, wall(new, (new, "c")))
        elif kind == "rewrap-wall":
            # The polygons of the old wall are used in the new one
            _, _, old, new = edit
            ok = old in before and new not in before
            after = ("any", [n for n in before if n != old], [new])
            if ok:
                real.replace_wall(old, Wall(list(real.children[old].children.values()), name=new))
            else:
                real.replace_wall(old, wall(new))
                ok = old == new and old in before
        elif kind == "replace-polygon":
            _, _, old, new = edit
            rest = [n for n in before if n != old]
            ok = old in before and len(set(new)) == len(new) and not set(new) & set(rest)
            after = ("any", rest, list(new))
            real.replace_polygon(old, *[polygon(n) for n in new])
        elif kind == "bad-name":
            ok = False
            after = before
            getattr(real, ADD[lv])(MAKE[lv + 1](edit[2]))
        elif kind == "twice":
            ok = False
            after = before
            cls = (None, Zone, Solid, Wall)[lv] if lv else Building
            cls([MAKE[lv + 1](edit[2]), MAKE[lv + 1](edit[2])], name="new")
        else:
            _, _, other, n = edit
            ok = False
            after = before
            getattr(real, ADD[lv])(find(bdg, other).children[n])
    except Exception as e:
        error = e
    return ok, error, after, node, real


def verify(ctx, bdg, tree):
    """The implementation's tree agrees with the model in every way it can be asked."""
    objects = []

    def walk(node, real, path, parent):
        ctx.check(real.name == node.name, "name", path=path, got=real.name)
        ctx.check(real.path == path, "path", expected=path, got=real.path)
        ctx.check(real.parent is parent, "parent", path=path)
        objects.append((path, real, node))
        if node.level < 4:
            names = list(real.children)
            ctx.check(names == node.names(), "children", path=path, got=names, expected=node.names())
            for c in node.children:
                child = real.children[c.name]
                ctx.check(real[c.name] is child, "item", path=path, name=c.name)
                walk(c, child, path + SEP + c.name, real)

    walk(tree, bdg, tree.name, None)
    polys = [p for p, _, n in objects if n.level == 4]
    for path, real, node in objects:
        if node.level < 4:
            expected = [p for p in polys if p.startswith(path + SEP)]
            got = real.get_polygon_paths()
            ctx.check(got == expected, "polygon-paths", path=path, got=got, expected=expected)
            ctx.step()
    for path, real, _ in objects:
        for p2, other, node in objects:
            ctx.check(real.get(p2) is other, "get", at_object=path, path=p2)
            ctx.step()
        for missing in (path + SEP + "missing", tree.name + SEP + "missing"):
            try:
                got = real.get(missing)
            except Exception:
                ctx.step()
            else:
                ctx.fail("missing-found", path=missing, got=repr(got))
    return len(objects)


def seed_tree(kind, names):
    a, b = names
    if kind == "empty":
        return Building(name=a)
    if kind == "single":
        return Building([zone(b, [solid(a, [wall(b, (a,))])])], name=a)
    # Several members at each level, with repeated names and members without children
    s1 = solid(a, [wall(a, (a, b)), wall(b, (b,))])
    s2 = solid(b, [wall(a, ())])
    s3 = solid(b, [wall(b, (a,)), wall(a, (b, a))])
    z1 = zone(a, [s1, s2])
    z2 = zone(b, [s3])
    return Building([z1, z2], name=b)


def cases(tier):
    more = 1 if tier == "thorough" else 0
    out = []
    for k, names in enumerate(NAMES):
        for kind, depth in (("empty", 4), ("single", 3), ("several", 2)):
            if k > 1 and tier == "quick":
                depth -= 1
            LISTING[0] = True
            bdg = seed_tree(kind, names)
            LISTING[0] = False
            first = list(edits(model(bdg), names))
            for i in range(len(first)):
                out.append([k, kind, depth + more, i])
    return out


def run(case, ctx):
    k, kind, depth, i = case
    names = NAMES[k]

    def replay(history):
        bdg = seed_tree(kind, names)
        tree = model(bdg)
        for e in history:
            step(bdg, tree, e)
        return bdg, tree

    def move(bdg, tree, edit):
        """A member is replaced by "r" and then added elsewhere."""
        _, path, other, name = edit
        node, onode = tree, tree
        for n in path:
            node = node.child(n)
        for n in other:
            onode = onode.child(n)
        if "r" in node.names() or (path != other and name in onode.names()):
            return "rejected"  # Not tried
        source, target = find(bdg, path), find(bdg, other)
        moved = source.children[name]
        try:
            if node.level == 2:
                source.replace_wall(name, wall("r", ("c",)))
                target.add_wall(moved)
            else:
                source.replace_polygon(name, polygon("r"))
                target.add_polygon(moved)
        except Exception as e:
            return f"error {e!r}"
        if target.children.get(name) is not moved:
            return "not there"
        kept = node.child(name)
        node.children[node.children.index(kept)] = Node(node.level + 1, "r", [Node(4, "c")] if node.level == 2 else [])
        onode.children.append(kept)
        for real, n in ((source, node), (target, onode)):
            # The order of replaced members is free
            got = list(real.children)
            if sorted(got) != sorted(n.names()):
                return f"children {got}"
            others = [x for x in n.names() if x not in ("r", name)]
            if [x for x in got if x in others] != others:
                return f"order {got}"
            n.children.sort(key=lambda c: got.index(c.name))
        return None

    def step(bdg, tree, edit):
        if edit[0] == "move":
            ctx.step(2)
            return move(bdg, tree, edit)
        if edit[0] == "rewrap-wall":
            node = tree
            for n in edit[1]:
                node = node.child(n)
            inside = [c.name for c in node.child(edit[2]).children] if edit[2] in node.names() and edit[2] != edit[3] else []
        ok, error, after, node, real = apply(bdg, tree, edit)
        ctx.step()
        if not ok:
            return "accepted" if error is None else "rejected"
        if error is not None:
            return f"error {error!r}"
        # The order of replaced members is free, the others keep theirs
        got = list(real.children)
        if isinstance(after, tuple):
            _, rest, new = after
            if sorted(got) != sorted(rest + new) or [n for n in got if n in rest] != rest:
                return f"children {got}"
            if [n for n in got if n in new] != new:
                return f"order {got}"
        elif got != after:
            return f"children {got}"
        old = {c.name: c for c in node.children}
        node.children = []
        for n in got:
            kept = n in old and not (edit[0].startswith("replace") and n in edit[3:][0])
            if edit[0] == "replace-polygon":
                kept = n in old and n not in edit[3]
            elif edit[0] in ("replace-wall", "rewrap-wall"):
                kept = n in old and n != edit[3]
            if kept:
                node.children.append(old[n])
            else:
                kids = {"add-full": ["c", n], "replace-wall": [n, "c"]}.get(edit[0], [])
                if edit[0] == "rewrap-wall":
                    kids = inside
                node.children.append(Node(node.level + 1, n, [Node(4, c) for c in kids]))
        return None

    def explore(history):
        ctx.at(names=names, start=kind, edits=history)
        bdg, tree = replay(history[:-1])
        result = step(bdg, tree, history[-1])
        rejected = result == "rejected"
        ctx.check(result is None or rejected, "edit", result=result)
        verify(ctx, bdg, tree)
        ctx.state(tree.print())
        ctx.trace("rejected" if rejected else "accepted")
        if len(history) < depth:
            for e in edits(tree, names):
                explore(history + [e])

    bdg = seed_tree(kind, names)
    tree = model(bdg)
    ctx.at(names=names, start=kind)
    verify(ctx, bdg, tree)
    first = list(edits(tree, names))[i]
    explore([first])
    ctx.sample(start=kind, names=names, first=first)
