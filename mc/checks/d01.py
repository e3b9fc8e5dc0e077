"""D01: plots show exactly the given objects."""

import itertools
import os
import tempfile

import numpy as np
import pyvista as pv

from building3d.display.plot_objects import plot_objects
from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.zone import Zone
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter

ID = "D01"
BOUNDS = {
    "quick": "all tuples of up to 3 objects over the 7 subsets of {mesh, lines, points}, each with no colours, every number of "
    "colours from 1 to 4 and with float, integer and array colours, shown and saved; buildings, zones, solids, walls and ray buffers",
    "thorough": "tuples of up to 4 objects",
}
ASSUMPTIONS = ["the plotter is replaced by one that only records, the meshes are real"]

KINDS = [k for n in (1, 2, 3) for k in itertools.combinations(("mesh", "lines", "points"), n)]
COLORS = [(1.0, 0.0, 0.25), (0, 1, 0), np.array([0.5, 0.5, 1.0]), [0.1, 0.2, 0.3]]


class Thing:
    """Has any of the three representations, all different."""

    def __init__(self, kind, num):
        self.kind = kind
        rng = np.arange(60, dtype=float).reshape((-1, 3)) + 100 * num
        if "mesh" in kind:
            self.mesh = rng[: 4 + num], np.array([[0, 1, 2], [0, 2, 3], [3, 1, 0]][: 1 + (num + 1) % 3])
            self.get_mesh = lambda: self.mesh
        if "lines" in kind:
            self.lines = rng[:6] + 0.5, np.array([[0, 1, 2], [3, 4, 5]]) if num % 2 else np.array([[5, 0], [2, 1], [1, 4]])
            self.get_lines = lambda: self.lines
        if "points" in kind:
            self.points = rng[: 2 + num] + 0.25
            self.get_points = lambda: self.points


def drawn(mesh):
    """Points, triangles and lines of a mesh, without the points' order."""
    p = [tuple(x) for x in np.asarray(mesh.points, dtype=float)]
    faces, lines = [], []
    flat = list(mesh.faces) if mesh.n_faces_strict else []
    while flat:
        n = int(flat[0])
        faces.append(tuple(p[i] for i in flat[1 : n + 1]))
        flat = flat[n + 1 :]
    flat = list(mesh.lines) if mesh.n_lines else []
    while flat:
        n = int(flat[0])
        lines.append(tuple(p[i] for i in flat[1 : n + 1]))
        flat = flat[n + 1 :]
    return sorted(p), faces, lines


def expected(obj):
    """What has to be drawn: meshes, lines, points."""
    out = []

    def rows(a):
        return [tuple(x) for x in np.asarray(a, dtype=np.float32).astype(float)]

    if hasattr(obj, "get_mesh"):
        v, f = obj.get_mesh()
        v = rows(v)
        out.append((sorted(v), [tuple(v[i] for i in t) for t in f], []))
    if hasattr(obj, "get_lines"):
        v, ls = obj.get_lines()
        v = rows(v)
        out.append((sorted(v), [], [tuple(v[i] for i in line) for line in ls]))
    if hasattr(obj, "get_points"):
        v = rows(obj.get_points())
        out.append((sorted(v), [], []))
    return out


def same(a, b):
    return (
        len(a[0]) == len(b[0])
        and np.allclose(np.array(a[0]), np.array(b[0]), rtol=1e-6)
        and [len(x) for x in a[1]] == [len(x) for x in b[1]]
        and [len(x) for x in a[2]] == [len(x) for x in b[2]]
        and all(np.allclose(x, y, rtol=1e-6) for x, y in zip(a[1] + a[2], b[1] + b[2]))
    )


class Screen:
    last = None

    def __init__(self, *args, **kwargs):
        self.added = []
        self.shown = []
        Screen.last = self

    def add_mesh(self, mesh, *args, **kwargs):
        self.added.append((mesh.copy(), kwargs.get("color")))

    def show(self, *args, **kwargs):
        self.shown.append(kwargs.get("screenshot"))

    def screenshot(self, path=None, *args, **kwargs):
        self.shown.append(path)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


def check_plot(ctx, objects, colors, save):
    ctx.at(objects=[getattr(o, "kind", str(type(o).__name__)) for o in objects], colors=len(colors), save=save)
    ctx.step()
    path = None
    if save:
        path = os.path.join(tempfile.gettempdir(), "plots", str(os.getpid()), "deep", "p.png")
    plotter, pv.Plotter = pv.Plotter, Screen
    Screen.last = None
    try:
        plot_objects(tuple(objects), output_file=path, colors=tuple(colors))
    except ValueError:
        ctx.check(not objects or colors and len(colors) != len(objects), "rejected")
        ctx.trace("rejected")
        return
    finally:
        pv.Plotter = plotter
    if not ctx.check(objects and len(colors) in (0, len(objects)), "not-rejected"):
        return
    screen = Screen.last
    ctx.check(len(screen.shown) == 1 and screen.shown[0] == path, "shown", got=screen.shown)
    if save:
        ctx.check(os.path.isdir(os.path.dirname(path)), "directory")
    want = [(k, e) for k, o in enumerate(objects) for e in expected(o)]
    if not ctx.check(len(want) == len(screen.added), "number-of-meshes", got=len(screen.added), expected=len(want)):
        return
    left = list(screen.added)
    seen = {}
    for k, e in want:
        match = [i for i, (m, _) in enumerate(left) if same(drawn(m), e)]
        if not ctx.check(match, "missing", object=k, expected=e):
            return
        _, color = left.pop(match[0])
        if colors:
            ctx.check(color is not None and np.allclose(color, np.asarray(colors[k], dtype=float)), "color", object=k, got=color)
        else:
            # One colour per object
            seen.setdefault(k, color)
            ctx.check(color is None or np.allclose(seen[k], color), "colors-of-object", object=k)
    ctx.trace("drawn")


def cases(tier):
    n = 3 if tier == "quick" else 4
    return [["things", k, i] for k in range(1, n + 1) for i in range(len(KINDS) if k > 1 else 1)] + [["empty"], ["real"]]


def run(case, ctx):
    if case[0] == "empty":
        for colors in ([], COLORS[:1], COLORS[:2]):
            check_plot(ctx, [], colors, False)
            ctx.state("empty", len(colors))
    elif case[0] == "real":
        a, b = box(1, 2, 3, name="a"), floor_plan([(2, 0), (4, 0), (4, 3), (3, 1), (2, 2)], 2, name="b")
        zone = Zone([a, b], name="z")
        bdg = Building([zone], name="bdg")
        buf = RayBuffPlotter(bdg, np.arange(36.0).reshape((4, 3, 3)), np.ones((4, 3)))
        all_objects = [bdg, zone, a, b, a["floor"], b["wall-1"], b["ceiling"]["ceiling"], buf]
        for n in (1, 2):
            for which in itertools.permutations(range(len(all_objects)), n):
                for colors in ([], COLORS[:n]):
                    check_plot(ctx, [all_objects[i] for i in which], colors, False)
                    ctx.state("real", which, len(colors))
    else:
        _, n, first = case
        firsts = [KINDS[first]] if n > 1 else KINDS
        for kinds in itertools.product(firsts, *[KINDS] * (n - 1)):
            for num in range(5):
                for save in (False, True):
                    check_plot(ctx, [Thing(k, i) for i, k in enumerate(kinds)], COLORS[:num], save)
                    ctx.state(kinds, num, save)
