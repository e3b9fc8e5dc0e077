"""R07: surface parameters follow the last assignment covering a polygon."""

import itertools
import os
import shutil
import tempfile

import numpy as np

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

ID = "R07"
BOUNDS = {
    "quick": "a building with 2 zones, 4 solids, 5 walls and 7 polygons and names repeated at all levels; all sequences of up "
    "to 3 out of 54 operations (assignments to 19 existing and 10 missing paths, 3 values of which one is the default and one is 0, changes "
    "of the default); end to end: simulations of 1 ray from 5 sources in a building of 3 rooms with different values, 24 directions",
    "thorough": "sequences of up to 4 assignments",
}
ASSUMPTIONS = ["values are assigned with set_surface_param()"]

# zone -> solid -> wall -> polygons
TREE = {"a": {"a": {"a": ["a", "b"], "b": ["a"]}, "b": {"a": ["a"]}}, "b": {"a": {"a": ["a", "b"]}, "ab": {"a": ["a"]}}}
BAD = ["b/c", "b/a/c", "b/a/a/c", "b/a/a/a/c", "a/a", "b/a/a/a/a/a", "b/ab", "c", "b/", "b/a/ab"]
OP_VALUES = (0.2, 0.5, 0.0)  # the first one is the original default


def building():
    zones = []
    for zn, z in TREE.items():
        solids = []
        for sn, s in z.items():
            walls = []
            for wn, w in s.items():
                ps = [Polygon(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]) + i, name=pn) for i, pn in enumerate(w)]
                walls.append(Wall(ps, name=wn))
            solids.append(Solid(walls, name=sn))
        zones.append(Zone(solids, name=zn))
    return Building(zones, name="b")


def polygon_paths():
    return [
        f"b/{z}/{s}/{w}/{p}" for z, zt in TREE.items() for s, st in zt.items() for w, wt in st.items() for p in wt
    ]


def paths():
    out = ["b"]
    for p in polygon_paths():
        parts = p.split("/")
        for n in range(2, 6):
            if "/".join(parts[:n]) not in out:
                out.append("/".join(parts[:n]))
    return out


def operations():
    ops = [("set", p, v) for p in paths() for v in OP_VALUES[:2]]
    ops += [("set", p, OP_VALUES[2]) for p in ("b", "b/a/a", "b/a/a/a/b")]
    ops += [("bad", p, 0.9) for p in BAD]
    ops += [("default", None, 0.5), ("default", None, 0.35), ("array", None, None)]
    return ops


def cases(tier):
    n = len(operations())
    return [["history", i, j, tier] for i in range(n) for j in range(-1, n)] + [["sim", i, 0, tier] for i in range(5)]


class Model:
    def __init__(self):
        self.default = 0.2
        self.last = {p: None for p in polygon_paths()}

    def apply(self, op):
        kind, path, value = op
        if kind == "set":
            for p in self.last:
                if p == path or p.startswith(path + "/"):
                    self.last[p] = value
        elif kind == "default":
            self.default = value

    def values(self):
        return [self.default if v is None else v for v in self.last.values()]


def apply(ctx, cfg, bdg, op):
    kind, path, value = op
    ctx.step()
    if kind == "set":
        cfg.set_surface_param("absorption", path, value, bdg)
    elif kind == "default":
        cfg.surfaces["absorption"]["default"] = value
    elif kind == "array":
        cfg.surface_params_to_array("absorption", bdg)
    else:
        before = dict(cfg.surfaces["absorption"])
        try:
            cfg.set_surface_param("absorption", path, value, bdg)
        except Exception:
            pass
        else:
            ctx.fail("bad-path-accepted", path=path)
        ctx.check(dict(cfg.surfaces["absorption"]) == before, "changed-by-bad-path", path=path)


def history(ctx, ops, bdg):
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    model = Model()
    for op in ops:
        apply(ctx, cfg, bdg, op)
        model.apply(op)
    got = cfg.surface_params_to_array("absorption", bdg)
    ctx.step()
    ctx.check(len(got) == len(model.last), "length", got=len(got))
    for i, (path, v) in enumerate(zip(model.last, model.values())):
        num = bdg.get(path).num
        ctx.check(num == i and got[num] == v, "value", path=path, got=got[num], expected=v)


# End to end: the energy lost at a wall is the value of that wall

ROOMS = [("y", "b", (0, 0, 0), (1, 1, 1)), ("x", "a", (2, 0, 0), (1, 2, 1)), ("y", "a", (0, 3, 0), (2, 1, 1))]
SOURCES = [(0.5, 0.5, 0.5), (2.5, 1.0, 0.5), (1.0, 3.5, 0.5), (0.3, 0.6, 0.4), (1.7, 3.2, 0.7)]
DIRECTIONS = [
    d for d in itertools.product((-0.9, 0.1, 0.8), repeat=3) if sum(abs(x) for x in d) > 0.5
]


def simulate(ctx, k, tier):
    zones = {}
    for z, s, at, size in ROOMS:
        zones.setdefault(z, []).append(box(*size, at, name=s))
    bdg = Building([Zone(v, name=z) for z, v in zones.items()], name="b")
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    value = {}
    cfg.surfaces["absorption"]["default"] = 0.01
    for i, path in enumerate(bdg.get_polygon_paths()):
        value[path] = 0.01
    order = [("b/y", 0.02), ("b/x/a", 0.03)]
    for i, path in enumerate(bdg.get_polygon_paths()):
        if i % 6:
            order.append((path, 0.1 + i / 100))
    order.append((f"b/y/a/{list(bdg['y']['a'].walls)[2]}", 0.4))
    for path, v in order:
        cfg.set_surface_param("absorption", path, v, bdg)
        for p in value:
            if p == path or p.startswith(path + "/"):
                value[p] = v
    root = tempfile.mkdtemp(prefix="mc-r07-")
    real = np.random.rand
    try:
        for j, d in enumerate(DIRECTIONS[: 24 if tier == "quick" else None]):
            cfg.engine.update(time_step=0.001, num_steps=6, batch_size=6, voxel_size=0.7)
            cfg.rays.update(num_rays=1, ray_speed=200.0, source=SOURCES[k], absorbers=[(9.0, 9.0, 9.0)], absorber_radius=0.1)
            cfg.paths["project_dir"] = os.path.join(root, str(j))
            cfg.paths["buffer_dir"] = os.path.join(root, str(j), "states")
            ctx.at(kind="sim", source=SOURCES[k], direction=d)
            sim = Simulation(bdg, cfg)
            np.random.rand = lambda *shape: np.broadcast_to((np.array(d) + 1) / 2, shape).copy()
            try:
                pos, enr, _ = sim.run()
            finally:
                np.random.rand = real
            ctx.step(7)
            ctx.state("sim", k, d)
            ctx.trace("sim", judge(ctx, bdg, value, pos[:, 0], enr[:, 0]))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(ctx, bdg, value, pos, enr):
    """Every loss is the sum of the values of the walls which turned the ray."""
    judged = 0
    speed = 0.2
    for i in range(len(pos) - 1):
        loss = enr[i] - enr[i + 1]
        if loss == 0 or enr[i + 1] <= 0:
            continue
        # Walls near the position in front of the ray
        near = []
        for p in value:
            poly = bdg.get(p)
            if abs(np.dot(pos[i] - poly.pts[0], poly.vn)) < 1.02 * speed and contains(poly, pos[i]):
                near.append(value[p])
        sums = [sum(c) for n in (1, 2, 3) for c in itertools.combinations(near, n)]
        ctx.check(any(abs(loss - s) < 1e-9 for s in sums), "loss", step=i, got=loss, near=near)
        judged += 1
    return judged


def contains(poly, p):
    lo, hi = poly.pts.min(axis=0), poly.pts.max(axis=0)
    return bool((p > lo - 0.21).all() and (p < hi + 0.21).all())


def run(case, ctx):
    kind, i, j, tier = case
    if kind == "sim":
        simulate(ctx, i, tier)
        ctx.sample(kind=kind, source=SOURCES[i])
        return
    bdg = building()
    to_array_format(bdg)
    ops = operations()
    if j < 0:
        histories = [()] if i == 0 else []
        histories.append((ops[i],))
    else:
        histories = [(ops[i], ops[j])] + [(ops[i], ops[j], op) for op in ops]
        if tier == "thorough":
            histories += [(ops[i], ops[j], a, b) for a, b in itertools.product(ops, repeat=2)]
    for h in histories:
        ctx.at(history=h)
        history(ctx, h, bdg)
        ctx.state(h)
        ctx.trace(f"length-{len(h)}")
    ctx.sample(first=ops[i])
