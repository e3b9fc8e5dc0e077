"""Parallel ray processing is schedule independent."""

import importlib
import itertools
import types

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.io.arrayformat import get_polygon_points_and_faces
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.voxel_grid import make_voxel_grid
from mc import interleave
from mc import rays

ID = "R01"
TECHNIQUE = (
    "enumeration of all orders and all interleavings (bounded preemptions) of the parallel loop of the real code, "
    "rewritten from its current source into coroutines on every run"
)
BOUNDS = {
    "quick": "14 states of a ray (free, next to a wall, an edge and a corner, by a transparent surface, in one and in two "
    "absorbers, weak, without energy, outside); all sets of 2 states x all interleavings with at most 2 preemptions; "
    "all sets of 3 states x all orders and at most 1 preemption, all orders of 4 rays; shared data are accessed in steps of one "
    "statement, reading and writing in += are separate; 5 steps of up to 14 rays in all rotations of their order",
    "thorough": "the same states; sets of 2 with at most 3 preemptions, sets of 3 with at most 2, all orders of 5 rays, 12 steps",
}
ASSUMPTIONS = [
    "variables assigned in the parallel loop are private to an iteration, or carried over from one iteration to the next "
    "one of the same thread",
    "functions called in the loop are executed without interruption",
]
MODULE = "building3d.sim.rays.simulation_loop"
STEP = 0.1

# position, direction, energy
STATES = {
    "free": ((0.43, 0.51, 0.47), (1, 2, 3), 1.0),
    "free-2": ((1.53, 0.41, 0.57), (-2, 1, -0.5), 0.7),
    "wall": ((0.05, 0.55, 0.5), (-1, 0.2, 0.1), 1.0),
    "wall-2": ((1.6, 0.3, 0.95), (0.3, 0.2, 1), 0.9),
    "edge": ((0.06, 0.07, 0.45), (-1, -1.1, 0.2), 1.0),
    "corner": ((0.05, 0.06, 0.07), (-1, -1, -1.1), 0.8),
    "interface": ((0.97, 0.45, 0.62), (1, 0.1, 0.2), 1.0),
    "absorber": ((0.52, 0.78, 0.3), (0, 1, 0.2), 0.6),
    "absorber-2": ((0.47, 0.83, 0.27), (1, 0.3, -1), 0.35),
    "both": ((0.6, 0.8, 0.3), (0.1, -1, 0.2), 0.9),
    "weak": ((0.5, 0.96, 0.8), (0.1, 1, 0.2), 0.15),
    "faint": ((0.5, 0.3, 0.8), (0.1, 1, 0.2), 1e-7),
    "none": ((0.52, 0.78, 0.3), (0.1, 1, 0.2), 0.0),
    "outside": ((0.5, 0.5, 1.4), (0.1, 0.1, 1), 1.0),
}
NAMES = list(STATES)
ABSORBERS = np.array([(0.5, 0.8, 0.3), (0.68, 0.8, 0.3)])
RADIUS = 0.11


def cases(tier):
    out = []
    for n, per in ((2, 2), (3, 8)):
        combos = list(itertools.combinations_with_replacement(range(len(NAMES)), n))
        for i in range(0, len(combos), per):
            out.append(["interleave", combos[i : i + per]])
    combos = list(itertools.combinations(range(len(NAMES)), 4 if tier == "quick" else 5))
    for i in range(0, len(combos), 60):
        out.append(["order", combos[i : i + 60]])
    for first in range(len(NAMES)):
        out.append(["together", first])
    return out


class Memo:
    """Results of functions called in the loop, which depend only on their arguments."""

    def __init__(self, f):
        self.f = f
        self.known = {}

    def key(self, x):
        if isinstance(x, np.ndarray):
            return x.tobytes()
        if isinstance(x, list):
            return tuple(id(e) for e in x)
        if isinstance(x, dict):
            return id(x)
        if isinstance(x, set):
            return frozenset(x)
        return x

    def __call__(self, *args, **kw):
        key = (tuple(self.key(a) for a in args), tuple((k, self.key(v)) for k, v in sorted(kw.items())))
        if key not in self.known:
            # Arguments are kept, so that their identifiers are not used again
            self.known[key] = (self.f(*args, **kw), args, kw)
        value = self.known[key][0]
        return value.copy() if isinstance(value, (np.ndarray, set)) else value


MEMO = ("normal", "find_target_surface", "distance_point_to_polygon", "find_nearby_polygons", "get_polygon_points_and_faces")


class World:
    """Two rooms with a transparent surface in between, prepared once."""

    def __init__(self):
        bdg = Building([Zone([box(1, 1, 1, (0, 0, 0), "a"), box(1, 1, 1, (1, 0, 0), "b")], name="z")], name="b")
        self.points, self.faces, self.polygons, self.walls = to_array_format(bdg)[:4]
        pts = []
        for n in range(len(self.walls)):
            pts.append(get_polygon_points_and_faces(self.points, self.faces, self.polygons, n)[0])
        lo, hi = self.points.min(axis=0), self.points.max(axis=0)
        self.grid = make_voxel_grid(
            min_xyz=(lo[0], lo[1], lo[2]), max_xyz=(hi[0], hi[1], hi[2]), poly_pts=pts, step=0.5, verbose=False
        )
        self.transparent = Simulation.get_transparent_polygon_numbers(bdg)
        self.absorption = 0.2 + 0.01 * np.arange(len(self.walls))

        # Plain loop, the iterations are processed in a given order
        self.sequential = self.copy(MODULE)
        self.order = None
        self.sequential.__dict__["prange"] = self.prange
        self.scheduler = interleave.Scheduler()
        self.left_out = None
        try:
            self.module = interleave.rewrite(MODULE, self.scheduler)
            # Without preemptions it must give the same as the original code
            for states in [list(range(len(NAMES)))] + [[i] for i in range(len(NAMES))]:
                self.scheduler.begin(())
                pairs = zip(self.run(self.module, states, 3), self.run(self.sequential, states, 3))
                if not all(np.array_equal(a, b) for a, b in pairs):
                    raise ValueError("the rewritten loop gives other results")
        except interleave.NoLoops:
            self.module = None
            self.left_out = "interleavings: no parallel loop was found"
        except Exception as e:
            self.module = None
            self.left_out = f"interleavings: {e!r}"
        for module in (self.module, self.sequential):
            for name in MEMO if module else ():
                if name in module.__dict__:
                    module.__dict__[name] = Memo(module.__dict__[name])
        self.pairs = {}

    def copy(self, name):
        module = importlib.import_module(name)
        with open(module.__file__) as f:
            code = compile(f.read(), module.__file__, "exec")
        new = types.ModuleType(name)
        new.__package__ = module.__package__
        new.__file__ = module.__file__
        exec(code, new.__dict__)
        return new

    def prange(self, *args):
        items = list(range(*args))
        if self.order is not None:
            items = [items[i] for i in self.order if i < len(items)]
        return items

    def run(self, module, states, steps=1):
        pos = np.array([STATES[NAMES[s]][0] for s in states], dtype=float)
        d = np.array([STATES[NAMES[s]][1] for s in states], dtype=float)
        vel = d / np.sqrt((d**2).sum(axis=1))[:, None] * rays.SPEED
        enr = np.array([STATES[NAMES[s]][2] for s in states], dtype=float)
        return module.simulation_loop(
            init_step=0,
            num_steps=steps,
            num_rays=len(states),
            ray_speed=rays.SPEED,
            time_step=STEP / rays.SPEED,
            grid_step=0.5,
            grid=self.grid,
            position=pos,
            velocity=vel,
            energy=enr,
            hits=np.zeros(len(ABSORBERS)),
            absorbers=ABSORBERS.copy(),
            absorber_radius=RADIUS,
            points=self.points,
            faces=self.faces,
            polygons=self.polygons,
            walls=self.walls,
            transparent_polygons=set(self.transparent),
            surf_absorption=self.absorption.copy(),
            verbose=False,
        )


WORLD = None
ALONE = {}


def world():
    global WORLD
    if WORLD is None:
        WORLD = World()
    return WORLD


def alone(state, steps=1):
    """A ray simulated on its own."""
    if (state, steps) not in ALONE:
        w = world()
        w.order = None
        ALONE[state, steps] = w.run(w.sequential, [state], steps)
    return ALONE[state, steps]


def compare(ctx, states, result, steps=1):
    pos, enr, hit = result
    expected = np.zeros((steps + 1, len(ABSORBERS)))
    for k, s in enumerate(states):
        p, e, h = alone(s, steps)
        expected = expected + h
        same = np.array_equal(pos[:, k], p[:, 0]) and np.array_equal(enr[:, k], e[:, 0])
        if not ctx.check(
            same,
            "ray-differs",
            ray=NAMES[s],
            together_with=[NAMES[x] for x in states],
            alone=[p[-1, 0], e[-1, 0]],
            got=[pos[-1, k], enr[-1, k]],
        ):
            return False
    return ctx.check(
        np.allclose(hit, expected, rtol=0, atol=1e-12),
        "hits-differ",
        states=[NAMES[x] for x in states],
        expected=expected[-1],
        got=hit[-1],
    )


def run(case, ctx):
    kind, what = case
    w = world()
    if kind == "interleave":
        if w.module is None:
            # Nothing runs in parallel, or it cannot be rewritten: only orders are enumerated
            ctx.omit(w.left_out)
            for states in what:
                orders(w, states, ctx)
            return
        for states in what:
            bound = (4 if ctx.tier == "quick" else 5) - len(states)
            n = 0
            longest = 0
            for result in interleave.schedules(lambda: w.run(w.module, states), w.scheduler, bound):
                ctx.at(states=[NAMES[s] for s in states], schedule=[p[1] for p in w.scheduler.points])
                n += 1
                longest = max(longest, len(w.scheduler.points))
                ctx.step(len(w.scheduler.points) + len(states))
                ctx.state(tuple(states), tuple(p[1] for p in w.scheduler.points))
                if not compare(ctx, states, result):
                    break
            ctx.trace(f"{len(states)}-rays", n)
            ctx.sample(states=[NAMES[s] for s in states], schedules=n, scheduling_points=longest)
    elif kind == "order":
        for states in what:
            orders(w, states, ctx)
    else:
        # All states together, in all rotations, over several steps
        steps = 5 if ctx.tier == "quick" else 12
        for n in (2, 5, len(NAMES)):
            states = [(what + i) % len(NAMES) for i in range(n)]
            for shift in range(n):
                ctx.at(states=[NAMES[s] for s in states], shift=shift)
                w.order = [(i + shift) % n for i in range(n)]
                ctx.state(tuple(states), tuple(w.order), steps)
                compare(ctx, states, w.run(w.sequential, states, steps), steps)
                ctx.step(n * steps)
                ctx.trace("together")


def orders(w, states, ctx):
    for order in itertools.permutations(range(len(states))):
        ctx.at(states=[NAMES[s] for s in states], order=order)
        w.order = order
        ctx.state(tuple(states), order)
        ok = compare(ctx, states, w.run(w.sequential, states))
        ctx.step(len(states))
        ctx.trace("order")
        if not ok:
            break
