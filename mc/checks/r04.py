"""Splitting a simulation into batches does not change its results."""

import os
import shutil
import tempfile

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
from mc import rays

ID = "R04"
BOUNDS = {
    "quick": "simulations of 1, 2, 3, 4, 6, 8, 12 steps with all admissible batch sizes; 5 buildings (box, non-convex, "
    "oblique, tilted, two solids with a common transparent surface) x 2 sources x 3 step lengths x 3 absorber layouts x "
    "3 absorption coefficients (chosen so that reflections, hits and extinctions fall on every step number), 6 rays; "
    "the inadmissible batch sizes are rejected",
    "thorough": "simulations of 1 to 16 steps, 20 and 24 steps with all admissible batch sizes; the same buildings with "
    "4 sources, 3 step lengths, 4 absorber layouts, 4 absorption coefficients, 12 rays",
}
ASSUMPTIONS = ["the batch size is a divisor of the number of steps"]


def two_boxes():
    return Building([Zone([box(1, 1, 1, (0, 0, 0), "a"), box(1, 1, 1, (1, 0, 0), "b")], name="z")], name="b")


# name: (building, points inside)
def scene(name):
    if name == "two":
        return two_boxes(), [(0.8, 0.4, 0.6), (1.7, 0.3, 0.35), (0.2, 0.8, 0.5), (1.05, 0.5, 0.5)]
    plan, pose = {"cube": ("cube", "odd"), "L": ("L", "none"), "house": ("house", "none"), "tilted": ("cube", "tilted")}[name]
    room = rays.Room(plan, pose)
    pts = [(0.4, 0.45, 0.35), (0.7, 0.3, 0.6), (0.25, 0.75, 0.5), (0.6, 0.6, 0.4)]
    return room.building(), [tuple(room.world(p)[0]) for p in pts]


SCENES = ["cube", "L", "house", "tilted", "two"]
STEPS = {"quick": [1, 2, 3, 4, 6, 8, 12], "thorough": list(range(1, 17)) + [20, 24]}


def cases(tier):
    out = []
    i = 0
    for name in SCENES:
        for src in range(2 if tier == "quick" else 4):
            for length in (0.11, 0.23, 0.05):
                for layout in range(3 if tier == "quick" else 4):
                    for absorption in (0.2, 0.34, 0.9) if tier == "quick" else (0.2, 0.34, 0.5, 0.9):
                        i += 1
                        # Long simulations contain the short ones, these are run for some of the scenes
                        for n in STEPS[tier]:
                            if tier == "thorough" or n == (12, 8, 6)[i % 3] or (i % 6 == 0 and n < 6):
                                out.append([name, src, length, layout, absorption, n])
    return out


def absorbers(layout, pts):
    pts = np.array(pts)
    if layout == 0:
        return []
    if layout == 1:
        return [tuple(pts[0] + (0.15, -0.05, 0.1))]
    if layout == 2:
        return [tuple(pts[1] + (0.1, 0.1, 0)), tuple(pts[0] + (0.0, 0.25, 0.05))]
    return [tuple(pts[0]), tuple(pts[2]), tuple(pts[2])]


class Directions:
    """Fixed initial directions instead of random ones."""

    def __init__(self, first):
        self.first = first

    def __enter__(self):
        self.rand = np.random.rand
        dirs = np.array(rays.skew_directions())
        dirs = np.roll(dirs, -self.first, axis=0)
        dirs = dirs / np.abs(dirs).max(axis=1)[:, None]

        def rand(*shape):
            if len(shape) == 2 and shape[1] == 3:
                return (np.resize(dirs, shape) + 1.0) / 2.0
            return self.rand(*shape)

        np.random.seed(self.first)
        np.random.rand = rand

    def __exit__(self, *_):
        np.random.rand = self.rand


def config(bdg, case, batch, top, num_rays):
    name, src, length, layout, absorption, steps = case
    pts = scene(name)[1]
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    cfg.engine["num_steps"] = steps
    cfg.engine["batch_size"] = batch
    cfg.engine["time_step"] = length / 343.0
    cfg.engine["voxel_size"] = 0.5
    cfg.rays["num_rays"] = num_rays
    cfg.rays["source"] = pts[src]
    cfg.rays["absorbers"] = absorbers(layout, pts)
    cfg.rays["absorber_radius"] = 0.12
    cfg.surfaces["absorption"]["default"] = absorption
    cfg.paths["project_dir"] = top
    cfg.paths["buffer_dir"] = os.path.join(top, "states")
    return cfg


def simulate(case, batch, num_rays):
    bdg = scene(case[0])[0]
    top = tempfile.mkdtemp()
    try:
        cfg = config(bdg, case, batch, os.path.join(top, "out"), num_rays)
        with Directions(SCENES.index(case[0]) + case[1]):
            returned = Simulation(bdg, cfg).run()
        files = sorted(os.listdir(cfg.paths["buffer_dir"]))
        return read_buffers(cfg.paths["buffer_dir"], cfg), files, returned
    finally:
        shutil.rmtree(top)


def run(case, ctx):
    name, src, length, layout, absorption, steps = case
    num_rays = 6 if ctx.tier == "quick" else 12
    reference = None
    for batch in range(1, steps + 1):
        ctx.at(case=case, batch=batch)
        if steps % batch:
            continue
        (pos, enr, hit), files, returned = simulate(case, batch, num_rays)
        ctx.step(steps * num_rays)
        names = sorted(f"{kind}_{i}.npy" for kind in ("position", "energy", "hits") for i in range(steps + 1))
        ctx.check(files == names, "files", expected=len(names), got=files[:8])
        ctx.check(pos.shape == (steps + 1, num_rays, 3), "shape", got=pos.shape)
        ctx.check(np.array_equal(enr[0], np.ones(num_rays)), "initial-energy", got=enr[0])
        ctx.check((hit[0] == 0).all(), "initial-hits", got=hit[0])
        ctx.check(np.allclose(pos[0], scene(name)[1][src], rtol=0, atol=1e-12), "initial-position", got=pos[0])
        for kind, stored, end in zip(("position", "energy", "hits"), (pos, enr, hit), returned):
            ctx.check(np.array_equal(stored[-1], end[-1]), "last-state", kind=kind)
        if reference is None:
            # All other batch sizes are compared with batches of one step
            reference = (pos, enr, hit)
            for i in range(steps):
                ctx.state(*case, i, tuple(np.round(pos[i].ravel(), 6)), tuple(np.round(enr[i], 6)))
            dead = ((enr[1:] == 0) & (enr[:-1] > 0)).any(axis=1)
            turned = np.abs(np.diff(pos, 2, axis=0)).max(axis=(1, 2)) > 1e-6
            ctx.trace("reference")
            ctx.sample(case=case, hits=hit.tolist(), extinctions=dead.tolist(), turns=turned.tolist())
            continue
        for kind, a, b in zip(("position", "energy", "hits"), reference, (pos, enr, hit)):
            same = a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9)
            where = -1
            if not same and a.shape == b.shape:
                where = int(np.argwhere(np.abs(a - b) > 1e-9)[0][0])
            ctx.check(same, "different", kind=kind, step=where, batch=batch)
        ctx.trace(f"batches-{steps // batch}")
    # Batch sizes which are not admissible must not give a result with steps missing
    if length == 0.11 and layout == 1 and absorption == 0.2:
        for batch in range(1, steps + 3):
            if steps % batch == 0:
                continue
            ctx.at(case=case, batch=batch)
            try:
                (pos, enr, hit), _, _ = simulate(case, batch, num_rays)
            except Exception:
                ctx.trace("rejected")
                continue
            ctx.check(
                pos.shape == reference[0].shape and np.allclose(pos, reference[0], atol=1e-9), "inadmissible", batch=batch
            )
