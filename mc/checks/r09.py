"""R09: post-processing represents the recorded data faithfully."""

import itertools

import numpy as np
import pyvista as pv

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.impulse_response import impulse_response
from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter
from building3d.sim.rays.simulation_config import SimulationConfig

ID = "R09"
BOUNDS = {
    "quick": "all hit buffers with up to 4 steps x 2 absorbers over the values {0, 0.3, 1, 12}, up to 8 steps x 1, 3 x 3 over "
    "{0, 2.5}; 4 time steps; position buffers with 1-13 steps x 1-6 rays with all values different and with repeated values; movies of 2-8 steps x 1-4 rays with trails of 1-5 steps",
    "thorough": "up to 5 steps x 2 absorbers, 4 x 3, 30 steps x 12 rays, movies of up to 12 steps x 7 rays",
}
ASSUMPTIONS = ["at least one hit was recorded"]

VALUES = (0.0, 0.3, 1.0, 12.0)


def shapes(tier):
    out = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 1), (6, 1), (4, 2), (1, 3), (2, 3), (1, 4), (1, 5)]
    if tier == "thorough":
        out += [(5, 2)]
    return out


def cases(tier):
    out = []
    for s, a in shapes(tier):
        num = 4 ** (s * a)
        size = max(1024, num // 64)
        out += [["hits", s, a, lo, min(lo + size, num)] for lo in range(0, num, size)]
    out += [["binary", s, a] for s, a in ([(3, 3), (8, 1), (9, 1)] + ([(4, 3), (12, 1)] if tier == "thorough" else []))]
    n, r = (13, 6) if tier == "quick" else (30, 12)
    out += [["lines", k, r] for k in range(1, n + 1)]
    out += [["movie", k, r] for k in range(2, 9 if tier == "quick" else 13) for r in range(1, 5 if tier == "quick" else 8)]
    return out


_cfg = {}


def config():
    if not _cfg:
        bdg = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
        _cfg["b"] = bdg
        _cfg["c"] = SimulationConfig(bdg)
    return _cfg["c"]


STEPS = (2.5e-5, 1e-3, 0.1, 1.0)


def check_hits(ctx, hits, time_step):
    cfg = config()
    cfg.engine["time_step"] = time_step
    steps, absorbers = hits.shape
    given = hits.copy()
    ctx.step()
    if hits.sum() == 0:
        ctx.trace("no-hits")
        return
    ir = impulse_response(given, cfg)
    ctx.check(np.array_equal(given, hits), "input-modified", got=given, before=hits)
    ctx.check(ir.shape == (steps, absorbers), "shape", got=ir.shape, expected=(steps, absorbers))
    t = np.asarray(ir.index, dtype=float)
    ctx.check(np.allclose(t, np.arange(steps) * time_step, rtol=1e-12, atol=0), "time", got=t)
    factor = hits.sum(axis=0).max()
    ctx.check(np.allclose(ir.to_numpy(), hits / factor, rtol=1e-12, atol=1e-15), "values", got=ir.to_numpy(), hits=hits)
    ctx.trace("normalized")


class Screen:
    """Stands in for the plotter, keeps what is shown in each frame of the movie."""

    frames = []

    def __init__(self, *args, **kwargs):
        self.meshes = []
        Screen.frames = []

    def add_mesh(self, mesh, *args, **kwargs):
        self.meshes.append(mesh)

    def write_frame(self, *args, **kwargs):
        Screen.frames.append(
            [
                (np.array(m.points), np.array(m.lines), np.array(m.point_data["energy"]))
                for m in self.meshes
                if "energy" in m.point_data
            ]
        )

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


def check_movie(ctx, steps, rays, trail):
    """Everything drawn has the energy recorded with its position, lines follow one ray in time order."""
    cfg = config()
    cfg.visualization["ray_trail_length"] = trail
    pos = np.arange(steps * rays * 3, dtype=float).reshape((steps, rays, 3)) * 0.25 - 5
    enr = 1.0 / (1 + np.arange(steps * rays).reshape((steps, rays)))
    where = {tuple(pos[t, r]): (t, r) for t in range(steps) for r in range(rays)}
    ctx.at(steps=steps, rays=rays, trail=trail)
    plotter, pv.Plotter = pv.Plotter, Screen
    try:
        make_movie_from_buffer("movie.gif", _cfg["b"], pos.copy(), enr.copy(), cfg, verbose=False)
    finally:
        pv.Plotter = plotter
    ctx.step()
    for k, frame in enumerate(Screen.frames):
        for points, lines, energy in frame:
            places = [where.get(tuple(p)) for p in points]
            if not ctx.check(None not in places and len(energy) == len(places), "movie-points", frame=k, points=points):
                return
            expected = [enr[place] for place in places]
            ctx.check(np.allclose(energy, expected, rtol=1e-6), "movie-energy", frame=k, got=energy, expected=expected)
            i = 0
            while i < len(lines):
                line = [places[j] for j in lines[i + 1 : i + 1 + lines[i]]]
                ctx.check(len({r for _, r in line}) <= 1, "movie-line-rays", frame=k, line=line)
                ctx.check(all(b[0] == a[0] + 1 for a, b in zip(line, line[1:])), "movie-line-order", frame=k, line=line)
                i += 1 + lines[i]
        ctx.state("movie", steps, rays, trail, k)
        ctx.trace("frame")


def run(case, ctx):
    kind = case[0]
    if kind == "movie":
        config()
        for trail in range(1, 6):
            check_movie(ctx, case[1], case[2], trail)
        return
    if kind == "hits":
        _, s, a, lo, hi = case
        for k in range(lo, hi):
            digits, q = [], k
            for _ in range(s * a):
                digits.append(VALUES[q % 4])
                q //= 4
            hits = np.array(digits).reshape((s, a))
            dt = STEPS[k % 4]
            ctx.at(hits=hits, time_step=dt)
            check_hits(ctx, hits, dt)
            ctx.state("hits", s, a, k)
        ctx.sample(hits=hits)
    elif kind == "binary":
        _, s, a = case
        for k, digits in enumerate(itertools.product((0.0, 2.5), repeat=s * a)):
            hits = np.array(digits).reshape((s, a))
            dt = STEPS[k % 4]
            ctx.at(hits=hits, time_step=dt)
            check_hits(ctx, hits, dt)
            ctx.state("binary", s, a, k)
    else:
        _, steps, top = case
        cfg = config()
        for rays in range(1, top + 1):
            for variant in range(4):
                pos = np.arange(steps * rays * 3, dtype=float).reshape((steps, rays, 3)) * 0.37 - 5
                if variant == 1:
                    pos = np.round(pos) % 3  # repeated positions
                elif variant == 2:
                    pos[steps // 2 :] = pos[steps // 2]  # rays which stopped
                elif variant == 3:
                    pos = pos[:, ::-1, :] * 1e3
                ctx.at(steps=steps, rays=rays, variant=variant)
                given = pos.copy()
                plotter = RayBuffPlotter(_cfg["b"], given, np.ones((steps, rays)))
                verts, lines = plotter.get_lines()
                points = plotter.get_points()
                ctx.step(2)
                ctx.check(np.array_equal(given, pos), "input-modified")
                ctx.check(len(lines) == rays, "lines", got=len(lines))
                got = [[verts[i].tolist() for i in line] for line in lines]
                exp = [pos[:, r, :].tolist() for r in range(rays)]
                ctx.check(got == exp, "line", got=got[:2], expected=exp[:2])
                ctx.check(np.array_equal(points, pos[-1]), "points", got=points)
                ctx.state("lines", steps, rays, variant)
                ctx.trace("lines")
