"""R08: saved simulation states are read back unchanged and not overwritten."""

import itertools
import os
import shutil
import tempfile

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.dump_buffers import dump_buffers
from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

ID = "R08"
BOUNDS = {
    "quick": "1 to 6 steps cut in all ways into consecutive pieces (with and without repeating the boundary step) and 9, 10, "
    "11, 12, 99, 100, 101, 102, 120 steps in 1 to 4 pieces; 1 to 3 rays, 0 to 3 absorbers, 9 file name patterns, directories "
    "existing or not; starts of simulations with 14 states of the directory and 4 ways to name it",
    "thorough": "1 to 9 steps cut in all ways, all combinations of rays, absorbers and patterns",
}
ASSUMPTIONS = ["file name patterns end with .npy, contain no directories and are different for the three kinds of data"]

PATTERNS = [
    ("position_<step>.npy", "energy_<step>.npy", "hits_<step>.npy"),
    ("<step>.npy", "e<step>.npy", "h<step>.npy"),
    ("p_<step>.npy", "p_<step>_e.npy", "p_<step>_h.npy"),
    ("1_<step>.npy", "10_<step>.npy", "11_<step>.npy"),
    ("p.<step>.npy", "pp.<step>.npy", "p.p.<step>.npy"),
    ("step <step> (pos).npy", "step <step> (enr).npy", "step <step> [hit].npy"),
    ("position+<step>.npy", "position-<step>.npy", "position$<step>.npy"),
    ("hits_<step>_x.npy", "hits_<step>_y.npy", "hits_<step>.npy"),
    ("x<step>y.npy", "xx<step>y.npy", "x<step>yy.npy"),
]
SPECIAL = [0.0, -0.0, 1 / 3, 1e-300, -1e300, 5e-324, 0.1 + 0.2, 1.0, 1e16 + 2]


def data(steps, rays, absorbers):
    """Every value is different."""

    def fill(*shape):
        n = int(np.prod(shape))
        a = np.arange(n, dtype=float) / 7 + 1000 * shape[-1]
        a[: len(SPECIAL)] = SPECIAL[: len(a)]
        return np.ascontiguousarray(a[::-1]).reshape(shape)

    return fill(steps, rays, 3), fill(steps, rays), fill(steps, absorbers)


def cuttings(steps):
    """All ways to cut into consecutive pieces: lists of (first, last + 1)."""
    for n in range(steps):
        for cuts in itertools.combinations(range(1, steps), n):
            bounds = (0,) + cuts + (steps,)
            yield list(zip(bounds[:-1], bounds[1:]))


def long_cuttings(steps):
    for n in (1, 2, 3, 4):
        size = -(-steps // n)
        yield [(a, min(a + size, steps)) for a in range(0, steps, size)]


def work(tier):
    out = []
    k = 0
    for steps in range(1, 7 if tier == "quick" else 10):
        for cut in cuttings(steps):
            for repeat in (False, True):
                for rays, absorbers in itertools.product((1, 2, 3), (0, 1, 3)):
                    k += 1
                    for p in range(len(PATTERNS)) if tier == "thorough" or steps < 4 else (k % 9,):
                        out.append([steps, cut, repeat, rays, absorbers, p])
    for steps in (9, 10, 11, 12, 99, 100, 101, 102, 120):
        for cut in long_cuttings(steps):
            for repeat in (False, True):
                for p in range(len(PATTERNS)):
                    k += 1
                    if steps < 20 or k % 4 == 0:
                        out.append([steps, cut, repeat, 1 + k % 3, k % 4, p])
    return out


STATES = [
    ("missing", False),
    ("parent-missing", False),
    ("empty", False),
    ("file", True),
    ("hidden-file", True),
    ("empty-file", True),
    ("state-file", True),
    ("last-state-only", True),
    ("directory", True),
    ("hidden-directory", True),
    ("nested-file", True),
    ("broken-link", True),
    ("many", True),
    ("own-finished-run", True),
]
WAYS = ["absolute", "trailing-slash", "relative", "inside-project"]


def cases(tier):
    n = len(work(tier))
    return [["dump", a, min(a + 40, n), tier] for a in range(0, n, 40)] + [
        ["start", i, j, tier] for i in range(len(STATES)) for j in range(len(WAYS))
    ]


def config(pattern=0, rays=1, absorbers=1):
    bdg = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    for key, name in zip(("position_file", "energy_file", "hits_file"), PATTERNS[pattern]):
        cfg.paths[key] = name
    cfg.engine.update(time_step=0.0005, num_steps=4, batch_size=2, voxel_size=0.6)
    cfg.rays.update(
        num_rays=rays, source=(0.5, 0.4, 0.6), absorbers=[(0.2, 0.2, 0.2)] * absorbers, absorber_radius=0.1
    )
    return bdg, cfg


def same(a, b):
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def dump(ctx, item, root, n, cfg):
    steps, cut, repeat, rays, absorbers, p = item
    for key, name in zip(("position_file", "energy_file", "hits_file"), PATTERNS[p]):
        cfg.paths[key] = name
    pos, enr, hit = data(steps, rays, absorbers)
    where = os.path.join(root, str(n))
    if n % 2:
        where = os.path.join(where, "a", "b")
    if n % 3 == 0:
        os.makedirs(where)
    copies = pos.copy(), enr.copy(), hit.copy()
    for a, b in cut:
        a = a - 1 if repeat and a > 0 else a
        dump_buffers(pos[a:b], enr[a:b], hit[a:b], where, cfg, a)
        ctx.step()
    ctx.check(same(pos, copies[0]) and same(enr, copies[1]) and same(hit, copies[2]), "data-modified")
    expected = sorted(q.replace("<step>", str(i)) for q in PATTERNS[p] for i in range(steps))
    ctx.check(set(expected) <= set(os.listdir(where)), "files", got=sorted(os.listdir(where))[:20])
    got = read_buffers(where, cfg)
    ctx.step()
    for name, g, e in zip(("position", "energy", "hits"), got, copies):
        ctx.check(same(np.ascontiguousarray(g), e), name, got=g, expected=e)
    shutil.rmtree(os.path.join(root, str(n)))


def content(where):
    """Everything below the directory."""
    out = {}
    for top, dirs, files in os.walk(where):
        for d in dirs:
            out[os.path.relpath(os.path.join(top, d), where)] = "directory"
        for f in files:
            path = os.path.join(top, f)
            if os.path.islink(path):
                out[os.path.relpath(path, where)] = "link"
                continue
            with open(path, "rb") as h:
                out[os.path.relpath(path, where)] = h.read()
    return out


def prepare(state, where, bdg, cfg):
    if state in ("missing", "parent-missing"):
        return
    os.makedirs(where)

    def put(name, text="x"):
        os.makedirs(os.path.dirname(os.path.join(where, name)), exist_ok=True)
        with open(os.path.join(where, name), "w") as f:
            f.write(text)

    if state == "file":
        put("notes.txt")
    elif state == "hidden-file":
        put(".keep")
    elif state == "empty-file":
        put("x", "")
    elif state == "state-file":
        put("position_0.npy")
    elif state == "last-state-only":
        put("hits_99.npy")
    elif state == "directory":
        os.makedirs(os.path.join(where, "sub"))
    elif state == "hidden-directory":
        os.makedirs(os.path.join(where, ".git"))
    elif state == "nested-file":
        put("sub/energy_1.npy")
    elif state == "broken-link":
        os.symlink("nowhere", os.path.join(where, "link"))
    elif state == "many":
        for i in range(30):
            put(f"f{i}")
    elif state == "own-finished-run":
        os.rmdir(where)
        np.random.seed(5)
        Simulation(bdg, cfg).run()


def start(ctx, state, refused, way, root):
    cwd = os.getcwd()
    base = os.path.join(root, "deep", "er") if state == "parent-missing" else root
    if way == "inside-project":
        project, where = os.path.join(base, "proj"), os.path.join(base, "proj", "states")
    else:
        project, where = os.path.join(base, "proj"), os.path.join(base, "elsewhere")
    bdg, cfg = config()
    try:
        os.chdir(root)
        name = where + "/" if way == "trailing-slash" else os.path.relpath(where, root) if way == "relative" else where
        cfg.paths["project_dir"] = project
        cfg.paths["buffer_dir"] = name
        prepare(state, where, bdg, cfg)
        before = content(where) if os.path.isdir(where) else {}
        ctx.step()
        try:
            sim = Simulation(bdg, cfg)
            np.random.seed(3)
            if not refused:
                sim.run()
        except Exception as e:
            ctx.check(refused, "refused", error=repr(e))
            outcome = "refused"
        else:
            ctx.check(not refused, "started-in-used-directory")
            outcome = "accepted"
        if refused:
            ctx.check(content(where) == before, "existing-files-changed", got=list(content(where))[:20])
        elif outcome == "accepted":
            pos, enr, hit = read_buffers(name, cfg)
            ctx.check(len(pos) == len(enr) == len(hit) == 5, "steps", got=len(pos))
    finally:
        os.chdir(cwd)
    ctx.trace(outcome)


def run(case, ctx):
    kind, lo, hi, tier = case
    root = tempfile.mkdtemp(prefix="mc-r08-")
    try:
        if kind == "dump":
            _, cfg = config()
            for n, item in enumerate(work(tier)[lo:hi]):
                ctx.at(steps=item[0], pieces=item[1], repeated=item[2], rays=item[3], absorbers=item[4], patterns=PATTERNS[item[5]])
                dump(ctx, item, root, n, cfg)
                ctx.state(str(item))
                ctx.trace("long" if item[0] > 8 else f"steps-{item[0]}")
        else:
            state, refused = STATES[lo]
            ctx.at(state=state, way=WAYS[hi])
            start(ctx, state, refused, WAYS[hi], root)
            ctx.state("start", state, WAYS[hi])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(kind=kind, items=(lo, hi))
