"""R10: an interrupted simulation is never read back as different data.

The real code runs in a child process which is killed while it writes: before its n-th operation on the file system, or in
the middle of its n-th file after exactly L bytes (limit on the file size). The directory it leaves behind is then read.
"""

import itertools
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.dump_buffers import dump_buffers
from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

ID = "R10"
BOUNDS = {
    "quick": "writing of 4 steps in 1, 2 and 4 batches and 10 in 2 batches, 2 rays, 0 to 2 absorbers: killed before every "
    "operation on the file system and after every multiple of 8 bytes (and 1 byte less or more at 5 places) of every file; "
    "whole simulations of 4 steps in 3 batchings and 12 steps in 2: killed before every operation and at 4 lengths of every "
    "file; restart after every interruption. Finished runs with every single file and every two files lost or cut to 4 lengths",
    "thorough": "after every byte of every file",
}
ASSUMPTIONS = [
    "a process is killed; what it wrote to files before is kept in the order of the writes",
    "a directory in which nothing was written yet may be used again",
]

# kind, steps, batch, rays, absorbers
SETUPS = [
    ["dump", 4, 4, 2, 1],
    ["dump", 4, 2, 2, 2],
    ["dump", 4, 1, 2, 0],
    ["dump", 10, 5, 2, 1],
    ["dump", 2, 2, 1, 1],
    ["run", 4, 4, 2, 1],
    ["run", 4, 2, 2, 1],
    ["run", 4, 1, 1, 2],
    ["run", 12, 6, 1, 1],
    ["run", 12, 3, 2, 1],
]


def config(steps, batch, rays, absorbers, root):
    bdg = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    cfg.engine.update(time_step=0.0005, num_steps=steps, batch_size=batch, voxel_size=0.6, search_transparent=False)
    where = [(0.5, 0.4, 0.6), (0.45, 0.45, 0.65), (0.2, 0.1, 0.1)]
    cfg.rays.update(num_rays=rays, source=(0.5, 0.4, 0.6), absorbers=where[1 : 1 + absorbers], absorber_radius=0.3)
    cfg.paths["project_dir"] = root
    cfg.paths["buffer_dir"] = os.path.join(root, "states")
    return bdg, cfg


def buffers(steps, rays, absorbers):
    a = np.arange((steps + 1) * (4 * rays + absorbers), dtype=float) / 3 + 1
    n = (steps + 1) * rays
    pos = a[: 3 * n].reshape(steps + 1, rays, 3)
    enr = a[3 * n : 4 * n].reshape(steps + 1, rays)
    return pos, enr, a[4 * n :].reshape(steps + 1, absorbers)


def behave(setup, root):
    """What is interrupted."""
    kind, steps, batch, rays, absorbers = setup
    bdg, cfg = config(*setup[1:], root)
    if kind == "run":
        np.random.seed(11)
        Simulation(bdg, cfg).run()
    else:
        pos, enr, hit = buffers(steps, rays, absorbers)
        os.makedirs(cfg.paths["buffer_dir"])
        for a in range(0, steps, batch):
            b = a + batch + 1
            dump_buffers(pos[a:b], enr[a:b], hit[a:b], cfg.paths["buffer_dir"], cfg, a)


CHANGING = {"os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.move"}


def watch(root, on_event):
    """Calls on_event(what) before every operation changing something below root."""

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if isinstance(path, bytes):
                path = path.decode()
            if not isinstance(path, str):
                return
            writing = (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if writing and path.startswith(root):
                on_event("write")
        elif event in CHANGING and any(isinstance(a, str) and a.startswith(root) for a in args):
            on_event(event)

    sys.addaudithook(hook)


def child(setup, root, point, length):
    """Runs in a forked process, killed before event number point or after some bytes of the file opened there."""
    seen = [0]

    def on_event(what):
        if seen[0] == point:
            if length is None or what != "write":
                os.kill(os.getpid(), signal.SIGKILL)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (length, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        elif seen[0] > point and length is not None:
            # The file was shorter than the limit
            os.kill(os.getpid(), signal.SIGKILL)
        seen[0] += 1

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    watch(root, on_event)
    behave(setup, root)
    if length is not None:
        os.kill(os.getpid(), signal.SIGKILL)


def interrupted(setup, root, point, length):
    """True if killed, False if the process came to its end."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            child(setup, root, point, length)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return True
    if os.WEXITSTATUS(status) == 0:
        return False
    raise RuntimeError(f"child failed with status {status}")


def events(setup):
    """Number of events and the sizes of the files written, from an undisturbed run in a child."""
    root = tempfile.mkdtemp(prefix="mc-r10-")
    r, w = os.pipe()
    try:
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                log = []
                watch(root, log.append)
                behave(setup, root)
                os.write(w, ("\n".join(log) + "\n").encode())
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        text = b""
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            text += part
        _, status = os.waitpid(pid, 0)
        if status != 0:
            raise RuntimeError("undisturbed run failed")
        _, cfg = config(*setup[1:], root)
        reference = read_buffers(cfg.paths["buffer_dir"], cfg)
        where = cfg.paths["buffer_dir"]
        size = max(os.path.getsize(os.path.join(where, f)) for f in os.listdir(where))
        return text.decode().split(), reference, size
    finally:
        os.close(r)
        shutil.rmtree(root, ignore_errors=True)


def lengths(kind, size, tier):
    if kind == "run":
        return [0, 100, 128, size - 1]
    if tier == "thorough":
        return list(range(size))
    return sorted(set(range(0, size, 8)) | {1, 9, 127, 129, size - 1})


def cases(tier):
    out = []
    for s, setup in enumerate(SETUPS):
        # Upper bound of the number of events, further points are recognized by the undisturbed end
        steps, batch = setup[1:3]
        n = 3 * (steps + steps // batch) + 4
        out += [[s, a, min(a + 3, n), tier] for a in range(0, n, 3)]
    out += [["damaged", s, 0, tier] for s in range(len(SETUPS)) if SETUPS[s][0] == "dump"]
    return out


def same(a, b):
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def content(where):
    out = {}
    for f in sorted(os.listdir(where)) if os.path.isdir(where) else ():
        with open(os.path.join(where, f), "rb") as h:
            out[f] = h.read()
    return out


def examine(ctx, setup, root, reference):
    bdg, cfg = config(*setup[1:], root)
    where = cfg.paths["buffer_dir"]
    left = content(where)
    ctx.step()
    try:
        got = read_buffers(where, cfg)
    except Exception:
        outcome = "unreadable"
    else:
        n = len(got[0])
        outcome = "first-steps"
        ok = 0 < n <= len(reference[0]) and all(same(np.ascontiguousarray(g), r[:n]) for g, r in zip(got, reference))
        ctx.check(ok, "different-data", steps=n, files=list(left), got=got)
    ctx.check(content(where) == left, "changed-by-reading")
    try:
        Simulation(bdg, cfg)
    except Exception:
        pass
    else:
        ctx.check(not left, "restarted-in-used-directory", files=list(left))
    ctx.check(not left or content(where) == left, "changed-by-restart", files=list(left))
    return outcome


def damaged(s, ctx):
    """Files lost or cut off after the run was finished."""
    setup = SETUPS[s]
    reference = buffers(setup[1], *setup[3:])
    root = tempfile.mkdtemp(prefix="mc-r10-")
    try:
        behave(setup, root)
        where = os.path.join(root, "states")
        whole = content(where)
        names = list(whole)
        for n in (1, 2):
            for chosen in itertools.combinations(names, n):
                # Two files are damaged in the same way
                for length in (None, 0, 100, 128, -1):
                    ctx.at(setup=setup, files=chosen, length=length)
                    for f in chosen:
                        os.remove(os.path.join(where, f))
                        if length is not None:
                            with open(os.path.join(where, f), "wb") as h:
                                h.write(whole[f][:length])
                    empty = any(len(whole[f][:length]) == len(whole[f]) for f in chosen) and length is not None
                    if not empty:
                        ctx.trace("damaged-" + examine(ctx, setup, root, reference))
                        ctx.state(s, chosen, length)
                    for f in chosen:
                        with open(os.path.join(where, f), "wb") as h:
                            h.write(whole[f])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(setup=setup, files=len(names))


def run(case, ctx):
    if case[0] == "damaged":
        damaged(case[1], ctx)
        return
    s, lo, hi, tier = case
    setup = SETUPS[s]
    log, reference, size = events(setup)
    ctx.step(1)
    if setup[0] == "dump":
        expected = buffers(setup[1], *setup[3:])
        ctx.check(all(same(np.ascontiguousarray(a), b) for a, b in zip(reference, expected)), "undisturbed")
    points = range(lo, hi) if hi < 3 * (setup[1] + setup[1] // setup[2]) + 4 else range(lo, max(hi, len(log)))
    for point in points:
        for length in [None] + (lengths(setup[0], size, tier) if point < len(log) and log[point] == "write" else []):
            ctx.at(setup=setup, event=point, bytes=length)
            root = tempfile.mkdtemp(prefix="mc-r10-")
            try:
                killed = interrupted(setup, root, point, length)
                outcome = examine(ctx, setup, root, reference)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            ctx.state(s, point, length)
            ctx.trace(outcome if killed else "finished")
    ctx.sample(setup=setup, events=(lo, hi))
