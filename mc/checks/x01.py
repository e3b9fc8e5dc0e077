"""Compiled and interpreted execution give the same results."""

import math
import os
import pickle
import subprocess
import sys
import tempfile
import threading

ID = "X01"
TECHNIQUE = "enumeration of inputs, each computed by the real code in both execution modes and with every number of threads"
BOUNDS = {
    "quick": "56 compiled functions on all tuples of 14 points (lattice, special and far ones), about 100 lattice polygons with "
    "7 test points each, all pairs of 18 polygons for the relations and graphs, slicing of 40 polygons along all lattice lines, "
    "stitching of boxes and floor plans, array format, voxels and targets, simulations of 1 to 36 rays in 4 rooms with 1 to 8 threads",
    "thorough": "the same functions on more tuples, all lattice polygons and starting vertices, all sets of boxes, 6 rooms",
}
ASSUMPTIONS = ["a division by zero (degenerate input) may raise or give an undefined number", "results may differ by rounding (1e-9)", "targets of rays through edges of surfaces are not compared"]
WORKERS = 3
BUDGET = {"quick": 780, "thorough": 9000}
CPU_LIMIT = {"quick": 2000, "thorough": 20000}
TIME_LIMIT = {"quick": 700, "thorough": 8000}

GROUPS = ["stitching", "simulation", "slicing", "relations", "points", "polygons", "formats"]
ORDERED = True


def cases(tier):
    return [[g] for g in GROUPS]


def compute(group, tier, jit, box):
    """Results in a separate process."""
    fd, path = tempfile.mkstemp()
    os.close(fd)
    env = dict(os.environ, NUMBA_DISABLE_JIT="0" if jit else "1", TMPDIR=tempfile.gettempdir())
    env.pop("NUMBA_NUM_THREADS", None)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        p = subprocess.run(
            [sys.executable, "-m", "mc.twin", group, tier, path],
            cwd=root,
            env=env,
            timeout=TIME_LIMIT[tier],
            stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE,
        )
        if p.returncode != 0:
            box[jit] = ("failed", p.returncode, p.stderr.decode(errors="replace")[-1500:])
        else:
            with open(path, "rb") as f:
                box[jit] = ("ok", pickle.load(f), "")
    except subprocess.TimeoutExpired:
        box[jit] = ("timeout", TIME_LIMIT[tier], "")
    finally:
        os.remove(path)


# A wrong type of argument
BAD_CALL = ("TypingError", "TypeError", "ValueError")


def undefined(x):
    """Division by zero: raised when compiled, an infinite or undefined number otherwise."""
    if isinstance(x, list):
        return x == ["raises", "ZeroDivisionError"] or any(undefined(v) for v in x)
    return isinstance(x, float) and not math.isfinite(x)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a in BAD_CALL and b in BAD_CALL:
        return True
    return type(a) is type(b) and a == b


def run(case, ctx):
    (group,) = case
    ctx.at(group=group)
    box = {}
    threads = [threading.Thread(target=compute, args=(group, ctx.tier, jit, box)) for jit in (True, False)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for jit in (True, False):
        if box[jit][0] == "timeout":
            ctx.fail("no-termination", compiled=jit, seconds=box[jit][1])
            return
    if box[True][0] == "failed" and box[False][0] == "failed":
        raise RuntimeError(box[True][2])
    for jit in (True, False):
        if box[jit][0] == "failed":
            ctx.fail("process-failed", compiled=jit, code=box[jit][1], error=box[jit][2])
            return
    compiled, plain = box[True][1], box[False][1]
    seen = set()
    for key, value in compiled.items():
        base = key.split(" threads=")[0]
        ctx.at(group=group, what=key[:300])
        ctx.state(key)
        ctx.step()
        seen.add(base)
        if not ctx.check(base in plain, "only-compiled", value=value):
            continue
        ctx.trace(base.split(" ")[0].rsplit(".", 1)[-1])
        ctx.check(
            same(value, plain[base]) or undefined(value) and undefined(plain[base]), "different", compiled=value, interpreted=plain[base]
        )
    ctx.step(len(plain))
    ctx.at(group=group)
    missing = sorted(set(plain) - seen)
    ctx.check(not missing, "only-interpreted", what=missing[:1])
    ctx.sample(group=group, results=len(compiled))
