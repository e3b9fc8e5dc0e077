"""Exploration engine shared by all checks.

A check is a module in mc.checks with

    ID          property id
    JIT         True if the code under test is compiled with numba
    cases(tier) list of JSON-able work items which together make up the bounded space
    run(case, ctx)
                explores one work item completely, reporting to ctx
    warmup()    optional, called once before the workers are forked (compilation)

Work items are distributed over forked workers. The order of the items depends on VERIF_SEED,
the explored space does not.
"""

import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 5


class Violation(Exception):
    """Raised by a check if the property is broken."""

    def __init__(self, key, **detail):
        super().__init__(f"{key}: {detail}")
        self.key = key
        self.detail = detail


class Context:
    """Collects what was explored while running a work item."""

    def __init__(self, tier="quick", seed=0):
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.left_out = set()
        self.current = None

    def state(self, *fingerprint):
        """A distinct input or reached state."""
        self.states.add(hash(fingerprint))

    def step(self, n=1):
        """Operations executed on the implementation."""
        self.transitions += n

    def trace(self, outcome="ok", n=1):
        """A complete behaviour whose result was compared with the oracle."""
        self.traces += n
        self.outcomes[outcome] = self.outcomes.get(outcome, 0) + n

    def at(self, **where):
        """Remembers where the exploration is, in order to report it if something breaks."""
        self.current = where

    def sample(self, **what):
        if len(self.samples) < 1:
            self.samples.append(what)

    def omit(self, what):
        """A part of the stated bounds that could not be explored. The run is not exhaustive then."""
        self.left_out.add(what)

    def fail(self, key, **detail):
        self.violations.append((key, dict(detail, at=self.current)))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopCase()

    def check(self, cond, key, **detail):
        if not cond:
            self.fail(key, **detail)
        return cond


class StopCase(Exception):
    pass


def plain(x):
    """Converts to something JSON can hold."""
    import numpy as np
    from fractions import Fraction

    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=str)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def run_case(mod, case, tier, seed):
    ctx = Context(tier, seed)
    try:
        mod.run(case, ctx)
    except StopCase:
        pass
    except Violation as v:
        ctx.violations.append((v.key, dict(v.detail, at=ctx.current)))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb][-4:]
        ctx.violations.append(
            (
                "unexpected-exception",
                {"error": f"{type(e).__name__}: {e}"[:500], "where": where, "at": ctx.current},
            )
        )
    return ctx


# Process pool ------------------------------------------------------------------------------


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("!Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            part = os.read(fd, min(1 << 20, n - len(buf)))
            if not part:
                raise EOFError
            buf += part
        return buf

    (n,) = struct.unpack("!Q", exactly(8))
    return pickle.loads(exactly(n))


def _cpu_time(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            fields = f.read().rsplit(")", 1)[1].split()
    except OSError:
        return 0.0
    return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")


class Worker:
    def __init__(self, mod, cases, tier, seed, others):
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for w in others:
                    os.close(w.rd)
                    os.close(w.wr)
                os.close(c2p_r)
                os.close(p2c_w)
                init = getattr(mod, "init_worker", None)
                if init:
                    init()
                while True:
                    i = _recv(p2c_r)
                    if i is None:
                        break
                    ctx = run_case(mod, cases[i], tier, seed)
                    ctx.violations = [(k, plain(d)) for k, d in ctx.violations]
                    ctx.samples = [plain(s) for s in ctx.samples]
                    ctx.current = None
                    _send(c2p_w, (i, ctx))
            except EOFError:
                pass
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
            finally:
                os._exit(0)
        os.close(c2p_w)
        os.close(p2c_r)
        self.rd = c2p_r
        self.wr = p2c_w
        self.job = None
        self.cpu0 = 0.0

    def give(self, i):
        self.job = i
        self.cpu0 = _cpu_time(self.pid)
        _send(self.wr, i)

    def stop(self, kill=False):
        for fd in (self.rd, self.wr):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def explore(mod, cases, tier, seed, total, on_case, budget, cpu_limit):
    """Runs all cases. Returns True if all of them were completed."""
    order = list(range(len(cases)))
    if not getattr(mod, "ORDERED", False):
        random.Random(seed).shuffle(order)
    num = min(int(os.environ.get("MC_WORKERS", getattr(mod, "WORKERS", os.cpu_count() or 1))), len(order))
    start = time.monotonic()
    todo = list(reversed(order))
    workers = []
    stop = False

    for _ in range(num):
        workers.append(Worker(mod, cases, tier, seed, workers))
    for w in workers:
        if todo:
            w.give(todo.pop())

    while any(w.job is not None for w in workers):
        busy = [w for w in workers if w.job is not None]
        ready, _, _ = select.select([w.rd for w in busy], [], [], 1.0)
        for w in busy:
            if w.rd in ready:
                try:
                    i, ctx = _recv(w.rd)
                except EOFError:
                    i = w.job
                    _, status = os.waitpid(w.pid, 0)
                    w.job = None
                    workers.remove(w)
                    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
                        raise RuntimeError("internal error of a worker")
                    ctx = Context(tier, seed)
                    ctx.violations.append(("crash", {"status": status, "at": cases[i]}))
                    if on_case(i, ctx):
                        stop = True
                    continue
                w.job = None
                if on_case(i, ctx):
                    stop = True
                if time.monotonic() - start > budget:
                    stop = True
                if todo and not stop:
                    w.give(todo.pop())
            elif _cpu_time(w.pid) - w.cpu0 > cpu_limit:
                i = w.job
                w.job = None
                w.stop(kill=True)
                workers.remove(w)
                ctx = Context(tier, seed)
                ctx.violations.append(("no-termination", {"cpu_limit_s": cpu_limit, "at": cases[i]}))
                if on_case(i, ctx):
                    stop = True
        if stop and total.violations:
            break

    complete = not todo and all(w.job is None for w in workers)
    for w in workers:
        w.stop(kill=w.job is not None)
    return complete


# Known findings ----------------------------------------------------------------------------


def known_findings(prop):
    """Returns {key: description} of the findings listed for this property."""
    path = os.path.join(VERIF, "known-findings.txt")
    found = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                words = line.split()
                if len(words) >= 4 and words[0] == "finding:" and words[1] == f"property={prop}":
                    found[words[2].split("=", 1)[1]] = " ".join(words[3:])
    return found


# Main --------------------------------------------------------------------------------------


def supervise(prop, load, tier, seed, limit):
    """Runs the check in a child process, which has to get ready for exploration within a limit.

    Compiled code, which does not terminate, cannot be interrupted from within.
    """
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        code = 2
        try:
            code = main(load(), tier, seed, ready=lambda: os.write(wr, b"r"))
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(wr)
    ok, _, _ = select.select([rd], [], [], limit)
    if not ok:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        replay_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{prop}-0.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "key": "no-termination", "detail": "warm-up"}, f)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  no-termination: the code under test did not finish a first run within {limit} s")
        return 1
    _, status = os.waitpid(pid, 0)
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else 2


def main(mod, tier, seed, replay=None, ready=None):
    t0 = time.monotonic()
    prop = mod.ID
    if replay:
        return do_replay(mod, replay)

    evidence_dir = os.path.join(VERIF, "evidence")
    replay_dir = os.path.join(evidence_dir, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + "-"):
            os.remove(os.path.join(replay_dir, name))

    cases = mod.cases(tier)
    warmup = getattr(mod, "warmup", None)
    if warmup:
        try:
            warmup()
        except Exception:
            # It will show up again while exploring
            traceback.print_exc()
    if ready:
        ready()

    total = Context(tier, seed)
    known = known_findings(prop)
    known_hit = {}
    done = [0]
    seen_keys = set()

    def on_case(i, ctx):
        done[0] += 1
        total.states |= ctx.states
        total.transitions += ctx.transitions
        total.traces += ctx.traces
        for k, v in ctx.outcomes.items():
            total.outcomes[k] = total.outcomes.get(k, 0) + v
        total.left_out |= ctx.left_out
        if len(total.samples) < 3:
            total.samples.extend(ctx.samples)
        for key, detail in ctx.violations:
            if key in known:
                known_hit[key] = known[key]
                continue
            n = len(total.violations)
            if n >= MAX_VIOLATIONS:
                break
            path = os.path.join(replay_dir, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(
                    plain({"property": prop, "tier": tier, "case": cases[i], "key": key, "detail": detail}),
                    f,
                    indent=1,
                )
            total.violations.append((key, detail))
            seen_keys.add(key)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            print(f"  {key}: {json.dumps(plain(detail))[:600]}", flush=True)
        return len(total.violations) > 0

    budget = getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 6000)
    cpu_limit = getattr(mod, "CPU_LIMIT", {}).get(tier, 250 if tier == "quick" else 2500)
    complete = explore(mod, cases, tier, seed, total, on_case, budget, cpu_limit)

    coverage = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "outcomes": dict(sorted(total.outcomes.items())),
        "work_items": len(cases),
        "work_items_done": done[0],
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "exhaustive": bool(complete and not total.violations and not total.left_out),
        "left_out": sorted(total.left_out),
        "samples": total.samples,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(total.violations),
    }
    tmp = os.path.join(evidence_dir, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(plain(evidence), f, indent=1)
    os.replace(tmp, os.path.join(evidence_dir, f"{prop}.json"))

    for key, what in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(
        f"{prop}: states={coverage['states']} transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} items={done[0]}/{len(cases)} "
        f"exhaustive={coverage['exhaustive']} violations={len(total.violations)} "
        f"wall={evidence['wall_s']}s"
    )
    print(f"  outcomes: {coverage['outcomes']}")
    for what in coverage["left_out"]:
        print(f"  left out: {what}")
    return 1 if total.violations else 0


def do_replay(mod, path):
    with open(path) as f:
        rep = json.load(f)
    warmup = getattr(mod, "warmup", None)
    if warmup:
        warmup()
    init = getattr(mod, "init_worker", None)
    if init:
        init()
    ctx = run_case(mod, rep["case"], rep.get("tier", "quick"), 0)
    for key, detail in ctx.violations:
        print(f"{key}: {json.dumps(plain(detail), indent=1)}")
    if ctx.violations:
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print("not reproduced")
    return 0
