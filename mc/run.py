"""Runs the check of one property: python -m mc.run ID [--replay FILE]."""

import os
import shutil
import sys
import tempfile

# Properties checked with compiled code
COMPILED = {"S03", "G06", "G07", "G11", "R02", "R03"}

# Seconds until the exploration has to begin (compilation takes up to 3 minutes)
WARMUP_LIMIT = 600


def main():
    prop = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = sys.argv[3]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0

    env = {
        "NUMBA_DISABLE_JIT": "0" if prop in COMPILED else "1",
        "PYVISTA_OFF_SCREEN": "true",
        "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
    }
    if prop in ("R02", "R03"):
        # Several worker processes instead of threads
        env["NUMBA_NUM_THREADS"] = "1"
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.environ.update(env)
        os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])

    sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
    import importlib
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)

    from mc import core

    def load():
        return importlib.import_module(f"mc.checks.{prop.lower()}")

    # All files are written below one directory, removed also if workers are killed
    scratch = tempfile.mkdtemp(prefix="mc-")
    tempfile.tempdir = scratch
    try:
        if replay:
            sys.exit(core.main(load(), tier, seed, replay))
        sys.exit(core.supervise(prop, load, tier, seed, WARMUP_LIMIT))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.exit(2)
