"""U01: the cyclic buffer always holds the most recent elements in order."""

import numpy as np

from building3d.types.cyclic_buffer import convert_to_contiguous
from building3d.types.cyclic_buffer import cyclic_buf

ID = "U01"
BOUNDS = {
    "quick": "buffer sizes 1-24, all numbers of insertions up to 4 times the size (at least 12), viewed after every "
    "insertion; elements with 1, 2, 3 and 5 numbers, as vectors and (2, 2) matrices; 5 data types; values repeated with "
    "all periods up to 5; sizes 50-300",
    "thorough": "buffer sizes 1-64",
}
ASSUMPTIONS = ["head and tail start at 0, as documented"]

TYPES = ["float32", "float64", "int32", "int64", "uint8"]
SHAPES = [(1,), (2,), (3,), (5,), (2, 2)]


def cases(tier):
    top = 24 if tier == "quick" else 64
    return [[n] for n in list(range(1, top + 1)) + [50, 64, 65, 128, 300]]


def run(case, ctx):
    n = case[0]
    total = max(12, 4 * n + 2)
    for dtype in TYPES:
        for shape in SHAPES:
            for period in (0, 1, 2, 3, 5):
                if n > 24 and (period > 2 or shape == (5,)):
                    continue
                ctx.at(size=n, dtype=dtype, shape=shape, period=period)
                buf = np.zeros((n,) + shape, dtype=dtype)
                head, tail = 0, 0
                added = []
                view = convert_to_contiguous(buf, head, tail)
                ctx.check(np.shape(view) == (0,) + shape, "empty-view", got=np.shape(view))
                for k in range(total):
                    value = k % period if period else k + 1
                    element = (np.arange(np.prod(shape)).reshape(shape) + value * 3).astype(dtype)
                    buf, head, tail = cyclic_buf(buf, head, tail, element, n)
                    added.append(element.copy())
                    view = convert_to_contiguous(buf, head, tail)
                    ctx.step(2)
                    expected = added[-(n - 1) :] if n > 1 else []
                    ok = np.shape(view) == (len(expected),) + shape and all(
                        np.array_equal(a, b) for a, b in zip(view, expected)
                    )
                    ctx.check(ok, "view", insertions=k + 1, got=view, expected=expected)
                    ctx.check(view.dtype == np.dtype(dtype), "dtype", got=str(view.dtype))
                    ctx.state(n, dtype, shape, period, k)
                ctx.trace("wrapped")
    ctx.sample(size=n)
