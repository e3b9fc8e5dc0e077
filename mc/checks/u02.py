"""U02: wildcard paths are filled and matched as inverse operations."""

import itertools
import os
import shutil
import tempfile

from building3d.paths.wildcardpath import WildcardPath

ID = "U02"
BOUNDS = {
    "quick": "all file name patterns made of 10 literals and 5 wildcards (1 or 2 wildcards, also repeated), in 6 kinds of "
    "directories with and without wildcards; all assignments of 5 numbers (0, 1, 7, 10, 12345678) with all files present at once; "
    "decoys obtained by changing, adding or removing a character; 5 kinds of parent directories; all wrong sets of names",
    "thorough": "3 wildcards and 8 numbers",
}
ASSUMPTIONS = [
    "two wildcards of a pattern are separated by something else than digits",
    "files deeper than the pattern, with leading zeros or contradicting numbers are not judged",
]

LITERALS = ["", "f", "pos_", "a.b", "x+", "(1)", "[q]", "a b", "1_", "step"]
SUFFIXES = ["", ".npy", "-end", "0.x", "$"]
WILD = ["step", "i", "a", "a_1", "step2"]
DIRS = ["", "out/", "d_<step>/", "<i>/", "a.b/<a>_x/", "p/q/"]
PARENTS = ["base", "base dir", "f_3.npy", "d.x+", "deep/er"]


def patterns(tier):
    """(pattern, wildcard names)"""
    out = []
    for k, (lit, suf) in enumerate(itertools.product(LITERALS, SUFFIXES)):
        for j, w in enumerate(WILD):
            out.append(f"{lit}<{w}>{suf}")
    n = 0
    for w1, w2 in itertools.product(WILD, repeat=2):
        for sep in ("_", "-x.", "."):
            n += 1
            out.append(f"{LITERALS[n % 10]}<{w1}>{sep}<{w2}>{SUFFIXES[n % 5]}")
    if tier == "thorough":
        for w in itertools.product(WILD, repeat=3):
            n += 1
            out.append(f"{LITERALS[n % 10]}<{w[0]}>_<{w[1]}>.<{w[2]}>{SUFFIXES[n % 5]}")
    full = []
    for n, p in enumerate(out):
        for d in DIRS if n % 4 == 0 or tier == "thorough" else [DIRS[n % 6], ""]:
            full.append(d + p)
    full += ["plain.npy", "dir/plain", "x_<step>/<step>", "x_<step>/y_<step>/z_<step>.q"]
    return sorted(set(full))


def wildcards(pattern):
    names, rest = [], pattern
    while "<" in rest:
        rest = rest[rest.index("<") + 1 :]
        name = rest[: rest.index(">")]
        if name not in names:
            names.append(name)
        rest = rest[rest.index(">") + 1 :]
    return names


def filled(pattern, values):
    for k, v in values.items():
        pattern = pattern.replace(f"<{k}>", str(v))
    return pattern


def obtainable(path, pattern, numbers=None):
    """Assignment from which the pattern gives the path, or None (independent of regular expressions)."""

    def match(p, q, values):
        if not p:
            return values if not q else None
        if p[0] == "<":
            name = p[1 : p.index(">")]
            rest = p[p.index(">") + 1 :]
            if name in values:
                s = str(values[name])
                return match(rest, q[len(s) :], values) if q.startswith(s) else None
            for n in range(1, len(q) + 1):
                if not all(c in "0123456789" for c in q[:n]):
                    break
                if str(int(q[:n])) == q[:n]:
                    got = match(rest, q[n:], dict(values, **{name: int(q[:n])}))
                    if got is not None:
                        return got
            return None
        if q and p[0] == q[0]:
            return match(p[1:], q[1:], values)
        return None

    return match(pattern, path, {})


def decoys(pattern, names):
    """Paths similar to filled ones."""
    out = set()
    for v in (3, 10):
        good = filled(pattern, {n: v for n in names})
        head, _, tail = good.rpartition("/")
        pre = head + "/" if head else ""
        for t in (tail + "x", tail + ".npy", "x" + tail, "_" + tail, tail + "5", tail[:-1], tail[1:], tail.upper(), tail + " "):
            if t and t not in (".", ".."):
                out.add(pre + t)
        for i in range(len(tail)):
            for c in ("x", "-", ".", "7"):
                t = tail[:i] + c + tail[i + 1 :]
                if t not in (".", ".."):
                    out.add(pre + t)
            out.add(pre + tail[:i] + "0.5" + tail[i:])
        if head:
            out.add(head + "x/" + tail)
            out.add("x" + head + "/" + tail)
            out.add(tail)
    return sorted(out)


def zero_padded(path):
    digits = ""
    for c in path + "/":
        if c.isdigit():
            digits += c
        else:
            if len(digits) > 1 and digits[0] == "0":
                return True
            digits = ""
    return False


def contradicting(path, pattern):
    """The path fits if every occurrence of a wildcard may have its own value."""
    p, k = pattern, 0
    while True:
        i = p.find("<", 0)
        if i < 0:
            break
        j = p.index(">", i)
        p = p[:i] + "\0" + str(k) + "\1" + p[j + 1 :]
        k += 1
    p = p.replace("\0", "<").replace("\1", ">")
    return obtainable(path, p) is not None and obtainable(path, pattern) is None


def cases(tier):
    n = len(patterns(tier))
    return [[a, min(a + 8, n), tier] for a in range(0, n, 8)]


def touch(path):
    try:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path):
            with open(path, "w"):
                pass
            return True
    except OSError:
        pass
    return False


def check_fill(ctx, wp, pattern, names):
    values = {n: 4 + i for i, n in enumerate(names)}
    good = filled(pattern, values)
    for parent in ("", "up", "up/", "/abs/x"):
        expected = os.path.join(parent, good) if parent else good
        got = wp.fill(parent=parent, **values)
        ctx.step()
        ctx.check(os.path.normpath(got) == os.path.normpath(expected), "fill", got=got, expected=expected)
    wrong = [{k: v for k, v in values.items() if k != n} for n in names]
    wrong += [dict(values, unknown=1)]
    wrong += [{("x" + k if k == n else k): v for k, v in values.items()} for n in names]
    wrong += [{k: v for k, v in list(values.items())[:-1]}] if names else []
    for kw in wrong:
        ctx.step()
        try:
            got = wp.fill(**kw)
        except Exception:
            pass
        else:
            ctx.fail("wrong-names-accepted", values=kw, got=got)


def run(case, ctx):
    lo, hi, tier = case
    numbers = (0, 1, 7, 10, 12345678) if tier == "quick" else (0, 1, 2, 7, 9, 10, 99, 12345678)
    root = tempfile.mkdtemp(prefix="mc-u02-")
    cwd = os.getcwd()
    try:
        for q, pattern in enumerate(patterns(tier)[lo:hi]):
            names = wildcards(pattern)
            top = os.path.join(root, str(q))
            parent = os.path.join(top, PARENTS[(lo + q) % len(PARENTS)])
            os.makedirs(parent)
            ctx.at(pattern=pattern, parent=parent)
            wp = WildcardPath(pattern)
            check_fill(ctx, wp, pattern, names)

            # Nothing there yet
            ctx.check(wp.get_matching_paths(parent) == [], "match-in-empty")

            present = {}
            for values in itertools.product(numbers, repeat=len(names)):
                kw = dict(zip(names, values))
                path = wp.fill(parent=parent, **kw)
                ctx.check(os.path.normpath(path) == os.path.join(parent, filled(pattern, kw)), "fill", got=path)
                touch(path)
                present[os.path.join(parent, filled(pattern, kw))] = kw
            for d in decoys(pattern, names):
                full = os.path.join(parent, d)
                if contradicting(d, pattern) or zero_padded(d):
                    continue
                # Shorter patterns could be found again within longer paths
                parts = d.split("/")
                if any(obtainable("/".join(parts[i:]), pattern) for i in range(1, len(parts))):
                    continue
                values = obtainable(d, pattern)
                if touch(full) and values is not None:
                    present[full] = values
            verify(ctx, wp, pattern, parent, names, present, numbers)
            ctx.trace("absolute")
            if (lo + q) % 3 == 0:
                os.chdir(top)
                rel = os.path.relpath(parent, top)
                ctx.at(pattern=pattern, parent=rel)
                moved = {os.path.relpath(p, top): v for p, v in present.items()}
                verify(ctx, wp, pattern, rel, names, moved, numbers)
                os.chdir(cwd)
                ctx.trace("relative")
            # Directories
            new = os.path.join(top, "made")
            kw = {n: 42 for n in names}
            got = wp.mkdir(new, **kw)
            again = wp.mkdir(new, **kw)
            exp = os.path.join(new, filled(pattern, kw))
            ctx.check(got == again and os.path.isdir(exp) and os.path.realpath(got) == os.path.realpath(exp), "mkdir", got=got)
            ctx.check(list(wp.get_matching_paths(new)) == [exp], "mkdir-match", got=wp.get_matching_paths(new))
            ctx.step(3)
            shutil.rmtree(top)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(pattern=pattern)


def verify(ctx, wp, pattern, parent, names, present, numbers):
    norm = lambda d: {os.path.normpath(k): v for k, v in d.items()}
    got = norm(wp.get_matching_paths_dict_values(parent))
    ctx.step()
    expected = norm(present)
    if got != expected:
        missing = sorted(set(expected) - set(got))[:5]
        surplus = sorted(set(got) - set(expected))[:5]
        wrong = [k for k in got if k in expected and got[k] != expected[k]][:5]
        ctx.fail("matches", missing=missing, surplus=surplus, wrong_values=wrong)
    tuples = wp.get_matching_paths_namedtuple_keys(parent)
    ctx.step()
    ctx.check({os.path.normpath(v): k._asdict() for k, v in tuples.items()} == expected, "tuples", got=len(tuples))
    ctx.check(
        sorted(os.path.normpath(p) for p in wp.get_matching_paths(parent)) == sorted(expected), "list"
    )
    for n in range(1, len(names) + 1):
        for chosen in itertools.combinations(names, n):
            for values in itertools.product((numbers[0], numbers[3], 5), repeat=n):
                kw = dict(zip(chosen, values))
                if "parent" in kw:
                    continue
                exp = sorted(p for p, v in expected.items() if all(v[k] == x for k, x in kw.items()))
                found = sorted(os.path.normpath(p) for p in wp.get_matching_paths(parent, **kw))
                ctx.step()
                ctx.check(found == exp, "filter", values=kw, got=found[:5], expected=exp[:5])
    ctx.state(pattern, parent.split("/")[-1])
