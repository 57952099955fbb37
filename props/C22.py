import gc
import sys
import tracemalloc
import types
from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C22"
RULE = ("streams of 150-1400 samples over 1-16 clusters, all of which have appeared after the first part; the size of "
        "everything reachable from the object is measured after the first part and at the end (2-4 times as many "
        "samples); non-trivial: every index was measured over >=100 further samples")
ASSUMPTIONS = ["growth below a fifth of what storing one number per further sample would take counts as no growth"]
SKIP = (type, types.ModuleType, types.BuiltinFunctionType)


def deep(o):
    """Bytes reachable from o."""
    seen, todo, total = set(), [o], 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, SKIP) or x is None:
            continue
        seen.add(id(x))
        total += sys.getsizeof(x)
        if isinstance(x, types.MethodType):
            todo += [x.__self__, x.__func__]
            continue
        if isinstance(x, types.FunctionType):
            todo += [c.cell_contents for c in x.__closure__ or () if c != types.CellType()]
            todo.append(x.__defaults__)
            continue
        if isinstance(x, np.ndarray):
            if x.base is not None:
                todo.append(x.base)
            if x.dtype == object:
                todo.extend(x.reshape(-1).tolist())
            continue
        if isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
        elif isinstance(x, (str, bytes, bytearray, int, float, complex)):
            continue
        else:
            try:
                todo.extend(iter(x) if isinstance(x, (list, tuple, set, frozenset)) or type(x).__module__ == "collections" else ())
            except TypeError:
                pass
            if hasattr(x, "__dict__"):
                todo.append(vars(x))
            for s in getattr(type(x), "__slots__", ()):
                if hasattr(x, s):
                    todo.append(getattr(x, s))
    return total


@st.composite
def cases(draw, first=(40, 120), further=(220, 420), kmax=16, dmax=10):
    total = min((first[1] + further[1]) * (dmax + 1), 13000)
    h = gen.Header(draw(st.binary(min_size=14, max_size=14)))
    b = gen.Blob(draw(st.binary(min_size=total, max_size=total)))
    k, d = h.between(1, kmax), h.between(1, dmax)
    n0 = h.between(*first)
    n1 = n0 + h.between(*further)
    mode = h.pick(("mixed", "sorted", "roundrobin", "skewed", "pairs"))
    d = max(1, min(d, total // n1 - 1))
    raw = b.u8(n1)
    y = gen.schedule(mode, raw, k)
    y[:2 * k] = np.arange(2 * k) % k
    z = b.u8(n1 * d).reshape(n1, d) / 16.0
    if draw(st.booleans()):
        z = np.round(z / 4)      # coincidences
    return {"X": z + 3.0 * y[:, None], "y": y, "n0": n0, "distinct_labels": draw(st.sampled_from([0, 0, 7, 10 ** 6]))}


def check(case, rec):
    X, y, n0 = case["X"], case["y"], case["n0"]
    n, d = X.shape
    more = n - n0
    rec.label("clusters", len(np.unique(y)))
    for name in indices(case):
        o = new(name)
        sizes = {}
        for i in range(n):
            call(f"{name} sample {i}", o.get_cvi, X[i].copy(), int(y[i]) + case["distinct_labels"])
            if i + 1 in (n0, n):
                sizes[i + 1] = deep(o)
        grown = sizes[n] - sizes[n0]
        rec.count(f"{name}.measured")
        if grown > 256 + 32 * len(np.unique(y)) + 8 * more / 5:
            fail(f"{name}: {grown} bytes larger after {more} further samples of known clusters "
                 f"({sizes[n0]} after {n0}, {sizes[n]} after {n})")
    rec.nontrivial(more >= 100)


def check_process(case, rec):
    """What the interpreter as a whole holds on to, long enough for bounded caches to fill up."""
    X, y, n0 = case["X"], case["y"], case["n0"]
    n, d = X.shape
    more = n - n0
    labs = [int(l) + case["distinct_labels"] for l in y.tolist()]
    for name in indices(case):
        o = new(name)
        for i in range(n0):
            call(f"{name} sample {i}", o.get_cvi, X[i].copy(), labs[i])
        gc.collect()
        tracemalloc.start()
        try:
            before = tracemalloc.get_traced_memory()[0]
            for i in range(n0, n):
                o.get_cvi(X[i].copy(), labs[i])
            gc.collect()
            grown = tracemalloc.get_traced_memory()[0] - before
        finally:
            tracemalloc.stop()
        # memory allocated before the start and replaced since is not subtracted: allow for the object's own state
        own = deep(o)
        rec.count(f"{name}.process_measured")
        if grown > own + 6000 + 8 * more / 5:
            fail(f"{name}: {grown} bytes more are held after {more} further samples of known clusters (object: {own} bytes)")
    rec.nontrivial(more >= 100)


SUBS = [
    Sub("memory", cases(), check, 240, 5000),
    Sub("process", cases((300, 400), (700, 1000), 5, 3), check_process, 16, 320),
    Sub("memory_wide", cases((60, 80), (100, 140), 6, 60), check, 24, 480),
]
