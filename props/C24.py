from lib.common import *
from lib import gen
from hypothesis import strategies as st
import cvi.compat.v0 as v0

ID = "C24"
RULE = ("box-mode clusters fed 1-400 drawn points of [0,1]^d (multiples of 1/2048; queries up to 2^-24 from a face) with points outside refused in between and "
        "membership queries on, inside and outside the faces; cluster lists built from drawn points and cluster numbers in "
        "1-3 pieces; non-trivial: a query after >=2 points, or a list with >=2 clusters")
GRID = st.integers(0, 256)


@st.composite
def boxes(draw):
    d = draw(st.integers(1, 4))
    row = st.lists(GRID, min_size=d, max_size=d)
    pts = draw(st.lists(row, min_size=1, max_size=20))
    out = draw(st.lists(st.tuples(st.integers(0, len(pts)), st.integers(0, d - 1), st.sampled_from([-1, -300, 257, 999])), max_size=3))
    q = draw(st.lists(st.tuples(st.integers(1, len(pts)), st.sampled_from(["any", "mean", "face", "beyond", "point"]),
                                row, st.integers(0, d - 1), st.integers(0, 1)), min_size=1, max_size=8))
    return {"P": np.array(pts, dtype=float) / 256, "out": [list(o) for o in out], "q": [list(t) for t in q],
            "radial": draw(st.booleans())}


def check_box(case, rec):
    P = case["P"]
    n, d = P.shape
    c = call("Cluster", lambda: v0.Cluster(radial=case["radial"], box=True))
    rec.label("dim", d)
    for m in range(0, n + 1):
        if m:
            x = P[m - 1].copy()
            call(f"add_point {m}", c.add_point, x)
            x[:] = 0.5
        for at, f, v in case["out"]:
            if at == m:
                bad = P[m - 1].copy() if m else np.full(d, 0.25)
                bad[f] = v / 256
                try:
                    c.add_point(bad)
                except (AssertionError, ValueError):
                    rec.count("refused_outside")
                except Exception as e:
                    fail(f"a point outside the unit box raised {type(e).__name__}: {e}")
                else:
                    fail(f"a point outside the unit box was accepted: {bad!r}")
        if c.len != m:
            fail(f"length {c.len!r} after {m} points")
        if m == 0:
            continue
        lo, hi = P[:m].min(axis=0), P[:m].max(axis=0)
        want = np.concatenate([lo, 1 - hi])
        if not np.array_equal(np.asarray(c.bounding_box, dtype=float), want):
            fail(f"bounding box {c.bounding_box!r} after {m} points, expected {want!r}")
        if case["radial"] and np.abs(np.asarray(c.center, dtype=float) - P[:m].mean(axis=0)).max() > 1e-12:
            fail(f"center {c.center!r} after {m} points, mean is {P[:m].mean(axis=0)!r}")
        for at, how, r, f, side in case["q"]:
            if at != m:
                continue
            x = (lo + hi) / 2
            if how == "any":
                x = np.array(r) / 256
            elif how == "point":
                x = P[r[0] % m].copy()
            elif how in ("face", "beyond"):
                x[f] = (hi if side else lo)[f]
                if how == "beyond":
                    x[f] += (1 if side else -1) / (512, 4096, 2 ** 24)[r[0] % 3]
            want = bool(((lo <= x) & (x <= hi)).all())
            arg = x.copy()
            got = call("within_bounding_box", c.within_bounding_box, arg)
            if not np.array_equal(arg, x):
                fail(f"within_bounding_box changed its argument from {x!r} to {arg!r}")
            rec.count(f"within.{want}")
            if bool(got) != want:
                fail(f"within_bounding_box({x!r}) is {got!r}, box is {lo!r}..{hi!r}")
            rec.nontrivial(m >= 2)


@st.composite
def long_boxes(draw):
    """Many points or many features, decoded from one byte string."""
    b = gen.Blob(draw(st.binary(min_size=1600, max_size=1600)))
    h = gen.Header(draw(st.binary(min_size=6, max_size=6)))
    d = h.pick([1, 2, 3, 5, 8, 16, 33])
    n = min(h.between(2, 400), 1600 // d)
    P = b.u8(n * d).reshape(n, d) / 256 / h.pick([1, 2, 8])
    row = st.lists(GRID, min_size=d, max_size=d)
    q = draw(st.lists(st.tuples(st.integers(1, n), st.sampled_from(["any", "mean", "face", "beyond", "point"]),
                                row, st.integers(0, d - 1), st.integers(0, 1)), min_size=1, max_size=8))
    out = draw(st.lists(st.tuples(st.integers(0, n), st.integers(0, d - 1), st.sampled_from([-1, -300, 257, 999])), max_size=3))
    return {"P": P, "out": [list(o) for o in out], "q": [list(t) for t in q], "radial": draw(st.booleans())}


@st.composite
def long_lists(draw):
    b = gen.Blob(draw(st.binary(min_size=2400, max_size=2400)))
    h = gen.Header(draw(st.binary(min_size=6, max_size=6)))
    d, k = h.pick([1, 1, 2, 5, 16]), h.pick([1, 2, 5, 20, 90])
    n = min(h.between(25, 1100), 2400 // (d + 1))
    y = b.u8(n) % k
    return {"X": (b.u8(n * d).reshape(n, d) - 128) / 4.0, "y": y, "as_list": draw(st.booleans()), "others": draw(st.booleans()),
            "cuts": draw(st.lists(st.integers(1, n), max_size=2, unique=True))}


@st.composite
def lists(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 24))
    k = draw(st.integers(1, 6))
    y = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    X = draw(st.lists(st.lists(st.integers(-40, 40), min_size=d, max_size=d), min_size=n, max_size=n))
    return {"X": np.array(X, dtype=float) / 4, "y": np.array(y, dtype=np.int64), "as_list": draw(st.booleans()),
            "others": draw(st.booleans()),
            "cuts": draw(st.lists(st.integers(1, n), max_size=2, unique=True))}


def check_list(case, rec):
    X, y = case["X"], case["y"]
    cs = call("Clusters()", v0.Clusters)
    other = call("Clusters()", v0.Clusters)
    if len(cs):
        fail(f"a new cluster list has {len(cs)} clusters")
    A, C = X.copy(), y.copy()
    cuts = [0] + sorted(c for c in case["cuts"] if 0 < c < len(y)) + [len(y)]
    where = np.zeros(len(y), dtype=np.int64)
    for a, b in zip(cuts, cuts[1:]):        # in one piece or several; a position is one in the piece given
        where[a:b] = np.arange(b - a)
        call("from_list", cs.from_list, list(A[a:b]) if case["as_list"] else A[a:b], y[a:b].tolist() if case["as_list"] else C[a:b])
    if not (np.array_equal(A, X) and np.array_equal(C, y)):
        fail("from_list changed its arguments")
    A[:] = 55.0
    if case["others"]:
        call("from_list", other.from_list, X[:1] + 9, y[:1])
    if len(cs) != y.max() + 1:
        fail(f"{len(cs)} clusters for cluster numbers up to {y.max()}")
    for i, c in enumerate(cs):
        G = X[y == i]
        if c.len != len(G) or len(c.points) != len(G) or (len(G) and not np.array_equal(np.array(c.points), G)):
            fail(f"cluster {i} holds {c.points!r}, expected {G!r}")
        if list(c.indicies) != where[y == i].tolist():
            fail(f"cluster {i} holds the indices {c.indicies!r}, expected {where[y == i]!r}")
        if len(G) and np.abs(np.asarray(c.center) - G.mean(axis=0)).max() > 1e-11:
            fail(f"cluster {i} has center {c.center!r}, expected {G.mean(axis=0)!r}")
    rec.label("clusters", len(cs))
    rec.label("pieces", len(cuts) - 1)
    rec.label("empty_cluster", len(np.unique(y)) < len(cs))
    rec.nontrivial(len(np.unique(y)) >= 2)


SUBS = [
    Sub("box", boxes(), check_box, 4000, 80000),
    Sub("list", lists(), check_list, 2500, 50000),
    Sub("box_long", long_boxes(), check_box, 200, 4000),
    Sub("list_long", long_lists(), check_list, 200, 4000),
]
