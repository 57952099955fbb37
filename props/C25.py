from lib.common import *
from lib import gen
from hypothesis import strategies as st
import cvi.compat.v0 as v0

ID = "C25"
RULE = ("drawn point sequences pushed through the legacy recursions (compactness, center, size; every subset of the optional "
        "arguments) and compared after each point with recomputation in extended precision; squared norms of drawn vectors; "
        "non-trivial: >=3 points, not all equal")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["opts"] = [list(o) for o in draw(st.lists(st.tuples(st.booleans(), st.booleans(), st.booleans()), min_size=4, max_size=4))]
    return c


def vec(what, got, want, tol):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape or not np.isfinite(got).all() or float(np.abs(got - want.astype(float)).max(initial=0)) > tol:
        fail(f"{what}: got {got!r}, expected {want.astype(float)!r}")


def check(case, rec):
    X = case["X"]
    n, d = X.shape
    L = X.astype(np.longdouble)
    cp, g, v, size = 0.0, None, X[0].copy(), 1
    v2, size2 = X[0].copy(), 1
    for m in range(2, n + 1):
        x = X[m - 1].copy()
        mean = L[:m].mean(axis=0)
        want = float(((L[:m] - mean) ** 2).sum())
        r = Ref(X[:m], np.zeros(m))
        keep = [x.copy(), v.copy(), v2.copy()]
        with_g, with_n, with_v = case["opts"][m % len(case["opts"])]
        kw = {}
        if with_n:
            kw["n_new"] = size + 1
        if with_v:
            kw["v_new"] = v + (x - v) / (size + 1)
        oldv = v
        out = call(f"CP_update, point {m}, {sorted(kw)}", lambda: v0.CP_update(x, oldv, size, g if with_g else None, cp, **kw))
        if len(out) != 4:
            fail(f"CP_update returned {len(out)} values")
        cp, g, v, size = out
        v2n, size2 = call("cluster_center_update", v0.cluster_center_update, x, v2, size2)
        if not (np.array_equal(x, keep[0]) and np.array_equal(oldv, keep[1]) and np.array_equal(v2, keep[2])):
            fail("an argument was modified in place")
        v2 = v2n
        if size != m or size2 != m:
            fail(f"sizes {size!r}, {size2!r} after {m} points")
        vec(f"center (CP_update) after {m} points", v, mean, 4 * r.eN + 1e-300)
        vec(f"center (cluster_center_update) after {m} points", v2, mean, 4 * r.eN + 1e-300)
        vec(f"deviation sum after {m} points", g, np.zeros(d), 4 * m * r.eN + 1e-300)
        got = num("CP_update", cp)
        if not abs(got - want) <= 1e-9 * want + 8 * m * r.eS + 8 * m * r.eN ** 2 + 1e-300:
            fail(f"compactness after {m} points: got {got!r}, expected {want!r}")
        sq = num("norm22", call("norm22", v0.norm22, x))
        if not abs(sq - float((L[m - 1] ** 2).sum())) <= 1e-13 * (4 + d) * sq + 1e-300:
            fail(f"norm22({x!r}) is {sq!r}")
    rec.label("points", "1-2" if n <= 2 else "3-10" if n <= 10 else ">10")
    rec.nontrivial(n >= 3 and len(np.unique(X, axis=0)) > 1)


SUBS = [
    Sub("recursions", cases(gen.datasets(min_k=1, max_n=40, max_k=3, large=False)), check, 5000, 100000),
    Sub("recursions_long", cases(gen.blob(min_k=1, min_n=60, max_n=500, max_k=3, dims=(1, 2, 4))), check, 60, 1200),
    Sub("recursions_wide", cases(gen.wide(min_k=1)), check, 200, 4000),
]
