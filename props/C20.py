from lib.common import *
from lib import gen
from hypothesis import strategies as st
import cvi.compat.v0 as v0

ID = "C20"
RULE = ("sequences of 1-700 points with queries (norm 1, 2 or infinity) and points of other dimensions interleaved, against "
        "a list of the points kept by the check in extended precision; non-trivial: a query after at least two points")
NORM = {"1": 1, "2": 2, "inf": np.inf, "default": 2, "none": None}


@st.composite
def cases(draw, ds):
    c = draw(ds)
    n, d = c["X"].shape
    k = draw(st.integers(1, min(n, 8)))
    q = draw(st.lists(st.fixed_dictionaries({
        "at": st.integers(1, n), "norm": st.sampled_from(sorted(NORM)),
        "pick": st.integers(-1, n - 1), "shift": st.lists(st.integers(-9, 9), min_size=d, max_size=d),
    }), min_size=1, max_size=k))
    bad = draw(st.lists(st.tuples(st.integers(1, n), st.sampled_from([-1, 1, 2])), max_size=3))
    return {"X": c["X"], "queries": q, "bad": [list(b) for b in bad], "index": draw(st.booleans()),
            "decoy": draw(st.booleans()), "dtype": draw(st.sampled_from(["float64"] * 3 + ["float32", "int8", "int16", "int64", "readonly"]))}


def dist(Z, norm):
    if norm == "1":
        return np.abs(Z).sum(axis=1)
    if norm == "inf":
        return np.abs(Z).max(axis=1)
    return np.sqrt((Z ** 2).sum(axis=1))


def near(what, got, want, tol):
    try:
        g = float(got)
    except Exception:
        fail(f"{what}: {got!r} is not a number")
    if not (np.isfinite(g) and abs(g - float(want)) <= tol):
        fail(f"{what}: got {g!r}, expected {float(want)!r}")


def check(case, rec):
    X = case["X"]
    n, d = X.shape
    rec.label("dim", d if d <= 3 else ">3")
    rec.label("points", n if n <= 3 else "4-10" if n <= 10 else ">10")
    dt = case["dtype"]
    readonly = dt == "readonly"
    if readonly:
        dt = "float64"
    if dt.startswith("int"):
        info = np.iinfo(dt) if dt != "int64" else np.iinfo("int32")
        X = np.clip(np.round(X), info.min, info.max)
    elif dt == "float32":
        X = X.astype(np.float32).astype(float)
    rec.label("dtype", case["dtype"])
    L = X.astype(np.longdouble)
    other = call("Cluster()", v0.Cluster) if case["decoy"] else None
    c = call("Cluster()", v0.Cluster)
    if c.len != 0:
        fail(f"an empty cluster has length {c.len!r}")
    for m in range(1, n + 1):
        buf = X[m - 1].astype(dt)
        buf.flags.writeable = not readonly
        call(f"add_point {m}", c.add_point, *((buf, 100 + m) if case["index"] else (buf,)))
        if not np.array_equal(buf, X[m - 1]):
            fail(f"add_point changed its argument from {X[m - 1]!r} to {buf!r}")
        buf.flags.writeable = True
        buf[:] = 55
        if other is not None:       # another cluster, of another dimension at times, changes nothing here
            call("add_point of another cluster", other.add_point, np.full(d + n % 2, 7.0 * m))
        for at, dd in case["bad"]:
            if at == m and d + dd >= 1:
                rec.count("other_dimension")
                wrong = np.ones(d + dd)
                try:
                    c.add_point(wrong)
                except (AssertionError, ValueError):
                    pass
                except Exception as e:
                    fail(f"a point of dimension {d + dd} in a {d}-dimensional cluster raised {type(e).__name__}: {e}")
                else:
                    fail(f"a point of dimension {d + dd} was accepted by a {d}-dimensional cluster")
                if not (wrong == 1).all():
                    fail("a refused point was modified")
        if c.len != m:
            fail(f"length {c.len!r} after {m} points")
        tol = 1e-12 * (1 + float(np.abs(X[:m]).max())) * (8 + m)
        mean = L[:m].mean(axis=0)
        got = np.asarray(c.center, dtype=float)
        if got.shape != (d,) or not np.isfinite(got).all() or float(np.abs(got - mean).max()) > tol:
            fail(f"center {got!r} after {m} points, mean is {mean.astype(float)!r}")
        for q in case["queries"]:
            if q["at"] != m:
                continue
            base = X[q["pick"]] if q["pick"] >= 0 else mean.astype(float)
            x = base + np.array(q["shift"], dtype=float)
            D = dist(L[:m] - x.astype(np.longdouble), q["norm"])
            dc = dist((mean - x.astype(np.longdouble))[None, :], q["norm"])[0]
            t = 1e-12 * (1 + float(np.abs(X[:m]).max()) + float(np.abs(x).max())) * (8 + m) * (4 + d)
            a = () if q["norm"] == "default" else (NORM[q["norm"]],)
            arg = x.copy()
            arg.flags.writeable = not readonly
            near(f"min_distance (norm {q['norm']})", call("min_distance", c.min_distance, arg, *a), D.min(), t)
            near(f"avg_distance (norm {q['norm']})", call("avg_distance", c.avg_distance, arg, *a), D.mean(), t)
            near(f"center_distance (norm {q['norm']})", call("center_distance", c.center_distance, arg, *a), dc, t)
            if arg.tobytes() != x.tobytes():
                fail(f"a distance query changed its argument from {x!r} to {arg!r}")
            rec.label("norm", q["norm"])
            rec.nontrivial(m >= 2)


SUBS = [
    Sub("cluster", cases(gen.datasets(min_k=1, max_n=40, max_k=4, large=False)), check, 9000, 200000),
    Sub("cluster_long", cases(gen.blob(min_k=1, min_n=60, max_n=700, max_k=4, dims=(1, 2, 4))), check, 60, 1200),
    Sub("cluster_wide", cases(gen.wide(min_k=1)), check, 200, 4000),
]
