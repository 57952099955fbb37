from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C12"
RULE = ("data sets biased to range boundaries (overlapping and coincident clusters, scatter-free clusters, far-apart "
        "clusters, mislabelled samples), batch and every stream prefix; bounds checked with the rounding tolerance of the "
        "value; non-trivial: a defined value with >=2 clusters was checked")
NONNEG = ("CH", "WB", "XB", "DB", "GD43", "GD53", "rCIP")


@st.composite
def cases(draw, ds):
    return dict(draw(ds))


def bounds(name, r):
    if name == "cSIL":
        return -1.0, 1.0
    if name == "GD53":
        return 0.0, 0.5
    if name == "PS":
        t = float((r.size / r.size.max()).sum())
        return t - r.k, t
    return 0.0, np.inf


def one(rec, name, got, r, what):
    val, tol, status = r.get(name)
    rec.count(f"{name}.{status}")
    if status != "ok" or r.k < 2:
        return False
    lo, hi = bounds(name, r)
    if not (lo - tol <= got <= hi + tol):
        fail(f"{name} {what}: {got!r} outside [{lo!r}, {hi!r}]")
    if val - lo <= 1e-3 or hi - val <= 1e-3:
        rec.count(f"{name}.near_bound")
    return True


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    pts = checkpoints(y, 40)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    for name in indices(case):
        rec.nontrivial(one(rec, name, batch(name, X.copy(), y.copy()), refs[n], "batch"))
        for i, v in enumerate(stream(name, X, y)):
            if i + 1 in pts:
                rec.nontrivial(one(rec, name, v, refs[i + 1], f"after sample {i + 1}"))


SUBS = [
    Sub("range", cases(gen.datasets(max_n=30, max_k=8, large=False)), check, 4000, 80000),
    Sub("range_coarse", cases(gen.blob(max_n=30, max_k=8, coarse="coarse", dims=(1, 2, 3))), check, 1500, 30000),
    Sub("range_mid", cases(gen.blob(min_n=20, max_n=120, max_k=24, dims=(1, 2, 4, 8))), check, 240, 5000),
    Sub("range_wide", cases(gen.wide()), check, 100, 2000),
    Sub("range_crowded", cases(gen.crowded(260, 140)), check, 16, 400),
    Sub("range_long", cases(gen.blob(min_n=200, max_n=1000, max_k=6, dims=(1, 2, 3))), check, 24, 480),
]
