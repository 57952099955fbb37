from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C01"
RULE = ("data sets with >=2 clusters (tiny element-wise drawn, or decoded from a drawn byte string: 1-24 features, "
        "2-24 clusters, 8 label schedules, coarse grids with coincidences); non-trivial: >=3 samples and at least "
        "one index whose definition is well conditioned was compared with the reference model")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    if draw(st.integers(0, 3)) == 0:
        c["y"] = gen.rename(c["y"], draw(gen.label_names()))
    return c


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    ref = Ref(X, y)
    done = 0
    for name in indices(case):
        got = batch(name, X.copy(), y.copy())
        done += compare(rec, name, got, ref, "batch value")
    rec.nontrivial(n >= 3 and done)


SUBS = [
    Sub("batch", cases(gen.datasets(max_n=60, max_k=10)), check, 6000, 120000),
    Sub("batch_big", cases(gen.blob(min_n=150, max_n=700, max_k=60, dims=(1, 2, 3, 4, 7))), check, 160, 4000),
    Sub("batch_xbig", cases(gen.blob(min_n=600, max_n=2300, max_k=12, dims=(1, 2))), check, 20, 400),
    Sub("batch_wide", cases(gen.wide()), check, 200, 4000),
    Sub("batch_crowded", cases(gen.crowded()), check, 40, 800),
]
