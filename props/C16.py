from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C16"
RULE = ("a data set with >=2 clusters and a replication count m in 2..6, copies adjacent, appended as rounds, or appended "
        "in reverse; batch and stream values compared under each index's law (rCIP uses unbiased covariances and has "
        "none); non-trivial: a value well conditioned on both sides was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["m"] = draw(st.integers(2, 6))
    c["how"] = draw(st.sampled_from(["repeat", "tile", "mirror"]))
    return c


def check(case, rec):
    X, y, m = case["X"], case["y"], case["m"]
    n, d, k = gen.classify(rec, case)
    rec.label("copies", case["how"])
    idx = np.arange(n)
    if case["how"] == "repeat":
        p = np.repeat(idx, m)
    elif case["how"] == "tile":
        p = np.tile(idx, m)
    else:
        p = np.concatenate([idx if j % 2 == 0 else idx[::-1] for j in range(m)])
    Y, z = X[p], y[p]
    r1, r2 = Ref(X, y), Ref(Y, z)
    done = 0
    for name in indices(case):
        if name == "rCIP":
            continue
        (v1, t1, s1), (v2, t2, s2) = r1.get(name), r2.get(name)
        rec.count(f"{name}.{s1}/{s2}")
        if s1 != "ok" or s2 != "ok" or (name == "CH" and n <= k):
            continue
        f = (m * n - k) / (n - k) if name == "CH" else 1.0
        done += 1
        same(rec, name, batch(name, X.copy(), y.copy()) * f, t1 * f, batch(name, Y.copy(), z.copy()), t2,
             f"batch, value (times {f:.4g}) vs value of {m} copies")
        same(rec, name, stream(name, X, y)[-1] * f, t1 * f, stream(name, Y, z)[-1], t2,
             f"stream, value (times {f:.4g}) vs value of {m} copies ({case['how']})")
    rec.nontrivial(done)


SUBS = [
    Sub("replicate", cases(gen.datasets(max_n=18, max_k=7, large=False)), check, 3000, 60000),
    Sub("replicate_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10))), check, 80, 1600),
    Sub("replicate_wide", cases(gen.wide()), check, 60, 1200),
    Sub("replicate_crowded", cases(gen.crowded(160, 80)), check, 12, 300),
    Sub("replicate_long", cases(gen.blob(min_n=120, max_n=400, max_k=6, dims=(1, 2, 3))), check, 12, 240),
]
