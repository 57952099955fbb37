from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C14"
RULE = ("a data set with >=2 clusters and a factor s>1; every cluster is moved so that the means scale by s about a drawn "
        "point while deviations from the mean are kept; batch and stream values compared under each index's law; "
        "non-trivial: means differ and a value well conditioned on both sides was compared")
POWER = {"CH": 2, "GD43": 1, "WB": -2, "XB": -2, "DB": -2, "GD53": 0, "PS": 0}


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    d = c["X"].shape[1]
    c["s"] = draw(st.one_of(st.sampled_from([1.125, 1.5, 2.0, 3.0, 4.0, 10.0, 64.0, 1000.0, 1e5]), st.integers(101, 900).map(lambda i: i / 100)))
    c["about"] = np.array(draw(st.lists(st.integers(-10, 10), min_size=d, max_size=d)), dtype=float)
    return c


def check(case, rec):
    X, y, s = case["X"], case["y"], case["s"]
    n, d, k = gen.classify(rec, case)
    means = {l: X[y == l].mean(axis=0) for l in np.unique(y).tolist()}
    Y = X + (s - 1) * (np.array([means[l] for l in y.tolist()]) - case["about"])
    r1, r2 = Ref(X, y), Ref(Y, y)
    done = 0
    for name in indices(case):
        (v1, t1, s1), (v2, t2, s2) = r1.get(name), r2.get(name)
        rec.count(f"{name}.{s1}/{s2}")
        if s1 != "ok" or s2 != "ok":
            continue
        done += 1
        for how, a, b in (("batch", batch(name, X.copy(), y.copy()), batch(name, Y.copy(), y.copy())),
                          ("stream", stream(name, X, y)[-1], stream(name, Y, y)[-1])):
            if name in POWER:
                f = s ** POWER[name]
                same(rec, name, a * f, t1 * f, b, t2, f"{how}: value times {f:.6g} vs value after separating by {s}")
            else:
                rec.count(f"{name}.compared")
                if name == "cSIL" and not b >= a - t1 - t2:
                    fail(f"cSIL {how}: separating by {s} lowered the value from {a!r} to {b!r}")
                if name == "rCIP" and not b <= a + t1 + t2:
                    fail(f"rCIP {how}: separating by {s} raised the value from {a!r} to {b!r}")
    rec.nontrivial(done and not np.array_equal(X, Y))


SUBS = [
    Sub("separate", cases(gen.datasets(max_n=26, max_k=8, large=False)), check, 4000, 80000),
    Sub("separate_mid", cases(gen.blob(min_n=20, max_n=80, max_k=16, dims=(1, 2, 3, 5, 8))), check, 240, 5000),
    Sub("separate_wide", cases(gen.wide()), check, 100, 2000),
    Sub("separate_crowded", cases(gen.crowded(200, 100)), check, 16, 400),
    Sub("separate_long", cases(gen.blob(min_n=200, max_n=900, max_k=8, dims=(1, 2, 3))), check, 16, 400),
]
