from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C11"
RULE = ("a data set and a drawn transformation (translation, product of plane rotations, reflection, feature permutation, "
        "positive scaling, inserted constant feature); batch and stream values before and after compared under the "
        "index's law; non-trivial: the data changed and a value well conditioned on both sides was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    n, d = c["X"].shape
    how = draw(st.sampled_from(["translate", "rotate", "reflect", "features", "scale", "constant"]))
    c["how"] = how
    if how == "translate":
        sh = draw(st.sampled_from([1.0, 0.37, 16.0, 500.0, 4000.0]))
        c["t"] = np.array(draw(st.lists(st.integers(-64, 64), min_size=d, max_size=d)), dtype=float) * sh
    elif how == "rotate":
        c["angles"] = [[i, j, a / 8] for i, j, a in draw(st.lists(
            st.tuples(st.integers(0, d - 1), st.integers(0, d - 1), st.integers(-25, 25)), min_size=1, max_size=4))]
    elif how == "reflect":
        c["u"] = np.array(draw(st.lists(st.integers(-5, 5), min_size=d, max_size=d)), dtype=float)
    elif how == "features":
        c["p"] = [int(i) for i in draw(st.permutations(list(range(d))))]
    elif how == "scale":
        c["s"] = draw(st.one_of(st.sampled_from([2.0, 0.5, 10.0, 0.1, 1000.0, 1e-3, 3.0, 1e-6, 1e-8, 1e6, 1e-20, 1e20, 2.0 ** -150, 2.0 ** 150]),
                                st.integers(1, 4000).map(lambda i: i / 100)))
    else:
        c["at"] = draw(st.integers(0, d))
        c["value"] = float(draw(st.integers(-20, 20)))
    return c


def transform(c):
    X, how = c["X"], c["how"]
    d = X.shape[1]
    if how == "translate":
        return X + c["t"]
    if how == "rotate":
        Q = np.eye(d)
        for i, j, a in c["angles"]:
            if i != j:
                R = np.eye(d)
                R[i, i] = R[j, j] = np.cos(a)
                R[i, j], R[j, i] = -np.sin(a), np.sin(a)
                Q = Q @ R
        return X @ Q
    if how == "reflect":
        u = c["u"]
        s = u @ u
        return X - 2 * np.outer(X @ u, u) / s if s else -X
    if how == "features":
        return X[:, c["p"]].copy()
    if how == "scale":
        return X * c["s"]
    return np.insert(X, c["at"], c["value"], axis=1)


def check(case, rec):
    X, y, how = case["X"], case["y"], case["how"]
    n, d, k = gen.classify(rec, case)
    rec.label("transformation", how)
    Y = transform(case)
    pts = sorted(checkpoints(y, 12))
    refs = {m: (Ref(X[:m], y[:m]), Ref(Y[:m], y[:m])) for m in pts}
    done = 0
    for name in indices(case):
        if name == "rCIP" and how in ("scale", "constant"):
            continue
        factor = 1 / case["s"] if (how == "scale" and name == "GD43") else 1.0
        a, b = stream(name, X, y), stream(name, Y, y)
        for m in pts:
            (v1, t1, s1), (v2, t2, s2) = refs[m][0].get(name), refs[m][1].get(name)
            rec.count(f"{name}.{s1}/{s2}")
            if s1 != "ok" or s2 != "ok":
                continue
            same(rec, name, a[m - 1] * factor, t1 * factor, b[m - 1], t2, f"stream before/after {how}, sample {m}")
            if m == n:
                done += 1
                same(rec, name, batch(name, X.copy(), y.copy()) * factor, t1 * factor,
                     batch(name, Y.copy(), y.copy()), t2, f"batch before/after {how}")
    rec.nontrivial(done and not np.array_equal(X, Y))


SUBS = [
    Sub("isometry", cases(gen.datasets(max_n=26, max_k=8, large=False)), check, 4000, 80000),
    Sub("isometry_mid", cases(gen.blob(min_n=20, max_n=80, max_k=16, dims=(2, 3, 5, 8, 12))), check, 240, 5000),
    Sub("isometry_wide", cases(gen.wide()), check, 60, 1200),
    Sub("isometry_crowded", cases(gen.crowded(200, 100)), check, 12, 300),
    Sub("isometry_long", cases(gen.blob(min_n=200, max_n=1000, max_k=6, dims=(1, 2, 3))), check, 12, 240),
]
