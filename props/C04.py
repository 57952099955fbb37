from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C04"
RULE = ("a data set with labels 0..k-1 and an injective integer renaming (negative, gaps, large, permuted among clusters, "
        "shifted); batch values and every stream step compared with the original labels' and with the reference model; "
        "non-trivial: the names differ from the original and a well-conditioned value was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["y"] = np.unique(c["y"], return_inverse=True)[1].reshape(-1).astype(np.int64)
    kk = int(c["y"].max()) + 1
    how = draw(st.sampled_from(["any", "any", "permuted", "shift", "stride", "noise", "alias", "sign"]))
    if how == "any":
        names = draw(gen.label_names())
    elif how == "permuted":
        names = list(draw(st.permutations(list(range(kk)))))
    elif how == "shift":
        s = draw(st.one_of(st.integers(-5, 5), st.integers(-10 ** 6, 10 ** 6)))
        names = [i + s for i in range(kk)]
    elif how == "stride":
        s, o = draw(st.integers(2, 9)), draw(st.integers(-9, 9))
        names = [i * s + o for i in range(kk)]
    elif how == "alias":    # pairs that collide when cut to fewer bits or rounded to floating point
        p = draw(st.sampled_from([7, 8, 10, 15, 16, 20, 31, 32, 40, 53, 62]))
        v = draw(st.integers(-3, 3)) + (2 ** 53 if p == 53 else 0)
        names = [v + i // 2 + (i % 2) * 2 ** p if p != 53 else v + i for i in range(kk)]
    elif how == "sign":     # 1, -1, 2, -2, ...
        names = [(i // 2 + 1) * (-1) ** i for i in range(kk)]
    else:       # a noise label -1 as produced by density clustering
        names = list(range(kk))
        names[draw(st.integers(0, kk - 1))] = -1
    c["names"] = [int(v) for v in names[:max(kk, 1)]]
    c["how"] = how
    c["pyint"] = draw(st.booleans())
    return c


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    rec.label("renaming", case["how"])
    z = gen.rename(y, case["names"])
    pts = checkpoints(y, 24)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    done = 0
    for name in indices(case):
        val, tol, status = refs[n].get(name)
        rec.count(f"{name}.{status}")
        b1, b2 = batch(name, X.copy(), y.copy()), batch(name, X.copy(), z.copy())
        if status == "ok":
            same(rec, name, b1, tol, b2, tol, f"batch, labels {sorted(set(y.tolist()))} vs {sorted(set(z.tolist()))}")
            compare(rec, name, b2, refs[n], "batch value of the renamed labels")
            done += 1
        o1, o2 = new(name), new(name)
        for i in range(n):
            lab = int(z[i]) if case["pyint"] else z[i]
            r1 = num(name, call(f"{name} sample {i}", o1.get_cvi, X[i].copy(), y[i]))
            r2 = num(name, call(f"{name} sample {i} (renamed)", o2.get_cvi, X[i].copy(), lab))
            if i + 1 in pts:
                v, t, s = refs[i + 1].get(name)
                if s == "ok":
                    same(rec, name, r1, t, r2, t, f"stream step {i + 1}, label {y[i]} vs {z[i]}")
                    compare(rec, name, r2, refs[i + 1], f"stream step {i + 1} of the renamed labels")
    rec.nontrivial(done and not np.array_equal(y, z))


SUBS = [
    Sub("names", cases(gen.datasets(max_n=26, max_k=8, large=False)), check, 3000, 60000),
    Sub("names_many", cases(gen.blob(min_n=30, max_n=110, max_k=40, dims=(1, 2, 3))), check, 160, 4000),
    Sub("names_crowded", cases(gen.crowded(260, 140)), check, 16, 400),
    Sub("names_wide", cases(gen.wide()), check, 60, 1200),
    Sub("names_long", cases(gen.blob(min_n=200, max_n=1000, max_k=6, dims=(1, 2, 3))), check, 16, 320),
]
