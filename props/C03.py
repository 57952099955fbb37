from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C03"
RULE = ("a data set with >=2 clusters and a drawn permutation of its samples (also reversal and sorting by cluster); both "
        "orders evaluated in batch and as a stream; non-trivial: the permuted label sequence or samples differ and at "
        "least one well-conditioned value was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    n = len(c["y"])
    how = draw(st.sampled_from(["perm", "perm", "reverse", "bycluster", "bycluster_desc", "roundrobin"]))
    if how == "perm":
        p = np.array(draw(st.permutations(list(range(n)))))
    elif how == "reverse":
        p = np.arange(n)[::-1]
    elif how == "bycluster":
        p = np.argsort(c["y"], kind="stable")
    elif how == "bycluster_desc":
        p = np.argsort(-c["y"], kind="stable")
    else:
        seen, key = {}, []
        for l in c["y"].tolist():
            seen[l] = seen.get(l, 0) + 1
            key.append(seen[l])
        p = np.argsort(np.array(key), kind="stable")
    c["perm"] = np.array(p, dtype=np.int64)
    c["how"] = how
    return c


def check(case, rec):
    X, y, p = case["X"], case["y"], case["perm"]
    n, d, k = gen.classify(rec, case)
    rec.label("order", case["how"])
    ref = Ref(X, y)
    X2, y2 = X[p], y[p]
    moved = not (np.array_equal(X, X2) and np.array_equal(y, y2))
    done = 0
    for name in indices(case):
        val, tol, status = ref.get(name)
        rec.count(f"{name}.{status}")
        b1, b2 = batch(name, X.copy(), y.copy()), batch(name, X2.copy(), y2.copy())
        s1, s2 = stream(name, X, y)[-1], stream(name, X2, y2)[-1]
        if status != "ok":
            continue
        same(rec, name, b1, tol, b2, tol, f"batch, original vs permuted rows ({case['how']})")
        same(rec, name, s1, tol, s2, tol, f"stream, original vs permuted order ({case['how']})")
        same(rec, name, b1, tol, s2, tol, f"batch vs stream in permuted order ({case['how']})")
        done += 1
    rec.nontrivial(done and moved)


SUBS = [
    Sub("order", cases(gen.datasets(max_n=30, max_k=8, large=False)), check, 3500, 70000),
    Sub("order_mid", cases(gen.blob(min_n=20, max_n=110, max_k=16, dims=(1, 2, 3, 5, 8))), check, 240, 5000),
    Sub("order_wide", cases(gen.wide()), check, 80, 1600),
    Sub("order_crowded", cases(gen.crowded(200, 100)), check, 12, 300),
    Sub("order_long", cases(gen.blob(min_n=200, max_n=900, max_k=8, dims=(1, 2, 3))), check, 16, 400),
]
