from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C17"
RULE = ("data sets full of coincidences: samples from a handful of points, clusters without scatter, single-sample "
        "clusters, zero vectors, constant features, equal cluster means, one feature; batch and every stream prefix must "
        "not raise and must equal the definition where its denominator is not zero; non-trivial: a coincidence of "
        "samples is present and a defined value with >=2 clusters was compared")


# KNOWN_FINDINGS.txt: rCIP's regularisation (1e-6 for two features) is lost to rounding when a cluster is flat and
# its spread exceeds about 1e5
KNOWN_INPUT = ([[-229376.0, -43008.0], [-229376.0, -229376.0], [-43008.0, -229376.0]], [0, 1, 0])


def known_findings():
    out = []
    X, y = np.array(KNOWN_INPUT[0]), np.array(KNOWN_INPUT[1])
    for how in ("batch", "stream"):
        try:
            o = cvi.rCIP()
            if how == "batch":
                o.get_cvi(X, y)
            else:
                for x, l in zip(X, y):
                    o.get_cvi(x, l)
        except np.linalg.LinAlgError as e:
            out.append((f"rCIP {how}", f"rCIP {how} of {KNOWN_INPUT} raises LinAlgError: {e}"))
        except Exception:
            pass
    return out


@st.composite
def cases(draw, lo=2, hi=24, kmax=6):
    d = draw(st.integers(1, 4))
    k = draw(st.integers(2, kmax))
    npts = draw(st.integers(1, kmax))
    small = st.integers(-3, 3)
    pts = draw(st.lists(st.lists(small, min_size=d, max_size=d), min_size=npts, max_size=npts))
    n = draw(st.integers(lo, hi))
    how = draw(st.sampled_from(["scatterfree", "any", "singletons", "symmetric", "constant_feature", "zero"]))
    picks = draw(st.lists(st.tuples(st.integers(0, npts - 1), st.integers(0, k - 1)), min_size=n, max_size=n))
    P = np.array(pts, dtype=float)
    y = np.array([l for _, l in picks], dtype=np.int64)
    if how == "scatterfree":    # each cluster sits on one point
        X = P[y % npts]
    elif how == "singletons":   # only cluster 0 has more than one sample
        X = P[[p for p, _ in picks]]
        seen = set()
        for i in range(n):
            if y[i] in seen:
                y[i] = 0
            seen.add(int(y[i]))
    elif how == "symmetric":    # samples come in pairs x, -x: all means (nearly) equal
        X = P[[p for p, _ in picks]]
        X = np.vstack([X, -X])
        y = np.concatenate([y, y])
    elif how == "constant_feature":
        X = P[[p for p, _ in picks]].copy()
        X[:, draw(st.integers(0, d - 1))] = draw(small)
    elif how == "zero":
        X = P[[p for p, _ in picks]].copy()
        X[: n // 2] = 0.0
    else:
        X = P[[p for p, _ in picks]]
    if len(np.unique(y)) < 2:
        y = y.copy()
        y[-1] = y[-1] + 1
    sc = draw(st.sampled_from([1.0, 1.0, 0.25, 0.1, 10.0]))
    return {"X": X * sc + 0.0, "y": y, "how": how}


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    rec.label("how", case["how"])
    pts = checkpoints(y, 48)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    dup = len(np.unique(X, axis=0)) < n
    for name in indices(case):
        got = batch(name, X.copy(), y.copy())
        if compare(rec, name, got, refs[n], "batch of degenerate data"):
            rec.nontrivial(dup)
            if name in ("WB", "XB", "DB", "cSIL") and float(refs[n].W) == 0.0:
                rec.count(f"{name}.no_scatter")
                want = 1.0 if name == "cSIL" else 0.0
                if abs(got - want) > max(refs[n].get(name)[1], 1e-9):
                    fail(f"{name}: clusters without scatter and distinct means give {got!r}, expected {want}")
        for i, v in enumerate(stream(name, X, y)):
            if i + 1 in pts:
                compare(rec, name, v, refs[i + 1], f"degenerate stream, step {i + 1}")


wide = gen.blob(min_n=4, max_n=24, max_k=6, dims=(5, 6, 8, 12), coarse="coarse").map(lambda c: dict(c, how="wide"))
SUBS = [
    Sub("degenerate", cases(), check, 4500, 90000),
    Sub("degenerate_wide", wide, check, 500, 10000),
    Sub("degenerate_long", cases(60, 160), check, 40, 800),
    Sub("degenerate_crowded", cases(30, 80, 40), check, 60, 1200),
]
