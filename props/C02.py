from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C02"
RULE = ("streams of 2-1500 labelled samples (new clusters at any point, single-sample clusters, interleaving, revisits); "
        "every prefix of short streams and selected prefixes of long ones compared with the reference model, the final "
        "and one drawn prefix also with the package's own batch value; non-trivial: some prefix with >=2 clusters and "
        ">=3 samples was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    if draw(st.integers(0, 3)) == 0:
        c["y"] = gen.rename(c["y"], draw(gen.label_names(64)))
    c["cut"] = draw(st.integers(0, 1000))
    return c


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    pts = checkpoints(y)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    cuts = {n, 1 + case["cut"] % n}
    done = 0
    for name in indices(case):
        o = new(name)
        for i in range(n):
            got = num(name, call(f"{name} sample {i}", o.get_cvi, X[i].copy(), y[i]))
            m = i + 1
            if m in pts:
                r = refs[m]
                ok = compare(rec, name, got, r, f"after sample {m}")
                done += ok and r.k >= 2 and m >= 3
                if ok and m in cuts and r.k >= 2:
                    b = batch(name, X[:m].copy(), y[:m].copy())
                    same(rec, name, got, r.get(name)[1], b, r.get(name)[1], f"incremental vs batch after sample {m}")
    rec.nontrivial(done)


SUBS = [
    Sub("stream", cases(gen.datasets(max_n=30, max_k=8, large=False)), check, 3500, 70000),
    Sub("stream_mid", cases(gen.blob(min_n=20, max_n=120, max_k=20, dims=(1, 2, 3, 5, 8, 12))), check, 240, 5000),
    Sub("stream_long", cases(gen.blob(min_n=120, max_n=420, max_k=45, dims=(1, 2, 3, 4, 16))), check, 60, 1500),
    Sub("stream_xlong", cases(gen.blob(min_n=450, max_n=1500, max_k=6, dims=(1, 2))), check, 20, 400),
    Sub("stream_wide", cases(gen.wide()), check, 120, 2400),
    Sub("stream_crowded", cases(gen.crowded()), check, 16, 400),
]
