from lib.common import *
from lib import gen, badcalls
from hypothesis import strategies as st

ID = "C06"
RULE = ("per index: an object evaluates a batch, or 1-n incremental samples, then gets 1-4 drawn further calls of the "
        "other mode (or a second batch): known or new labels, matching or other shapes, single rows, the same data "
        "again; each must raise ValueError; non-trivial: a switch with well-formed data (right width, >=2 labels or a "
        "plain sample) was attempted")
WELL = ("good_batch", "same_batch", "two_row_batch", "big_batch", "sample_known", "sample_new")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["mode"] = draw(st.sampled_from(["inc", "batch"]))
    c["upto"] = draw(st.integers(1, 1000))
    ex = badcalls.ANY + tuple(k for k in badcalls.KINDS["inc"] if "width" in k or k.startswith("one_feature"))
    c["bad"] = draw(st.lists(badcalls.recipes(c["mode"], ex), min_size=1, max_size=4))
    if draw(st.integers(0, 2)) == 0:
        c["y"] = gen.rename(c["y"], draw(gen.label_names(64)))
    return c


def check(case, rec):
    X, y, mode = case["X"], case["y"], case["mode"]
    n, d, k = gen.classify(rec, case)
    m = 1 + case["upto"] % n
    for name in indices(case):
        o = new(name)
        if mode == "batch":
            call(f"{name} batch", o.get_cvi, X.copy(), y.copy())
            Xs, ys = X, y
        else:
            for i in range(m):
                call(f"{name} sample {i}", o.get_cvi, X[i].copy(), y[i])
            Xs, ys = X[:m], y[:m]
        for r in case["bad"]:
            args = badcalls.build(r, d, sorted(set(ys.tolist())), Xs, ys)
            if args is None:
                continue
            for _ in range(r["times"]):
                refused(f"{name}: {r['kind']} after {mode} use ({len(ys)} samples)", o.get_cvi, *args)
            rec.count(f"{mode}->{r['kind']}")
            rec.nontrivial(r["kind"] in WELL)


SUBS = [
    Sub("switch", cases(gen.datasets(max_n=14, max_k=5, large=False)), check, 4000, 80000),
    Sub("switch_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10))), check, 100, 2000),
    Sub("switch_wide", cases(gen.wide()), check, 100, 2000),
    Sub("switch_crowded", cases(gen.crowded()), check, 24, 480),
    Sub("switch_long", cases(gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2))), check, 24, 480),
]
