from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C05"
RULE = ("single-label streams (value must be exactly 0.0 after every sample) and single-label batches (must raise "
        "ValueError), any label integer, 1-1400 samples, 1-130 features, coincident samples included; optionally a second "
        "label follows, after which the value must be the definition's; non-trivial: >=2 samples")


short = st.one_of(gen.tiny(min_k=1), gen.blob(min_k=1, min_n=1, max_n=40, max_k=1),
                  gen.blob(min_k=1, min_n=1, max_n=160, max_k=1, dims=(1, 2, 3, 7, 24)))
long_ = st.one_of(gen.blob(min_k=1, min_n=200, max_n=1400, max_k=1, dims=(1, 2)), gen.wide(min_k=1))


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    n, d = c["X"].shape
    lab = draw(gen.label_names(2))
    c["y"] = np.full(n, lab[0], dtype=np.int64)
    c["other"] = lab[1]
    c["tail"] = np.array(draw(st.lists(st.integers(-50, 50), min_size=d, max_size=d)), dtype=float)
    c["float_labels"] = draw(st.booleans())
    return c


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    X2, y2 = np.vstack([X, case["tail"]]), np.append(y, case["other"])
    ref = Ref(X2, y2)
    for name in indices(case):
        o = new(name)
        for i in range(n):
            r = num(name, call(f"{name} sample {i}", o.get_cvi, X[i].copy(), y[i]))
            if r != 0.0 or num(name, o.criterion_value) != 0.0:
                fail(f"{name}: value {r!r} / {o.criterion_value!r} after {i + 1} samples of one label, expected 0.0")
            rec.count(f"{name}.zero")
        r = num(name, call(f"{name} second label", o.get_cvi, case["tail"].copy(), case["other"]))
        compare(rec, name, r, ref, "first sample of a second label")
        lab = y.astype(float) if case["float_labels"] and abs(int(y[0])) < 2 ** 50 else y.copy()
        refused(f"{name}: batch of {n} samples with one label", new(name).get_cvi, X.copy(), lab)
        rec.count(f"{name}.refused")
    rec.nontrivial(n >= 2)


SUBS = [
    Sub("one_label", cases(short), check, 4000, 80000),
    Sub("one_label_long", cases(long_), check, 40, 800),
]
