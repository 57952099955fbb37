from lib.common import *
from lib import gen, badcalls
from hypothesis import strategies as st

ID = "C07"
RULE = ("a history of one object (stream or batch) with refused calls injected at drawn positions, before the first "
        "data, between samples and after the batch: wrong rank, single-label batches, wrong mode, wrong number of "
        "features with new or known labels; the reported value must not change, and every later value must be the one "
        "without the refused calls; non-trivial: a refused call was followed by a successful one")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    n = len(c["y"])
    c["mode"] = draw(st.sampled_from(["inc", "inc", "batch"]))
    c["pre"] = draw(st.lists(badcalls.recipes("fresh"), max_size=3))
    if c["mode"] == "inc":
        c["mid"] = [list(t) for t in draw(st.lists(st.tuples(st.integers(1, n), badcalls.recipes("inc")),
                                                   min_size=0 if c["pre"] else 1, max_size=6))]
    else:
        c["mid"] = [[0, r] for r in draw(st.lists(badcalls.recipes("batch"), max_size=4))]
    if draw(st.integers(0, 2)) == 0:
        c["y"] = gen.rename(c["y"], draw(gen.label_names(64)))
    return c


def bad(name, o, r, d, X, y, rec, when):
    args = badcalls.build(r, d, sorted(set(y.tolist())) if len(y) else [], X if len(y) else None, y)
    if args is None:
        return False
    before = num(name, o.criterion_value)
    for _ in range(r["times"]):
        refused(f"{name}: {r['kind']} {when}", o.get_cvi, *args)
    after = num(name, o.criterion_value)
    if not (before == after or (before != before and after != after)):
        fail(f"{name}: refused {r['kind']} {when} changed the reported value from {before!r} to {after!r}")
    rec.count(r["kind"])
    return True


def check(case, rec):
    X, y, mode = case["X"], case["y"], case["mode"]
    n, d, k = gen.classify(rec, case)
    rec.label("mode", mode)
    at = {}
    for pos, r in case["mid"]:
        at.setdefault(pos, []).append(r)
    pts = checkpoints(y, 20)
    refs = {m: Ref(X[:m], y[:m]) for m in (pts if mode == "inc" else {n})}
    for name in indices(case):
        o = new(name)
        hit = False
        for r in case["pre"]:
            hit = bad(name, o, r, d, X[:0], y[:0], rec, "on a fresh object") or hit
        if mode == "batch":
            v = num(name, call(f"{name} batch after refused calls {[r['kind'] for r in case['pre']]}",
                               o.get_cvi, X.copy(), y.copy()))
            compare(rec, name, v, refs[n], "batch value after refused calls")
            rec.nontrivial(hit)
            for r in at.get(0, []):
                bad(name, o, r, d, X, y, rec, "after a batch")
            continue
        clean = new(name)
        hist = [r["kind"] for r in case["pre"]]
        for i in range(n):
            v = num(name, call(f"{name} sample {i} after refused calls {hist}", o.get_cvi, X[i].copy(), y[i]))
            w = num(name, call(f"{name} sample {i}", clean.get_cvi, X[i].copy(), y[i]))
            if i + 1 in pts:
                val, tol, st_ = refs[i + 1].get(name)
                if st_ == "ok":
                    same(rec, name, v, tol, w, tol, f"sample {i + 1}, with vs without refused calls {hist}")
                    compare(rec, name, v, refs[i + 1], f"after sample {i + 1} and refused calls {hist}")
                    rec.nontrivial(hit)
            for r in at.get(i + 1, []):
                if bad(name, o, r, d, X[:i + 1], y[:i + 1], rec, f"after sample {i + 1}"):
                    hit = True
                    hist.append(r["kind"])


SUBS = [
    Sub("refused", cases(gen.datasets(max_n=14, max_k=6, large=False)), check, 3600, 72000),
    Sub("refused_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10))), check, 100, 2000),
    Sub("refused_wide", cases(gen.wide()), check, 100, 2000),
    Sub("refused_crowded", cases(gen.crowded()), check, 16, 320),
    Sub("refused_long", cases(gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2))), check, 16, 320),
]
