from lib.common import *
from lib import gen, badcalls
from hypothesis import strategies as st

ID = "C08"
RULE = ("streams fed through one reused buffer, through rows of an array overwritten after each call, or through "
        "read-write views, and batches whose arrays are overwritten afterwards; overwriting values are drawn (NaN, huge, "
        "zero, other samples); arrays must be bitwise unchanged by each call and every value must be the "
        "undisturbed one; non-trivial: >=3 samples, >=2 clusters, a well-conditioned value compared after an overwrite")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["how"] = draw(st.sampled_from(["buffer", "rows", "column_views", "batch", "batch_f"]))
    c["garbage"] = draw(st.sampled_from(["nan", "huge", "zero", "neg", "none", "reverse"]))
    c["bad"] = draw(badcalls.recipes("fresh"))
    c["bad_used"] = draw(badcalls.recipes("batch" if c["how"].startswith("batch") else "inc"))
    c["dtype"] = draw(st.sampled_from(["float64", "float64", "float64", "float32"]))
    return c


def trash(a, g):
    if g == "nan":
        a[...] = np.nan
    elif g == "huge":
        a[...] = 1e6
    elif g == "zero":
        a[...] = 0
    elif g == "neg":
        a[...] = -a
    elif g == "reverse":
        a[...] = a[..., ::-1].copy()


def unchanged(name, a, before, what):
    if a.tobytes() != before:
        fail(f"{name}: the call modified the caller's {what}")


def untouched(name, o, r, d, X, y, rec):
    """A call that is refused does not modify its arguments either."""
    args = badcalls.build(r, d, sorted(set(y.tolist())), X if len(y) else None, y)
    if args is None:
        return
    bd, bl = args[0].tobytes(), np.asarray(args[1]).tobytes()
    try:
        o.get_cvi(*args)
    except Exception:
        pass                # which calls are refused, and how, is C06's and C07's subject
    unchanged(name, args[0], bd, f"data array ({r['kind']})")
    unchanged(name, np.asarray(args[1]), bl, f"label array ({r['kind']})")
    rec.count("refused")


def check(case, rec):
    X = case["X"].astype(case["dtype"])
    y, how, g = case["y"], case["how"], case["garbage"]
    n, d, k = gen.classify(rec, case)
    rec.label("how", how)
    rec.label("garbage", g)
    X64 = X.astype(float)
    pts = checkpoints(y, 20)
    refs = {m: Ref(X64[:m], y[:m]) for m in (pts if not how.startswith("batch") else {n})}
    for name in indices(case):
        untouched(name, new(name), case["bad"], d, X64[:0], y[:0], rec)
        o = new(name)
        if how.startswith("batch"):
            D = np.array(X, order="F" if how == "batch_f" else "C")
            L = y.copy()
            bd, bl = D.tobytes(), L.tobytes()
            v = num(name, call(f"{name} batch", o.get_cvi, D, L))
            unchanged(name, D, bd, "data array")
            unchanged(name, L, bl, "label array")
            untouched(name, o, case["bad_used"], d, X64, y, rec)
            trash(D, g)
            L[...] = 0
            after = num(name, o.criterion_value)
            if not (after == v or (v != v and after != after)):
                fail(f"{name}: overwriting the arrays after the batch changed the value {v!r} to {after!r}")
            # another object in between must not see the overwritten arrays either
            if compare(rec, name, after, refs[n], "batch value after overwriting the arrays"):
                rec.nontrivial(n >= 3)
            continue
        other = new(name)       # not `o`: C07 is about what a refused call does to the object
        call(f"{name} sample 0", other.get_cvi, X[0].copy(), y[0])
        untouched(name, other, case["bad_used"], d, X64[:1], y[:1], rec)
        buf = np.zeros(d, dtype=X.dtype)
        own = X.copy() if how == "rows" else np.array(X.T, order="C")
        for i in range(n):
            if how == "buffer":
                buf[:] = X[i]
                a = buf
            elif how == "rows":
                a = own[i]
            else:
                a = own[:, i]
            before = a.tobytes()
            v = num(name, call(f"{name} sample {i}", o.get_cvi, a, y[i]))
            unchanged(name, a, before, "sample")
            trash(a, g)
            if i + 1 in pts and compare(rec, name, v, refs[i + 1],
                                        f"after sample {i + 1} with samples overwritten ({how}, {g})"):
                rec.nontrivial(i >= 2 and refs[i + 1].k >= 2)


SUBS = [
    Sub("reuse", cases(gen.datasets(max_n=20, max_k=6, large=False)), check, 4000, 80000),
    Sub("reuse_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10))), check, 100, 2000),
    Sub("reuse_wide", cases(gen.wide()), check, 100, 2000),
    Sub("reuse_crowded", cases(gen.crowded()), check, 16, 320),
    Sub("reuse_long", cases(gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2))), check, 16, 320),
]
