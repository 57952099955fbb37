from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C13"
RULE = ("data sets of integers (small, or filling the type's range) or of exactly representable fractions, passed as "
        "int8..uint64, float16/32/64, big-endian, C/Fortran order, strided, reversed and read-only views, labels of any "
        "integer type; compared with the reference on the same numbers and with the plain float64 call; non-trivial: "
        "type or layout differs from C-ordered float64 and a well-conditioned value was compared")
INT = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")
FLT = ("float16", "float32", "float64", ">f8", ">i4")
FINE = {"float32": (24, True, 2.0 ** 16), "float64": (53, True, 2.0 ** 45), ">f8": (53, True, 2.0 ** 45),
        "int32": (32, True, 1), ">i4": (32, True, 1), "uint32": (32, False, 1), "int64": (53, True, 1), "uint64": (53, False, 1)}
LAB = ("int8", "uint8", "int16", "uint16", "int32", "int64", "uint32", "uint64")


@st.composite
def cases(draw, lo=3, hi=30, dmax=6, kmax=6):
    total = hi * (2 * dmax + 1)
    b = gen.Blob(draw(st.binary(min_size=total, max_size=total)))
    h = gen.Header(draw(st.binary(min_size=8, max_size=8)))
    d, k, n = h.between(1, dmax), h.between(2, kmax), h.between(lo, hi)
    n = max(n, k)
    dt = draw(st.sampled_from(INT + FLT))
    mode = draw(st.sampled_from(gen.SCHEDULES))
    width = draw(st.sampled_from(["small", "full", "fine"]))
    y = gen.schedule(mode, b.u8(n), k)
    if len(np.unique(y)) < 2:
        y = y.copy()
        y[n // 2] = (y[n // 2] + 1) % k
    raw = b.u16(n * d).reshape(n, d)
    without = ()
    if width == "fine" and dt in FINE:         # every digit the type has (at most the 53 bits of a double)
        bits, signed, unit = FINE[dt]
        big = raw.astype(np.uint64) * np.uint64(0x9E3779B97F4A7C15)     # wraps: 16 drawn bits spread over 64
        big = (big >> np.uint64(64 - bits)).astype(np.int64)
        if signed:
            big -= 1 << (bits - 1)
        V = big.astype(float) / unit
        if unit == 1:
            without = ("rCIP",)
    elif width == "small":
        V = (raw % 16).astype(float)
        if not dt.startswith("u"):
            V -= 8
    elif dt == "int8":
        V = (raw % 256 - 128).astype(float)
    elif dt == "uint8":
        V = (raw % 256).astype(float)
    elif dt == "int16":
        V = (raw - 32768).astype(float)
    elif dt == "float16":
        V = (raw % 2048 - 1024) / 8.0
    elif dt in ("float32", "float64", ">f8"):
        V = (raw - 32768) / 256.0
    elif dt.startswith("u"):
        V = raw.astype(float) if dt == "uint16" else raw * 7.0
    else:
        V = (raw - 32768) * 7.0
    return {"X": V, "y": y.astype(np.int64), "dtype": dt, "width": width, "without": without,
            "layout": draw(st.sampled_from(["C", "F", "strided", "reversed", "readonly", "embedded"])),
            "labels": draw(st.sampled_from(LAB)),
            "label_at": draw(st.sampled_from(["zero", "top", "bottom", "ends", "ends", "alias", "alias"])), "label_layout": draw(st.sampled_from(["plain", "strided", "readonly"]))}


def layout(A, how):
    if how == "C":
        return np.ascontiguousarray(A)
    if how == "F":
        return np.asfortranarray(A)
    if how == "readonly":
        B = A.copy()
        B.flags.writeable = False
        return B
    if how == "strided":
        B = np.zeros((2 * A.shape[0],) + tuple(3 * s for s in A.shape[1:]), dtype=A.dtype)
        v = B[::2, ::3] if A.ndim == 2 else B[::2]
        v[...] = A
        return v
    if how == "reversed":
        return A[::-1].copy()[::-1]
    if how == "embedded":       # a column block of a wider table, as in table[:, :-1]
        if A.ndim == 1:
            B = np.full((len(A), 2), 99).astype(A.dtype)
            B[:, 0] = A
            return B[:, 0]
        B = np.full((A.shape[0], A.shape[1] + 1), 99).astype(A.dtype)
        B[:, :-1] = A
        return B[:, :-1]
    raise AssertionError(how)


def check(case, rec):
    X, y, dt = case["X"], case["y"], case["dtype"]
    n, d, k = gen.classify(rec, case)
    rec.label("dtype", dt)
    rec.label("layout", case["layout"])
    rec.label("labels", case["labels"])
    T = X.astype(dt)
    if not np.array_equal(T.astype(float), X):
        raise AssertionError("generator produced unrepresentable values")
    # where in the label type's range the label values lie
    info = np.iinfo(case["labels"])
    lo, hi = int(info.min), int(info.max)
    name_of = {"zero": lambda i: i, "top": lambda i: hi - i, "bottom": lambda i: lo + i,
               "ends": lambda i: hi - i if i % 2 else lo + i,
               # pairs that agree in the lower half of the bits
               "alias": lambda i: i // 2 + (i % 2 << info.bits // (2 if i % 4 < 2 else 4 if info.bits > 16 else 2))}[case["label_at"]]
    if len({name_of(i) for i in range(int(y.max()) + 1)}) <= int(y.max()):      # a narrow type has no room for such pairs
        name_of = lambda i: i
    L = np.array([name_of(i) for i in y.tolist()], dtype=case["labels"])
    rec.label("label_values", case["label_at"])
    Z = layout(T, case["layout"])
    LL = layout(L, {"plain": "C"}.get(case["label_layout"], case["label_layout"]))
    ref = Ref(X, y)
    pts = checkpoints(y, 12)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    differs = dt != "float64" or case["layout"] != "C" or case["labels"] != "int64"
    for name in indices(case):
        # rCIP on data so large that rounding swallows its regularisation: any outcome, the matrix is singular
        if ref.get(name)[2] == "ok" or name != "rCIP":
            got = batch(name, Z, LL)
        else:
            rec.count("rCIP.skipped_ill")
            continue
        val, tol, status = ref.get(name)
        if compare(rec, name, got, ref, f"batch of {dt} data ({case['layout']}), {case['labels']} labels"):
            same(rec, name, got, tol, batch(name, X.copy(), y.copy()), tol, f"batch as {dt} ({case['layout']}) vs float64")
            rec.nontrivial(differs)
        o = new(name)
        for i in range(n):
            try:
                # a stream may mix label types
                v = o.get_cvi(Z[i], int(LL[i]) if case["label_at"] == "zero" and i % 3 == 1 else LL[i])
            except Exception as e:
                if name == "rCIP" and Ref(X[:i + 1], y[:i + 1]).get(name)[2] != "ok":
                    rec.count("rCIP.stopped_ill")
                    break
                fail(f"{name} sample {i} of {dt}: unexpected {type(e).__name__}: {e}")
            v = num(name, v)
            if i + 1 in pts and compare(rec, name, v, refs[i + 1], f"stream of {dt} data ({case['layout']}), step {i + 1}"):
                rec.nontrivial(differs)


SUBS = [
    Sub("types", cases(), check, 4500, 90000),
    Sub("types_long", cases(150, 700, 2, 3), check, 60, 1200),
    Sub("types_wide", cases(3, 12, 60, 4), check, 60, 1200),
    Sub("types_crowded", cases(80, 200, 2, 60), check, 24, 480),
]
