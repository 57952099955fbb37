from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C15"
RULE = ("long streams built from a drawn block of samples repeated with a drawn per-round drift, schedule and pauses "
        "(900-15000 samples with few clusters, one of them over 10000 at times, 150-700 samples with up to 200 clusters), some far from the origin, with rarely visited clusters; compared with the reference at several points "
        "and the end, and at the end with the package's batch value; non-trivial: >=500 samples or >=20 clusters and a "
        "well-conditioned value compared")


@st.composite
def cases(draw, lo, hi, kmax, dims, modes=("mixed", "sorted", "roundrobin", "return", "skewed"), kmin=2):
    total = 6000
    b = gen.Blob(draw(st.binary(min_size=total, max_size=total)))
    h = gen.Header(draw(st.binary(min_size=8, max_size=8)))
    d, k, N = h.pick(dims), h.between(kmin, kmax), h.between(lo, hi)
    rare = draw(st.booleans())
    mode = draw(st.sampled_from(modes))
    off = draw(st.sampled_from([0.0, 0.0, 5.0, 40.0, 1e4]))
    sep = draw(st.sampled_from([1 / 16, 1 / 4, 1.0]))
    drift = draw(st.sampled_from([0.0, 0.25, 1.0]))
    m = (total - k * d) // (2 * d + 1)
    m = min(m, N, 800)
    raw = b.u8(m)
    centre = (b.u8(k * d).reshape(k, d) - 128) * sep
    z = (b.u16(m * d).reshape(m, d) - 32768) / 8192.0
    idx = np.arange(N)
    y = gen.schedule(mode, (raw[idx % m] + (idx // m) * 7) % 256, k)
    if rare and k > 2:          # the last cluster appears once early on, then only at the very end
        y = np.where(y == k - 1, 0, y)
        y[min(5, N - 1)] = k - 1
        y[N - 2] = k - 1
    if len(np.unique(y)) < 2:
        y = y.copy()
        y[N // 2] = (y[N // 2] + 1) % k
    X = centre[y] + z[(idx * 5 + idx // m) % m] + drift * np.sin(idx / 37.0)[:, None] + off
    return {"X": X, "y": y.astype(np.int64), "rare": rare, "mode": mode}


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    rec.label("schedule", case["mode"])
    rec.label("length", "<500" if n < 500 else "500-1999" if n < 2000 else ">=2000")
    pts = sorted({n} | {int(n * f) for f in (0.1, 0.26, 0.41, 0.66, 0.9)} | {256, 257, 1000, 1001, 1025, 2050, 4100, 5001, 8200, 10001} & set(range(n)))
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    done = 0
    for name in indices(case):
        o = new(name)
        for i in range(n):
            v = call(f"{name} sample {i}", o.get_cvi, X[i], y[i])
            if i + 1 in refs:
                r = refs[i + 1]
                val, tol, status = r.get(name)
                rec.count(f"{name}.{status}")
                if status != "ok":
                    continue
                v = num(name, v)
                t = max(tol, 1e-6 * abs(val)) if name not in ("cSIL", "PS") else max(tol, 1e-6)
                if not close(v, val, t):
                    fail(f"{name} after {i + 1} samples, {r.k} clusters: {v!r}, definition {val!r} (tolerance {t:.2e})")
                done += 1
                if i + 1 == n:
                    if name == "cSIL" and n > 5000:     # its batch mode needs n x n memory
                        continue
                    b = batch(name, X.copy(), y.copy())
                    same(rec, name, v, t, b, t, f"stream vs batch after {n} samples")
    rec.nontrivial(done and (n >= 500 or k >= 20))


SUBS = [
    Sub("one_large", cases(12500, 15000, 3, (1, 2), ("skewed",)), check, 6, 160),
    Sub("very_long", cases(7000, 12000, 3, (1, 2)), check, 4, 160),
    Sub("long", cases(900, 4000, 6, (1, 2, 3, 4)), check, 32, 480),
    Sub("many", cases(150, 700, 70, (1, 2, 3)), check, 32, 480),
    Sub("crowd", cases(300, 700, 200, (1, 2), kmin=130), check, 4, 120),
    Sub("mid", cases(250, 900, 5, (1, 2, 3)), check, 64, 1200),
]
