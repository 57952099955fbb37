"""Generators of labelled data sets.  All randomness comes from Hypothesis draws: large data sets are
decoded from one drawn byte string (cheap to draw, shrinks towards zero bytes), small ones are drawn
number by number."""
import numpy as np
from hypothesis import strategies as st

MAXBLOB = 7000


class Blob:
    def __init__(self, b):
        self.a = np.frombuffer(b, dtype=np.uint8)
        self.i = 0

    def u8(self, n):
        r = self.a[self.i:self.i + n].astype(np.int64)
        self.i += n
        return r

    def u16(self, n):
        r = self.u8(2 * n).reshape(n, 2)
        return r[:, 0] * 256 + r[:, 1]


class Header(Blob):
    """Parameters decoded from a few drawn bytes: spread evenly, where Hypothesis' own integers favour small ones."""

    def pick(self, seq):
        return seq[int(self.u16(1)[0]) % len(seq)]

    def between(self, lo, hi):
        return lo + int(self.u16(1)[0]) % (hi - lo + 1)


SCHEDULES = ("mixed", "sorted", "roundrobin", "skewed", "late", "return", "pairs", "reverse_mixed")


def schedule(mode, raw, k):
    """Labels 0..k-1 for len(raw) samples."""
    n = len(raw)
    if k == 1:
        return np.zeros(n, dtype=np.int64)
    mixed = raw % k
    if mode == "mixed":
        return mixed
    if mode == "reverse_mixed":
        return k - 1 - mixed
    if mode == "sorted":
        return np.sort(mixed)
    if mode == "roundrobin":
        return np.arange(n) % k
    if mode == "skewed":
        return np.where(raw < 215, 0, 1 + raw % (k - 1))
    if mode == "late":          # the last few samples open new clusters
        m = min(k - 1, max(1, n // 4))
        y = raw % (k - m)
        y[n - m:] = np.arange(k - m, k)[:m]
        return y
    if mode == "return":        # every cluster, then every cluster again after a pause
        h = n // 2
        return np.concatenate([np.sort(mixed[:h]), np.sort(mixed[h:])])
    if mode == "pairs":
        return (np.arange(n) // 2) % k
    raise AssertionError(mode)


@st.composite
def tiny(draw, min_k=2, max_n=8, max_d=3, ints_only=False):
    d = draw(st.integers(1, max_d))
    n = draw(st.integers(max(min_k, 1), max_n))
    kk = draw(st.integers(min_k, min(n, max(min_k, 5))))
    labs = draw(st.lists(st.integers(0, kk - 1), min_size=n, max_size=n))
    if min_k >= 2 and len(set(labs)) < 2:
        p = draw(st.integers(0, n - 1))
        labs[p] = (labs[p] + 1) % kk
    kind = "int" if ints_only else draw(st.sampled_from(["int", "int", "dyadic", "float"]))
    if kind == "int":
        el = st.integers(-6, 6)
    elif kind == "dyadic":
        el = st.integers(-1024, 1024).map(lambda i: i / 64)
    else:
        el = st.floats(-100, 100, allow_nan=False, width=32)
    X = np.array(draw(st.lists(st.lists(el, min_size=d, max_size=d), min_size=n, max_size=n)),
                 dtype=float).reshape(n, d)
    return {"X": X + 0.0, "y": np.array(labs, dtype=np.int64), "kind": "tiny-" + kind}


@st.composite
def blob(draw, min_k=2, min_n=4, max_n=40, max_k=8, dims=(1, 2, 3, 4, 5, 6, 8), coarse=None, offsets=True,
         scales=True, huge=True):
    # The byte string has a fixed length: Hypothesis also mutates earlier draws, and a length that
    # depended on them would make it fall back to all-zero bytes.
    total = min(MAXBLOB, max_n * (max(dims) * 2 + 1) + max_k * max(dims))
    h = Header(draw(st.binary(min_size=20, max_size=20)))
    b = Blob(draw(st.binary(min_size=total, max_size=total)))
    d = h.pick(dims)
    k = h.between(min_k, max_k)
    n = h.between(min_n, max_n)
    noise = h.pick(["fine", "fine", "byte", "coarse"])
    if coarse is not None:
        noise = coarse
    mode = h.pick(SCHEDULES)
    sep = h.pick([0.0, 1 / 64, 1 / 16, 1 / 4, 1.0])
    scale = h.pick([1.0, 1.0, 0.125, 8.0, 0.7, 3.3, 1e-4, 1e-7, 1e3, 1e6, 1e9, 1e-10])
    off = h.pick([0.0, 0.0, 0.0, 0.0, 1.0, -17.0, 200.0, 1e4])
    if not scales:
        scale = 1.0
    if not huge:
        scale = min(scale, 1e3)
    if not offsets:
        off = 0.0
    n = max(n, k)
    per = 2 if noise == "fine" else 1
    while n * (d * per + 1) + k * d > total:
        if d > 1 and n <= 4 * k:
            d -= 1
        else:
            n = n * 7 // 8
    y = schedule(mode, b.u8(n), k)
    if min_k >= 2 and len(np.unique(y)) < 2:
        y = y.copy()
        y[n // 2] = (y[n // 2] + 1) % k
    centre = (b.u8(k * d).reshape(k, d) - 128) * sep
    if noise == "fine":
        z = (b.u16(n * d) - 32768) / 8192.0
    elif noise == "byte":
        z = (b.u8(n * d) - 128) / 32.0
    else:
        z = (b.u8(n * d) % 5 - 2) * 1.0
    X = (centre[y] + z.reshape(n, d)) * scale + off
    # the names of the labels: mostly 0..k-1
    step, start = h.pick(((1, 0),) * 5 + ((1, 1), (-1, -1), (3, -7), (1000, 17), (2 ** 33, -2 ** 34)))
    y = y.astype(np.int64) * step + start
    # rCIP's fixed regularisation is lost in rounding at these magnitudes (known finding of C17)
    without = ("rCIP",) if scale > 1e5 else ()
    return {"X": X + 0.0, "y": y.astype(np.int64), "kind": f"{noise}-{mode}", "without": without}


def datasets(min_k=2, max_n=40, max_k=8, large=True, huge=True):
    s = [tiny(min_k=min_k), blob(min_k=min_k, max_n=max_n, max_k=max_k, huge=huge),
         blob(min_k=min_k, max_n=max_n, max_k=max_k, huge=huge)]
    if large:
        s.append(blob(min_k=min_k, min_n=20, max_n=160, max_k=24, dims=(1, 2, 3, 5, 8, 12, 16, 24)))
    return st.one_of(*s)


def wide(min_k=2, huge=True):
    """Many features, few samples."""
    return blob(min_k=min_k, min_n=2, max_n=24, max_k=5, dims=(20, 33, 50, 65, 100, 130), huge=huge)


def crowded(max_n=300, max_k=150, min_n=60, huge=True):
    """Many clusters, few samples each."""
    return blob(min_n=min_n, max_n=max_n, max_k=max_k, dims=(1, 2, 3), huge=huge)


# --------------------------------------------------------------------- label names
MODULI = (100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 9, 2 ** 12, 2 ** 15, 2 ** 16, 2 ** 20, 2 ** 24, 2 ** 31, 2 ** 32,
          2 ** 40, 2 ** 48, 2 ** 53, 2 ** 61 - 1, 2 ** 62)


def label_names(k_max=64):
    el = st.one_of(st.integers(-3, 5), st.integers(-300, 300), st.integers(-2 ** 40, 2 ** 40),
                   st.sampled_from([-1, 0, 1, 127, 128, 255, 256, 257, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53 + 1]),
                   # numbers that a narrowing or hashing of labels would confuse
                   st.builds(lambda a, m, s: a + s * m, st.integers(-2, 3), st.sampled_from(MODULI), st.integers(-1, 1)))
    return st.lists(el, min_size=k_max, max_size=k_max, unique=True)


def rename(y, names):
    y = np.unique(y, return_inverse=True)[1].reshape(-1)
    kk = int(y.max()) + 1 if len(y) else 0
    names, used = list(names), set(names)
    for v in range(1000, 1000 + 3 * kk, 3):     # more clusters than drawn names
        if len(names) >= kk:
            break
        if v not in used:
            names.append(v)
    return np.array([names[i] for i in y], dtype=np.int64)


def classify(rec, case):
    X, y = case["X"], case["y"]
    n, d = X.shape
    k = len(np.unique(y))
    sizes = np.bincount(np.unique(y, return_inverse=True)[1].reshape(-1))
    rec.label("dim", d if d <= 3 else "4-8" if d <= 8 else ">8")
    rec.label("clusters", k if k <= 3 else "4-8" if k <= 8 else ">8")
    rec.label("samples", "2-8" if n <= 8 else "9-40" if n <= 40 else "41-160" if n <= 160 else ">160")
    rec.label("has_singleton_cluster", bool((sizes == 1).any()))
    rec.label("has_duplicate_sample", len(np.unique(X, axis=0)) < n)
    first = np.array([y[i] for i in sorted(np.unique(y, return_index=True)[1])])
    rec.label("labels_first_appear_in_order", bool((np.diff(first) > 0).all()))
    rec.label("interleaved", bool((np.diff(y) != 0).sum() >= k))
    return n, d, k
