from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C19"
RULE = ("data sets with >=2 clusters (half with exactly two), batch and stream prefixes: CH*WB = k(N-k)/(k-1), and for two "
        "clusters GD53 = XB*GD43*d and GD43*DB*d = (S1+S2)/(2 max S); non-trivial: an identity between well-conditioned "
        "values was checked")


@st.composite
def cases(draw):
    return dict(draw(st.one_of(
        gen.datasets(max_n=30, max_k=8, large=False),
        gen.blob(max_n=30, min_k=2, max_k=2), gen.tiny(min_k=2))))


def identity(rec, what, a, b, parts, r):
    rel = 0.0
    for p in parts:
        val, tol, s = r.get(p)
        if s != "ok" or val == 0:
            return False
        rel += tol / abs(val)
    if rel > 1e-3:
        return False
    rec.count(what)
    if not (np.isfinite(a) and abs(a - b) <= (2 * rel + 1e-9) * abs(b)):
        fail(f"{what}: {a!r} versus {b!r} ({parts})")
    return True


def relations(rec, g, r, what):
    done = 0
    n, k = r.n, r.k
    if n > k:
        done += identity(rec, "CH*WB", g["CH"] * g["WB"], k * (n - k) / (k - 1), ("CH", "WB"), r)
    if k == 2:
        dist = float(np.sqrt(r.D[0, 1]))
        if dist > 0:
            done += identity(rec, "GD53=XB*GD43*d", g["GD53"], g["XB"] * g["GD43"] * dist, ("GD53", "XB", "GD43"), r)
            if float(r.S.max()) > 0:
                done += identity(rec, "GD43*DB*d", g["GD43"] * g["DB"] * dist,
                                 float(r.S.sum() / (2 * r.S.max())), ("GD43", "DB"), r)
    return done


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    five = ("CH", "WB", "XB", "GD43", "GD53", "DB")
    done = relations(rec, {a: batch(a, X.copy(), y.copy()) for a in five}, Ref(X, y), "batch")
    s = {a: stream(a, X, y) for a in five}
    for m in checkpoints(y, 24):
        r = Ref(X[:m], y[:m])
        if r.k >= 2:
            done += relations(rec, {a: s[a][m - 1] for a in five}, r, f"step {m}")
    rec.nontrivial(done)


SUBS = [
    Sub("identities", cases(), check, 5000, 100000),
    Sub("identities_mid", gen.blob(min_n=20, max_n=200, max_k=24, dims=(1, 2, 3, 5, 10)), check, 100, 2000),
    Sub("identities_two", gen.blob(min_n=40, max_n=200, max_k=2, dims=(1, 2, 3, 5, 10, 20)), check, 60, 1200),
    Sub("identities_wide", gen.wide(), check, 100, 2000),
    Sub("identities_crowded", gen.crowded(), check, 16, 400),
    Sub("identities_long", gen.blob(min_n=200, max_n=1400, max_k=3, dims=(1, 2)), check, 24, 480),
]
