import copy
import pickle
from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C21"
RULE = ("a stream cut at 1-4 drawn points; at each cut a deep copy or a pickle round trip is taken and the copies continue "
        "with different drawn continuations, interleaved with the original; every value compared with the reference of the "
        "whole history; batch objects are copied too and must keep value and refusals; non-trivial: a copy taken after "
        ">=1 sample continued and a well-conditioned value with >=2 clusters was compared")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    n = len(c["y"])
    c["mode"] = draw(st.sampled_from(["inc", "inc", "inc", "batch"]))
    c["cuts"] = [list(t) for t in draw(st.lists(st.tuples(
        st.integers(0, n), st.sampled_from(["deepcopy", "pickle", "pickle2", "chain"]),
        st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 9)), min_size=1, max_size=6)), min_size=1, max_size=4))]
    return c


def dup(name, o, how):
    if how == "deepcopy":
        return call(f"deepcopy of {name}", copy.deepcopy, o)
    if how == "chain":
        return call(f"deepcopy of a pickled {name}", copy.deepcopy, call(f"pickle of {name}", lambda: pickle.loads(pickle.dumps(o))))
    proto = 2 if how == "pickle2" else pickle.HIGHEST_PROTOCOL
    return call(f"pickle of {name}", lambda: pickle.loads(pickle.dumps(o, proto)))


def eq(a, b):
    return a == b or (a != a and b != b)


def check(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    rec.label("mode", case["mode"])
    if case["mode"] == "batch":
        ref = Ref(X, y)
        for name in indices(case):
            o = new(name)
            v = num(name, call(f"{name} batch", o.get_cvi, X.copy(), y.copy()))
            for _, how, _ in case["cuts"]:
                c = dup(name, o, how)
                if not eq(num(name, c.criterion_value), v):
                    fail(f"{name}: copy ({how}) of a batch object reports {c.criterion_value!r}, original {v!r}")
                refused(f"{name}: sample given to a copy of a batch object", c.get_cvi, X[0].copy(), y[0])
                refused(f"{name}: batch given to a copy of a batch object", c.get_cvi, X.copy(), y.copy())
            compare(rec, name, num(name, o.criterion_value), ref, "batch value after copying")
        return
    at = {}
    for pos, how, cont in case["cuts"]:
        at.setdefault(pos, []).append((how, cont))
        rec.label("copied_by", how)
    pts = checkpoints(y, 10)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    conts = {}
    for pos in at:
        for j, (how, cont) in enumerate(at[pos]):
            # a continuation re-uses samples of the stream under other labels (known or new)
            cx = np.array([X[i] for i, _ in cont])
            cy = np.array([y[(i + l) % n] if l < 7 else 1000 + l for i, l in cont], dtype=np.int64)
            hx, hy = np.vstack([X[:pos], cx]), np.append(y[:pos], cy)
            conts[pos, j] = (cx, cy, {m: Ref(hx[:m], hy[:m]) for m in range(pos + 1, pos + len(cont) + 1)})
    for name in indices(case):
        o = new(name)
        pend = []       # [object, position, step, conts]

        def advance(p):
            obj, pos, step, (cx, cy, rr), how = p
            if step >= len(cy):
                return False
            v = num(name, call(f"{name} copy ({how}) taken after {pos} samples, its sample {step + 1}",
                               obj.get_cvi, cx[step].copy(), cy[step]))
            p[2] += 1
            r = rr[pos + step + 1]
            if compare(rec, name, v, r, f"copy ({how}) taken after {pos} samples, its sample {step + 1}"):
                rec.nontrivial(pos > 0 and r.k >= 2)
            return True

        for i in range(n + 1):
            for j, (how, _) in enumerate(at.get(i, [])):
                before = num(name, o.criterion_value)
                c = dup(name, o, how)
                if not eq(num(name, c.criterion_value), before):
                    fail(f"{name}: copy ({how}) reports {c.criterion_value!r}, original {before!r}")
                pend.append([c, i, 0, conts[i, j], how])
            for p in pend:
                advance(p)
            if i < n:
                v = num(name, call(f"{name} sample {i} (original)", o.get_cvi, X[i].copy(), y[i]))
                if i + 1 in pts:
                    compare(rec, name, v, refs[i + 1], f"original after sample {i + 1}, copies in use")
        for p in pend:
            while advance(p):
                pass


SUBS = [
    Sub("copies", cases(gen.datasets(max_n=14, max_k=5, large=False)), check, 2500, 50000),
    Sub("copies_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10))), check, 60, 1200),
    Sub("copies_wide", cases(gen.wide()), check, 60, 1200),
    Sub("copies_crowded", cases(gen.crowded()), check, 16, 320),
    Sub("copies_long", cases(gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2))), check, 12, 240),
]
