import copy
import pickle
from lib.common import *
from lib import gen
from hypothesis import strategies as st
import cvi.compat.v0 as v0
from props.C18 import MODERN, ordered

ID = "C23"
RULE = ("legacy XB, CH and PS objects (1-4 at a time) fed drawn streams with cluster numbers in order, interleaved by a drawn "
        "schedule, through reused or overwritten buffers and as 8- to 64-bit integers or floats, with skipped cluster "
        "numbers refused in between and copies taken; every value compared with the reference of the object's own history; "
        "non-trivial: a value with >=2 clusters was compared after an overwrite, a refusal or a copy")
TYPES = ("float64", "float32", "int8", "uint8", "int16", "int32", "int64", "uint64")


@st.composite
def cases(draw, ds=None, most=4):
    m = draw(st.integers(1, most))
    objs = []
    for _ in range(m):
        dt = draw(st.sampled_from(TYPES))
        c = dict(draw(ds or st.one_of(gen.tiny(min_k=1, max_n=10, ints_only=True), gen.blob(min_k=1, max_n=20, max_k=5, dims=(1, 2, 3, 5), huge=False))))
        X = c["X"]
        if dt in ("int64", "uint64", "float64"):
            X = X * 2.0 ** draw(st.sampled_from([0, 0, 0, 20, 30]))
        if dt == "float32":
            X = X.astype(np.float32).astype(float)
        elif dt != "float64":
            X = np.round(X)
            X = np.abs(X) if dt.startswith("u") else X
            if dt in ("int8", "uint8", "int16"):
                X = np.clip(X, np.iinfo(dt).min, np.iinfo(dt).max)
        objs.append({"X": X + 0.0, "y": ordered(c["y"]), "dtype": dt, "name": draw(st.sampled_from(sorted(MODERN))),
                     "buffer": draw(st.sampled_from(["fresh", "overwritten", "reused"]))})
    gap = st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 10 ** 6))
    ev = draw(st.lists(st.tuples(st.integers(0, m - 1), st.sampled_from(["step"] * 8 + ["skip", "skip", "deepcopy", "pickle"]),
                                 gap), min_size=5, max_size=60))
    # the same happens again at a drawn fraction of an object's stream
    late = draw(st.lists(st.tuples(st.integers(0, m - 1), st.sampled_from(["skip", "skip", "deepcopy", "pickle"]), gap,
                                   st.integers(1, 16)), min_size=1, max_size=5))
    return {"objs": objs, "events": [list(e) for e in ev], "late": [list(e) for e in late]}


def alike(a, b):
    return a == b or (a != a and b != b)


def check(case, rec):
    objs = case["objs"]
    inst = [call(f"iCVI({c['name']!r})", v0.iCVI, c["name"]) for c in objs]
    pos, last, disturbed = [0] * len(objs), [0.0] * len(objs), [False] * len(objs)
    bufs = [np.zeros(c["X"].shape[1], dtype=c["dtype"]) for c in objs]
    k = [0] * len(objs)
    ev = case["events"] + [[j, "step", 1] for j in range(len(objs)) for _ in range(len(objs[j]["y"]))]
    late = {}
    for j, what, arg, at in case["late"]:
        late.setdefault((j, max(1, len(objs[j]["y"]) * at // 16 - at % 2)), []).append([j, what, arg])
    ev.reverse()
    while ev:
        j, what, arg = ev.pop()
        c, o = objs[j], inst[j]
        name, n = c["name"], len(c["y"])
        if what == "step":
            i = pos[j]
            if i >= n:
                continue
            x = c["X"][i].astype(c["dtype"])
            if c["buffer"] == "reused":
                bufs[j][:] = x
                x = bufs[j]
            keep = x.copy()
            v = num(name, call(f"{name} sample {i} ({c['dtype']})", o.update, x, int(c["y"][i])))
            if x.tobytes() != keep.tobytes():
                fail(f"{name} changed its argument from {keep!r} to {x!r}")
            if c["buffer"] != "fresh":
                x[:] = 77
                disturbed[j] = True
            pos[j], last[j] = i + 1, v
            ev.extend(late.get((j, i + 1), ()))
            k[j] = max(k[j], int(c["y"][i]) + 1)
            if i + 1 > 30 and i + 1 != n and (i + 1) % 40:
                continue
            r = Ref(c["X"][:i + 1], c["y"][:i + 1])
            if r.k < 2:
                if v != 0.0:
                    fail(f"{name}: {v!r} with one cluster, expected 0")
            elif name == "iCH" and r.n == r.k:
                if v != 0.0:
                    fail(f"iCH: {v!r} when every cluster has one sample, expected 0")
            elif compare(rec, MODERN[name], v, r, f"legacy {name} ({c['dtype']}, {c['buffer']} buffer) after sample {i + 1}"):
                rec.label("buffer", c["buffer"])
                rec.label("dtype", c["dtype"])
                rec.nontrivial(disturbed[j] or len(objs) > 1 or c["dtype"] != "float64")
        elif what == "skip":
            x = np.full(c["X"].shape[1], float(arg))
            refused(f"{name} with {k[j]} clusters given number {k[j] + arg}", o.update, x, k[j] + arg)
            disturbed[j] = True
            rec.count("refused")
        else:
            dup = call(f"{what} of {name}", copy.deepcopy if what == "deepcopy" else lambda a: pickle.loads(pickle.dumps(a)), o)
            # the original goes on with other data, the copy takes its place
            if pos[j]:
                o.update(np.full(c["X"].shape[1], 1000.0 + arg), arg % (k[j] + 1))
            inst[j] = dup
            disturbed[j] = True
            rec.count("copied")
        for i, c2 in enumerate(objs):
            if not alike(num(c2["name"], inst[i].output), last[i]):
                fail(f"{c2['name']} (object {i}): output became {inst[i].output!r}, last result {last[i]!r}, on {what} of object {j}")


SUBS = [
    Sub("legacy_state", cases(), check, 5000, 100000),
    Sub("legacy_state_mid", cases(gen.blob(min_k=1, min_n=20, max_n=120, max_k=20, dims=(1, 2, 5, 9), huge=False), 3), check, 120, 2400),
    Sub("legacy_state_crowd", cases(gen.blob(min_k=55, min_n=90, max_n=150, max_k=100, dims=(2, 3), coarse="fine", huge=False), 1), check, 24, 480),
    Sub("legacy_state_big", cases(st.one_of(gen.wide(min_k=1, huge=False), gen.crowded(200, 100, huge=False), gen.blob(
        min_k=1, min_n=200, max_n=900, max_k=4, dims=(1, 2, 3), huge=False)), 2), check, 60, 1200),
]
