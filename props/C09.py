from lib.common import *
from lib import gen
from lib import badcalls, threads
from hypothesis import strategies as st
import copy
import pickle

ID = "C09"
RULE = ("2-5 objects, same or different indices, each with its own data; a drawn schedule interleaves their samples (or "
        "whole batches); each value compared with the reference of the object's own history; then every history is "
        "replayed alone and must repeat the same values; non-trivial: two objects of one index were interleaved "
        "and compared")


@st.composite
def cases(draw, ds=None, most=5):
    m = draw(st.integers(2, most))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
    objs = []
    ds = ds or st.one_of(gen.tiny(min_k=2, max_n=8), gen.blob(max_n=14, max_k=5, dims=(1, 2, 3, 4), huge=False))
    for _ in range(m):
        c = dict(draw(ds))
        c["name"] = draw(st.sampled_from(pool))
        c["mode"] = draw(st.sampled_from(["inc", "inc", "inc", "batch"]))
        if objs and draw(st.integers(0, 3)) == 0:       # the same samples under other labels, or in another order
            t = objs[draw(st.integers(0, len(objs) - 1))]
            how = draw(st.sampled_from(["relabel", "reverse", "roll"]))
            X, y = t["X"].copy(), t["y"].copy()
            if how == "relabel":
                y = np.roll(y, 1)
            elif how == "reverse":
                X, y = X[::-1].copy(), y[::-1].copy()
            else:
                X, y = np.roll(X, 1, axis=0), np.roll(y, 1)
            c["X"], c["y"] = X, y
        objs.append(c)
    sched = draw(st.lists(st.integers(0, m - 1), min_size=4, max_size=60))
    early = draw(st.booleans())
    return {"objs": objs, "sched": sched, "early": early}


def check(case, rec):
    objs = case["objs"]
    m = len(objs)
    inst = [new(c["name"]) if case["early"] else None for c in objs]
    pos = [0] * m
    vals = [[] for _ in objs]
    tols = [[] for _ in objs]
    total = [1 if c["mode"] == "batch" else len(c["y"]) for c in objs]
    order = [s % m for s in case["sched"]]
    if sum(total) > 80:
        order = order * (1 + sum(total) // len(order))
    order += [j for j in range(m) for _ in range(max(total))]      # finish everybody
    pts = [checkpoints(c["y"], 30) for c in objs]
    trace, switches = [], 0
    good = set()
    for j in order:
        if pos[j] >= total[j]:
            continue
        c = objs[j]
        if inst[j] is None:
            inst[j] = new(c["name"])
        if trace and trace[-1] != j and pos[j] > 0:
            switches += 1
        trace.append(j)
        if c["mode"] == "batch":
            n = len(c["y"])
            v = num(c["name"], call(f"{c['name']} batch (object {j})", inst[j].get_cvi, c["X"].copy(), c["y"].copy()))
        else:
            n = pos[j] + 1
            v = num(c["name"], call(f"{c['name']} sample (object {j})", inst[j].get_cvi, c["X"][pos[j]].copy(), c["y"][pos[j]]))
        pos[j] += 1
        vals[j].append(v)
        if n not in pts[j]:
            tols[j].append(None)
            continue
        r = Ref(c["X"][:n], c["y"][:n])
        tols[j].append(r.get(c["name"])[1] if r.get(c["name"])[2] == "ok" else None)
        if compare(rec, c["name"], v, r, f"object {j} of {[o['name'] for o in objs]} after its sample {n}, interleaved") and r.k >= 2:
            good.add(j)
    for j, c in enumerate(objs):
        if num(c["name"], inst[j].criterion_value) != vals[j][-1] and vals[j][-1] == vals[j][-1]:
            fail(f"{c['name']} object {j}: reported value {inst[j].criterion_value!r} changed after its last call returned {vals[j][-1]!r}")
        if c["mode"] == "batch":
            again = [batch(c["name"], c["X"].copy(), c["y"].copy())]
        else:
            again = stream(c["name"], c["X"], c["y"])
        for i, (a, b) in enumerate(zip(vals[j], again)):
            tol = tols[j][i]
            if tol is not None and not abs(a - b) <= tol:
                fail(f"{c['name']}: same history gave {a!r} interleaved and {b!r} alone at step {i + 1}")
    names = [objs[j]["name"] for j in good]
    rec.label("objects", m)
    rec.label("interleaving_switches", "0" if switches == 0 else "1-5" if switches <= 5 else ">5")
    rec.nontrivial(switches and len(names) > len(set(names)))


# ---- a pool of objects driven by drawn operations
OPS = ("sample",) * 9 + ("batch", "refused", "refused", "copy", "pickle", "new", "drop", "reuse", "read")


@st.composite
def machines(draw):
    d = draw(st.integers(1, 3))
    npts = draw(st.integers(2, 8))
    P = draw(st.lists(st.lists(st.integers(-9, 9), min_size=d, max_size=d), min_size=npts, max_size=npts))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 63), st.integers(0, 63)),
                        min_size=3, max_size=50))
    bad = draw(st.lists(st.integers(0, 999), min_size=4, max_size=4))
    return {"P": np.array(P, dtype=float), "pool": pool, "ops": [list(o) for o in ops], "bad": bad,
            "labels": draw(st.sampled_from([[0, 1, 2, 3], [3, 1, 2, 0], [-1, 7, 65536, 0], [5, 4, 2 ** 40, -9]]))}


class Obj:
    def __init__(self, name, o, X=(), y=(), mode="fresh", last=0.0):
        self.name, self.o, self.X, self.y, self.mode, self.last = name, o, list(X), list(y), mode, last

    def ref(self):
        return Ref(np.array(self.X), np.array(self.y))


def alike(a, b):
    return a == b or (a != a and b != b)


def check_machine(case, rec):
    P, pool, L = case["P"], case["pool"], case["labels"]
    d = P.shape[1]
    objs = [Obj(pool[0], new(pool[0]))]
    buf = np.zeros(d)
    trace = []
    used, compared = set(), False
    for op, j, p, q in case["ops"]:
        if op == "new" or not objs:
            name = pool[p % len(pool)]
            objs.append(Obj(name, new(name)))
            trace.append(f"new {name}")
            if num(name, objs[-1].o.criterion_value) != 0.0:
                fail(f"{name}: a new object starts with {objs[-1].o.criterion_value!r}; {trace}")
            continue
        j %= len(objs)
        t = objs[j]
        trace.append(f"{op} {j}:{t.name}")
        used.add(op)
        if op == "drop":
            objs.pop(j)
        elif op in ("sample", "reuse"):
            x, lab = P[p % len(P)], L[q % len(L)]
            if t.mode == "batch":
                refused(f"{t.name}: sample after a batch; {trace}", t.o.get_cvi, x.copy(), lab)
            else:
                if op == "reuse":
                    buf[:] = x
                    arg = buf
                else:
                    arg = x.copy()
                t.last = num(t.name, call(f"{t.name} sample; {trace}", t.o.get_cvi, arg, lab))
                arg[:] = 777.0
                t.X.append(x)
                t.y.append(lab)
                t.mode = "inc"
                if compare(rec, t.name, t.last, t.ref(), f"after {trace}") and len(set(t.y)) > 1:
                    compared = True
        elif op == "batch":
            idx = [(p + i * (1 + q % 3)) % len(P) for i in range(3 + q % 5)]
            X, y = P[idx].copy(), np.array([L[(i * (1 + p % 3)) % len(L)] for i in range(len(idx))])
            if t.mode != "fresh" or len(np.unique(y)) < 2:
                refused(f"{t.name}: batch; {trace}", t.o.get_cvi, X, y)
            else:
                t.X, t.y, t.mode = list(X.copy()), y.tolist(), "batch"
                t.last = num(t.name, call(f"{t.name} batch; {trace}", t.o.get_cvi, X, y))
                X[:], y[:] = 777.0, 777
                compare(rec, t.name, t.last, t.ref(), f"after {trace}")
        elif op == "refused":
            kinds = badcalls.KINDS[t.mode]
            r = {"kind": kinds[p % len(kinds)], "vals": [(v + q) % 50 for v in case["bad"]], "lab": L[q % len(L)],
                 "a": 1 + q % 4, "b": p % 8}
            args = badcalls.build(r, d, sorted(set(t.y)), np.array(t.X) if t.y else None, np.array(t.y))
            if args is not None:
                trace[-1] += " " + r["kind"]
                refused(f"{t.name}: {r['kind']}; {trace}", t.o.get_cvi, *args)
        elif op in ("copy", "pickle"):
            dup = call(f"{op} of {t.name}; {trace}", copy.deepcopy if op == "copy" else lambda o: pickle.loads(pickle.dumps(o)), t.o)
            if len(objs) < 8:
                objs.append(Obj(t.name, dup, t.X, t.y, t.mode, t.last))
        for i, s in enumerate(objs):
            if not alike(num(s.name, s.o.criterion_value), s.last):
                fail(f"{s.name} (object {i}): reported value became {s.o.criterion_value!r}, last result {s.last!r}; {trace}")
    rec.label("machine_ops", len(used))
    rec.nontrivial(compared and len(objs) > 1)


# ---- two or three objects used by as many threads, switched at lines of the package
@st.composite
def threaded(draw):
    m = draw(st.integers(2, 3))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    ds = st.one_of(gen.tiny(min_k=2, max_n=7), gen.blob(max_n=12, max_k=4, dims=(1, 2, 3, 4), huge=False))
    objs = []
    for _ in range(m):
        c = dict(draw(ds))
        c["name"] = draw(st.sampled_from(pool))
        c["mode"] = draw(st.sampled_from(["inc", "inc", "batch"]))
        objs.append(c)
    return {"objs": objs, "sched": draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 40)), min_size=2, max_size=25))}


def check_threads(case, rec):
    objs = case["objs"]

    def job(c):
        def go():
            o = cls(c["name"])()
            if c["mode"] == "batch":
                return [(len(c["y"]), o.get_cvi(c["X"].copy(), c["y"].copy()))]
            return [(i + 1, o.get_cvi(c["X"][i].copy(), c["y"][i])) for i in range(len(c["y"]))]
        return go

    what = [f"{c['name']} {c['mode']}" for c in objs]
    res, switches = call(f"objects in threads: {what}", threads.run, [job(c) for c in objs], case["sched"])
    good = False
    for j, c in enumerate(objs):
        for n, v in res[j]:
            r = Ref(c["X"][:n], c["y"][:n])
            if compare(rec, c["name"], num(c["name"], v), r, f"object {j} of {what}, one thread each, after its sample {n}"):
                good = good or r.k >= 2
    rec.label("thread_switches", "0" if not switches else "1-20" if switches <= 20 else ">20")
    rec.nontrivial(good and switches)


SUBS = [
    Sub("interleave", cases(), check, 6000, 120000),
    Sub("interleave_mid", cases(gen.blob(min_n=20, max_n=120, max_k=20, dims=(1, 2, 4, 9, 16), huge=False), 3), check, 120, 2400),
    Sub("interleave_big", cases(st.one_of(gen.wide(huge=False), gen.crowded(200, 100, huge=False), gen.blob(
        min_n=200, max_n=900, max_k=4, dims=(1, 2, 3), huge=False)), 2), check, 60, 1200),
    Sub("threads", threaded(), check_threads, 1000, 20000),
    Sub("machine", machines(), check_machine, 4000, 80000),
]
