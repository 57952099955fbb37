import numbers
from lib.common import *
from lib import gen
from hypothesis import strategies as st

ID = "C10"
RULE = ("every index of the package's list, streams and batches of drawn data; type of the returned value, equality with the "
        "criterion_value attribute directly after the call, after repeated reads and after refused calls; also the list "
        "itself; non-trivial: a defined value with >=2 clusters was returned")


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["mode"] = draw(st.sampled_from(["inc", "inc", "batch"]))
    return c


def eq(a, b):
    return a == b or (a != a and b != b)


def scalar(name, r):
    if isinstance(r, (bool, np.bool_)) or not isinstance(r, (float, np.floating)):
        fail(f"{name}: returned {r!r} of type {type(r).__name__}, not a floating-point scalar")


def check(case, rec):
    mods = list(cvi.MODULES)
    if sorted(m.__name__ for m in mods) != sorted(DOCUMENTED):
        fail(f"module list is {[m.__name__ for m in mods]}")
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    for m in mods:
        name = m.__name__
        if getattr(cvi, name, None) is not m or not issubclass(m, cvi.CVI):
            fail(f"{name} is not a top-level CVI subclass")
        o = call(f"{name}()", m)
        if not isinstance(o.criterion_value, (int, float, np.number)) or o.criterion_value != 0.0:
            fail(f"{name}: fresh object reports {o.criterion_value!r}")
        calls = [(X, y)] if case["mode"] == "batch" else [(X[i], y[i]) for i in range(n)]
        for a, l in calls:
            r = call(f"{name} {case['mode']}", o.get_cvi, a.copy(), l)
            scalar(name, r)
            for _ in range(2):
                if not eq(r, o.criterion_value):
                    fail(f"{name}: returned {r!r} but reports {o.criterion_value!r}")
            try:
                o.get_cvi(np.zeros((1, 1, 1)), 0)
            except ValueError:
                pass
            else:
                fail(f"{name}: three-dimensional data accepted")
            if not eq(r, o.criterion_value):
                fail(f"{name}: returned {r!r} but reports {o.criterion_value!r} after a refused call")
            rec.count(name)
            rec.nontrivial(np.isfinite(r) and r != 0)


SUBS = [
    Sub("interface", cases(gen.datasets(max_n=16, max_k=6, large=False, huge=False)), check, 4000, 80000),
    Sub("interface_mid", cases(gen.blob(min_n=20, max_n=140, max_k=24, dims=(1, 2, 3, 5, 10), huge=False)), check, 100, 2000),
    Sub("interface_wide", cases(gen.wide(huge=False)), check, 100, 2000),
    Sub("interface_crowded", cases(gen.crowded(huge=False)), check, 16, 320),
    Sub("interface_long", cases(gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2), huge=False)), check, 16, 320),
]
