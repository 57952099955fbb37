"""Shared pieces of the property checks."""
import numpy as np
from lib.harness import cvi, call, refused, fail, Violation, Sub, Rec  # noqa: F401
from lib.ref import Ref, NAMES, close  # noqa: F401

DOCUMENTED = NAMES


def indices(case):
    """The indices a case is about."""
    return [n for n in NAMES if n not in case.get("without", ())]


def cls(name):
    c = getattr(cvi, name, None)
    if c is None:
        fail(f"documented index {name} is missing from the package")
    return c


def new(name):
    return call(f"{name}()", cls(name))


def batch(name, X, y):
    return num(name, call(f"{name} batch", new(name).get_cvi, X, y))


def stream(name, X, y):
    o = new(name)
    out = []
    for i in range(len(y)):
        out.append(num(name, call(f"{name} sample {i}", o.get_cvi, X[i], y[i])))
    return out


def num(name, r):
    try:
        return float(r)
    except Exception:
        fail(f"{name}: result {r!r} is not a number")


def compare(rec, name, got, ref, what, factor=1.0):
    """Compare a value with the reference; returns True if the comparison was meaningful."""
    val, tol, status = ref.get(name)
    rec.count(f"{name}.{status}")
    if status != "ok":
        return False
    if not close(got, val, tol * factor):
        fail(f"{name} {what}: got {got!r}, definition gives {val!r} (tolerance {tol * factor:.2e})")
    return True


def same(rec, name, a, ta, b, tb, what):
    """Two values that must agree, given absolute tolerances for each."""
    rec.count(f"{name}.compared")
    if not (np.isfinite(a) and np.isfinite(b)) or abs(a - b) > ta + tb:
        fail(f"{name} {what}: {a!r} versus {b!r} (tolerance {ta + tb:.2e})")


def checkpoints(y, cap=48):
    """Prefix lengths at which a stream is compared: all if short, else the interesting ones."""
    n = len(y)
    if n <= cap:
        return set(range(1, n + 1))
    pts, cnt = {n}, {}
    for i, l in enumerate(y.tolist()):
        cnt[l] = cnt.get(l, 0) + 1
        if cnt[l] <= 2 and len(pts) < cap // 2:
            pts.add(i + 1)
    step = max(1, n // (cap // 2))
    pts.update(range(step, n + 1, step))
    return pts
