"""Calls that an object must refuse with ValueError, as JSON-able recipes.

A recipe is {"kind", "vals", "lab", "a", "b", "as", "times"}; build() turns it into (data, label) for an object whose
stream/batch has `d` features, `state` one of fresh / inc / batch and whose known labels are `labels`."""
import numpy as np
from hypothesis import strategies as st

ANY = ("scalar", "cube", "tesseract", "empty_cube")
KINDS = {
    "fresh": ANY + ("one_label_batch", "one_row_batch", "one_label_wide", "one_label_big"),
    "inc": ANY + ("one_label_batch", "one_row_batch", "good_batch", "same_batch", "wrong_width_new",
                  "wrong_width_known", "one_feature_new", "one_feature_known", "wide_batch", "two_row_batch",
                  "empty_batch", "no_features", "big_batch"),
    "batch": ANY + ("one_label_batch", "one_row_batch", "good_batch", "same_batch", "sample_known", "sample_new",
                    "sample_wrong_width", "wide_batch", "two_row_batch", "empty_batch", "no_features", "big_batch"),
}


def recipes(state, exclude=()):
    kinds = [k for k in KINDS[state] if k not in exclude]
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds),
        "vals": st.lists(st.integers(-60, 60), min_size=12, max_size=12),
        "lab": st.one_of(st.integers(-3, 9), st.integers(0, 150), st.integers(10 ** 6, 10 ** 6 + 9),
                         st.sampled_from([-1000, 2 ** 31, 2 ** 40, -2 ** 40])),
        "a": st.integers(1, 4), "b": st.integers(0, 7),
        # the type the data comes in, the label as a numpy integer, and how often the call is tried
        "as": st.sampled_from(["float64"] * 4 + ["int64", "float32", "F", "readonly", "nplabel", "nplabel", "zeros", "listlabel"]),
        "times": st.sampled_from([1] * 12 + [2, 3, 5, 12]),
    })


def build(r, d, labels, X=None, y=None):
    """(data, label) or None if this recipe is not applicable to these dimensions."""
    args = plain(r, d, labels, X, y)
    if args is None:
        return None
    data, label = args
    how = r.get("as", "float64")
    if how == "nplabel":
        label = np.int64(label) if np.ndim(label) == 0 else label
    elif how == "listlabel":
        label = label.tolist() if isinstance(label, np.ndarray) else label
    elif how == "zeros":
        data = np.zeros_like(data)
    elif how in ("int64", "float32"):
        data = data.astype(how)
    elif how == "F":
        data = np.array(data, order="F")
    elif how == "readonly":
        data = data.copy()
        data.flags.writeable = False
    return data, label


def plain(r, d, labels, X=None, y=None):
    kind, a, b = r["kind"], r["a"], r["b"]
    fill = lambda *s: np.resize(np.array(r["vals"], dtype=float), s) + 0.0
    known = labels[b % len(labels)] if labels else r["lab"]
    new = r["lab"]
    while new in labels:
        new += 1
    if kind == "scalar":
        return np.array(float(r["vals"][0])), new if b % 2 else known
    if kind == "cube":
        return fill(a, 2, d), (new if b % 2 else np.arange(a))
    if kind == "empty_cube":
        return np.zeros((0, 2, d)), new if b % 2 else known
    if kind == "tesseract":
        return fill(a, 1, 2, d), new if b % 2 else known
    if kind == "one_label_batch":
        return fill(a + 1, d), np.full(a + 1, new if b % 2 else known)
    if kind == "one_label_wide":
        return fill(a + 1, d + a), np.full(a + 1, new if b % 2 else known)
    if kind == "one_row_batch":
        return fill(1, d), np.array([new if b % 2 else known])
    if kind == "two_row_batch":
        return fill(2, d), np.array([known, new])
    if kind == "big_batch":
        return fill(40 * a + b, d), np.arange(40 * a + b) % (b + 2)
    if kind == "one_label_big":
        return fill(40 * a + b, d), np.full(40 * a + b, new)
    if kind == "empty_batch":
        return np.zeros((0, d)), np.zeros(0, dtype=np.int64)
    if kind == "no_features":
        return np.zeros(0), new if b % 2 else known
    if kind == "good_batch":
        return fill(a + 2, d), np.arange(a + 2) % 2 + (new if b % 2 else 0)
    if kind == "same_batch":
        if X is None or len(y) < 2:
            return fill(a + 2, d), np.arange(a + 2) % 2
        return X.copy(), y.copy()
    if kind == "wide_batch":
        return fill(a + 2, d + 1), np.arange(a + 2) % 2
    if kind in ("wrong_width_new", "wrong_width_known", "sample_wrong_width"):
        w = d + a if b % 2 or d == 1 else max(1, d - a)
        return fill(w), (new if kind.endswith("new") else known)
    if kind in ("one_feature_new", "one_feature_known"):
        if d == 1:
            return None
        return fill(1), (new if kind.endswith("new") else known)
    if kind == "sample_known":
        return fill(d), known
    if kind == "sample_new":
        return fill(d), new
    raise AssertionError(kind)
