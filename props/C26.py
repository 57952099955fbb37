import contextlib
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
from lib.common import *
from lib import gen, badcalls
from lib.harness import REPO_SRC
from hypothesis import strategies as st
import cvi.compat.v0 as v0
from props.C18 import MODERN, ordered

ID = "C26"
RULE = ("drawn process-wide settings (numpy error handling and print options, seeds of both random generators, warning filters), "
        "then a drawn history of one index (stream or batch, with refused calls, or a legacy stream) in an empty working "
        "directory; afterwards every setting, the random generators' states, the environment, the directory, the threads, "
        "the open files and the standard streams must be as before, and the values the definition's; also the import itself, in "
        "a new interpreter; non-trivial: a well-conditioned value with >=2 clusters was compared")


def snapshot():
    s = {
        "numpy error handling": sorted(np.geterr().items()), "numpy error callback": np.geterrcall(),
        "numpy print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "numpy random generator": repr([x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state()]),
        "random generator": random.getstate(),
        "warning filters": list(warnings.filters), "warning display": warnings.showwarning,
        "environment": sorted(os.environ.items()), "working directory": os.getcwd(), "its contents": sorted(os.listdir(".")),
        "open files": sorted(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "import path": list(sys.path), "except hook": sys.excepthook, "trace function": sys.gettrace() is None,
        "standard output": sys.stdout, "standard error": sys.stderr,
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable),
        "collector": (gc.isenabled(), gc.get_threshold()), "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(g) for g in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
        "umask": _umask(),
    }
    return s


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


ERR = st.sampled_from(["ignore", "warn"])


@st.composite
def cases(draw, ds):
    c = dict(draw(ds))
    c["mode"] = draw(st.sampled_from(["inc", "inc", "batch", "legacy"]))
    c["name"] = draw(st.sampled_from(NAMES if c["mode"] != "legacy" else sorted(MODERN)))
    if c["mode"] == "legacy":
        c["y"] = ordered(c["y"])
    c["err"] = {k: draw(ERR) for k in ("divide", "over", "under", "invalid")}
    c["seeds"] = [draw(st.integers(0, 2 ** 31)), draw(st.integers(0, 2 ** 31))]
    c["precision"] = draw(st.integers(3, 12))
    c["filter"] = draw(st.sampled_from(["ignore", "always", "default"]))
    c["bad"] = draw(st.lists(badcalls.recipes("fresh"), max_size=2))
    c["bad_used"] = draw(st.lists(badcalls.recipes("batch" if c["mode"] == "batch" else "inc"), max_size=2))
    return c


def refuse(o, bad, d, X, y):
    for r in bad:
        args = badcalls.build(r, d, sorted(set(y.tolist())), X if len(y) else None, y)
        if args is not None:
            try:
                o.get_cvi(*args)
            except ValueError:
                pass


def history(case):
    """Runs the history; list of (number of samples, value)."""
    X, y, name, d = case["X"], case["y"], case["name"], case["X"].shape[1]
    if case["mode"] == "legacy":
        o = v0.iCVI(name)
        return [(i + 1, o.update(X[i].copy(), int(y[i]))) for i in range(len(y))]
    o = cls(name)()
    refuse(o, case["bad"], d, X[:0], y[:0])
    if case["mode"] == "batch":
        out = [(len(y), o.get_cvi(X.copy(), y.copy()))]
    else:
        out = [(i + 1, o.get_cvi(X[i].copy(), y[i])) for i in range(len(y))]
    refuse(o, case["bad_used"], d, X, y)
    return out


def check(case, rec):
    X, y, name = case["X"], case["y"], case["name"]
    gen.classify(rec, case)
    rec.label("mode", case["mode"])
    if name in case.get("without", ()):
        return
    home, tmp = os.getcwd(), tempfile.mkdtemp()
    text = io.StringIO()
    keep_np, keep_py, keep_err, keep_print = np.random.get_state(), random.getstate(), np.geterr(), np.get_printoptions()
    try:
        os.chdir(tmp)
        with warnings.catch_warnings(), contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
            warnings.simplefilter(case["filter"])
            warnings.showwarning = lambda *a, **k: None     # division by zero may well be warned about
            np.seterr(**case["err"])
            np.set_printoptions(precision=case["precision"])
            np.random.seed(case["seeds"][0])
            random.seed(case["seeds"][1])
            before = snapshot()
            vals = call(f"{name} {case['mode']}", history, case)
            after = snapshot()
    finally:
        # also when the code under test has disturbed something
        os.chdir(home)
        shutil.rmtree(tmp, ignore_errors=True)
        np.random.set_state(keep_np)
        random.setstate(keep_py)
        np.seterr(**keep_err)
        np.set_printoptions(**keep_print)
    for k in before:
        if before[k] != after[k]:
            short = (lambda v: "") if "generator" in k else (lambda v: f" from {before[k]!r:.200} to {after[k]!r:.200}")
            fail(f"{name} {case['mode']}: using the object changed the process's {k}{short(k)}")
    if text.getvalue():
        fail(f"{name} {case['mode']}: {text.getvalue()[:200]!r} was written to the standard streams")
    pts = checkpoints(y, 8)
    for n, v in vals:
        if n not in pts:
            continue
        r = Ref(X[:n], y[:n])
        modern = MODERN.get(name, name)
        if r.k < 2 or (name == "iCH" and r.n == r.k):
            continue
        if compare(rec, modern, num(name, v), r, f"{case['mode']} after {n} samples under {case['err']}"):
            rec.nontrivial()


IMPORT = """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, {src!r})
sys.path.insert(0, {verif!r})
import random, warnings, locale, logging, signal, gc, threading, tempfile
import numpy as np

os.chdir(sys.argv[1])
err, seed, prec = eval(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
np.seterr(**err); np.random.seed(seed); random.seed(seed); np.set_printoptions(precision=prec)
warnings.simplefilter(sys.argv[5])
def snap():
    return dict(err=np.geterr(), call=np.geterrcall(), prt=repr(np.get_printoptions()), rnd=repr(np.random.get_state()[1].tolist()), pos=np.random.get_state()[2],
        rnd2=random.getstate(), filt=list(warnings.filters), show=warnings.showwarning, env=dict(os.environ), cwd=os.getcwd(), ls=os.listdir("."), thr=threading.active_count(),
        rec=sys.getrecursionlimit(), path=list(sys.path), hook=sys.excepthook, log=(logging.root.level, list(logging.root.handlers)),
        gc=(gc.isenabled(), gc.get_threshold()), loc=locale.setlocale(locale.LC_ALL), sig=signal.getsignal(signal.SIGINT))
a = snap()
import cvi, cvi.compat
b = snap()
bad = [k for k in a if a[k] != b[k]]
if bad:
    sys.stderr.write("CHANGED " + repr(bad))
    sys.exit(3)
"""


def check_import(case, rec):
    tmp = tempfile.mkdtemp()
    try:
        r = subprocess.run([sys.executable, "-c", IMPORT.format(src=REPO_SRC, verif=tmp), tmp, repr(case["err"]), str(case["seed"]),
                            str(case["precision"]), case["filter"]], capture_output=True, text=True, timeout=300)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode == 3 and "CHANGED" in r.stderr:
        fail(f"importing the package changed {r.stderr[r.stderr.index('CHANGED') + 8:]}")
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    if r.stdout.strip():
        fail(f"importing the package printed {r.stdout[:200]!r}")
    rec.nontrivial()


imports = st.fixed_dictionaries({
    "err": st.fixed_dictionaries({k: st.sampled_from(["ignore", "warn", "raise"]) for k in ("divide", "over", "under", "invalid")}),
    "seed": st.integers(0, 2 ** 31), "precision": st.integers(3, 12), "filter": st.sampled_from(["ignore", "default", "always"])})

SUBS = [
    Sub("settings", cases(gen.datasets(max_n=24, max_k=7, large=False)), check, 6000, 120000),
    Sub("settings_mid", cases(gen.blob(min_n=20, max_n=200, max_k=24, dims=(1, 2, 3, 5, 10))), check, 200, 4000),
    Sub("settings_big", cases(st.one_of(gen.wide(), gen.crowded(), gen.blob(min_n=300, max_n=1400, max_k=4, dims=(1, 2)))),
        check, 60, 1200),
    Sub("import", imports, check_import, 8, 32),
]
