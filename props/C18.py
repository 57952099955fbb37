from lib.common import *
from lib import gen
from hypothesis import strategies as st
import cvi.compat as compat
import cvi.compat.v0 as v0

ID = "C18"
RULE = ("names and near-names given to the constructor; streams whose cluster numbers first appear in the order 0,1,2,.. "
        "fed to all seven legacy indices, iXB, iCH and iPS compared with the reference after every sample; a skipped "
        "cluster number at a drawn point; non-trivial: a value with >=2 clusters and a revisited cluster was compared, "
        "or a refusal was checked after at least one sample")
ASSUMPTIONS = ["for iDB, iSIL, iGD43 and iGD53 no oracle exists (they fail as listed in KNOWN_FINDINGS.txt), only "
               "how far they get is checked"]
LEGACY = ("iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB")
MODERN = {"iXB": "XB", "iCH": "CH", "iPS": "PS"}
# KNOWN_FINDINGS.txt: index -> (exception, where it is raised, in terms of the history)
KNOWN = {
    "iDB": (IndexError, "revisit"),
    "iGD43": (AttributeError, "revisit"),
    "iGD53": (AttributeError, "revisit"),
    "iSIL": (ValueError, "first"),
}


def known_findings():
    out = []
    for name, (exc, where) in KNOWN.items():
        o = v0.iCVI(name)
        hist = [([0.0, 0.0], 0)] if where == "first" else [([0.0, 0.0], 0), ([1.0, 0.0], 0)]
        try:
            for x, c in hist:
                o.update(np.array(x), c)
        except exc as e:
            out.append((name, f"{name} fed {hist} raises {type(e).__name__}: {e}"))
        except Exception:
            pass
    return out


def ordered(y):
    m, out = {}, []
    for l in y.tolist():
        out.append(m.setdefault(l, len(m)))
    return np.array(out, dtype=np.int64)


@st.composite
def streams(draw, ds=None):
    c = dict(draw(ds or gen.datasets(min_k=1, max_n=40, max_k=8, large=draw(st.integers(0, 9)) == 0)))
    c["y"] = ordered(c["y"])
    c["numpy_label"] = draw(st.booleans())
    return c


def lab(case, c):
    return c if case["numpy_label"] else int(c)


def check_stream(case, rec):
    X, y = case["X"], case["y"]
    n, d, k = gen.classify(rec, case)
    pts = checkpoints(y)
    refs = {m: Ref(X[:m], y[:m]) for m in pts}
    revisit = n > k
    for name in MODERN:
        o = call(f"iCVI({name!r})", v0.iCVI, name)
        for i in range(n):
            got = num(name, call(f"{name} sample {i}", o.update, X[i].copy(), lab(case, y[i])))
            if not (np.isnan(got) and np.isnan(float(o.output))) and float(o.output) != got:
                fail(f"{name}.output is {o.output!r} after update returned {got!r}")
            m = i + 1
            if m not in pts:
                continue
            r = refs[m]
            if r.k < 2:
                if got != 0.0:
                    fail(f"{name}: {got!r} with one cluster, expected 0")
                continue
            if name == "iCH" and r.n == r.k:
                rec.count("iCH.no_degrees_of_freedom")
                if got != 0.0:
                    fail(f"iCH: {got!r} when every cluster has one sample, expected 0")
                continue
            if compare(rec, MODERN[name], got, r, f"legacy {name} after sample {m}"):
                rec.nontrivial(revisit)


def check_accepts(case, rec):
    """How far the four unrepaired indices get: no failure but the listed one."""
    X, y = case["X"], case["y"]
    gen.classify(rec, case)
    for name, (exc, where) in KNOWN.items():
        o = call(f"iCVI({name!r})", v0.iCVI, name)
        seen = set()
        for i in range(len(y)):
            first = i == 0
            revisit = int(y[i]) in seen
            seen.add(int(y[i]))
            try:
                got = o.update(X[i].copy(), lab(case, y[i]))
            except Exception as e:
                if isinstance(e, exc) and (revisit if where == "revisit" else first):
                    rec.count(f"{name}.known_failure")
                    break
                fail(f"{name}: unexpected {type(e).__name__} at sample {i} ({e})")
            num(name, got)
            rec.count(f"{name}.accepted")
            rec.nontrivial(i > 0)


@st.composite
def skips(draw):
    c = draw(gen.tiny(min_k=1, max_n=10))
    c["y"] = ordered(c["y"])
    c["at"] = draw(st.integers(0, len(c["y"])))
    c["gap"] = draw(st.one_of(st.integers(1, 5), st.integers(1, 10 ** 6)))
    c["name"] = draw(st.sampled_from(["iXB", "iCH", "iPS", "iGD43", "iGD53", "iDB", "iSIL"]))
    return c


def check_skip(case, rec):
    X, y, name = case["X"], case["y"], case["name"]
    o = call(f"iCVI({name!r})", v0.iCVI, name)
    seen = set()
    fed = 0
    for i in range(min(case["at"], len(y))):
        if name in KNOWN and (name == "iSIL" or int(y[i]) in seen):
            continue            # would run into the known failure
        seen.add(int(y[i]))
        call(f"{name} sample {i}", o.update, X[i].copy(), int(y[i]))
        fed += 1
    rec.label("index", name)
    x = X[min(case["at"], len(y) - 1)].copy()
    refused(f"{name} with {len(seen)} clusters given cluster number {len(seen) + case['gap']}",
            o.update, x, len(seen) + case["gap"])
    rec.nontrivial(fed > 0)


names = st.one_of(
    st.sampled_from(LEGACY), st.sampled_from(LEGACY),
    st.sampled_from(LEGACY).map(lambda s: s[1:]), st.sampled_from(LEGACY).map(str.lower),
    st.sampled_from(LEGACY).map(str.upper), st.sampled_from(LEGACY).map(lambda s: s + " "),
    st.sampled_from(["", "iGD", "icSIL", "irCIP", "iWB", "iGD44", "XB", "CVI"]), st.text(max_size=6),
    st.none(), st.integers(-3, 60))


def check_name(case, rec):
    name = case["name"]
    if name in LEGACY:
        a, b = call(f"iCVI({name!r})", v0.iCVI, name), call(f"iCVI({name!r})", v0.iCVI, name)
        if type(a) is not getattr(v0, name):
            fail(f"iCVI({name!r}) built a {type(a).__name__}")
        if a is b:
            fail(f"iCVI({name!r}) returned the same object twice")
        if getattr(v0, name) not in v0.MODULES:
            fail(f"{name} is not listed in compat MODULES")
        rec.count("name.known")
    else:
        refused(f"iCVI({name!r})", v0.iCVI, name)
        rec.count("name.unknown")
    rec.nontrivial()


SUBS = [
    Sub("stream", streams(), check_stream, 4000, 100000),
    Sub("stream_wide", streams(gen.wide(min_k=1)), check_stream, 200, 4000),
    Sub("stream_crowded", streams(gen.crowded(260, 120)), check_stream, 12, 300),
    Sub("stream_many", streams(gen.blob(min_n=125, max_n=150, max_k=115, min_k=104, dims=(2, 3), coarse="fine")), check_stream, 6, 120),
    Sub("stream_long", streams(gen.blob(min_n=300, max_n=1200, max_k=4, dims=(1, 2))), check_stream, 16, 320),
    Sub("accepts", streams(), check_accepts, 800, 16000),
    Sub("skip", skips(), check_skip, 1500, 30000),
    Sub("name", st.fixed_dictionaries({"name": names}), check_name, 800, 4000),
]
