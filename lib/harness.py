"""Runs one property: sharded Hypothesis search, counting, replay files, evidence, exit codes.

exit 0  held on everything explored
exit 1  VIOLATION line printed, replay written
exit 2  error of the check itself
"""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
# never read bytecode left behind by another tree
sys.pycache_prefix = os.path.join(VERIF, "replays", "no-such-pycache")
sys.path.insert(0, REPO_SRC)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 45
_engine.BUFFER_SIZE = 32 * 1024     # several large data sets in one case
# Hypothesis' mutations of earlier examples misalign our draws and replace byte strings by zeros; the generators
# produce coincidences on purpose instead
if hasattr(_engine.ConjectureRunner, "generate_mutations_from"):
    _engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
warnings.simplefilter("ignore")
np.seterr(all="ignore")

import cvi  # noqa: E402

if not os.path.realpath(cvi.__file__).startswith(os.path.realpath(REPO_SRC) + os.sep):
    print(f"harness error: cvi imported from {cvi.__file__}", file=sys.stderr)
    sys.exit(2)


QUICK_SCALE = 2


class Violation(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def call(what, fn, *args):
    """A call that the property requires to succeed."""
    try:
        return fn(*args)
    except Exception as e:
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e}") from e


def refused(what, fn, *args):
    """A call that the property requires to be refused with ValueError."""
    try:
        r = fn(*args)
    except ValueError:
        return
    except Exception as e:
        raise Violation(f"{what}: expected ValueError, got {type(e).__name__}: {e}") from e
    raise Violation(f"{what}: expected ValueError, but {r!r} was returned")


def from_code_under_test(e):
    # an attribute the properties name is missing from an object of the package
    if isinstance(e, AttributeError) and (type(getattr(e, "obj", None)).__module__ or "").split(".")[0] == "cvi":
        return True
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO_SRC) + os.sep):
            return True
        tb = tb.tb_next
    return False


def listed(pid, key):
    """Is `known: property=<pid> <key>...` in the committed list of known findings?"""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        return any(line.startswith(f"known: property={pid} {key}") for line in f)


# --------------------------------------------------------------------- case <-> json
def enc(o):
    if isinstance(o, np.ndarray):
        return {"__nd__": str(o.dtype), "shape": list(o.shape), "data": o.reshape(-1).tolist()}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if "__nd__" in o:
            return np.array(o["data"], dtype=o["__nd__"]).reshape(o["shape"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def digest(o, h=None):
    top = h is None
    h = h or hashlib.blake2b(digest_size=8)
    if isinstance(o, np.ndarray):
        h.update(str(o.dtype).encode() + str(o.shape).encode() + np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        for k in o:
            h.update(k.encode())
            digest(o[k], h)
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for v in o:
            digest(v, h)
        h.update(b"]")
    else:
        h.update(repr(o).encode())
    return h.hexdigest() if top else None


def size_of(o):
    if isinstance(o, np.ndarray):
        return o.size
    if isinstance(o, dict):
        return sum(size_of(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return 1 + sum(size_of(v) for v in o)
    return 1


def brief(o):
    """A large case abbreviated for the evidence file."""
    if isinstance(o, np.ndarray):
        return {"dtype": str(o.dtype), "shape": list(o.shape), "first": enc(o.reshape(-1)[:6].tolist())} if o.size > 12 else enc(o)
    if isinstance(o, dict):
        return {str(k): brief(v) for k, v in list(o.items())[:12]}
    if isinstance(o, (list, tuple)):
        return [brief(v) for v in o[:6]] + ([f"... {len(o)} in all"] if len(o) > 6 else [])
    return enc(o)


class Rec:
    """What a run covered."""

    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.hist = {}
        self.counts = {}
        self.samples = []
        self.large = []

    def begin(self, sub, case):
        self.evals += 1
        self._nt = False
        self._key = sub + digest(case)

    def end(self, sub, case):
        if self._nt:
            if self._key not in self.seen:
                self.seen.add(self._key)
                if len(self.samples) < 40 and size_of(case) <= 60:
                    self.samples.append({"sub": sub, "case": enc(case)})
                elif len(self.large) < 1:
                    self.large.append({"sub": sub, "case": brief(case), "abbreviated": True})

    def nontrivial(self, cond=True):
        self._nt = self._nt or bool(cond)

    def label(self, key, val):
        k = f"{key}={val}"
        self.hist[k] = self.hist.get(k, 0) + 1

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick * QUICK_SCALE, thorough or quick * 20


def _run_sub(sub, n, seed, rec, skip_first=False):
    """skip_first: Hypothesis always starts with the simplest case; one shard trying it is enough."""
    fails, calls = [], [0]
    n += skip_first

    def body(case):
        calls[0] += 1
        if skip_first and calls[0] == 1:
            return
        rec.begin(sub.name, case)
        try:
            sub.check(case, rec)
        except Violation as v:
            fails.append((case, str(v)))
            raise
        except Exception as e:
            if not from_code_under_test(e):
                raise
            msg = f"unexpected {type(e).__name__}: {e}"
            fails.append((case, msg))
            raise Violation(msg) from e
        rec.end(sub.name, case)

    t = given(sub.strategy)(body)
    t = settings(
        max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, verbosity=Verbosity.quiet,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
    )(t)
    t = hypothesis.seed(seed)(t)
    try:
        t()
    except Violation:
        return fails[-1]
    except BaseException:
        if fails:           # e.g. a failure that depends on what ran before (hypothesis: flaky)
            return min(fails, key=lambda f: size_of(f[0]))
        raise
    return None


def _shard(prop, tier, seed, shard, nshards, q):
    try:
        rec = Rec()
        out = {"shard": shard, "violation": None, "error": None}
        for i, sub in enumerate(prop.SUBS):
            total = sub.thorough if tier == "thorough" else sub.quick
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n == 0:
                continue
            sd = int.from_bytes(hashlib.blake2b(
                f"{seed}/{shard}/{prop.ID}/{sub.name}".encode(), digest_size=6).digest(), "big")
            f = _run_sub(sub, n, sd, rec, shard > 0)
            if f is not None:
                case, msg = f
                ecase = json.loads(json.dumps(enc(case)))
                rep = False
                try:
                    sub.check(dec(ecase), Rec_quiet())
                except Exception:
                    rep = True
                out["violation"] = {"property": prop.ID, "sub": sub.name, "message": msg,
                                    "reproduced": rep, "seed": seed, "shard": shard, "case": ecase}
                break
        out.update(evals=rec.evals, seen=list(rec.seen), hist=rec.hist, counts=rec.counts,
                   samples=rec.samples or rec.large)
    except BaseException:
        out = {"shard": shard, "violation": None, "error": traceback.format_exc(), "evals": 0,
               "seen": [], "hist": {}, "counts": {}, "samples": []}
    q.put(out)


def Rec_quiet():
    r = Rec()
    r.begin("replay", {})
    return r


def run(prop):
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nsh = int(os.environ.get("VERIF_JOBS", "8"))
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    procs = [ctx.Process(target=_shard, args=(prop, tier, seed, s, nsh, q)) for s in range(nsh)]
    for p in procs:
        p.start()
    outs = []
    while len(outs) < nsh:
        try:
            outs.append(q.get(timeout=1))
        except Exception:
            if any(p.exitcode not in (None, 0) for p in procs) or (
                    all(p.exitcode is not None for p in procs) and q.empty()):
                time.sleep(1)
                if q.empty():
                    print("harness error: a worker died", file=sys.stderr)
                    for p in procs:
                        p.kill()
                    return 2
    for p in procs:
        p.join()
    outs.sort(key=lambda o: o["shard"])
    seen, hist, counts, samples, evals = set(), {}, {}, [], 0
    for o in outs:
        evals += o["evals"]
        seen.update(o["seen"])
        for k, v in o["hist"].items():
            hist[k] = hist.get(k, 0) + v
        for k, v in o["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples += o["samples"][-2:]
    viol = [o["violation"] for o in outs if o["violation"]]
    errs = [o["error"] for o in outs if o["error"]]
    known, unlisted = [], []
    for key, text in (prop.known_findings() if hasattr(prop, "known_findings") else []):
        (known if listed(prop.ID, key) else unlisted).append(text)
    viol += [{"property": prop.ID, "sub": "known", "message": t, "reproduced": True, "case": t} for t in unlisted]
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(seen), "rule": prop.RULE,
            "samples": samples[:8],
            "distribution": dict(sorted(hist.items())), "oracle_comparisons": dict(sorted(counts.items())),
            "known_findings_reproduced": known,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []) + [
            "lib/ref.py states the definitions correctly and its error bounds cover double-precision rounding"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop.ID} {k}")
    if viol:
        v = min(viol, key=lambda v: (not v["reproduced"], len(json.dumps(v["case"]))))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop.ID}-{hashlib.sha1(json.dumps(v['case']).encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(v["message"])
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if errs:
        print("harness error:\n" + errs[0], file=sys.stderr)
        return 2
    print(f"{prop.ID} held: {evals} cases, {len(seen)} distinct non-trivial, {ev['wall_s']} s")
    return 0


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    for sub in prop.SUBS:
        if sub.name == v["sub"]:
            try:
                sub.check(dec(v["case"]), Rec_quiet())
            except Exception as e:
                if not isinstance(e, Violation) and not from_code_under_test(e):
                    raise
                print(e)
                print(f"VIOLATION property={prop.ID} replay={path}")
                return 1
            print("replay passes")
            return 0
    print("no such sub-check", file=sys.stderr)
    return 2
