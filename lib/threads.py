"""Deterministic interleaving of calls in several threads, switched at lines of the package's own source.

run(jobs, sched): jobs is a list of functions, each run in its own thread; exactly one thread runs at a time. At every line
of the package the next number of `sched` (taken cyclically) says how many more lines the running thread gets before the
next thread takes over. (Should the running thread block, on a lock of the package held by a waiting one, all run freely.)
Returns the list of results; an exception of a job is raised after all have ended."""
import os
import sys
import threading
from lib.harness import REPO_SRC

SRC = os.path.realpath(REPO_SRC) + os.sep
_inside = {}
_stalled = []       # once the package has been seen to block, threads run freely


def inside(code):
    f = code.co_filename
    if f not in _inside:
        _inside[f] = os.path.realpath(f).startswith(SRC)
    return _inside[f]


def run(jobs, sched):
    m = len(jobs)
    cond = threading.Condition()
    state = {"turn": 0, "left": max(1, sched[0]), "at": 1, "switches": 0, "lines": 0, "free": bool(_stalled)}
    alive = [True] * m
    out, errs = [None] * m, []

    def hand_over(me):
        """Called with the lock held: next living thread."""
        for s in range(1, m + 1):
            j = (me + s) % m
            if alive[j]:
                state["turn"] = j
                break
        state["left"] = max(1, sched[state["at"] % len(sched)])
        state["at"] += 1
        cond.notify_all()

    def wait(me):
        """Called with the lock held: until it is this thread's turn."""
        while state["turn"] != me and not state["free"]:
            seen = state["lines"]
            if not cond.wait(4) and state["lines"] == seen:
                state["free"] = True
                _stalled.append(1)
                cond.notify_all()

    def tracer(me):
        def local(frame, event, arg):
            if event == "line":
                state["left"] -= 1
                state["lines"] += 1
                if state["left"] <= 0 and sum(alive) > 1 and not state["free"]:
                    with cond:
                        state["switches"] += 1
                        hand_over(me)
                        wait(me)
            return local

        def top(frame, event, arg):
            return local if inside(frame.f_code) else None
        return top

    def body(me):
        with cond:
            wait(me)
        sys.settrace(tracer(me))
        try:
            out[me] = jobs[me]()
        except BaseException as e:
            errs.append((me, e))
        finally:
            sys.settrace(None)
            with cond:
                alive[me] = False
                hand_over(me)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(m)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0][1]
    return out, state["switches"]
