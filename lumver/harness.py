"""Goals of a property: run on every path, collect obligations, report as JSON."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from lumver import terms, ctx
from lumver.ctx import CTX, STATS, Infeasible, Obligation
from lumver.terms import Unsupported, ProofAbort

GOALS = []
NOTES = []          # assumptions (trusted contracts) of this property
from lumver.rt import ENTERED  # repo functions whose bodies were executed symbolically


class Goal:
    def __init__(self, name, fn, expect, timeout):
        self.name, self.fn, self.expect, self.timeout = name, fn, expect, timeout


def goal(name, expect="prove", timeout=300):
    def deco(fn):
        GOALS.append(Goal(name, fn, expect, timeout))
        return fn
    return deco


def canary(name, timeout=120):
    """A deliberately false contract: the engine must fail to prove it."""
    return goal(name, "fail", timeout)


def assume_note(text):
    if text not in NOTES:
        NOTES.append(text)


class Stop(Exception):
    pass


def expect_raises(name, exc, f, *a, **k):
    """Contract: the call raises exc on this path."""
    try:
        f(*a, **k)
    except exc:
        CTX.require(name, True)
        return True
    except (Unsupported, Infeasible, ProofAbort):
        raise
    CTX.fail(name, f"expected {exc.__name__}, the call returned")
    return False


def run_goal(g):
    from lumver import rt, smt
    t0 = time.time()
    STATS.update({k: 0 for k in STATS})
    CTX.obligations = []
    ENTERED.clear()
    feasible = [0]
    vac = []

    def run():
        CTX.goal = g.name
        n0 = len(CTX.obligations)
        rt.LOOPS.clear()
        CTX.local = []
        try:
            g.fn()
        except Infeasible:
            raise
        except (Unsupported, ProofAbort) as e:
            if CTX.infeasible():
                return
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{x.filename}:{x.lineno}" for x in reversed(tb) if "/lumos/" in x.filename), "")
            CTX.fail(g.name + " / within reach", f"{type(e).__name__}: {e} [{where}]", "unsupported")
        except RecursionError as e:
            tb = traceback.extract_tb(e.__traceback__)
            CTX.fail(g.name + " / within reach", "recursion limit " + " < ".join(
                f"{x.name}:{x.lineno}" for x in tb[-40:]), "unsupported")
        except Exception as e:
            if CTX.infeasible():
                return
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{x.filename}:{x.lineno}" for x in reversed(tb) if "/lumos/" in x.filename), "")
            CTX.fail(g.name + " / no exception", f"{type(e).__name__}: {e} [{where}] "
                     + "".join(traceback.format_exception(e))[-1500:])
        feasible[0] += 1
        if len(CTX.obligations) > n0 and len(vac) < 40:
            r = str(smt.satisfiable(CTX, 1500))
            vac.append(r)
            if r == "unsat":
                # a path whose assumptions contradict each other proves nothing
                del CTX.obligations[n0:]
                feasible[0] -= 1

    err = None
    try:
        CTX.explore(None, run)
    except (Unsupported, ProofAbort, RuntimeError) as e:
        err = f"{type(e).__name__}: {e}"
        CTX.fail(g.name + " / exploration", err, "unsupported")
    obs = [o.as_dict() for o in CTX.obligations]
    return dict(name=g.name, expect=g.expect, obligations=obs, feasible_paths=feasible[0], vacuity=vac,
                stats=dict(STATS), functions=sorted(ENTERED), time=time.time() - t0, notes=list(NOTES))


def _worker(i, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(512 << 20)
        out = {}

        def body():
            try:
                out["r"] = run_goal(GOALS[i])
            except BaseException as e:    # noqa
                out["r"] = dict(name=GOALS[i].name, expect=GOALS[i].expect, obligations=[
                    Obligation(GOALS[i].name + " / engine", "unsupported", "-",
                               "".join(traceback.format_exception(e))[-3000:]).as_dict()],
                    feasible_paths=0, vacuity=[], stats={}, functions=[], time=0, notes=[])
        th = threading.Thread(target=body)
        th.start()
        th.join()
        conn.send(out["r"])
    finally:
        conn.close()


def run_all(out_path, only=None, jobs=8, tier="quick"):
    CTX.use_cvc5 = tier == "thorough"
    todo = [i for i, g in enumerate(GOALS) if not only or only in g.name]
    res = []
    running = []
    mpc = mp.get_context("fork")
    t0 = time.time()
    scale = 1 if tier == "quick" else 4
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=(i, b))
            p.start()
            b.close()
            running.append((i, p, a, time.time()))
        time.sleep(0.02)
        for r in list(running):
            i, p, a, ts = r
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                    p.join()
            dead = not p.is_alive()
            late = time.time() - ts > GOALS[i].timeout * scale
            if got is None and (dead or late) and not a.poll():
                p.kill()
                got = dict(name=GOALS[i].name, expect=GOALS[i].expect, obligations=[
                    Obligation(GOALS[i].name + " / engine", "unsupported", "-",
                               "time limit" if late else "worker died").as_dict()],
                    feasible_paths=0, vacuity=[], stats={}, functions=[], time=time.time() - ts, notes=[])
            if got is not None:
                res.append(got)
                p.join(2)
                if p.is_alive():
                    p.kill()
                running.remove(r)
    order = {g.name: i for i, g in enumerate(GOALS)}
    res.sort(key=lambda r: order[r["name"]])
    from lumver import loader
    doc = dict(goals=res, notes=NOTES, sources={k: v[1] for k, v in loader.SOURCES.items()},
               wall=time.time() - t0)
    if out_path:
        with open(out_path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
    return doc


from lumver_summary import summarize  # noqa: E402
