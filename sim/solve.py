"""Simulated solve: one call of one of the library's algorithms on a generated
instance under the instant seam (sim.inject) and the MIP seam (sim.mip)."""
import gc
import os
import pickle
import random
import signal
import sys
import threading
import traceback

import numpy as np

from . import mip, oracle, variants, workload
from .inject import Injector, StepBudgetExceeded

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "verypy") + os.sep

NO_MINK = ("sn", "pn", "ty", "lr3o")
NEED_POINTS = ("gap", "gm", "ptl", "swp", "wh")
MIP_ALGOS = ("gap", "ptl", "mbsa")
# algorithm -> (largest number of customers, relative weight) for injected runs
SIZES = {
    "ps": (14, 2), "ps2o": (10, 1), "gpl": (8, 1), "ss": (14, 2), "gps": (7, 1),
    "ims": (7, 2), "si": (10, 2), "mj": (7, 2), "pi": (9, 2), "mbsa": (8, 2),
    "cmt": (8, 3), "sn": (12, 2), "pn": (10, 2), "ty": (9, 2), "swp": (10, 1),
    "wh": (7, 3), "gm": (7, 3), "rfcs": (9, 2), "gap": (7, 3), "lr3o": (4, 1),
    "ptl": (6, 3),
}
ALGOS = sorted(SIZES)
F = {}


def setup():
    """import the library behind the seams (once, before forking)"""
    if F:
        return
    mip.install()
    err = sys.stderr
    sys.stderr = open(os.devnull, "w")
    try:
        from verypy import get_algorithms
        for a in ALGOS:
            got = get_algorithms(a)
            if got:
                F[a] = got[0][3]
        import verypy.cvrp_ops, verypy.cvrp_io, verypy.shared_cli  # noqa
        import verypy.local_search.solution_operators  # noqa
        import verypy.VeRyPy  # noqa
    finally:
        sys.stderr = err
    # modules that are imported inside functions on first use
    import scipy.spatial.distance, scipy.optimize, scipy.linalg  # noqa
    warm()


TSP = {}
TSP_BAD = []


def add_tsp():
    """the TSP solvers, as pseudo algorithms over all of the nodes"""
    import importlib
    for name, mod, fn in (("ropt", "tsp_solver_ropt", "solve_tsp_ropt"),
                          ("fast", "tsp_solver_fast", "solve_tsp_fast"),
                          ("gurobi", "tsp_solver_gurobi", "solve_tsp_gurobi")):
        try:
            f = getattr(importlib.import_module("verypy.tsp_solvers." + mod), fn)
        except (ImportError, AttributeError):
            continue
        TSP[name] = f

        def call(points, D, d, C, L, st, ewt, single, minimize_K, f=f):
            nodes = list(range(len(D)))
            tour, cost = f(D, nodes)
            TSP_BAD[:] = oracle.judge_tour(tour, cost, nodes, D)
            return None
        F["tsp_" + name] = call
        SIZES["tsp_" + name] = (6, 1)


def warm():
    """touch lazily imported things so that their import is not part of a run"""
    inst = dict(points=[(0, 0), (0, 3), (4, 0), (5, 5)], ints=False,
                layout="x", d=[0, 1, 1, 1], C=2, L=None)
    for a in F:
        if a in MIP_ALGOS:
            continue          # no Gurobi environment before forking
        try:
            F[a](*workload.build(inst), True, False)
        except Exception:
            pass
    gc.collect()


def pick_algo(rng, among=None):
    names = [a for a in (among or ALGOS) if a in F]
    return rng.choices(names, [SIZES[a][1] for a in names])[0]


# the largest number of customers of a solve of which only the beginning is
# simulated (up to some step), so that it may be larger than one that is run to
# its end many times
def prefix_size(algo):
    return min(26, max(12, 2 * SIZES[algo][0]))


def gen_case(rng, algo=None, nmin=1, nmax=None, among=None, wide=False,
             explicit=False, options=True):
    a = algo or pick_algo(rng, among)
    big = nmax or SIZES[a][0]
    inst = workload.gen_instance(rng, nmin, big, wide=wide, explicit=explicit)
    if a != "gap" and rng.random() < .07:      # (refuses without a limit)
        inst["C"] = inst["L"] = None
    if not inst["C"] and rng.random() < .4:
        inst["nod"] = True
    if explicit and a not in NEED_POINTS and rng.random() < .4:
        inst["nopts"] = True
    if rng.random() < .25:
        inst["form"] = rng.choice(["lists", "arrays"])
    case = dict(algo=a, inst=inst, single=rng.random() < .4,
                minK=a not in NO_MINK and rng.random() < .4)
    if options and a in variants.MODS and rng.random() < .25:
        case["var"] = variants.gen(rng, a, inst)
    return case


def algorithm(case):
    """the algorithm of a case, in its configuration"""
    if case.get("var") is not None:
        return variants.function(case["algo"], case["var"])
    return F[case["algo"]]


EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError,
       "os": OSError, "float": FloatingPointError}


def masked():
    """nothing is injected while the MIP solver has taken the interrupt handler
    over: an interrupt would not be delivered to Python code then"""
    return signal.getsignal(signal.SIGINT) is not signal.default_int_handler


class Counting:
    """builds exceptions for the injector"""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self):
        c = EXC[self.kind]
        if c is KeyboardInterrupt:
            return c()
        return c("simulated")


def process_state():
    s = {
        "SIGINT handler": signal.getsignal(signal.SIGINT),
        "SIGTERM handler": signal.getsignal(signal.SIGTERM),
        "SIGALRM handler": signal.getsignal(signal.SIGALRM),
        "random state": hash(random.getstate()),
        "numpy random state": np.random.get_state()[1].tobytes()
        + bytes(str(np.random.get_state()[2:]), "ascii"),
        "numpy error settings": tuple(sorted(np.geterr().items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "environment": tuple(sorted(os.environ.items())),
        "threads": threading.active_count(),
        "profile hook": sys.getprofile(), "trace hook": sys.gettrace(),
        "import path": tuple(sys.path),
        "gc": gc.isenabled(),
    }
    import logging
    s["log level"] = (logging.getLogger().level, logging.root.manager.disable)
    return s


def data_state(args):
    pts, D, d, C, L, st, ewt = args
    return {"distances": (D.dtype.str, D.shape, D.tobytes(), D.flags.writeable),
            "demands": list(d) if d is not None else None,
            "points": [tuple(p) for p in pts] if pts is not None else None}


def changed(a, b):
    return sorted(k for k in a if a[k] != b[k])


def run(case, at=None, kind="interrupt", mode="line", cap=None, post_cap=None,
        record=False, plan=None, steal=False, forks=None, state=False,
        on_fork=None, args=None, mon=True, again=None, model_plan=None,
        prefix=False):
    """-> outcome dictionary.
    forks: event numbers at which a forked child gets the injection instead."""
    args = args or workload.build(case["inst"])
    f = algorithm(case)
    D, d, C, L = args[1], args[2], args[3], args[4]
    out = {}
    mip.CTL.reset()
    mip.CTL.plan = {int(k): v for k, v in (plan or {}).items()}
    mip.CTL.model_plan = {int(k): v for k, v in (model_plan or {}).items()}
    mip.CTL.steal_sigint = steal
    before = (process_state(), data_state(args)) if state else None
    inj = Injector([ROOT], mode=mode, at=at, exc=Counting(kind), cap=cap,
                   post_cap=post_cap, record=record)
    inj.again = again
    inj.guard = masked
    inj.prefix = prefix
    if forks:
        inj.forks = forks
        inj.on_fork = on_fork
    mip.CTL.injector = inj
    end = None
    res = None
    try:
        if mon:
            inj.__enter__()
        try:
            res = f(*args, case["single"], case["minK"])
            end = "ret"
        finally:
            if mon:
                inj.__exit__()
    except KeyboardInterrupt as e:
        end = "int"
        res = e.args[0] if e.args else None
    except StepBudgetExceeded:
        end = "over"
    except BaseException as e:
        end = "exc"
        tb = traceback.extract_tb(e.__traceback__)
        lib = [t for t in tb if t.filename.startswith(ROOT)]
        where = (lib or tb)[-1]
        out["exc"] = type(e).__name__
        out["msg"] = str(e)[:200]
        out["where"] = "%s:%s" % (os.path.basename(where.filename), where.name)
    if case["algo"].startswith("tsp_") and end == "ret":
        out["tour_bad"] = list(TSP_BAD)
    out["end"] = end
    out["sol"] = plain(res)
    out["events"] = inj.n
    out["mip_calls"] = mip.CTL.calls
    if mip.CTL.limited:
        out["mip_limited"] = mip.CTL.limited
    out["mip_models"] = mip.CTL.models
    out["mip_fired"] = list(mip.CTL.fired)
    if inj.fired_at is not None:
        out["fired"] = list(inj.fired_loc)
        out["post"] = inj.n - inj.fired_at
        out["nfired"] = inj.fired
    if end in ("ret", "int") and res is not None:
        # judge against a fresh copy of the problem, not the one handed in
        fresh = workload.build(case["inst"]) if state else args
        out["bad"] = oracle.judge(out["sol"], fresh[1], fresh[2], C, L)
        if not out["bad"]:
            out["cost"] = oracle.cost(out["sol"], fresh[1])
    if state:
        gc.collect()
        now = (process_state(), data_state(args))
        out["changed"] = changed(before[0], now[0]) + changed(before[1], now[1])
    if getattr(inj, "child_fd", None) is not None:
        data = pickle.dumps(out)
        n = 0
        while n < len(data):
            n += os.write(inj.child_fd, data[n:])
        os._exit(0)
    if record:
        out["_trace"] = inj.trace
        out["_locs"] = inj.loc_list
    return out


def plain(sol):
    if sol is None:
        return None
    if isinstance(sol, (list, tuple)):
        r = []
        for x in sol:
            try:
                r.append(int(x) if int(x) == x else float(x))
            except Exception:
                r.append(repr(x)[:80])
        return r if isinstance(sol, list) else {"tuple": r}
    return {"type": type(sol).__name__, "repr": repr(sol)[:200]}


FORK_MIN = 6000


def sweep_points(case, points, kind, mode, E, cap, post_cap, state=False,
                 steal=False, again=None, prefix=False):
    """outcomes of injecting at each of `points` -> [(at, outcome)]"""
    if (prefix or E >= FORK_MIN) and case["algo"] not in MIP_ALGOS:
        got = []

        def on_fork(at, data):
            got.append((at, pickle.loads(data) if data else
                        dict(end="died", sol=None, events=at)))
        run(case, kind=kind, mode=mode, cap=cap, post_cap=post_cap,
            forks=set(points), on_fork=on_fork, state=state, steal=steal,
            again=again, prefix=prefix)
        return got
    return [(at, run(case, at=at, kind=kind, mode=mode, cap=cap,
                     post_cap=post_cap, state=state, steal=steal, again=again))
            for at in points]


def choose_points(rng, out, k):
    """injection instants: half stratified over the distinct code locations
    (those that ran only a few times before the hot ones), half uniform in time, plus
    the last steps of the run"""
    trace, locs = out["_trace"], out["_locs"]
    E = len(trace)
    if E == 0:
        return []
    byloc = {}
    for i, l in enumerate(trace):
        byloc.setdefault(l, []).append(i + 1)
    pts = set()
    ls = sorted(byloc)
    rng.shuffle(ls)
    # half of those among what ran only a few times (the phases between the
    # loops), where time alone almost never leads
    wt = [(rng.random() * (.4 if len(byloc[l]) <= 3 else 1), l) for l in ls]
    ls = [l for _, l in sorted(wt)]
    for l in ls[:max(1, k // 2)]:
        pts.add(rng.choice(byloc[l]))
    while len(pts) < min(E, k - 2):
        pts.add(rng.randint(1, E))
    pts.add(max(1, E - rng.randint(0, 30)))
    pts.add(rng.randint(1, min(E, 60)))
    return sorted(pts)


def shrink_case(case):
    """smaller cases"""
    inst = case["inst"]
    if case.get("var") is not None:
        yield {k: v for k, v in case.items() if k != "var"}
        for k in sorted(case["var"]):
            if k != "solve_tsp":
                yield dict(case, var={x: y for x, y in case["var"].items() if x != k})
    if inst.get("form"):
        yield dict(case, inst={k: v for k, v in inst.items() if k != "form"})
    n = len(inst["points"])
    if n > 3:
        for k in range(n - 1, 0, -1):
            yield dict(case, inst=workload.drop_customer(inst, k))
    if inst.get("L") is not None and inst.get("C"):
        yield dict(case, inst=dict(inst, L=None))
        yield dict(case, inst=dict(inst, C=None))
    if inst.get("nod") or inst.get("nopts"):
        yield dict(case, inst={k: v for k, v in inst.items() if k not in ("nod", "nopts")})
    if case["single"] is False:
        yield dict(case, single=True)
    if case["minK"]:
        yield dict(case, minK=False)
    r = [tuple(round(c) for c in p) for p in inst["points"]]
    if [tuple(p) for p in inst["points"]] != r:
        yield dict(case, inst=dict(inst, points=r))
    if inst["d"][1:] != [1] * (n - 1):
        yield dict(case, inst=dict(inst, d=[0] + [1] * (n - 1)))
