"""Simulated runs of the runner of an individual heuristic (shared_cli.cli) and
of a TSP solver (shared_cli.tsp_cli): a scratch folder of problem files behind
a faulty storage seam or a random problem, scripted or real algorithms with
several starts, an interrupt at any instant; what is printed is parsed and
judged against what should have been."""
import contextlib
import io
import os
import random
import re
import shutil
import sys
import time

import numpy as np

from . import cli, fsorder, mip, oracle, perturb, rng, single, solve, tsplib, vfile
from .inject import CpuCap, Injector, StepBudgetExceeded

FAULTS = [f for f in cli.FILE_FAULTS if f != "folder"]


# -- generation ------------------------------------------------------------
def gen(g, wild=False):
    n = g.choice([1, 1, 1, 2, 3])
    b = dict(n=n, minK=g.random() < .4, verbosity=g.choice([0, 0, 1, 2, 3]), single=g.random() < .3,
             timed=g.random() < .3, seed=g.randrange(1 << 30), files=[], opts=[])
    b["log"] = g.random() < .2
    b["okey"] = g.choice(["K", "vehicles", "k"] if b["minK"] else ["cost", "c", None, None])
    if g.random() < .25:
        b["how"] = "random"
        b["N"] = g.randint(1, 7)
        if g.random() < .25:
            b["real"] = [g.choice(["ps", "sn", "swp", "rfcs", "ss"])]
        else:
            b["starts"] = [kind(g, wild) for _ in range(n)]
        return b
    q = cli.gen_batch(g, wild=wild)
    b["files"] = [f for f in q["files"] if f["fault"] != "folder"] or [dict(q["files"][0], fault=None)]
    for f in b["files"]:
        if f["fault"] == "transient 3":
            f["fault"] = "transient 1"
    b["how"] = "one" if len(b["files"]) == 1 and g.random() < .5 else g.choice(["dir", "list"])
    if g.random() < .2:
        b["real"] = [g.choice(["ps", "sn", "pi", "swp", "rfcs", "ss", "cmt"])]
        b["n"] = 1
        return b
    b["out"] = []
    for f in b["files"]:
        m = tsplib.meaning(f["p"])
        b["out"].append([cli.gen_outcome(g, m, wild) if g.random() < .7 else
                         cli.gen_outcome(g, m, False) for _ in range(n)])
    if g.random() < .3:
        i, a = g.randrange(len(b["files"])), g.randrange(n)
        o = b["out"][i][a]
        b["out"][i][a] = dict(kind="int", sol=o["sol"]) if "sol" in o else \
            dict(kind="int", what=g.choice(["nothing", "None", "text", "tuple"]))
    return b


def kind(g, wild):
    return g.choice(["good"] * 6 + ["none", "empty", "int", "int plan"] + (["missing", "over"] if wild else []))


class Run(cli.Batch):
    def named(self, points, D, d, C, L, st, ewt, single, minimize_K):
        """one start of the scripted algorithm"""
        i = self.identify((points, D, d, C, L, st)) if self.b["how"] != "random" else -1
        k = self.count.get(i, 0)
        self.count[i] = k + 1
        self.calls.append((i, k))
        self.flags.add((bool(single), bool(minimize_K)))
        b = self.b
        if i is None:
            raise ValueError("unknown problem")
        if i == -1:
            self.random_problem = dict(N=len(D) - 1, D=np.asarray(D, dtype=float).tolist(), st=st,
                                       d=[float(x) for x in d], C=C, L=L)
        if b.get("real"):
            sol = None
            try:
                sol = solve.F[b["real"][0]](points, D, d, C, L, st, ewt, single, minimize_K)
            except KeyboardInterrupt as e:
                sol = e.args[0] if e.args and type(e.args[0]) is list else None
                raise
            finally:
                if sol:
                    self.plans.setdefault(i, []).append(list(sol))
            return sol
        if i == -1:
            s = b["starts"][k]
            sol = None
            if s not in ("none", "empty", "int"):
                g = rng.derive("start", b["seed"], k)
                sol = cli.random_plan(g, self.random_problem, s if s in ("missing", "over") else "good")
            o = dict(kind={"int plan": "int", "int": "int", "none": "none", "empty": "none"}.get(s, s),
                     what={"empty": "[]", "int": "nothing"}.get(s, "None"))
            if sol:
                o["sol"] = sol
            elif o["kind"] not in ("none", "int"):
                o["kind"] = "none"
        else:
            o = b["out"][i][k]
        if o["kind"] == "exc":
            self.fired.append("algorithm fails: " + o["exc"])
            self.failed.add(i)
            raise cli.EXCS[o["exc"]]("simulated failure")
        if o.get("sol"):
            self.plans.setdefault(i, []).append(list(o["sol"]))
        if o["kind"] == "int":
            self.fired.append("interrupt with a plan" if "sol" in o else "interrupt without a plan")
            self.stopped = True
            if o.get("sol"):
                raise KeyboardInterrupt(list(o["sol"]))
            if o["what"] == "nothing":
                raise KeyboardInterrupt()
            raise KeyboardInterrupt({"None": None, "text": "^C", "tuple": (0, 1, 0)}[o["what"]])
        if o["kind"] == "none":
            self.fired.append("algorithm finds nothing")
            return None if o["what"] == "None" else []
        if o["kind"] != "good":
            self.fired.append("wrong plan: " + o["kind"])
        return list(o["sol"])

    def sim_open(self, path, mode, real):
        before = len(self.fired)
        try:
            return cli.Batch.sim_open(self, path, mode, real)
        finally:
            if len(self.fired) > before:
                self.bad_files.add(self.byname[path])

    def run(self, at=None, record=False, cap=2000000):
        import verypy.shared_cli as sc
        b = self.b
        self.build()
        self.ms = [tsplib.meaning(f["p"]) for f in b["files"]]
        self.calls, self.fired, self.opens, self.plans = [], [], {}, {}
        self.count, self.flags, self.failed, self.bad_files = {}, set(), set(), set()
        self.stopped = False
        self.first_open = None
        self.random_problem = None
        mip.CTL.reset()
        argv = ["heuristic", "-v", str(b["verbosity"]), "-n", str(b["n"])]
        if b["single"]:
            argv.append("-1")
        if b["timed"]:
            argv.append("-t")
        if b["okey"]:
            argv += ["-b", b["okey"]]
        if b["log"]:
            argv += ["-l", os.path.join(self.dir, "log.out")]
        argv.append(str(b["N"]) if b["how"] == "random" else self.arg)
        out, err = io.StringIO(), io.StringIO()
        random.seed(b["seed"])
        np.random.seed(b["seed"])
        clock = [1000.0]

        def fake_time():
            clock[0] += .25
            return clock[0]
        self.inj = inj = Injector([solve.ROOT], at=at, exc=solve.Counting("interrupt"), cap=cap, record=record)
        inj.guard = solve.masked
        mip.CTL.injector = inj
        logs = cli.save_logging()
        undo = perturb.swap([(time.time, fake_time)])
        so, se, sa = sys.stdout, sys.stderr, sys.argv
        sys.stdout, sys.stderr, sys.argv = out, err, argv
        end, exc = "ret", None
        try:
            with fsorder.Order(self.dir, self.arrange), vfile.Storage(self.dir, self.sim_open), inj:
                sc.cli("HEUR", "scripted", self.named)
        except KeyboardInterrupt:
            end = "int"
        except StepBudgetExceeded:
            end = "over"
        except SystemExit:
            end = "exit"
        except BaseException as e:
            end, exc = "exc", "%s: %s" % (type(e).__name__, str(e)[:200])
        finally:
            sys.stdout, sys.stderr, sys.argv = so, se, sa
            for m, k, v in undo:
                setattr(m, k, v)
            cli.restore_logging(logs)
            shutil.rmtree(self.dir, ignore_errors=True)
        clean = lambda s: s.replace(self.dir, "<dir>")
        o = dict(end=end, exc=exc and clean(exc), out=clean(out.getvalue()), err=clean(err.getvalue()),
                 calls=list(self.calls), fired=list(self.fired), events=inj.n, flags=sorted(self.flags),
                 injected=list(inj.fired_loc) if inj.fired_at else None)
        if record:
            o["_trace"], o["_locs"] = inj.trace, inj.loc_list
        return o


# -- judging ---------------------------------------------------------------
def sections(o):
    """what was printed of each file: [(name, text)]"""
    parts = re.split(r"^Solve (.*) with HEUR$", o["out"], flags=re.M)
    return list(zip(parts[1::2], parts[2::2]))


def order(B):
    """as listed; in a folder by kind of file and name"""
    idx = list(range(len(B.b["files"])))
    if B.b["how"] == "dir":
        kinds = [".vrp", ".tsp", ".pickle"]
        idx.sort(key=lambda i: (kinds.index(B.b["files"][i]["ext"]), os.path.basename(B.paths[i])))
    return idx


def judge_p06(B, o):
    b = B.b
    if o["end"] == "exc":
        # a real algorithm may refuse a problem or an option
        return [] if b["how"] == "random" and b.get("real") else [("the run fails", o["exc"])]
    if o["end"] == "over":
        return [("the run does not end", "")]
    bad = []
    if b["how"] == "random":
        if not o["injected"]:
            want = len(b["starts"]) if "starts" in b else b["n"]
            for k, s in enumerate(b.get("starts", [])):
                if s.startswith("int"):
                    want = k + 1
                    break
            if len(o["calls"]) != want:
                bad.append(("wrong number of starts", "%d instead of %d" % (len(o["calls"]), want)))
            if B.plans.get(-1) and "SOLUTION:" not in o["out"]:
                bad.append(("a plan is lost", str(B.plans)))
        return bad
    secs = sections(o)
    idx = order(B)
    names = [os.path.basename(B.paths[i]) for i in idx]
    got = [s[0] for s in secs]
    if got != names[:len(got)]:
        return [("another order of the files", "%s instead of %s" % (got, names))]
    stop = None
    for pos, i in enumerate(idx):
        name = names[pos]
        if pos >= len(secs):
            if not (B.stopped or o["injected"]):
                bad.append(("a file is not solved", "%s of %s; ended with %s" % (name, names, o["end"])))
            break
        last = pos == len(secs) - 1
        if o["injected"] and last:
            break                        # the one that was interrupted
        made = [k for f, k in o["calls"] if f == i]
        plans = B.plans.get(i)
        # this runner does not read pickled problems
        if i in B.bad_files or b["files"][i]["ext"] == ".pickle":
            if not made and name not in o["err"]:
                bad.append(("a failing file is not told", "%s: %s" % (name, o["err"][:200])))
            continue
        if i in B.failed:
            if name not in o["err"]:
                bad.append(("a failing file is not told", "%s: %s" % (name, o["err"][:200])))
            continue
        stopped = False
        if not b.get("real"):
            want = 0
            for q in b["out"][i]:
                want += 1
                if q["kind"] == "int":
                    stopped = True
                    break
            if len(made) != want:
                bad.append(("wrong number of starts", "%s: %d instead of %d" % (name, len(made), want)))
        if plans and "SOLUTION:" not in secs[pos][1]:
            bad.append(("a plan is lost", "%s: %s" % (name, plans)))
        if stopped and not last:
            bad.append(("goes on after an interrupt", name))
    if B.stopped and o["end"] != "int":
        bad.append(("an interrupt is swallowed", o["end"]))
    if o["injected"] and o["end"] != "int" and not b.get("real"):
        bad.append(("an interrupt is swallowed", "%s at %s" % (o["end"], o["injected"])))
    for fl in o["flags"]:
        if tuple(fl) != (b["single"], b["minK"]):
            bad.append(("a start with other options", str(fl)))
    if any(i is None for i, _ in o["calls"]):
        bad.append(("a start with another problem", str(o["calls"])))
    return bad


def judge_p07(B, o):
    """the numbers printed"""
    b = B.b
    if b["how"] == "random":
        todo = [(-1, "random", o["out"])]
    else:
        todo = []
        secs = sections(o)
        for pos, i in enumerate(order(B)[:len(secs)]):
            todo.append((i,) + secs[pos])
    bad = []
    for i, name, t in todo:
        if "SOLUTION:" not in t:
            continue
        if o["injected"] and (i, name, t) == todo[-1]:
            continue                     # may be incomplete
        a = re.search(r"SOLUTION:\s*\[([-0-9, ]*)\]", t)
        if not a:
            bad.append(("unreadable report", t[-300:]))
            continue
        plan = [int(x) for x in a.group(1).split(",")]
        plans = B.plans.get(i, [])
        m = B.random_problem if i == -1 else B.ms[i]
        if single.sets(plan) not in [single.sets(x) for x in plans]:
            bad.append(("a plan out of nowhere", "%s: %s, not of %s" % (name, plan, plans)))
            continue
        v = single.judge_numbers(dict(p=None, verbosity=b["verbosity"]), dict(end="int", res=plan, out=t), m=m)
        if v:
            bad.append((v["kind"], "%s: %s" % (name, v["detail"])))
    return bad


def judge_best(B, o):
    """the best of the starts"""
    b = B.b
    if o["injected"] or o["end"] in ("exc", "over"):
        return []
    todo = [(-1, o["out"])] if b["how"] == "random" else \
        [(i, s[1]) for i, s in zip(order(B), sections(o))]
    for i, t in todo:
        a = re.search(r"SOLUTION:\s*\[([-0-9, ]*)\]", t)
        if not a or not B.plans.get(i) or i in B.failed:
            continue
        m = B.random_problem if i == -1 else B.ms[i]
        Dc = tsplib.with_service(m["D"], m["st"]) if i != -1 else m["D"]
        k = single.key([int(x) for x in a.group(1).split(",")], Dc, b["minK"])
        for x in B.plans[i]:
            kx = single.key(x, Dc, b["minK"])
            if single.less(kx, k, 1e-6 * max(1, k[-1])):
                return [("not the best plan", "minimize %s: printed %s, not %s %s" % (
                    "K" if b["minK"] else "cost", k, x, kx))]
    return []


# -- TSP solvers -----------------------------------------------------------
def gen_tsp(g):
    p = tsplib.gen(g, 1, 8, name="t", service=False)
    return dict(p=p, solver=g.choice([s for s in ("ropt", "fast", "gurobi", "lkh", "acotsp")]),
                depot=p["depot"])


def run_tsp(spec):
    import importlib
    import verypy.shared_cli as sc
    name = spec["solver"]
    try:
        f = getattr(importlib.import_module("verypy.tsp_solvers.tsp_solver_" + name), "solve_tsp_" + name)
    except (ImportError, AttributeError):
        return None
    d_ = fsorder.scratch("tsp")
    out, err = io.StringIO(), io.StringIO()
    o = dict(end="ret")
    sa = sys.argv
    mip.CTL.reset()
    try:
        path = os.path.join(d_, "t.tsp")
        with open(path, "w") as fh:
            fh.write(tsplib.text(spec["p"]))
        sys.argv = ["tsp", path]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), CpuCap():
            try:
                sc.tsp_cli(name, f)
            except StepBudgetExceeded:
                o.update(end="exc", exc="does not end")
            except Exception as e:
                o.update(end="exc", exc="%s: %s" % (type(e).__name__, str(e)[:150].replace(d_, "<dir>")))
    finally:
        sys.argv = sa
        shutil.rmtree(d_, ignore_errors=True)
    o["out"] = re.sub(r" in [0-9.]+ s", " in <t> s", out.getvalue())
    return o


def judge_tsp(spec, o):
    m = tsplib.meaning(spec["p"])
    if o["end"] != "ret":
        return dict(kind="the TSP run fails", detail="%s: %s" % (spec["solver"], o["exc"]))
    a = re.search(r"^SOLUTION: \[(.*)\]\s*^COST: (\S+)", o["out"], re.M | re.S)
    if not a:
        return dict(kind="no TSP report", detail=o["out"][-200:])
    tour = [int(x) for x in re.findall(r"\d+", re.sub(r"np\.\w+\((\d+)\)", r"\1", a.group(1)))]
    c = float(re.sub(r"np\.\w+\((.*)\)", r"\1", a.group(2)))
    true = sum(m["D"][x][y] for x, y in zip(tour, tour[1:]))
    if abs(c - true) > 1e-6 * max(1, true):
        return dict(kind="wrong TSP cost", detail="%s: tour %s, printed %r, costs %r" % (spec["solver"], tour, c, true))
    if sorted(tour[:-1] if tour[0] == tour[-1] else tour) != list(range(m["N"] + 1)):
        return dict(kind="not a tour", detail="%s: %s" % (spec["solver"], tour))
    return None
