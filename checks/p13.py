"""Best-of-n solving and multi-start heuristics keep the best plan found so far."""
import numpy as np

from sim import cli, heurcli, inject, oracle, perturb, rng, single, solve, workload
from sim.single import key, less

# the starts of the multi-start heuristics: algorithm -> the functions that
# make a start (and what of their result is the plan)
STARTS = {
    "gpl": ("verypy.classic_heuristics.parallel_savings.parallel_savings_init",),
    "ss": ("verypy.classic_heuristics.parallel_savings.parallel_savings_init",),
    "gps": ("verypy.classic_heuristics.parallel_savings.parallel_savings_init",),
    "ims": ("verypy.classic_heuristics.parallel_savings.parallel_savings_init",),
    "ps2o": ("verypy.classic_heuristics.parallel_savings.parallel_savings_init",),
    "mj": ("verypy.classic_heuristics.cheapest_insertion.cheapest_insertion_init",),
    "pn": ("verypy.classic_heuristics.nearest_neighbor.nearest_neighbor_init",),
    "swp": ("verypy.classic_heuristics.sweep.do_one_sweep",),
    "gm": ("verypy.classic_heuristics.sweep.do_one_sweep",),
    "wh": ("verypy.classic_heuristics.sweep.sweep_init",),
    "cmt": ("verypy.classic_heuristics.cmt_2phase._phase_one", "verypy.classic_heuristics.cmt_2phase._phase_two"),
}
SCRIPTED = ("gpl", "ss", "gps", "mj", "pn", "swp")
CAP = 4000000


def lookup(name):
    import importlib
    mod, fn = name.rsplit(".", 1)
    try:
        return getattr(importlib.import_module(mod), fn)
    except (ImportError, AttributeError):
        return None


def plan_in(res):
    """the plan in what a start returned: a plan, routes, or a tuple with one"""
    if isinstance(res, tuple):
        for x in res:
            if isinstance(x, list) and len(x) > 2 and x[0] == 0 and x[-1] == 0:
                return [int(n) for n in x]
        return None
    if isinstance(res, list) and res and hasattr(res[0], "route"):
        return [0] + [int(n) for r in res for n in list(r.route)[1:]]
    if isinstance(res, list) and res and all(isinstance(x, (int, np.integer)) for x in res):
        return [int(n) for n in res]
    return None


class Starts:
    """a seam around the function that makes one start"""

    def __init__(self, spec, inj=None):
        self.spec = spec
        self.inj = inj
        self.plans = []
        self.done = 0
        self.depth = 0
        self.hit_inside = None
        self.undo = []
        self.scripted = 0
        self.whole = None

    def wrap(self, f):
        def start(*a, **k):
            if self.depth:
                return f(*a, **k)
            if self.spec["case"]["algo"] == "wh":
                # the improvement phase sweeps the customers of two routes
                first = a[0] if a else next(iter(k.values()), None)
                if self.whole is None:
                    self.whole = first
                if first is not self.whole:
                    return f(*a, **k)
            self.depth += 1
            try:
                s = self.spec.get("script", {}).get(str(self.done))
                if s is not None:
                    self.scripted += 1
                    if s["kind"] == "int":
                        self.hit_inside = True
                        raise KeyboardInterrupt()
                    if s["kind"] == "int plan":
                        self.hit_inside = True
                        raise KeyboardInterrupt(list(s["sol"]))
                    f(*a, **k)
                    self.plans.append(list(s["sol"]))
                    self.done += 1
                    if self.spec["case"]["algo"] == "swp":
                        from verypy.routedata import RouteData
                        D, d = workload.build(self.spec["case"]["inst"])[1:3]
                        return RouteData.from_solution(list(s["sol"]), D, d)
                    return list(s["sol"])
                try:
                    res = f(*a, **k)
                except KeyboardInterrupt as e:
                    self.hit_inside = True
                    if e.args and isinstance(e.args[0], list):
                        self.plans.append([int(x) for x in e.args[0]])
                    raise
                self.done += 1
                p = plan_in(res)
                if p:
                    self.plans.append(p)
                return res
            except KeyboardInterrupt as e:
                if s is not None and e.args:
                    self.plans.append(list(e.args[0]))
                raise
            finally:
                self.depth -= 1
        start.__name__ = f.__name__
        start.__doc__ = f.__doc__
        return start

    def __enter__(self):
        pairs = []
        for n in STARTS[self.spec["case"]["algo"]]:
            f = lookup(n)
            if f is not None:
                pairs.append((f, self.wrap(f)))
        self.undo = perturb.swap(pairs)
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        return False


class Check:
    ID = "P13"
    RULE = ("a case is one best-of-n run of the solve-a-file helper or of the runner of an individual "
            "heuristic, or one solve with a multi-start heuristic in "
            "which several starts were made, or one of them was interrupted")
    COV_MEASURE = ("distinct (helper: kinds of the starts, objective) and (algorithm, objective, how, starts "
                   "completed, how it ended)")
    REAL = ["verypy/shared_cli.py read_and_solve_a_problem, verypy/cvrp_io.py, verypy/cvrp_ops.py",
            "multi-start heuristics (savings variants, Mole-Jameson, nearest neighbor, sweep, Gillet-Miller, CMT)"]
    STUB = ["the algorithm of the helper (scripted starts)", "in the scripted cases: what a start of a heuristic "
            "returns", "delivery of SIGINT"]
    STEP_UNIT = "starts"
    ASSUMPTIONS = [
        "a start handed over by an interrupt counts, whatever handed it over",
        "an interrupt counts as in a start if it arrived in the function that makes it; between starts only P01/P02 apply",
        "the post-optimization that a heuristic does after a start only improves (more routes never count as better "
        "when the number of routes is minimized)"]
    UNITS = dict(quick=1000, thorough=20000)
    UNIT_TIMEOUT = 600

    def setup(self):
        solve.setup()
        for ns in STARTS.values():
            for n in ns:
                lookup(n)

    # -- the helper ----------------------------------------------------------
    def helper(self, spec):
        o = single.run(spec["helper"])
        return dict(end=o["end"], res=single.plan_of(o) if o["end"] in ("ret", "int") else o.get("exc"),
                    starts=len(o["calls"])), single.judge_best(spec["helper"], o)

    # -- a heuristic ---------------------------------------------------------
    def heuristic(self, spec):
        c = spec["case"]
        args = workload.build(c["inst"])
        D, d, C, L = args[1], args[2], args[3], args[4]
        at = spec.get("at")
        inj = inject.Injector([solve.ROOT], mode="line" if at else "jump", at=at, exc=KeyboardInterrupt, cap=CAP)
        inj.guard = solve.masked
        end = res = exc = None
        S = Starts(spec)
        with S:
            try:
                with inj:
                    res = solve.F[c["algo"]](*args, c["single"], c["minK"])
                end = "ret"
            except KeyboardInterrupt as e:
                end = "int"
                res = e.args[0] if e.args else None
            except inject.StepBudgetExceeded:
                end = "over"
            except Exception as e:
                end, exc = "exc", "%s: %s" % (type(e).__name__, str(e)[:120])
        o = dict(end=end, sol=solve.plain(res), starts=S.done, events=inj.n, inside=S.hit_inside,
                 plans=S.plans[-6:], scripted=S.scripted, exc=exc)
        v = None
        ctx = "%s%s: " % (c["algo"], " minimize K" if c["minK"] else "")
        if end == "exc":
            if not spec.get("script") or c["algo"] in SCRIPTED:
                v = dict(kind="crash", detail=ctx + exc)
        elif end == "over":
            v = dict(kind="does not end", detail=ctx)
        elif end == "int" and not S.hit_inside:
            pass
        elif end == "ret" and c["algo"] == "wh":
            pass            # the improvement phase may make a start worse
        elif S.hit_inside and end == "ret":
            v = dict(kind="an interrupt is swallowed", detail=ctx)
        else:
            good = [p for p in S.plans if not oracle.judge(p, D, d, C, L)]
            if good:
                best = min(good, key=lambda p: key(p, D, c["minK"]))
                kb = key(best, D, c["minK"])
                if not isinstance(o["sol"], list) or not o["sol"]:
                    v = dict(kind="the plans found are lost", detail=ctx + "%s, although %s was found" % (o["sol"], best))
                else:
                    bad = oracle.judge(o["sol"], D, d, C, L)
                    k = key(o["sol"], D, c["minK"])
                    if bad:
                        v = dict(kind="wrong plan", detail=ctx + "%s: %s" % (o["sol"], bad))
                    elif less(kb, k, 1e-5 * max(1, kb[-1])):
                        v = dict(kind="not the best plan", detail=ctx + "%s %s instead of %s %s (%s)" % (
                            o["sol"], k, best, kb, end))
        return o, v

    def heur(self, spec):
        B = heurcli.Run(spec["heur"])
        o = B.run()
        bad = heurcli.judge_best(B, o)
        return (dict(end=o["end"], starts=len(o["calls"]), out=o["out"]),
                dict(kind=bad[0][0], detail=bad[0][1]) if bad else None)

    def play(self, spec):
        if "heur" in spec:
            return self.heur(spec)
        return self.helper(spec) if "helper" in spec else self.heuristic(spec)

    def execute(self, spec):
        o, v = self.play(spec)
        return dict(violation=v, out=o)

    def specs(self, g):
        for _ in range(6):
            yield "helper", dict(helper=single.gen(g))
        for _ in range(2):
            b = heurcli.gen(g)
            while b["n"] == 1:
                b = heurcli.gen(g)
            yield "runner", dict(heur=b)
        a = g.choice(sorted(STARTS))
        hi = dict(wh=7, gps=7, mj=7, gpl=8, gm=7, cmt=8).get(a, 10)
        c = solve.gen_case(g, algo=a, nmin=3, nmax=hi, wide=True, options=False)
        c["single"] = g.random() < .15
        o = yield "plain", dict(case=c)
        for _ in range(3):
            yield "interrupt at an instant", dict(case=c, at="somewhere")
        if a in SCRIPTED and o["starts"]:
            inst = c["inst"]
            m = dict(N=len(inst["points"]) - 1, D=workload.dist(inst), d=inst["d"], C=inst["C"], L=inst["L"], st=None)
            for _ in range(3):
                script = {}
                last = g.randint(0, o["starts"] - 1)
                for i in range(last + 1):
                    if g.random() < .6:
                        p = cli.random_plan(g, m)
                        if p:
                            script[str(i)] = dict(kind="plan", sol=tidy(p))
                k = g.choice(["int", "int plan", "no"])
                if a == "swp" and k == "int plan":
                    k = "int"           # a single sweep has nothing to hand over
                if k != "no":
                    p = cli.random_plan(g, m) if k == "int plan" else None
                    script[str(last)] = dict(kind="int plan", sol=tidy(p)) if p else dict(kind="int")
                yield "scripted starts", dict(case=c, script=script)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        it = self.specs(g)
        o = None
        lines = None
        while True:
            try:
                how, spec = it.send(o)
            except StopIteration:
                break
            if spec.get("at") == "somewhere":
                if lines is None:
                    probe = dict(spec, at=10 ** 9)
                    lines = self.play(probe)[0]["events"]
                spec = dict(spec, at=g.randint(1, max(1, lines)))
            o, v = self.play(spec)
            r.evals += 1
            r.steps += o["starts"]
            r.notes[how] += 1
            r.see(how, o)
            if how == "helper":
                h = spec["helper"]
                kinds = [s["kind"] for s in h["starts"][:o["starts"]]]
                for k in kinds:
                    if k != "good":
                        r.faults["start: " + k] += 1
                r.cov.add(("helper", tuple(kinds), h["minK"]))
                if len(kinds) > 1 or (kinds and kinds[0].startswith("int")):
                    r.nontrivial.add(rng.subseed(spec))
            elif how == "runner":
                b = spec["heur"]
                r.cov.add(("runner", b["how"], b["n"], b["minK"], o["starts"], o["end"]))
                if o["starts"] > 1:
                    r.nontrivial.add(rng.subseed("runner", b["seed"]))
            else:
                c = spec["case"]
                if o["inside"]:
                    r.faults["interrupt in a start"] += 1
                elif o["end"] == "int":
                    r.faults["interrupt between starts"] += 1
                r.cov.add((c["algo"], c["minK"], how, min(o["starts"], 12), o["end"], bool(o["sol"])))
                if o["starts"] > 1 or o["inside"]:
                    r.nontrivial.add(rng.subseed(spec))
            if v:
                r.violation(spec, v["kind"], v["detail"])
        r.samples.append(dict(how=how, spec=spec, out=o))

    def shrink(self, spec):
        if "heur" in spec:
            b = spec["heur"]
            for i in range(len(b["files"])):
                if len(b["files"]) > 1:
                    nb = dict(b, files=b["files"][:i] + b["files"][i + 1:])
                    if b.get("out"):
                        nb["out"] = b["out"][:i] + b["out"][i + 1:]
                    yield dict(heur=nb)
            return
        if "helper" in spec:
            h = spec["helper"]
            for i in range(len(h["starts"])):
                if len(h["starts"]) > 1:
                    yield dict(helper=dict(h, starts=h["starts"][:i] + h["starts"][i + 1:], n=h["n"] - 1))
            if h["verbosity"] != -1:
                yield dict(helper=dict(h, verbosity=-1))
            return
        for k in list(spec.get("script", {})):
            yield dict(spec, script={a: b for a, b in spec["script"].items() if a != k})
        if not spec.get("script"):
            for c in solve.shrink_case(spec["case"]):
                yield dict(spec, case=c)

    def research(self, cand, kind):
        o = self.execute(cand)
        if o["violation"] and o["violation"]["kind"] == kind:
            return cand, o["violation"]
        if cand.get("at"):
            g = rng.derive("research", cand["case"])
            n = self.play(dict(cand, at=10 ** 9))[0]["events"]
            for _ in range(60):
                s = dict(cand, at=g.randint(1, max(1, n)))
                o = self.execute(s)
                if o["violation"] and o["violation"]["kind"] == kind:
                    return s, o["violation"]
        return False


def tidy(p):
    s = [0]
    for r in oracle.split_routes(p):
        s += r + [0]
    return s
