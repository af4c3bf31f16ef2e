"""TSP solvers return a complete tour with its true cost, or fail loudly."""
import gc

from sim import extproc, inject, mip, oracle, rng, solve

PRECISION = 1000.0
EXTERNAL = ("lkh", "acotsp")
HEURISTICS = ("ty", "rfcs", "lr3o", "cmt")


class ExtCheck:
    REAL = ["verypy/tsp_solvers/*.py", "verypy/cvrp_io.py write_TSPLIB_file", "temporary files (in a scratch folder)",
            "Gurobi, where a solver calls it"]
    STUB = ["the external programs LKH and ACOTSP, process table, pipes (simulated)",
            "failures of file operations", "delivery of SIGINT"]
    STEP_UNIT = "operations on files and processes"
    UNIT_TIMEOUT = 600

    def setup(self):
        extproc.prepare()
        solve.setup()
        extproc.setup()

    # -- one simulated history ------------------------------------------------
    def play(self, spec):
        mip.CTL.reset()
        mip.CTL.plan = {int(k): v for k, v in spec.get("mip", {}).items()}
        gc.collect()
        with extproc.World(spec) as w:
            outs, leaks = [], []
            nest = []

            def nested():
                was, w.nested = (w.nested, w.interrupted), lambda: None
                try:
                    c = spec["nested"]
                    nest.append(extproc.call(c["solver"], c, w))
                finally:
                    w.nested, w.interrupted = was
            if spec.get("nested"):
                w.nested = nested
            w.active = True
            for c in spec["calls"]:
                fds = extproc.descriptors()
                files = w.files()
                if "case" in c:
                    o = self.heuristic(c["case"])
                else:
                    o = extproc.call(c["solver"], c, w)
                gc.collect()
                o["procs"] = [(p.b["kind"], p.b.get("code"), p.code, p.state, p.tour, p.note) for p in w.procs]
                outs.append(o)
                w.active = False
                leaks.append(w.leaks(fds, files))
                w.active = True
                o["interrupted"] = w.interrupted
                o["fired"] = list(w.fired)
                w.interrupted = False
                w.fired = []
                w.procs = []
            w.active = False
        return dict(outs=outs, leaks=leaks, ops=w.ops, trace=w.trace, nest=nest, mip=list(mip.CTL.fired))

    def heuristic(self, case):
        from sim import workload
        args = workload.build(case["inst"])
        o = dict(changed=False)
        try:
            with inject.CpuCap(60):
                sol = solve.F[case["algo"]](*args, case["single"], case["minK"])
            o["end"], o["sol"] = "ret", solve.plain(sol)
        except KeyboardInterrupt as e:
            o["end"], o["sol"] = "int", solve.plain(e.args[0]) if e.args else None
        except (extproc.Blocked, inject.StepBudgetExceeded) as e:
            o["end"], o["exc"], o["sol"] = "blocked", str(e), None
        except Exception as e:
            o["end"], o["exc"], o["sol"] = "exc", type(e).__name__, None
        o["bad"] = oracle.judge(o["sol"], *args[1:5]) if o["sol"] is not None else []
        return o

    def execute(self, spec):
        H = self.play(spec)
        bad = self.judge(spec, H)
        return dict(violation=bad, outs=H["outs"], leaks=H["leaks"])

    def note(self, r, how, spec, H):
        r.evals += 1
        r.steps += H["ops"]
        r.see(how, H["outs"], H["leaks"], H["trace"])
        hit = False
        for c, o in zip(spec["calls"], H["outs"]):
            for f in o["fired"]:
                r.faults[f] += 1
                hit = True
            for p in o["procs"]:
                if p[0] != "ok":
                    r.faults["program: " + p[0]] += 1
                    hit = True
                r.cov.add((c.get("solver") or c["case"]["algo"], p[0], p[2], o["end"]))
            r.cov.add((c.get("solver") or c["case"]["algo"], tuple(o["fired"]), o["end"]))
        for k, f in H["mip"]:
            r.faults["MIP " + f] += 1
            hit = True
        if hit or self.ID == "P08":
            r.nontrivial.add(rng.subseed(spec))
        v = self.judge(spec, H)
        if v:
            r.violation(spec, v["kind"], v["detail"])
        if len(r.samples) < 2:
            r.samples.append(dict(how=how, spec=spec, outs=H["outs"], leaks=H["leaks"]))

    def shrink(self, spec):
        if spec.get("nested"):
            yield {k: v for k, v in spec.items() if k != "nested"}
        if len(spec["calls"]) > 1:
            for i in range(len(spec["calls"])):
                yield dict(spec, calls=spec["calls"][:i] + spec["calls"][i + 1:])
        for k in spec.get("faults", {}):
            yield dict(spec, faults={a: b for a, b in spec["faults"].items() if a != k})
        for i, b in enumerate(spec["behave"]):
            for k in ("turn", "flip", "lie", "crlf", "bare", "noeof", "chatty", "eager", "tries"):
                if k in b:
                    nb = {x: y for x, y in b.items() if x != k}
                    yield dict(spec, behave=spec["behave"][:i] + [nb] + spec["behave"][i + 1:])
        for i, c in enumerate(spec["calls"]):
            if "case" in c:
                for n in solve.shrink_case(c["case"]):
                    yield dict(spec, calls=spec["calls"][:i] + [dict(case=n)] + spec["calls"][i + 1:])
            elif len(c["sel"]) > 2:
                for j in range(len(c["sel"])):
                    n = dict(c, sel=c["sel"][:j] + c["sel"][j + 1:])
                    yield dict(spec, calls=spec["calls"][:i] + [n] + spec["calls"][i + 1:])


class Check(ExtCheck):
    ID = "P08"
    RULE = ("a case is one history of calls of TSP solvers (or of a heuristic that uses the simulated LKH) with what "
            "the external program did in each; every tour was recalculated")
    COV_MEASURE = "distinct (solver, behaviour of the program, exit code, outcome) and (solver, faults, outcome)"
    ASSUMPTIONS = [
        "a selection of at least two different nodes, not closed (the first node is not repeated)",
        "the external program is replaced by a simulated one that reads the written files as LKH/ACOTSP would and "
        "finds an optimal tour for up to 8 nodes",
        "real distances are handed to the program with three decimals: the tour is optimal up to that rounding"]
    UNITS = dict(quick=1600, thorough=40000)

    def judge(self, spec, H):
        for c, o in list(zip(spec["calls"], H["outs"])) + [(spec.get("nested"), x) for x in H["nest"]]:
            name = c.get("solver") or c["case"]["algo"]
            ctx = "%s with %s: " % (name, [p[:3] for p in o.get("procs", [])] or spec["behave"][:2])
            if H["mip"]:
                ctx += "MIP faults %s: " % H["mip"]
            if o["end"] == "blocked":
                return dict(kind="never ends", detail=ctx + o["exc"])
            if o["changed"]:
                return dict(kind="the arguments are changed", detail=ctx)
            hurt = o.get("interrupted") or any(k == "interrupt" for _, k in H["mip"])
            if o["end"] == "int" and not hurt and o in H["outs"]:
                return dict(kind="interrupt out of nowhere", detail=ctx)
            if o["end"] == "ret" and o.get("interrupted"):
                return dict(kind="an interrupt is swallowed", detail=ctx)
            if "case" in c:
                if o["bad"]:
                    return dict(kind="wrong plan of a heuristic (%s)" % ", ".join(oracle.classes(o["bad"])),
                                detail=ctx + "%s: %s" % (o["sol"], o["bad"]))
                good = all(p[0] == "ok" for p in o["procs"]) and not o["fired"]
                if good and o["end"] != "ret":
                    return dict(kind="a heuristic fails", detail=ctx + o.get("exc", o["end"]))
                if o["end"] == "ret" and not o["sol"]:
                    return dict(kind="no plan and no error", detail=ctx)
                continue
            D = extproc.matrix(c)
            if o["end"] == "ret":
                bad = oracle.judge_tour(o["tour"], o["cost"], c["sel"], D)
                if bad:
                    return dict(kind="wrong tour: " + bad[0].split(" ")[0], detail=ctx + "%s of %s: %s" % (
                        o["tour"], c["sel"], bad))
            if name in EXTERNAL or o.get("procs"):
                good = all(p[0] == "ok" for p in o.get("procs", [])) and not o.get("fired") and o in H["outs"]
                if good and o["end"] != "ret" and not H["mip"]:
                    return dict(kind="fails although the program did its job", detail=ctx + o.get("exc", o["end"]))
                if good and o["end"] == "ret" and len(c["sel"]) <= 8 and o["procs"]:
                    sub = [[float(D[a, b]) for b in c["sel"]] for a in c["sel"]]
                    t = extproc.best_tour(sub)
                    best = sum(sub[t[i - 1]][t[i]] for i in range(len(t)))
                    tol = (len(t) / PRECISION if c["real"] else 0) + 1e-6 * max(1, best)
                    if o["cost"] > best + tol:
                        return dict(kind="not the tour the program found", detail=ctx + "%s %s, best is %s" % (
                            o["tour"], o["cost"], best))
        return None

    def specs(self, g):
        E = extproc
        for _ in range(14):
            calls = [dict(E.gen_call(g), solver=g.choice(EXTERNAL)) for _ in range(g.choice([1, 1, 2, 3]))]
            spec = dict(calls=calls, behave=[E.gen_behaviour(g) for _ in calls])
            if g.random() < .25:
                b = spec["behave"][0]
                b.update(kind="ok", nested=g.choice(["before", "after"]))
                b.pop("code", None)
                spec["behave"].insert(1, E.gen_behaviour(g, ("ok", "ok", "silent", "torn")))
                spec["nested"] = dict(E.gen_call(g, nmin=4), solver=calls[0]["solver"])
            if g.random() < .3:
                spec["faults"] = {str(g.randint(1, 30)): g.choice(["EIO", "ENOSPC", "EMFILE", "interrupt"])}
            yield "external", spec
        for _ in range(3):
            big = g.random() < .3
            c = dict(E.gen_call(g, nmin=20, nmax=24) if big else E.gen_call(g), solver="fast")
            yield "fast", dict(calls=[c], behave=[E.gen_behaviour(g)])
        for _ in range(3):
            c = dict(E.gen_call(g), solver=g.choice(["gurobi", "gurobi", "ropt"]))
            spec = dict(calls=[c], behave=[])
            if c["solver"] == "gurobi" and g.random() < .4:
                spec["mip"] = {"1": g.choice(["timeout", "timeout with a solution", "interrupt", "error", "memory",
                                              "numeric"])}
            yield "internal", spec
        for _ in range(4):
            yield "internal", dict(calls=[dict(E.gen_call(g, nmax=12), solver=g.choice(["ropt", "2opt", "3opt"]))],
                                   behave=[])
        for _ in range(2):
            a = g.choice(HEURISTICS)
            case = solve.gen_case(g, algo=a, nmin=3, nmax=dict(lr3o=5).get(a, 8), options=False)
            n = g.choice([0, 0, 1, 2, 6])
            bad = [E.gen_behaviour(g) for _ in range(n)]
            ok = [E.gen_behaviour(g, ("ok",), 0) for _ in range(3)]
            behave = ok[:g.randint(0, 2)] + bad + ok
            yield "heuristic", dict(calls=[dict(case=case)], behave=behave)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        for how, spec in self.specs(g):
            r.notes[how] += 1
            self.note(r, how, spec, self.play(spec))
