from sim import oracle, rng, solve
from sim.solvecheck import CAP, REAL, STUB, strip

KINDS = ("timeout", "timeout", "timeout with a solution", "interrupt", "error",
         "memory", "numeric")


class Check:
    ID = "P15"
    RULE = ("a case is one solve of a MIP based algorithm (or of the Gurobi TSP solver) in which at "
            "least one planned fault of the MIP solver really fired")
    COV_MEASURE = "distinct (algorithm, fault kind, number of the solver call, how the solve ended)"
    REAL, STUB = REAL, STUB
    ASSUMPTIONS = [
        "a fault of the MIP solver is a status (TIME_LIMIT without or with an incumbent, INTERRUPTED, "
        "NUMERIC) or a GurobiError (failure, out of memory, no license when a model is created)",
        "the size-limited Gurobi license bounds the instances to about 10 customers"]
    UNITS = dict(quick=500, thorough=5000)
    UNIT_TIMEOUT = 600

    def setup(self):
        solve.setup()
        solve.add_tsp()

    def run(self, spec):
        return solve.run(spec["case"], cap=CAP, plan=spec.get("plan"),
                         model_plan=spec.get("models"))

    def execute(self, spec):
        o = self.run(spec)
        return dict(violation=self.judge(spec, o), out=strip(o))

    def judge(self, spec, o):
        a = spec["case"]["algo"]
        kinds = sorted(set(k for _, k in o["mip_fired"]))
        ctx = "%s with MIP faults %s" % (a, o["mip_fired"])
        if o["end"] == "over":
            return dict(kind="never ends", detail=ctx)
        if a == "tsp_gurobi":
            if o["end"] == "ret" and o.get("tour_bad"):
                return dict(kind="wrong tour", detail="%s: %s" % (ctx, o["tour_bad"]))
        elif o["sol"] is not None and o.get("bad"):
            return dict(kind="wrong plan (%s): %s" % (o["end"], ", ".join(oracle.classes(o["bad"]))),
                        detail="%s: %s %s" % (ctx, o["sol"], o["bad"]))
        elif o["end"] == "ret" and o["sol"] is None and a != "gap":
            return dict(kind="no plan and no error", detail=ctx)
        if o["end"] == "int" and "interrupt" not in kinds:
            return dict(kind="interrupt out of nowhere", detail=ctx)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        a = g.choice(["gap", "ptl", "mbsa", "gap", "ptl", "mbsa", "tsp_gurobi"])
        case = solve.gen_case(g, algo=a, nmin=2 if a != "tsp_gurobi" else 3,
                              nmax={"gap": 7, "ptl": 7, "mbsa": 9, "tsp_gurobi": 8}[a])
        base = self.run(dict(case=case))
        r.evals += 1
        r.steps += base["events"]
        r.see(strip(base))
        calls, models = base["mip_calls"], base["mip_models"]
        if not calls:
            r.notes["no MIP solve in the run"] += 1
            return
        specs = []
        ks = list(range(1, calls + 1))
        for k in (ks if len(ks) <= 6 else g.sample(ks, 6)):
            for f in sorted(set(KINDS)):
                if g.random() < .5:
                    specs.append(dict(case=case, plan={str(k): f}))
        for _ in range(5):      # sequences; a fault may lead to more calls
            p = g.choice([.15, .4, 1.0])
            plan = {str(k): g.choice(KINDS) for k in range(1, calls + 12) if g.random() < p}
            specs.append(dict(case=case, plan=plan))
        one = g.choice(KINDS)
        specs.append(dict(case=case, plan={str(k): one for k in range(1, 400)}))
        k = g.randint(1, models)
        specs.append(dict(case=case, models={str(k): "license"}))
        specs.append(dict(case=case, models={str(j): "license" for j in range(k, 400)}))
        for s in specs:
            o = self.run(s)
            r.evals += 1
            r.steps += o["events"]
            r.see(strip(o))
            for k, f in o["mip_fired"]:
                r.faults["MIP " + f] += 1
                r.cov.add((a, f, min(k, 30), o["end"]))
            if o["mip_fired"]:
                r.nontrivial.add((a, rng.subseed(case["inst"]["points"]), str(o["mip_fired"])))
                r.notes["ended %s%s" % (o["end"], " with a plan" if o["sol"] is not None else "")] += 1
            v = self.judge(s, o)
            if v:
                r.violation(s, v["kind"], v["detail"])
        r.samples.append(dict(spec=s, end=o["end"], plan=o["sol"], faults=o["mip_fired"]))

    def shrink(self, spec):
        plan = spec.get("plan") or {}
        if len(plan) > 1:
            ks = sorted(plan, key=int)
            yield dict(spec, plan={k: plan[k] for k in ks[:len(ks) // 2]})
            if len(ks) < 30:
                for k in ks:
                    yield dict(spec, plan={j: f for j, f in plan.items() if j != k})
        for c in solve.shrink_case(spec["case"]):
            yield dict(spec, case=c)
