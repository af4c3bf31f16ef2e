from sim import cli, heurcli, rng, single
from checks.p06 import CliCheck


class Check(CliCheck):
    ID = "P07"
    RULE = ("a case is one batch run of the command line runner, of the runner of an individual heuristic or of a TSP "
            "solver, or one run of the solve-a-file helper, in which at "
            "least one plan was obtained; every number it printed or returned was recalculated independently from "
            "the generated problem")
    COV_MEASURE = ("distinct (number of files, outcome of an attempt, distance type, options), "
                   "(source location of the interrupt, how the runner ended) and (helper: kinds of the starts, "
                   "verbosity, service time, limits)")
    ASSUMPTIONS = [
        "scripted algorithms take the place of the real ones in 70% of the batches, and also return "
        "infeasible and incomplete plans (known nodes only)"]
    UNITS = dict(quick=120, thorough=3000)
    HELPERS = 40
    wild = True

    def gen(self, g):
        return cli.gen_batch(g, wild=True, faults=g.random() < .3)

    TSP = 6

    def judge(self, B, o):
        return cli.judge_p07(B, o)

    def judge_heur(self, B, o):
        return heurcli.judge_p07(B, o)

    def execute(self, spec):
        if "tsp" in spec:
            o = heurcli.run_tsp(spec["tsp"])
            return dict(violation=heurcli.judge_tsp(spec["tsp"], o), out=o["out"])
        if "helper" in spec:
            o = single.run(spec["helper"])
            return dict(violation=single.judge_numbers(spec["helper"], o), end=o["end"], plan=single.plan_of(o)
                        if o["end"] in ("ret", "int") else o.get("exc"))
        return CliCheck.execute(self, spec)

    def unit(self, r, seed, index, tier):
        CliCheck.unit(self, r, seed, index, tier)
        g = rng.derive(self.ID, "tsp", seed, index)
        for _ in range(self.TSP):
            q = heurcli.gen_tsp(g)
            o = heurcli.run_tsp(q)
            if o is None:
                continue                     # the external program is not there
            v = heurcli.judge_tsp(q, o)
            r.evals += 1
            r.notes["runner of a TSP solver"] += 1
            r.see("tsp", o["end"], o["out"])
            r.cov.add(("tsp", q["solver"], q["p"]["ewt"], q["p"]["n"]))
            r.nontrivial.add(rng.subseed("tsp", q))
            if v:
                r.violation(dict(tsp=q), v["kind"], v["detail"])
        g = rng.derive(self.ID, "helper", seed, index)
        for _ in range(self.HELPERS):
            h = single.gen(g, wild=True)
            o = single.run(h)
            v = single.judge_numbers(h, o)
            p = single.plan_of(o) if o["end"] in ("ret", "int") else o.get("exc")
            r.evals += 1
            r.notes["helper"] += 1
            r.see("helper", o["end"], p, o["out"])
            kinds = tuple(s["kind"] + s.get("style", "") for s in h["starts"][:len(o["calls"])])
            for s in h["starts"][:len(o["calls"])]:
                if s["kind"] != "good" or s["style"] != "good":
                    r.faults["start: %s %s" % (s["kind"], s.get("style", ""))] += 1
            q = h["p"]
            r.cov.add(("helper", kinds[-2:], h["verbosity"], q.get("ewt"), o["end"]))
            if p:
                r.nontrivial.add(rng.subseed("helper", h))
            if v:
                r.violation(dict(helper=h), v["kind"], v["detail"])

    def shrink(self, spec):
        if "tsp" in spec:
            return
        if "helper" in spec:
            h = spec["helper"]
            for i in range(len(h["starts"])):
                if len(h["starts"]) > 1:
                    yield dict(helper=dict(h, starts=h["starts"][:i] + h["starts"][i + 1:], n=h["n"] - 1))
            return
        for s in CliCheck.shrink(self, spec):
            yield s

    def research(self, cand, kind):
        if "helper" in cand or "tsp" in cand:
            o = self.execute(cand)
            return (cand, o["violation"]) if o["violation"] and o["violation"]["kind"] == kind else False
        return CliCheck.research(self, cand, kind)
