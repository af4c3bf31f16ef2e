from sim import oracle, rng, runner, solve, threads
from sim.solvecheck import REAL, STUB, strip

# largest number of customers for undisturbed solves
BIG = {"ps": 40, "ps2o": 22, "gpl": 20, "ss": 40, "gps": 12, "ims": 14, "si": 24,
       "mj": 12, "pi": 20, "mbsa": 12, "cmt": 16, "sn": 40, "pn": 30, "ty": 20,
       "swp": 22, "wh": 13, "gm": 12, "rfcs": 16, "gap": 9, "lr3o": 5, "ptl": 9}
# now and then larger still
LARGE = {"ps": 90, "ps2o": 70, "gpl": 60, "ss": 90, "gps": 20, "ims": 45, "si": 60,
         "mj": 24, "pi": 60, "mbsa": 18, "cmt": 50, "sn": 90, "pn": 80, "ty": 50,
         "swp": 50, "wh": 24, "gm": 18, "rfcs": 30, "gap": 12, "lr3o": 6, "ptl": 12}
CAP = 4000000


class Check:
    ID = "P03"
    RULE = ("a case is one undisturbed solve (alone, after a history of other solves, or among "
            "concurrent ones) whose plan was judged by the independent oracle")
    COV_MEASURE = "distinct (algorithm, layout, constraint set, options, situation, number of routes)"
    STEP_UNIT = "loop iterations and function entries of library code"
    REAL = REAL
    STUB = STUB[1:] + ["thread scheduler (real threads that run one at a time, switched by the seed)"]
    ASSUMPTIONS = [
        "problems are symmetric with at least 1 customer, non-negative demands (not all zero), and "
        "each customer servable alone; distances need not be metric",
        "termination: within 4 million loop iterations and calls (the largest seen is about 0.6 million)"]
    UNITS = dict(quick=900, thorough=12000)
    UNIT_TIMEOUT = 600

    def setup(self):
        solve.setup()

    def judge(self, case, o):
        a = case["algo"]
        if o.get("mip_limited") and o["end"] in ("over", "exc"):
            return None         # not undisturbed: the MIP solver ran out of time
        if o["end"] == "over":
            return dict(kind="does not end", detail="%s: no end in %d steps" % (a, CAP))
        if o["end"] == "exc":
            return dict(kind="crash %s" % o["exc"],
                        detail="%s: %s(%s) %s" % (a, o["exc"], o["msg"], o.get("where", o.get("tb", ""))))
        if o["end"] == "int":
            return dict(kind="interrupt out of nowhere", detail=a)
        if o["sol"] is None:
            if a == "gap" and case["inst"]["L"] is not None:
                return None
            return dict(kind="no plan", detail="%s returned None" % a)
        if o["bad"]:
            return dict(kind="wrong plan: " + ", ".join(oracle.classes(o["bad"])),
                        detail="%s returned %s: %s" % (a, o["sol"], o["bad"]))

    def gen(self, g, algo=None, small=False):
        a = algo or g.choice(solve.ALGOS)
        hi = BIG[a] if not small else solve.SIZES[a][0]
        if not small and g.random() < .15:
            return solve.gen_case(g, algo=a, nmin=BIG[a], nmax=LARGE[a], wide=True)
        return solve.gen_case(g, algo=a, nmin=1, nmax=hi, wide=True, explicit=g.random() < .15)

    # a spec is {"case", "history": [...], "threads": {...}}
    def play(self, spec):
        """-> [(case, outcome)]"""
        for h in spec.get("history", []):
            solve.run(h["case"], at=h.get("at"), kind=h.get("kind", "interrupt"), cap=CAP,
                      mode="line" if h.get("at") else "jump")
        t = spec.get("threads")
        if t:
            cases = [spec["case"]] + t["others"]
            outs, s, n = threads.run_concurrent(
                rng.derive("sched", t["seed"]), cases, t["switch"], mode=t["mode"],
                same_args=t.get("shared", False))
            for o in outs:
                o["events"] = n
            return list(zip(cases, outs)), len(s.trace)
        return [(spec["case"], solve.run(spec["case"], mode="jump", cap=CAP))], 0

    def execute(self, spec):
        v = None
        res, sw = self.play(spec)
        for c, o in res:
            v = v or self.judge(c, o)
        return dict(violation=v, outs=[strip(o) for _, o in res], switches=sw)

    def specs(self, g, tier):
        for _ in range(6):
            yield "alone", dict(case=self.gen(g))
        hist = []
        for _ in range(g.randint(1, 4)):
            h = dict(case=self.gen(g, small=True))
            if g.random() < .6:
                h["at"] = g.choice([g.randint(1, 60), g.randint(1, 600), g.randint(1, 5000)])
                h["kind"] = g.choice(["interrupt", "memory", "float"])
            hist.append(h)
        light = [a for a in solve.ALGOS if a not in ("lr3o", "gap")]
        if g.random() < .6:
            # the same algorithm, on another problem or the very same one
            a = g.choice(light)
            for h in hist:
                if g.random() < .7:
                    h["case"] = self.gen(g, a, small=True)
            yield "after history", dict(case=self.gen(g, a, small=True), history=hist)
        else:
            yield "after history", dict(case=self.gen(g, small=True), history=hist)
        same = g.random() < .6
        a = g.choice(light)
        k = g.randint(1, 3)
        first = self.gen(g, a if same else g.choice(light), small=True)
        others = [self.gen(g, a if same else g.choice(light), small=True) for _ in range(k)]
        shared = g.random() < .3
        if shared:
            first["inst"].pop("nopts", None)
            for o in others:
                o.pop("var", None)
            others = [dict(o, inst=first["inst"]) if len(first["inst"]["points"]) <= solve.SIZES[o["algo"]][0] + 1
                      else o for o in others]
        mode = g.choice(["jump", "line"])
        yield "concurrent", dict(case=first, threads=dict(
            others=others, seed=g.randrange(1 << 30), mode=mode, shared=shared,
            switch=g.choice([1, 3, 10, 50, 300]) * (1 if mode == "jump" else 3)))

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        for situation, spec in self.specs(g, tier):
            res, switches = self.play(spec)
            r.notes[situation] += 1
            if switches:
                r.faults["thread switches"] += switches
            for h in spec.get("history", []):
                r.faults["history: %s" % (h["kind"] if h.get("at") else "other solve")] += 1
            r.steps += max(o["events"] for _, o in res)
            for c, o in res:
                r.evals += 1
                r.see(situation, strip(o))
                i = c["inst"]
                r.nontrivial.add(rng.subseed(c, situation))
                if o["sol"] is not None and isinstance(o["sol"], list):
                    r.cov.add((c["algo"], i["layout"], bool(i["C"]), i["L"] is not None, c["single"],
                               c["minK"], situation, o["sol"].count(0) - 1))
                v = self.judge(c, o)
                if v:
                    r.violation(spec, v["kind"] + (" (%s)" % situation if situation != "alone" else ""),
                                v["detail"])
                key = "most steps"
                r.maxima[key] = max(r.maxima.get(key, 0), o["events"])
        r.samples.append(dict(situation=situation, spec=spec, plan=res[0][1]["sol"], switches=switches))

    def shrink(self, spec):
        h = spec.get("history")
        if h:
            yield {k: v for k, v in spec.items() if k != "history"}
            for i in range(len(h)):
                yield dict(spec, history=h[:i] + h[i + 1:])
        t = spec.get("threads")
        if t:
            yield {k: v for k, v in spec.items() if k != "threads"}
            for c in t["others"]:
                yield dict(case=c)
            for i in range(len(t["others"])):
                if len(t["others"]) > 1:
                    yield dict(spec, threads=dict(t, others=t["others"][:i] + t["others"][i + 1:]))
        for c in solve.shrink_case(spec["case"]):
            yield dict(spec, case=c)

    def research(self, cand, kind):
        o = self.execute(cand)
        v = o["violation"]
        if v and v["kind"].split(" (")[0] == kind.split(" (")[0]:
            return cand, v
        return False
