from sim import cli, heurcli, rng, selectcli, solve

ROUNDS = dict(quick=6, thorough=6)


class CliCheck:
    REAL = ["verypy/VeRyPy.py (runner), verypy/shared_cli.py (and its runner of individual heuristics), verypy/cvrp_io.py, verypy/cvrp_ops.py, "
            "verypy/local_search", "in 30% of the batches: real solution algorithms"]
    STUB = ["the solution algorithms in the other batches (scripted outcomes)", "file system faults",
            "clock", "delivery of SIGINT", "standard streams (captured)"]
    STEP_UNIT = "source lines of library code executed under the simulator"
    UNIT_TIMEOUT = 600
    wild = False
    HEUR = dict(quick=8, thorough=12)

    def setup(self):
        solve.setup()
        import argparse, glob, verypy.VeRyPy  # noqa

    def gen(self, g):
        return cli.gen_batch(g, wild=self.wild)

    def one(self, spec, record=False):
        B = cli.Batch(spec["batch"])
        o = B.run(at=spec.get("at"), record=record)
        return B, o, self.judge(B, o)

    # -- the runner of an individual heuristic --------------------------------
    def judge_heur(self, B, o):
        return heurcli.judge_p06(B, o)

    def one_heur(self, spec, record=False):
        B = heurcli.Run(spec["heur"])
        o = B.run(at=spec.get("at"), record=record)
        return o, self.judge_heur(B, o)

    def unit_heur(self, r, seed, index, tier):
        g = rng.derive(self.ID, "heur", seed, index)
        for _ in range(self.HEUR[tier]):
            spec = dict(heur=heurcli.gen(g, wild=self.wild))
            o, bad = self.one_heur(spec, record=True)
            self.note_heur(r, spec, o, bad)
            if bad or not o["events"] or g.random() < .5:
                continue
            pts = solve.choose_points(g, o, 6)
            g.shuffle(pts)
            for at in pts[:3]:
                s = dict(spec, at=at)
                o2, bad = self.one_heur(s)
                self.note_heur(r, s, o2, bad)

    def note_heur(self, r, spec, o, bad):
        b = spec["heur"]
        r.evals += 1
        r.steps += o["events"]
        r.notes["runner of a heuristic"] += 1
        for f in o["fired"]:
            r.faults[f] += 1
        if o["injected"]:
            r.faults["interrupt at an instant"] += 1
            r.cov.add(("heur int",) + tuple(o["injected"]) + (o["end"],))
        r.cov.add(("heur", b["how"], b["n"], b["minK"], b["verbosity"], len(o["calls"]), tuple(o["fired"][:3])))
        if o["calls"]:
            r.nontrivial.add(rng.subseed("heur", b["seed"], spec.get("at")))
        r.see(spec.get("at"), o["end"], o["calls"], o["out"], o["fired"])
        for kind, detail in bad[:2]:
            r.violation(spec, kind, detail)

    def execute(self, spec):
        if "heur" in spec:
            o, bad = self.one_heur(spec)
            v = dict(kind=bad[0][0], detail="; ".join("%s: %s" % x for x in bad)[:1500]) if bad else None
            return dict(violation=v, end=o["end"], calls=o["calls"], out=o["out"], err=o["err"])
        B, o, bad = self.one(spec)
        v = dict(kind=bad[0][0], detail="; ".join("%s: %s" % x for x in bad)[:1500]) if bad else None
        return dict(violation=v, end=o["end"], calls=o["calls"], out=o["out"], err=o["err"])

    def unit(self, r, seed, index, tier):
        self.unit_heur(r, seed, index, tier)
        g = rng.derive(self.ID, seed, index)
        for _ in range(ROUNDS[tier]):
            spec = dict(batch=self.gen(g))
            B, o, bad = self.one(spec, record=True)
            self.note(r, spec, B, o, bad)
            if bad or o["end"] != "ret" or o["events"] == 0:
                continue
            pts = solve.choose_points(g, o, 6)
            g.shuffle(pts)
            for at in pts[:4]:
                s = dict(spec, at=at)
                B, o2, bad = self.one(s)
                self.note(r, s, B, o2, bad)

    def note(self, r, spec, B, o, bad):
        b = spec["batch"]
        r.evals += 1
        r.steps += o["events"]
        for f in o["fired"]:
            r.faults[f] += 1
        if o["injected"]:
            r.faults["interrupt at an instant"] += 1
            r.cov.add(("int",) + tuple(o["injected"]) + (o["end"],))
        for c in o["calls"]:
            if not b.get("real") and c[0] is not None:
                r.cov.add((len(b["files"]), b["out"][c[0]][c[1]]["kind"],
                           b["files"][c[0]]["p"]["ewt"], tuple(sorted(set(b["opts"])))))
        if o["calls"]:
            r.nontrivial.add(rng.subseed(b["seed"], spec.get("at")))
        r.see(spec.get("at"), o["end"], o["calls"], o["out"], o["fired"])
        for kind, detail in bad[:2]:
            r.violation(spec, kind, detail)
        if len(r.samples) < 2:
            r.samples.append(dict(files=[(f["p"]["ewt"], f["ext"], f["fault"]) for f in b["files"]],
                                  options=b["opts"], outcomes=b.get("out") or b["real"],
                                  interrupt=o["injected"], attempts=o["calls"]))

    def shrink(self, spec):
        if "heur" in spec:
            for s in self.shrink_heur(spec):
                yield s
            return
        b = spec["batch"]
        if spec.get("at"):
            yield {k: v for k, v in spec.items() if k != "at"}
        if len(b["files"]) > 1:
            for i in range(len(b["files"])):
                nb = dict(b, files=b["files"][:i] + b["files"][i + 1:])
                if b.get("out"):
                    nb["out"] = b["out"][:i] + b["out"][i + 1:]
                yield dict(spec, batch=nb)
        if b.get("out") and len(b["out"][0]) > 1:
            for j in range(len(b["out"][0])):
                yield dict(spec, batch=dict(b, out=[r[:j] + r[j + 1:] for r in b["out"]]))
        if b.get("real") and len(b["real"]) > 1:
            for j in range(len(b["real"])):
                yield dict(spec, batch=dict(b, real=b["real"][:j] + b["real"][j + 1:]))
        o = b["opts"]
        k = 0
        while k < len(o):
            w = 2 if o[k] in ("-b", "-D", "-v", "--post-optimize") else 1
            if o[k] != "-D":          # the outcomes depend on the rounding
                yield dict(spec, batch=dict(b, opts=o[:k] + o[k + w:]))
            k += w
        for i, f in enumerate(b["files"]):
            if f["fault"]:
                yield dict(spec, batch=dict(b, files=b["files"][:i] + [dict(f, fault=None)] + b["files"][i + 1:]))

    def shrink_heur(self, spec):
        b = spec["heur"]
        if spec.get("at"):
            yield {k: v for k, v in spec.items() if k != "at"}
        for i in range(len(b["files"])):
            if len(b["files"]) > 1:
                nb = dict(b, files=b["files"][:i] + b["files"][i + 1:])
                if b.get("out"):
                    nb["out"] = b["out"][:i] + b["out"][i + 1:]
                yield dict(spec, heur=nb)
        for i in range(b["n"]):
            if b["n"] > 1:
                nb = dict(b, n=b["n"] - 1)
                if b.get("out"):
                    nb["out"] = [r[:i] + r[i + 1:] for r in b["out"]]
                if b.get("starts"):
                    nb["starts"] = b["starts"][:i] + b["starts"][i + 1:]
                yield dict(spec, heur=nb)
        for i, f in enumerate(b["files"]):
            if f["fault"]:
                yield dict(spec, heur=dict(b, files=b["files"][:i] + [dict(f, fault=None)] + b["files"][i + 1:]))
        for k, v in (("log", False), ("timed", False), ("single", False), ("verbosity", 0)):
            if b[k] != v:
                yield dict(spec, heur=dict(b, **{k: v}))

    def research(self, cand, kind):
        o = self.execute(cand)
        if o["violation"] and o["violation"]["kind"] == kind:
            return cand, o["violation"]
        if cand.get("at"):
            for d in list(range(-40, 41)):
                s = dict(cand, at=cand["at"] + d)
                if s["at"] > 0:
                    o = self.execute(s)
                    if o["violation"] and o["violation"]["kind"] == kind:
                        return s, o["violation"]
        return False


class Check(CliCheck):
    ID = "P06"
    RULE = ("a case is one batch run of the command line runner (files x faults x algorithm outcomes x "
            "options x interrupt), or one run of the runner of an individual heuristic (files or a random problem x "
            "starts x options x interrupt), in which at least one algorithm was attempted, and its report was judged")
    COV_MEASURE = ("distinct (number of files, outcome of an attempt, distance type, options) and "
                   "(source location of the interrupt, how the runner ended)")
    ASSUMPTIONS = [
        "scripted algorithms take the place of the real ones in 70% of the batches",
        "a result is obtained once the runner has gone on to the next attempt, or the algorithm handed a plan "
        "over with the interrupt; an interrupt between may cost the attempt it hits",
        "an interrupt before the first file is opened or after the last attempt may end the runner without a report"]
    UNITS = dict(quick=220, thorough=4000)

    def judge(self, B, o):
        return cli.judge_p06(B, o)

    # -- selecting the algorithms -------------------------------------------
    def setup(self):
        CliCheck.setup(self)
        selectcli.setup()

    def one_select(self, spec):
        B = selectcli.Select(spec["sel"])
        o = B.run()
        return o, selectcli.judge(B, o)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, "sel", seed, index)
        for _ in range(self.HEUR[tier]):
            spec = dict(sel=selectcli.gen(g))
            o, bad = self.one_select(spec)
            b = spec["sel"]
            r.evals += 1
            r.steps += o["events"]
            r.notes["selections of algorithms"] += 1
            for f in o["fired"]:
                r.faults[f] += 1
            r.cov.add(("sel", tuple(selectcli.expected(b)), b["simulate"], b["nogurobi"]))
            if selectcli.expected(b):
                r.nontrivial.add(rng.subseed("sel", b["seed"]))
            r.see(o["end"], o["calls"], o["out"], o["fired"])
            for kind, detail in bad[:2]:
                r.violation(spec, kind, detail)
        CliCheck.unit(self, r, seed, index, tier)

    def execute(self, spec):
        if "sel" not in spec:
            return CliCheck.execute(self, spec)
        o, bad = self.one_select(spec)
        v = dict(kind=bad[0][0], detail="; ".join("%s: %s" % x for x in bad)[:1500]) if bad else None
        return dict(violation=v, end=o["end"], calls=o["calls"], out=o["out"], err=o["err"])

    def shrink(self, spec):
        if "sel" not in spec:
            for s in CliCheck.shrink(self, spec):
                yield s
            return
        b = spec["sel"]
        for key in ("files", "select", "forbid"):
            for i in range(len(b[key])):
                if len(b[key]) > 1 or key == "forbid":
                    yield dict(sel=dict(b, **{key: b[key][:i] + b[key][i + 1:]}))
        if b["opts"]:
            yield dict(sel=dict(b, opts=[]))
        for k in ("nogurobi", "simulate"):
            if b[k]:
                yield dict(sel=dict(b, **{k: False}))
        for i, f in enumerate(b["files"]):
            if f["fault"]:
                yield dict(sel=dict(b, files=b["files"][:i] + [dict(f, fault=None)] + b["files"][i + 1:]))
