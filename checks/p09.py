"""Calling an external solver leaves no files, processes or descriptors."""
from checks.p08 import EXTERNAL, HEURISTICS, ExtCheck
from sim import extproc, rng, solve

FAULTS = ("EIO", "ENOSPC", "EMFILE", "interrupt", "interrupt")


class Check(ExtCheck):
    ID = "P09"
    RULE = ("a case is one history of calls of external solvers in which an operation failed, was interrupted, or the "
            "program misbehaved; files, processes and descriptors were compared after each call")
    COV_MEASURE = ("distinct (solver, behaviour of the program, exit code, outcome), (solver, faults, outcome) and "
                   "(solver, operation the fault hit)")
    ASSUMPTIONS = [
        "a file whose removal itself fails may stay; everything else may not",
        "an interrupt arrives in an operation on a file or process (before it takes effect), or while waiting for "
        "the program; none in the clean up itself"]
    UNITS = dict(quick=1600, thorough=40000)

    def judge(self, spec, H):
        for c, o, l in zip(spec["calls"], H["outs"], H["leaks"]):
            name = c.get("solver") or c["case"]["algo"]
            ctx = "%s (%s) with %s, faults %s, trace %s: " % (name, o["end"], [p[:3] for p in o["procs"]], o["fired"],
                                                             " ".join(H["trace"][-12:]))
            if o["end"] == "blocked":
                return dict(kind="never ends", detail=ctx + o["exc"])
            if l:
                return dict(kind=l[0][0], detail=ctx + "; ".join("%s (%s)" % x for x in l))
        return None

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        E = extproc
        for _ in range(3):
            calls = [dict(E.gen_call(g, nmin=4), solver=g.choice(EXTERNAL)) for _ in range(g.choice([1, 1, 2]))]
            if g.random() < .08:
                case = solve.gen_case(g, algo=g.choice(HEURISTICS[:2]), nmin=3, nmax=6, options=False)
                calls = [dict(case=case)]
            base = dict(calls=calls, behave=[E.gen_behaviour(g) for _ in range(2)])
            if g.random() < .5:
                base["behave"] = [E.gen_behaviour(g, ("ok",), 0)]
            if g.random() < .2 and "solver" in calls[0]:
                base["behave"].insert(0, dict(kind="ok", seed=1, nested=g.choice(["before", "after"])))
                base["nested"] = dict(E.gen_call(g, nmin=4), solver=calls[0]["solver"])
            H = self.play(base)
            self.note(r, "plain", base, H)
            n = H["ops"]
            ks = list(range(1, n + 1))
            if n > 16:
                ks = g.sample(ks, 12) + ks[-4:]
            for k in ks:
                s = dict(base, faults={str(k): g.choice(FAULTS)})
                if g.random() < .2:
                    s["faults"][str(k + g.randint(1, 4))] = g.choice(FAULTS)
                H2 = self.play(s)
                self.note(r, "fault", s, H2)
                if k <= len(H2["trace"]):
                    r.cov.add((calls[0].get("solver", "heuristic"), H2["trace"][k - 1], s["faults"][str(k)]))
