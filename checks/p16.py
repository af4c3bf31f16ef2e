from sim import oracle, solve
from sim.solvecheck import CAP, SolveCheck


class Check(SolveCheck):
    ID = "P16"
    RULE = ("a case is one (algorithm, instance, instant, kind of failure) where the failure really fired; "
            "every few of them the problem is solved again afterwards in the same process")
    ASSUMPTIONS = [
        "a failing operation is an exception (MemoryError, OSError, FloatingPointError) raised at a source "
        "line / bytecode boundary of library code, or a MIP solver call that raises",
        "coverage is that of the seeded search, not exhaustive"]
    UNITS = dict(quick=700, thorough=6000)
    kinds = ("memory", "os", "float")
    mip_faults = ("error", "memory")
    doubles = False

    def judge(self, spec, out, base):
        where = out.get("fired") or "MIP solve"
        a = spec["case"]["algo"]
        if not out.get("fired") and not out["mip_fired"]:
            return None
        if out["end"] == "over":
            return dict(kind="never ends after a failure",
                        detail="%s still running after %s failed at %s" % (a, spec["kind"], where))
        if out["sol"] is not None and out.get("bad"):
            return dict(kind="failure hidden in a wrong plan: " + ", ".join(oracle.classes(out["bad"])),
                        detail="%s, %s failed at %s: gives %s: %s" % (
                            a, spec["kind"], where, out["sol"], out["bad"]))
        if out["end"] == "ret" and out["sol"] is None and base and base["sol"] is not None:
            return dict(kind="failure hidden: returns no plan",
                        detail="%s, %s failed at %s: returned None" % (a, spec["kind"], where))

    def base(self, spec):
        return solve.run(spec["case"], cap=CAP)

    def after(self, spec, out, base):
        """the same problem again, in the same process"""
        o = solve.run(spec["case"], cap=CAP)
        if (o["end"], o["sol"]) != (base["end"], base["sol"]):
            return dict(kind="a failed solve changes a later one",
                        detail="%s after a %s failure at %s: %s %s instead of %s %s" % (
                            spec["case"]["algo"], spec["kind"], out.get("fired"),
                            o["end"], o["sol"], base["end"], base["sol"]))

    def unit_after(self, r, g, case, base, specs):
        # failures were injected in this process (not in forked children) for
        # the short solves: solve once more
        if not specs:
            return
        s, o = g.choice(specs)
        again = self.run(s)
        v = self.after(s, again, base)
        r.evals += 2
        r.notes["solved again after a failure"] += 1
        r.see("again", again["end"])
        if v:
            r.violation(s, v["kind"], v["detail"])
