from sim import oracle
from sim.solvecheck import SolveCheck


class Check(SolveCheck):
    ID = "P01"
    RULE = ("a case is one (algorithm, instance, instant) where the injected interrupt "
            "(or the interrupted MIP solve) really fired inside the solve")
    ASSUMPTIONS = [
        "an interrupt is an exception raised at a source line / bytecode boundary of library code; "
        "instants inside native code are represented by the boundaries around it",
        "problems are symmetric with at least 1 customer, each of them servable alone",
        "coverage is that of the seeded search, not exhaustive"]
    prefix = .25
    UNITS = dict(quick=900, thorough=6000)

    def judge(self, spec, out, base):
        if out["end"] != "int" or out["sol"] is None:
            return None
        if out.get("bad"):
            return dict(kind="interrupted plan: " + ", ".join(oracle.classes(out["bad"])),
                        detail="%s interrupted at %s hands over %s: %s" % (
                            spec["case"]["algo"], out.get("fired") or "MIP", out["sol"], out["bad"]))
