from sim.solvecheck import SolveCheck


class Check(SolveCheck):
    ID = "P02"
    RULE = ("a case is one (algorithm, instance, instant) where the injected interrupt "
            "(or the interrupted MIP solve) really fired inside the solve")
    ASSUMPTIONS = [
        "an interrupt is an exception raised at a source line / bytecode boundary of library code; "
        "instants inside native code are represented by the boundaries around it",
        "promptness bound: 300+40*N^2 source lines (8 times as many bytecodes) after the interrupt, "
        "about 3 times the largest number seen",
        "coverage is that of the seeded search, not exhaustive"]
    prefix = .25
    UNITS = dict(quick=900, thorough=6000)
    bounded = True

    def judge(self, spec, out, base):
        if not out.get("fired") and not out["mip_fired"]:
            return None
        where = out.get("fired") or "MIP solve"
        a = spec["case"]["algo"]
        if out["end"] == "ret":
            return dict(kind="interrupt swallowed",
                        detail="%s interrupted at %s returned %s" % (a, where, out["sol"]))
        if out["end"] == "exc":
            return dict(kind="interrupt turned into %s" % out["exc"],
                        detail="%s interrupted at %s raised %s(%s) from %s" % (
                            a, where, out["exc"], out["msg"], out["where"]))
        if out["end"] == "over":
            return dict(kind="interrupt not prompt",
                        detail="%s interrupted at %s was still running %s steps later" % (
                            a, where, out.get("post")))
