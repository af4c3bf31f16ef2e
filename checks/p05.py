
from sim import solve
from sim.solvecheck import SolveCheck


class Check(SolveCheck):
    ID = "P05"
    RULE = ("a case is one solve (completed, interrupted, or failed at an instant) after which the "
            "caller's arguments and the process state were compared with those before it")
    COV_MEASURE = "distinct (algorithm, source location of the injection, how the solve ended)"
    ASSUMPTIONS = [
        "the MIP solver is made to take the SIGINT handler over in every call, as some gurobipy versions do; "
        "while it has it, nothing is injected",
        "process state compared: signal handlers, RNG states, numpy error settings, working directory, "
        "recursion limit, std streams, environment, threads, import path, log level, gc, trace hooks"]
    UNITS = dict(quick=1000, thorough=6000)
    kinds = ("interrupt", "interrupt", "memory", "os", "float")
    mip_faults = ("interrupt", "error", "timeout", "memory")
    state = True
    steal = True
    doubles = False
    prefix = .2

    def setup(self):
        solve.setup()
        solve.add_tsp()

    def gen(self, g, tier):
        if g.random() < .12:
            a = g.choice([x for x in sorted(solve.F) if x.startswith("tsp_")])
            return solve.gen_case(g, algo=a, nmin=3, nmax=9)
        return solve.gen_case(g)

    def judge_base(self, spec, out):
        return self.judge(spec, out, None)

    def judge(self, spec, out, base):
        if out.get("changed"):
            return dict(kind="changed: " + ", ".join(out["changed"]),
                        detail="%s ended with %s (injected %s at %s) and changed %s" % (
                            spec["case"]["algo"], out["end"], spec.get("kind"),
                            out.get("fired") or out["mip_fired"], out["changed"]))

    def execute(self, spec):
        return SolveCheck.execute(self, spec)
