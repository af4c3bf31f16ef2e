"""The MIP solver seam.  gurobipy.Model is replaced (before the library is
imported) with a subclass whose optimize() runs the real Gurobi, or makes the
solver end the way the simulator decided: time limit, interrupted, error."""
import signal

import gurobipy

_real = gurobipy.Model
OPTIMAL, TIME_LIMIT, INTERRUPTED = (gurobipy.GRB.OPTIMAL,
                                    gurobipy.GRB.TIME_LIMIT,
                                    gurobipy.GRB.INTERRUPTED)


WORK_LIMIT = 3.0        # deterministic work units, about seconds
STATUS = {"timeout": TIME_LIMIT, "interrupt": INTERRUPTED,
          "numeric": gurobipy.GRB.NUMERIC}


class Control:
    """what the simulated MIP solver does; reset for every run"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = 0
        self.plan = {}          # call number -> fault kind
        self.fired = []
        self.injector = None    # suspended while the native solver runs
        self.steal_sigint = False
        self.models = 0
        self.limited = 0        # native solves that hit the work limit
        self.model_plan = {}    # model number -> fault kind


CTL = Control()


class SimModel(_real):
    def __new__(cls, *a, **k):
        CTL.models += 1
        if CTL.model_plan.get(CTL.models):
            CTL.fired.append((CTL.models, "no license"))
            raise gurobipy.GurobiError(10009, "simulated: no Gurobi license found")
        return _real.__new__(cls, *a, **k)

    def optimize(self, callback=None):
        CTL.calls += 1
        inj = CTL.injector
        was = False
        if inj is not None:
            was, inj.active = inj.active, False
        try:
            fault = CTL.plan.get(CTL.calls)
            if CTL.steal_sigint:
                # what older gurobipy versions do
                try:
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                except ValueError:
                    pass
            if fault is not None:
                CTL.fired.append((CTL.calls, fault))
            if fault == "error":
                raise gurobipy.GurobiError(10009, "simulated solver failure")
            if fault == "memory":
                raise gurobipy.GurobiError(10001, "simulated out of memory")
            if fault in STATUS:
                self.__dict__["_sim_status"] = STATUS[fault]
                return None
            self.__dict__.pop("_sim_status", None)
            # a deterministic stand-in for the wall clock time limit
            _real.setParam(self, "WorkLimit", WORK_LIMIT)
            if callback is None:
                r = _real.optimize(self)
            else:
                r = _real.optimize(self, callback)
            if _real.getAttr(self, "Status") == gurobipy.GRB.WORK_LIMIT:
                self.__dict__["_sim_status"] = TIME_LIMIT
                CTL.limited += 1
            if fault == "timeout with a solution" and \
                    _real.getAttr(self, "Status") == OPTIMAL:
                self.__dict__["_sim_status"] = TIME_LIMIT
            return r
        finally:
            if inj is not None:
                inj.active = was

    @property
    def Status(self):
        s = self.__dict__.get("_sim_status")
        return _real.getAttr(self, "Status") if s is None else s

    status = Status

    def getAttr(self, name, *a):
        if str(name).lower() == "status" and not a:
            return self.Status
        return _real.getAttr(self, name, *a)


def install():
    gurobipy.Model = SimModel
