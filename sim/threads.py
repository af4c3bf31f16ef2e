"""Simulated threads: several solves run as real threads of which exactly one
holds the baton; at library events (loop iterations, function entries, lines)
the seeded scheduler decides who goes on.  One seed is one interleaving."""
import threading
import traceback

from . import mip, oracle, solve, workload
from .inject import Injector, StepBudgetExceeded


class Killed(BaseException):
    pass


class Sched:
    def __init__(self, g, n, switch, cap):
        self.g, self.n = g, n
        self.switch = switch            # mean number of events between switches
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.cur = None
        self.left = 0
        self.done = threading.Event()
        self.trace = []                 # (thread, events) runs
        self.owner = {}
        self.over = False
        self.cap = cap
        self.fail_at = {}               # event number -> exception factory

    def _pick(self):
        g = self.g
        self.left = 1 + int(g.expovariate(1.0 / self.switch))
        return g.choice(sorted(self.alive))

    def start(self):
        self.cur = self._pick()
        self.sem[self.cur].release()
        self.done.wait()

    def hook(self, n):
        me = self.owner.get(threading.get_ident())
        if me is None:
            return
        if self.over:
            raise StepBudgetExceeded()
        if n > self.cap:
            self.over = True
            raise StepBudgetExceeded()
        f = self.fail_at.get(n)
        if f is not None:
            self.failed = me
            raise f()
        self.left -= 1
        if self.left > 0:
            return
        nxt = self._pick()
        if nxt != me:
            self.trace.append((n, nxt))
            self.cur = nxt
            self.sem[nxt].release()
            self.sem[me].acquire()

    def finish(self, me, n):
        self.alive.discard(me)
        if not self.alive:
            self.done.set()
            return
        self.cur = self._pick()
        self.trace.append((n, self.cur))
        self.sem[self.cur].release()


def run_concurrent(g, cases, switch, mode="jump", cap=6000000, fail_at=None,
                   same_args=False):
    """solve the cases in simulated threads -> [outcome], number of switches.
    same_args: the threads share one copy of the problem data (when it is the
    same problem)"""
    n = len(cases)
    mip.CTL.reset()
    s = Sched(g, n, switch, cap)
    s.fail_at = fail_at or {}
    s.failed = None
    outs = [None] * n
    shared = {}
    arglist = []
    for c in cases:
        if same_args:
            key = repr(c["inst"])
            shared.setdefault(key, workload.build(c["inst"]))
            arglist.append(shared[key])
        else:
            arglist.append(workload.build(c["inst"]))
    inj = Injector([solve.ROOT], mode=mode, hook=s.hook)
    mip.CTL.injector = inj

    def body(i):
        s.owner[threading.get_ident()] = i
        s.sem[i].acquire()
        c, args = cases[i], arglist[i]
        o = dict(sol=None)
        try:
            res = solve.algorithm(c)(*args, c["single"], c["minK"])
            o["end"] = "ret"
            o["sol"] = solve.plain(res)
        except KeyboardInterrupt as e:
            o["end"] = "int"
            o["sol"] = solve.plain(e.args[0] if e.args else None)
        except StepBudgetExceeded:
            o["end"] = "over"
        except BaseException as e:
            o["end"] = "exc"
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:200]
            o["tb"] = traceback.format_exc()[-600:]
        outs[i] = o
        del s.owner[threading.get_ident()]
        s.finish(i, inj.n)

    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    inj.__enter__()
    try:
        for t in ths:
            t.start()
        s.start()
        for t in ths:
            t.join()
    finally:
        inj.__exit__()
    for c, o in zip(cases, outs):
        a = workload.build(c["inst"])
        if o["sol"] is not None:
            o["bad"] = oracle.judge(o["sol"], a[1], a[2], a[3], a[4])
    return outs, s, inj.n
