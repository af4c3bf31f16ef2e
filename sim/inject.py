"""The instant seam: every line start / function entry / return (or, in
"opcode" mode, every bytecode instruction) executed by library code is one
numbered event, counted through sys.monitoring.  The simulator decides at which
event number something happens: an interrupt, a failing allocation, any other
exception, or a hook (used by the thread scheduler).  Nothing in the library is
patched."""
import dis
import os
import random
import signal
import sys
from array import array

mon = sys.monitoring
EV = mon.events
TOOL = 3


class StepBudgetExceeded(BaseException):
    """raised inside simulated code when it makes no progress to an end within
    the step budget; not an Exception so that library code cannot absorb it"""


class CpuCap:
    """a bound in seconds of processor time (not wall clock time) for calls that
    take milliseconds, where counting steps is not worth its cost"""

    def __init__(self, seconds=15.0):
        self.seconds = seconds

    def hit(self, *a):
        raise StepBudgetExceeded("more than %s s of processor time" % self.seconds)

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, self.hit)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


_nops = {}


def uninterruptible(code, where, by_line):
    """a NOP (e.g. of "try:") may lie outside of every exception table entry;
    no signal is ever delivered at it, the next instruction is the earliest"""
    key = (code, by_line)
    s = _nops.get(key)
    if s is None:
        nop = dis.opmap["NOP"]
        if by_line:
            s = {l for off, l in dis.findlinestarts(code) if code.co_code[off] == nop}
        else:
            # the end of a generator that is closed (its handler) can meet no
            # signal either; one raised there would get lost in a finalizer
            none = {nop, dis.opmap["RERAISE"], dis.opmap["CALL_INTRINSIC_1"]}
            s = set(range(0, len(code.co_code), 2))
            s = {off for off in s if code.co_code[off] in none}
        _nops[key] = s
    return where in s


class Injector:
    """Counts events of code under `roots`; at event number `at` raises
    `exc()`.  `cap` bounds the events of the run, `post_cap` those after the
    injection."""

    def __init__(self, roots, mode="line", at=None, exc=None, cap=None,
                 post_cap=None, record=False, exclude=(), hook=None):
        self.roots = tuple(roots)
        self.mode = mode
        self.at = at
        self.exc = exc
        self.cap = cap
        self.post_cap = post_cap
        self.n = 0
        self.fired_at = None
        self.fired_loc = None
        self.record = record
        self.locs = {}
        self.loc_list = []
        self.trace = array("I") if record else None
        self.exclude = tuple(exclude)
        self._ok = {}
        self.overrun = False
        self.hook = hook
        self.active = False
        self.forks = None        # event numbers injected in a forked child
        self.on_fork = None
        self.child_fd = None
        self.again = None        # a second injection so many events later
        self.fired = 0
        self.prefix = False      # the cap is for what comes before the injection
        self.guard = None        # callable: True = cannot be delivered here

    # -- event sink -------------------------------------------------------
    def _event(self, code, where):
        ok = self._ok.get(code)
        if ok is None:
            fn = code.co_filename
            ok = fn.startswith(self.roots) and not (
                self.exclude and (fn.endswith(self.exclude)
                                  or code.co_name in self.exclude))
            self._ok[code] = ok
        if not ok:
            return mon.DISABLE
        if not self.active:
            return None
        self.n += 1
        n = self.n
        if self.record:
            key = (code.co_filename, code.co_firstlineno, where)
            i = self.locs.get(key)
            if i is None:
                i = self.locs[key] = len(self.loc_list)
                self.loc_list.append(
                    (os.path.basename(code.co_filename), code.co_name, where))
            self.trace.append(i)
        if self.forks is not None and n in self.forks and self._fork(n):
            self.at = n
            self.forks = None
        if n == self.at:
            if (self.guard is not None and self.guard()) or \
                    (where > 0 and uninterruptible(code, where, self.mode != "opcode")):
                self.at = n + 1          # delivered when it can be
                return None
            self.fired += 1
            if self.fired == 1 and self.again:
                self.at = n + self.again
            if self.fired_at is None:
                self.fired_at = n
                self.fired_loc = (os.path.basename(code.co_filename),
                                  code.co_name, where)
            raise self.exc()
        if self.cap is not None and n > self.cap:
            self.overrun = True
            raise StepBudgetExceeded("step budget")
        if self.post_cap is not None and self.fired_at is not None and \
                n - self.fired_at > self.post_cap:
            self.overrun = True
            raise StepBudgetExceeded("post-fault step budget")
        if self.hook is not None:
            self.hook(n)
        return None

    def _fork(self, n):
        r, w = os.pipe()
        state = random.getstate()
        pid = os.fork()
        if pid == 0:
            random.setstate(state)   # Python reseeds it in a forked child
            os.close(r)
            self.child_fd = w
            if self.prefix:
                self.cap = None
            return True
        os.close(w)
        data = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        self.on_fork(n, b"".join(data))
        return False

    def _line(self, code, line):
        return self._event(code, line)

    def _start(self, code, off):
        return self._event(code, -1)

    def _ret(self, code, off, val):
        return self._event(code, -2)

    def _instr(self, code, off):
        return self._event(code, off)

    def _jump(self, code, off, dest):
        if dest > off:
            return mon.DISABLE
        return self._event(code, off)

    def __enter__(self):
        mon.use_tool_id(TOOL, "verif-sim")
        if self.mode == "jump":
            # loop iterations and function entries only: a cheap step count
            mon.register_callback(TOOL, EV.JUMP, self._jump)
            mon.register_callback(TOOL, EV.PY_START, self._start)
            self.evs = EV.JUMP | EV.PY_START
        elif self.mode == "opcode":
            mon.register_callback(TOOL, EV.INSTRUCTION, self._instr)
            self.evs = EV.INSTRUCTION
        else:
            mon.register_callback(TOOL, EV.LINE, self._line)
            mon.register_callback(TOOL, EV.PY_START, self._start)
            mon.register_callback(TOOL, EV.PY_RETURN, self._ret)
            self.evs = EV.LINE | EV.PY_START | EV.PY_RETURN
        mon.set_events(TOOL, self.evs)
        mon.restart_events()
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        mon.set_events(TOOL, 0)
        if self.mode == "opcode":
            mon.register_callback(TOOL, EV.INSTRUCTION, None)
        else:
            for e in (EV.LINE, EV.PY_START, EV.PY_RETURN, EV.JUMP):
                mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False
