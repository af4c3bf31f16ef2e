"""Seams for the hidden sources of nondeterminism of a solve: random number
generators, clocks, object identities, the allocation pattern of the heap and
the logging level.  Everything is decided by the perturbation record (JSON)."""
import builtins
import gc
import logging
import random
import sys
import time
import weakref
import types

import numpy as np

_CLOCKS = ("time", "perf_counter", "process_time", "monotonic", "thread_time",
           "time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns")
_KEEP = []


class Null(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.n = 0

    def emit(self, record):
        self.n += 1
        try:
            record.getMessage()
        except Exception:
            pass


def lib_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == "verypy" or n.startswith("verypy.")) and m is not None]


def swap(pairs):
    """replace objects by identity in all library modules (and, for functions
    reached as attributes, in the modules they come from) -> undo list"""
    undo = []
    for m in lib_modules():
        for k, v in list(vars(m).items()):
            for old, new in pairs:
                if v is old:
                    undo.append((m, k, v))
                    setattr(m, k, new)
    return undo


class Perturbed:
    def __init__(self, p):
        self.p = p or {}
        self.undo = []
        self.fired = []
        self.clock_reads = 0
        self.id_calls = 0
        self.handler = None

    def _patch(self, obj, name, new):
        had = name in vars(obj)
        self.undo.append((obj, name, vars(obj).get(name), had))
        setattr(obj, name, new)

    def __enter__(self):
        p = self.p
        if "rng" in p:
            self.rstate = (random.getstate(), np.random.get_state())
            random.seed(p["rng"])
            np.random.seed(p["rng"] % (1 << 32))
        if "clock" in p:
            g = random.Random(p["clock"])
            now = [g.choice([0.0, 1.0e9, -5.0, 4.0e9])]
            style = g.choice(["stopped", "leaps", "back", "slow"])

            def fake(ns):
                def read():
                    self.clock_reads += 1
                    if style == "leaps":
                        now[0] += g.expovariate(1e-4)
                    elif style == "back":
                        now[0] += g.gauss(0, 100)
                    elif style == "slow":
                        now[0] += 1e-9
                    return int(now[0] * 1e9) if ns else now[0]
                return read
            pairs = []
            for n in _CLOCKS:
                f = getattr(time, n, None)
                if f is None:
                    continue
                new = fake(n.endswith("_ns"))
                pairs.append((f, new))
                self._patch(time, n, new)
            self.undo += [(m, k, v, True) for m, k, v in swap(pairs)]
        if "ids" in p:
            # identities as an eager allocator gives them: that of an object
            # that is gone goes to the next new one
            g = random.Random(p["ids"])
            real = builtins.id
            table = {}                  # identity -> weak reference

            def reused_id(o):
                self.id_calls += 1
                try:
                    w = weakref.ref(o)
                except TypeError:
                    return real(o) << 4
                dead, x = [], None
                for k, v in table.items():
                    x = v()
                    if x is o:
                        return k
                    if x is None:
                        dead.append(k)
                del x
                k = g.choice(dead) if dead and g.random() < .9 else (len(table) << 4) + 3
                table[k] = w
                return k
            for m in lib_modules():
                if vars(m).get("id", real) is real:
                    self._patch(m, "id", reused_id)
        if "id" in p:
            key = p["id"]
            real = builtins.id

            def sim_id(o):
                self.id_calls += 1
                # another, equally valid, assignment of identities
                return (real(o) * 0x9E3779B97F4A7C15 ^ key) & 0x7fffffffffffffff
            for m in lib_modules():
                if vars(m).get("id", real) is real:
                    self._patch(m, "id", sim_id)
        if "heap" in p:
            g = random.Random(p["heap"])
            junk = []
            for _ in range(g.choice([200, 2000, 20000])):
                junk.append(g.choice([object, list, dict, lambda: [0] * g.randint(1, 60),
                                      lambda: (1.0 + g.random(), g.randint(1 << 8, 1 << 40))])())
            _KEEP.append([o for o in junk if g.random() < .5])
            del junk
            if g.random() < .5:
                gc.collect()
            self.gc = gc.get_threshold(), gc.isenabled()
            g.choice([gc.disable, lambda: gc.set_threshold(10, 2, 2), lambda: None])()
        if "log" in p:
            root = logging.getLogger()
            self.logstate = (root.level, list(root.handlers), logging.root.manager.disable)
            self.handler = Null()
            root.handlers[:] = [self.handler]
            root.setLevel(p["log"])
        return self

    def __exit__(self, *a):
        p = self.p
        for o, n, v, had in reversed(self.undo):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        if "log" in p:
            root = logging.getLogger()
            root.setLevel(self.logstate[0])
            root.handlers[:] = self.logstate[1]
        if "heap" in p:
            gc.set_threshold(*self.gc[0])
            (gc.enable if self.gc[1] else gc.disable)()
            _KEEP.clear()
        if "rng" in p:
            random.setstate(self.rstate[0])
            np.random.set_state(self.rstate[1])
        return False


def is_function(x):
    return isinstance(x, (types.FunctionType, types.BuiltinFunctionType))
