"""The external solver seam: a simulated process table and file operations of
one scratch folder.  The wrappers' Popen is replaced; the program it starts is
simulated (it reads the real files in the scratch folder, like LKH and ACOTSP
do) and misbehaves as the plan says.  Nothing is ever really started."""
import io
import os
import shutil
import signal
import subprocess
import tempfile

import numpy as np

from . import fsorder, inject, perturb, vfile

EXE = "/bin/true"           # only has to exist when the wrappers are imported
REAL_POPEN = subprocess.Popen
BIG = 200000                # more output than a pipe holds


def prepare():
    """before the library is imported: let the wrappers find their programs"""
    import verypy.config as c
    c.LKH_EXE_PATH = os.path.realpath(EXE)
    c.ACOTSP_EXE_PATH = EXE
    if c.LKH_EXE_PATH == EXE:
        c.LKH_EXE_PATH = "/bin/../bin/true"


class Blocked(BaseException):
    """the wrapper waits for something that never happens"""


# -- the simulated programs ---------------------------------------------------

def parse_tsp(text):
    head, sec, nums = {}, None, []
    for l in text.split("\n"):
        l = l.strip()
        if not l:
            continue
        if l == "EOF":
            sec = "EOF"
        elif sec is None and ":" in l:
            a, b = l.split(":", 1)
            head[a.strip()] = b.strip()
        elif l[0].isalpha():
            sec = l
        elif sec == "EDGE_WEIGHT_SECTION":
            nums += [int(x) for x in l.split()]
    n = int(head["DIMENSION"])
    if head.get("EDGE_WEIGHT_TYPE") != "EXPLICIT":
        raise ValueError("distances are not explicit")
    f = head.get("EDGE_WEIGHT_FORMAT")
    D = [[0] * n for _ in range(n)]
    it = iter(nums)
    for i in range(n):
        cols = dict(FULL_MATRIX=range(n), UPPER_ROW=range(i + 1, n), UPPER_DIAG_ROW=range(i, n),
                    LOWER_ROW=range(i), LOWER_DIAG_ROW=range(i + 1))[f]
        for j in cols:
            v = next(it, None)
            if v is None:
                raise ValueError("section ends early")
            D[i][j] = v
            D[j][i] = v
    return D


def best_tour(D):
    """a closed tour over all nodes: optimal up to 8 nodes"""
    n = len(D)
    if n <= 8:
        best = {(1, 0): (0, (0,))}
        for size in range(1, n):
            new = {}
            for (m, l), (c, p) in best.items():
                for j in range(1, n):
                    if not m >> j & 1:
                        k = (m | 1 << j, j)
                        v = (c + D[l][j], p + (j,))
                        if k not in new or v < new[k]:
                            new[k] = v
            best = new
        return list(min((c + D[l][0], p) for (m, l), (c, p) in best.items())[1])
    t = [0]
    left = set(range(1, n))
    while left:
        j = min(left, key=lambda x: (D[t[-1]][x], x))
        t.append(j)
        left.remove(j)
    better = True
    while better:
        better = False
        for i in range(1, n - 1):
            for j in range(i + 1, n):
                a, b, c, e = t[i - 1], t[i], t[j], t[(j + 1) % n]
                if D[a][c] + D[b][e] < D[a][b] + D[c][e]:
                    t[i:j + 1] = t[i:j + 1][::-1]
                    better = True
    return t


class Program:
    """one run of the external program"""

    def __init__(self, world, argv, behave):
        self.w, self.argv, self.b = world, argv, behave
        self.state = "running"          # -> zombie -> reaped
        self.code = None
        self.stdout = ""
        self.tour = None
        self.problem = None
        self.note = None

    def lkh(self):
        return "-i" not in self.argv

    def read(self):
        """what it does first: read its input files"""
        if self.problem is not None or self.note:
            return
        try:
            if self.lkh():
                with self.w.real_open(self.argv[1]) as f:
                    par = dict([x.strip() for x in l.split("=", 1)] for l in f.read().split("\n") if "=" in l)
                self.out_path = par.get("OUTPUT_TOUR_FILE") or par.get("TOUR_FILE")
                path = par["PROBLEM_FILE"]
            else:
                path = self.argv[self.argv.index("-i") + 1]
                self.out_path = None
            with self.w.real_open(path) as f:
                self.problem = parse_tsp(f.read())
        except Exception as e:
            self.note = "cannot read its input (%s)" % type(e).__name__
            self.w.fired.append("program: " + self.note)

    def work(self):
        """solve and write the results, as far as the plan lets it"""
        b = self.b
        g = self.w.rng(b["seed"])
        self.read()
        k = b["kind"]
        if self.problem is None:
            self.code = 1
            return
        t = best_tour(self.problem)
        n = len(t)
        if b.get("turn"):
            r = b["turn"] % n
            t = t[r:] + t[:r]
        if b.get("flip"):
            t = t[::-1]
        self.tour = list(t)
        if k == "duplicate node":
            t[g.randrange(n)] = t[g.randrange(n)]
            if sorted(t) == list(range(n)):
                t[0] = t[1]
        elif k == "missing node":
            t.pop(g.randrange(n))
        elif k == "extra node":
            t.insert(g.randrange(n + 1), g.choice([n, n + 3, t[0]]))
        elif k == "node out of range":
            t[g.randrange(n)] = g.choice([n, -2, 10 ** 6])
        elif k == "closed tour":
            t.append(t[0])
        length = sum(self.problem[self.tour[i - 1]][self.tour[i]] for i in range(n))
        if b.get("lie"):
            length = g.choice([0, length * 2 + 1, -1, 10 ** 12])
        nl = "\r\n" if b.get("crlf") else "\n"
        if self.lkh():
            text = ["NAME : x.%d.tour" % length, "COMMENT : Length = %d" % length,
                    "COMMENT : Found by LKH [Keld Helsgaun]", "TYPE : TOUR", "DIMENSION : %d" % n, "TOUR_SECTION"]
            text += [str(x + 1) for x in t] + ["-1", "EOF"]
            if b.get("bare"):
                text = text[3:]
            if b.get("noeof"):
                text.pop()
        else:
            text = []
            for q in range(b.get("tries", 1)):
                u = list(t)
                if q < b.get("tries", 1) - 1:
                    g.shuffle(u)
                text.append("best solution so far is " + " ".join(map(str, u)) + (" " if b.get("noeof") else ""))
                if b.get("bare"):
                    text.append("Try %d, best %d" % (q, length))
            if b.get("bare"):
                text.append("end of the run")
        text = nl.join(text) + nl
        if k == "torn":
            text = text[:g.randrange(len(text))]
        elif k == "garbled":
            x = list(text)
            for _ in range(g.randint(1, 6)):
                x[g.randrange(len(x))] = g.choice("0123456789 \n-.abcEOF\x00\xff\u2020")
            text = "".join(x)
        elif k == "noise":
            text = "".join(g.choice("0123456789 \n\tabc\xff:=-") for _ in range(g.randint(1, 200)))
        elif k == "empty":
            text = ""
        if self.lkh():
            try:
                if k == "missing":
                    os.remove(self.out_path)
                elif k != "silent":
                    with self.w.real_open(self.out_path, "w", encoding="latin-1", errors="replace", newline="") as f:
                        f.write(text)
            except (OSError, TypeError):
                pass
        elif k not in ("silent", "missing"):
            self.stdout = text
        self.code = b.get("code", 0)
        if self.code < 0:
            self.w.fired.append("program: killed by a signal")

    def finish(self):
        if self.state == "running":
            self.work()
            self.state = "zombie"

    def kill(self, sig=9):
        if self.state == "running":
            self.code = -sig
            self.state = "zombie"


class Pipe:
    """the wrapper's end of a pipe"""

    def __init__(self, text=False, data=None):
        self.text, self.closed, self.data = text, False, data

    def write(self, x):
        if self.closed:
            raise ValueError("write to closed file")
        return len(x)

    def read(self, *a):
        d = self.data()
        return d

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        raise NotImplementedError("simulated pipe: readline")

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimPopen:
    world = None

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, *rest, **k):
        w = self.world
        w.op("spawn")
        argv = [args] if isinstance(args, str) else [os.fspath(x) for x in args]
        b = w.behaviour()
        if b["kind"] == "no spawn":
            w.fired.append("spawn fails")
            raise vfile.oserror(b.get("err", "ENOMEM"), argv[0])
        self.args = args
        self.prog = Program(w, argv, b)
        w.procs.append(self.prog)
        self.pid = 100000 + len(w.procs)
        self.returncode = None
        self.text = bool(k.get("text") or k.get("universal_newlines") or k.get("encoding"))
        self.out_piped = stdout == subprocess.PIPE
        self.stdin = Pipe() if stdin == subprocess.PIPE else None
        self.stdout = Pipe(data=self._slurp) if stdout == subprocess.PIPE else None
        self.stderr = Pipe(data=lambda: self._enc("")) if stderr == subprocess.PIPE else None
        if b.get("eager"):
            self.prog.read()            # it has read its input right away
        w.waiting = 0

    def _enc(self, s):
        return s if self.text else s.encode("latin-1", "replace")

    def _slurp(self):
        self._wait("read", drained=True)
        out = self.prog.stdout + ("x" * BIG if self.prog.b.get("chatty") else "")
        return self._enc(out)

    def _wait(self, how, timeout=None, drained=False):
        """until the program has ended (it is not reaped by this)"""
        w, p = self.world, self.prog
        if p.state != "running":
            return
        w.op(how)
        k = p.b["kind"]
        if p.b.get("nested") is not None and not p.b.get("nest_done"):
            p.b["nest_done"] = True
            if p.b["nested"] == "before":
                w.nested()
            else:
                p.work()
                p.state = "zombie"
                w.nested()
                return
        if k == "ctrl-c" and not p.b.get("hit"):
            p.b["hit"] = True
            w.fired.append("interrupt while waiting")
            w.interrupted = True
            if p.b.get("dies"):
                p.kill(2)               # it got the same Ctrl-C
            raise KeyboardInterrupt()
        if k in ("hang", "ctrl-c"):
            if timeout is not None:
                w.fired.append("time runs out")
                raise subprocess.TimeoutExpired(self.args, timeout)
            if k == "hang" and not p.b.get("hit"):
                p.b["hit"] = True
                w.fired.append("program hangs, interrupt")
                w.interrupted = True
                raise KeyboardInterrupt()
            raise Blocked("waits for a program that hangs")
        if p.b.get("chatty") and self.out_piped and not drained:
            raise Blocked("waits for a program that waits for its output to be read")
        p.finish()

    def poll(self):
        p = self.prog
        w = self.world
        if p.state == "running" and p.b["kind"] not in ("hang", "ctrl-c"):
            w.waiting += 1
            if w.waiting > 1:           # it ends some time
                self._wait("wait", drained=True)
        elif p.state == "running":
            w.waiting += 1
            if w.waiting > 1000:
                self._wait("wait", drained=True)
        if p.state == "zombie":
            p.state = "reaped"
        if p.state == "reaped":
            self.returncode = p.code
        return self.returncode

    def wait(self, timeout=None):
        self._wait("wait", timeout)
        p = self.prog
        p.state = "reaped"
        self.returncode = p.code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self._wait("communicate", timeout, drained=True)
        p = self.prog
        p.state = "reaped"
        self.returncode = p.code
        for x in (self.stdin, self.stdout, self.stderr):
            if x is not None:
                x.close()
        out = p.stdout + ("x" * BIG if p.b.get("chatty") else "") if p.code is not None else ""
        return (self._enc(out) if self.out_piped else None), (self._enc("") if self.stderr is not None else None)

    def send_signal(self, sig):
        self.prog.kill(int(sig))

    def kill(self):
        self.prog.kill(9)

    def terminate(self):
        self.prog.kill(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for x in (self.stdout, self.stderr, self.stdin):
            if x is not None:
                x.close()
        self.wait()
        return False


# -- the world ----------------------------------------------------------------

class FileReader(io.RawIOBase):
    def __init__(self, w, path):
        self.w = w
        self.fd = w.os_open(path, os.O_RDONLY)
        self.name = path

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return os.lseek(self.fd, *a)

    def readinto(self, b):
        self.w.op("read")
        d = os.read(self.fd, min(len(b), 512))
        b[:len(d)] = d
        return len(d)

    def fileno(self):
        return self.fd

    def close(self):
        if not self.closed:
            super().close()
            os.close(self.fd)


class FileWriter(vfile.FileWriter):
    def __init__(self, w, path, mode):
        self.w = w
        flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if "a" in mode else os.O_TRUNC)
        if "x" in mode:
            flags |= os.O_EXCL
        self.fd = w.os_open(path, flags, 0o600)
        self.path = self.name = path
        self.close_err = None
        self.at = self.short = None
        self.once = False
        self.log = []
        self.n = 0
        self.full = None

    def write(self, b):
        if self.full:
            raise vfile.oserror(self.full, self.path)
        try:
            self.w.op("write")
        except OSError as e:
            if e.errno == vfile.ERR["ENOSPC"]:
                self.full = "ENOSPC"
                os.write(self.fd, bytes(b[:len(b) // 2]))
            raise
        return vfile.FileWriter.write(self, b)

    def close(self):
        if not self.closed:
            super().close()
            self.w.op("close")


class World:
    """spec: behave: list of behaviours by spawn, faults: {operation number: kind}"""

    def __init__(self, spec):
        self.spec = spec
        self.behave = [dict(b) for b in spec["behave"]]
        self.faults = {int(k): v for k, v in spec.get("faults", {}).items()}
        self.ops = 0
        self.trace = []
        self.fired = []
        self.procs = []
        self.interrupted = False
        self.injured = set()            # files that could not be removed
        self.nested = lambda: None
        self.active = False
        self.waiting = 0

    def rng(self, seed):
        import random
        return random.Random(seed)

    def behaviour(self):
        n = len(self.procs)
        return dict(self.behave[min(n, len(self.behave) - 1)]) if self.behave else dict(kind="ok", seed=0)

    def op(self, what, path=None):
        if not self.active:
            return
        self.ops += 1
        self.trace.append(what)
        f = self.faults.get(self.ops)
        if f is None:
            return
        if f == "interrupt":
            if what == "remove":
                return                  # in the clean up: not simulated
            self.fired.append("interrupt in " + what)
            self.interrupted = True
            raise KeyboardInterrupt()
        if what in ("communicate", "wait") and f != "EIO":
            return
        if what in ("open", "create") and f == "ENOSPC" or what == "spawn" and f == "EIO":
            f = "EMFILE"
        if what in ("remove", "close", "read") and f in ("ENOSPC", "EMFILE"):
            f = "EIO"
        self.fired.append("%s in %s" % (f, what))
        if path:
            self.injured.add(path)
        raise vfile.oserror(f, path)

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if isinstance(p, str) and os.path.abspath(p).startswith(self.root) else None

    def __enter__(self):
        import builtins
        self.root = fsorder.scratch("ext")
        self.tmp = os.path.join(self.root, "tmp")
        self.cwd = os.path.join(self.root, "cwd")
        os.mkdir(self.tmp)
        os.mkdir(self.cwd)
        self.old_cwd = os.getcwd()
        os.chdir(self.cwd)
        self.real_open, self.io_open, self.os_open = builtins.open, io.open, os.open
        self.rm, self.ul, self.rename = os.remove, os.unlink, os.rename
        self.old_tempdir, tempfile.tempdir = tempfile.tempdir, self.tmp
        self.names = tempfile._name_sequence
        tempfile._name_sequence = iter("t%05d" % i for i in range(10 ** 5))
        real = self.real_open

        def sim_open(file, mode="r", *a, **k):
            p = None if isinstance(file, int) else self.mine(file)
            if not self.active or p is None and file != os.devnull:
                return real(file, mode, *a, **k)
            if p is None or k.get("opener") is not None or len(a) > 5:
                if k.get("opener") is None:
                    self.op("open")
                return real(file, mode, *a, **k)
            self.op("open")
            if "+" in mode:
                return real(file, mode, *a, **k)
            raw = FileReader(self, p) if "r" in mode else FileWriter(self, p, mode)
            f = io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw, buffer_size=128)
            if "b" in mode:
                return f
            return io.TextIOWrapper(f, encoding=k.get("encoding") or "utf-8", errors=k.get("errors"),
                                    newline=k.get("newline"))

        def sim_os_open(path, flags, *a, **k):
            if self.active and self.mine(path):
                self.op("create" if flags & os.O_CREAT else "open")
            return self.os_open(path, flags, *a, **k)

        def sim_remove(path, *a, **k):
            p = self.mine(path) if self.active else None
            if p:
                self.op("remove", p)
            return self.rm(path, *a, **k)
        builtins.open = io.open = sim_open
        os.open, os.remove, os.unlink = sim_os_open, sim_remove, sim_remove
        SimPopen.world = self
        subprocess.Popen = SimPopen
        self.undo = perturb.swap([(REAL_POPEN, SimPopen)])
        self.sigint = signal.getsignal(signal.SIGINT)
        return self

    def __exit__(self, *a):
        import builtins
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        subprocess.Popen = REAL_POPEN
        builtins.open, io.open = self.real_open, self.io_open
        os.open, os.remove, os.unlink = self.os_open, self.rm, self.ul
        tempfile.tempdir = self.old_tempdir
        tempfile._name_sequence = self.names
        os.chdir(self.old_cwd)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def files(self):
        r = []
        for d, _, fs in os.walk(self.root):
            r += [os.path.relpath(os.path.join(d, f), self.root) for f in fs]
        return sorted(r)

    def leaks(self, fds, before):
        """what is left behind after a call"""
        bad = []
        hurt = {os.path.relpath(p, self.root) for p in self.injured}
        left = [f for f in self.files() if f not in before and f not in hurt]
        if left:
            bad.append(("files left behind", "%d: %s" % (len(left), sorted({f.split(".")[-1] for f in left}))))
        for p in self.procs:
            if p.state == "running":
                bad.append(("a process left running", " ".join(map(str, p.argv[:1]))))
            elif p.state == "zombie":
                bad.append(("a process not reaped", " ".join(map(str, p.argv[:1]))))
        n = descriptors()
        if n > fds:
            bad.append(("descriptors left open", "%d" % (n - fds)))
        if os.getcwd() != self.cwd:
            bad.append(("the working directory is changed", os.path.relpath(os.getcwd(), self.root)))
        if signal.getsignal(signal.SIGINT) is not self.sigint:
            bad.append(("the interrupt handler is changed", ""))
        return bad


def descriptors():
    return len(os.listdir("/proc/self/fd"))


# -- calls --------------------------------------------------------------------

SOLVERS = {}


def setup():
    import importlib
    for name, fn in (("lkh", "solve_tsp_lkh"), ("acotsp", "solve_tsp_acotsp"), ("fast", "solve_tsp_fast"),
                     ("gurobi", "solve_tsp_gurobi"), ("ropt", "solve_tsp_ropt"), ("2opt", "solve_tsp_2opt"),
                     ("3opt", "solve_tsp_3opt")):
        mod = "ropt" if name in ("2opt", "3opt") else name
        SOLVERS[name] = getattr(importlib.import_module("verypy.tsp_solvers.tsp_solver_" + mod), fn)


def matrix(c):
    return np.array(c["D"], dtype=float if c["real"] else int)


def gen_call(g, nmin=2, nmax=8):
    """a selection of nodes of a symmetric matrix"""
    n = g.choice([nmax, g.randint(nmin, nmax), g.randint(nmin, nmax)])
    N = n + g.choice([0, 0, 1, 3])
    real = g.random() < .5
    pts = [(g.random() * 100, g.random() * 100) for _ in range(N)]
    style = g.choice(["metric", "metric", "random", "ties", "zeros", "large"])
    D = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            v = ((pts[i][0] - pts[j][0]) ** 2 + (pts[i][1] - pts[j][1]) ** 2) ** .5
            if style == "random":
                v = g.random() * 100
            elif style == "ties":
                v = float(g.randint(1, 3))
            elif style == "zeros":
                v = float(g.choice([0, 0, 1, 2]))
            elif style == "large":
                v *= 1000
            D[i][j] = D[j][i] = v if real else int(round(v))
    sel = g.sample(range(N), n)
    if g.random() < .5:
        sel.sort()
    if g.random() < .6 and 0 in sel:
        sel.remove(0)
        sel = [0] + sel
    return dict(D=D, real=real, sel=sel)


KINDS = ("ok", "ok", "ok", "duplicate node", "missing node", "extra node", "node out of range", "closed tour",
         "torn", "torn", "garbled", "noise", "empty", "missing", "silent", "no spawn", "ctrl-c", "hang")


def gen_behaviour(g, kinds=KINDS, code=.15):
    b = dict(kind=g.choice(kinds), seed=g.randrange(1 << 30))
    if g.random() < .4:
        b["turn"] = g.randint(1, 20)
    if g.random() < .4:
        b["flip"] = True
    for k, p in (("lie", .2), ("crlf", .1), ("bare", .2), ("noeof", .2), ("chatty", .1), ("eager", .5)):
        if g.random() < p:
            b[k] = True
    if g.random() < .3:
        b["tries"] = g.randint(2, 3)
    if g.random() < code and b["kind"] != "ok":
        b["code"] = g.choice([1, 2, 255, -11, -9, -6])
    if b["kind"] == "ok" and g.random() < code:
        b["kind"] = "fails after a tour"
        b["code"] = g.choice([1, -11, -9])
    if b["kind"] == "no spawn":
        b["err"] = g.choice(["ENOENT", "EACCES", "EMFILE"])
    if b["kind"] == "ctrl-c":
        b["dies"] = g.random() < .5
    return b


def call(solver, c, w):
    """one call of a solver -> how it ended"""
    D = matrix(c)
    D0, sel = D.copy(), list(c["sel"])
    o = dict(end=None)
    try:
        with inject.CpuCap(30):
            tour, cost = SOLVERS[solver](D, sel)
        o["end"] = "ret"
        o["tour"] = [int(x) for x in tour] if tour is not None else None
        o["cost"] = float(cost) if cost is not None else None
    except KeyboardInterrupt:
        o["end"] = "int"
    except (Blocked, inject.StepBudgetExceeded) as e:
        o["end"], o["exc"] = "blocked", str(e)
    except Exception as e:
        o["end"], o["exc"] = "exc", type(e).__name__
    o["changed"] = not np.array_equal(D, D0) or sel != c["sel"]
    return o


def cyclic(t):
    """the same for all rotations and both directions"""
    i = t.index(min(t))
    a = t[i:] + t[:i]
    return min(a, a[:1] + a[1:][::-1])
