"""Simulated batch runs of the command line runner: a scratch folder of
problem files behind a faulty storage seam, scripted or real algorithms, a
simulated clock, an interrupt at any instant; the output is parsed and judged
against a small model of what should have been reported."""
import io
import logging
import os
import pickle
import shutil
import sys
import time

import numpy as np

from . import fsorder, mip, oracle, perturb, rng, solve, tsplib, vfile
from .inject import Injector, StepBudgetExceeded

EXC = [ValueError, MemoryError, ZeroDivisionError, OSError, NotImplementedError,
       AssertionError, RecursionError, KeyError, IndexError, StopIteration,
       ArithmeticError, RuntimeError, TypeError, AttributeError, ImportError]
EXCS = {e.__name__: e for e in EXC}
REALS = ["ps", "sn", "pi", "cmt", "swp", "rfcs", "ss", "si", "pn", "mbsa"]


# -- generation ------------------------------------------------------------
def random_plan(g, m, style="good", tries=30):
    """a plan of the given quality for the problem (depot first)"""
    N = m["N"] + 1
    Dc = tsplib.with_service(m["D"], m["st"])
    for _ in range(tries):
        order = list(range(1, N))
        g.shuffle(order)
        routes = [[]]
        for c in order:
            r = routes[-1] + [c]
            ok = (m["C"] is None or sum(m["d"][i] for i in r) <= m["C"]) and \
                (m["L"] is None or oracle.route_cost(r, Dc) <= m["L"] - 1e-3)
            if (not ok or g.random() < .1) and routes[-1]:
                routes.append([c])
            else:
                routes[-1] = r
        if style in ("missing", "dup"):
            r = g.choice(routes)
            if style == "missing":
                r.pop(g.randrange(len(r)))
            else:
                g.choice(routes).append(g.choice(r))
            routes = [r for r in routes if r]
            if not routes:
                continue
        elif style == "over":
            if len(routes) < 2:
                if m["C"] is None and m["L"] is None:
                    return None
                continue
            routes = [[c for r in routes for c in r]]
        sol = [0]
        for r in routes:
            if style != "over" and g.random() < .5:
                r = r[::-1]
            sol += r + [0]
        if g.random() < .15:
            sol = sol + [0]
        bad = oracle.judge(sol, Dc, m["d"], m["C"], m["L"])
        if (style == "good") == (not bad):
            return sol
    return None


def gen_outcome(g, m, wild):
    k = g.choice(["good"] * 6 + ["exc"] * 3 + ["none"] + (["missing", "dup", "over"] if wild else []))
    if k == "exc":
        return dict(kind="exc", exc=g.choice(EXC).__name__)
    if k == "none":
        return dict(kind="none", what=g.choice(["None", "[]"]))
    sol = random_plan(g, m, k)
    if sol is None:
        return dict(kind="none", what="None")
    return dict(kind=k, sol=sol)


FILE_FAULTS = ["ENOENT", "EACCES", "EIO", "EMFILE", "EIO on read", "torn", "garbage",
               "empty", "folder", "ESTALE", "pickle torn", "transient 1", "transient 2", "transient 3"]


def gen_batch(g, wild=False, faults=True, nfiles=None):
    nf = nfiles or g.choice([1, 1, 2, 2, 3, 4])
    files = []
    for i in range(nf):
        p = tsplib.gen(g, 3, 7, name="prob%d" % i)
        # every file of a batch is recognizable
        p["C"] = p["C"] * 10 + i if g.random() < .3 else p["C"]
        f = dict(p=p, ext=g.choice([".vrp", ".vrp", ".vrp", ".tsp", ".pickle"]), fault=None)
        if faults and g.random() < (.45 if nf > 1 else .15):
            f["fault"] = g.choice(FILE_FAULTS)
            if f["fault"] == "pickle torn":
                f["ext"] = ".pickle"
            elif f["ext"] == ".pickle" and f["fault"] not in ("EIO", "EACCES"):
                f["ext"] = ".vrp"
            f["at"] = g.randrange(1 << 16)
            f["open"] = 1
        files.append(f)
    opts = []
    if g.random() < .3:
        opts += ["-b", g.choice(["K", "cost", "vehicles", "c"])]
    if g.random() < .35:
        opts += ["-c"]
    if g.random() < .25:
        opts += ["-m"]
    if g.random() < .3:
        opts += ["--routes"]
    if g.random() < .2:
        opts += ["--vrph"]
    if g.random() < .2:
        opts += ["-t"]
    if g.random() < .2:
        opts += ["-1"]
    if g.random() < .25:
        opts += ["-D", g.choice(["ROUND", "TRUNCATE"])]
    post = []
    if g.random() < .35:
        post = g.choice([["2opt"], ["3opt"], ["2opt", "3opt"]])
        for o in post:
            opts += ["--post-optimize", o]
    how = "one" if nf == 1 and g.random() < .5 else g.choice(["dir", "list", "sub"])
    b = dict(files=files, opts=opts, how=how, seed=g.randrange(1 << 30))
    ms = [forced(b, meaning(f)) for f in files]
    if g.random() < .3:
        b["real"] = g.sample(REALS, g.choice([1, 1, 2]))
    else:
        if g.random() < .2 and "-m" not in opts:
            # the log goes to the standard output, too
            opts += ["-v", str(g.choice([0, 1, 2, 3, 4]))]
        na = g.choice([1, 2, 2, 3])
        b["out"] = [[gen_outcome(g, m, wild) for _ in range(na)] for m in ms]
        if g.random() < .35:
            # an interrupted attempt
            i, a = g.randrange(nf), g.randrange(na)
            o = b["out"][i][a]
            if o["kind"] in ("exc", "none"):
                b["out"][i][a] = dict(kind="int", what=g.choice(["nothing", "None", "text", "tuple"]))
            else:
                b["out"][i][a] = dict(kind="int", sol=o["sol"], inner=o["kind"])
    return b


def meaning(f):
    m = tsplib.meaning(f["p"])
    return m


def forced(b, m):
    m = dict(m)
    if "ROUND" in b["opts"]:
        m["D"] = [[float(np.round(x)) for x in r] for r in m["D"]]
    if "TRUNCATE" in b["opts"]:
        m["D"] = [[float(np.floor(x)) for x in r] for r in m["D"]]
    # rounding may leave a customer that is too far away
    if m["L"] is not None:
        Dc = tsplib.with_service(m["D"], m["st"])
        lo = max(Dc[0][i] * 2 for i in range(1, len(Dc)))
        m["reach"] = lo <= m["L"]
    return m


def readable(f):
    """does the fault leave the file readable?"""
    if f["fault"] is None:
        return True
    return f["fault"] == "transient 1"


# -- the run ---------------------------------------------------------------
def save_logging():
    root = logging.getLogger()
    return root.level, root.handlers[:], {k: logging.getLevelName(k) for k in range(1, 10)}


def restore_logging(saved):
    root = logging.getLogger()
    lv, hs, names = saved
    for h in root.handlers[:]:
        if h not in hs:
            root.removeHandler(h)
            if isinstance(h, logging.FileHandler):
                h.close()
    root.setLevel(lv)
    for k, v in names.items():
        logging.addLevelName(k, v)


EDGE = 8


class Batch:
    def __init__(self, b):
        self.b = b
        self.dir = None

    def build(self):
        """write the files into a scratch folder"""
        b = self.b
        self.dir = fsorder.scratch("cli")
        self.paths = []
        for i, f in enumerate(b["files"]):
            sub = self.dir
            if b["how"] == "sub":
                sub = os.path.join(self.dir, "s%d" % (i % 2))
                os.makedirs(sub, exist_ok=True)
            # in the recursive case names collide across folders
            base = ("same" if b["how"] == "sub" and i < 2 else f["p"]["name"]) + f["ext"]
            path = os.path.join(sub, base)
            if f["fault"] == "folder":
                os.mkdir(path)
            else:
                data = self.content(f)
                with open(path, "wb") as fh:
                    fh.write(data)
            self.paths.append(path)
        if b["how"] == "one":
            self.arg = self.paths[0]
        elif b["how"] == "list":
            self.arg = os.path.join(self.dir, "list.txt")
            with open(self.arg, "w") as fh:
                fh.write("\n".join(self.paths) + "\n")
        else:
            self.arg = self.dir
        self.byname = dict(zip(self.paths, range(len(self.paths))))

    def content(self, f):
        p = f["p"]
        if f["ext"] == ".pickle":
            m = tsplib.meaning(p)
            ints = all(float(x).is_integer() for r in m["D"] for x in r)
            D = np.array(m["D"], dtype=int if ints else float)
            data = pickle.dumps((m["N"], m["points"], m["dd"], m["d"], D, m["C"],
                                 p["ewt"], m["K"], m["L"], m["st"]))
            if f["fault"] == "pickle torn":
                data = data[:f["at"] % (len(data) - 1)]
            return data
        data = tsplib.text(p).encode()
        if f["fault"] == "torn":
            # cut at the end of a line, before the data sections are complete
            ls = tsplib.lines(p)[0]
            ks = tsplib.cuts(p)
            k = ks[f["at"] % len(ks)]
            data = ("\n".join(ls[:k]) + "\n").encode()
        elif f["fault"] == "garbage":
            g = rng.derive("garbage", f["at"])
            data = bytes(g.randrange(256) for _ in range(g.choice([10, 300, 5000])))
        elif f["fault"] == "empty":
            data = b""
        return data

    def sim_open(self, path, mode, real):
        i = self.byname.get(path)
        if i is None:
            return None
        if self.first_open is None:
            self.first_open = self.inj.n if self.inj else 0
        f = self.b["files"][i]
        self.opens[i] = self.opens.get(i, 0) + 1
        fault = f["fault"]
        if fault and fault.startswith("transient"):
            if self.opens[i] == int(fault.split()[1]):
                self.fired.append(fault)
                if f["at"] % 2:
                    raise vfile.oserror("EIO", path)
                data = self.content(f)
                return vfile.reader(data, mode, at=f["at"] % len(data), err="EIO", name=path)
        elif fault in vfile.ERR:
            self.fired.append(fault)
            raise vfile.oserror(fault, path)
        elif fault == "EIO on read":
            data = self.content(f)
            self.fired.append(fault)
            return vfile.reader(data, mode, at=f["at"] % len(data), err="EIO", name=path)
        elif fault:
            self.fired.append(fault)
        return None

    def arrange(self, path, names):
        g = rng.derive("order", self.b["seed"], path.replace(self.dir, ""))
        g.shuffle(names)
        return names

    def identify(self, args):
        """which file of the batch is this? -> index or None"""
        pts, D, d, C, L, st = args[:6]
        for i, f in enumerate(self.b["files"]):
            m = self.ms[i]
            if len(D) != m["N"] + 1 or C != m["C"] or L != m["L"] or list(d or []) != list(m["d"]):
                continue
            Dc = np.array(tsplib.with_service(m["D"], m["st"]), dtype=float)
            if np.abs(np.asarray(D, dtype=float) - Dc).max() < 1e-6:
                return i
        return None

    def scripted(self, j):
        def call(points, D, d, C, L, st, ewt, single, minimize_K):
            i = self.identify((points, D, d, C, L, st))
            self.calls.append((i, j))
            self.flags.add((bool(single), bool(minimize_K)))
            if i is None:
                raise ValueError("unknown problem")
            o = self.b["out"][i][j]
            k = o["kind"]
            if k == "exc":
                self.fired.append("algorithm fails: " + o["exc"])
                raise EXCS[o["exc"]]("simulated failure")
            if k == "none":
                self.fired.append("algorithm finds nothing")
                return None if o["what"] == "None" else []
            if k == "int":
                self.fired.append("interrupt with a plan" if "sol" in o else "interrupt without a plan")
                if "sol" in o:
                    raise KeyboardInterrupt(list(o["sol"]))
                if o["what"] == "nothing":
                    raise KeyboardInterrupt()
                raise KeyboardInterrupt({"None": None, "text": "^C", "tuple": (0, 1, 0)}[o["what"]])
            if k != "good":
                self.fired.append("wrong plan: " + k)
            self.returned = self.inj.n
            return list(o["sol"])
        return call

    def wrapped(self, j, f):
        def call(points, D, d, C, L, st, ewt, single, minimize_K):
            i = self.identify((points, D, d, C, L, st))
            self.calls.append((i, j))
            self.flags.add((bool(single), bool(minimize_K)))
            try:
                sol = f(points, D, d, C, L, st, ewt, single, minimize_K)
            except KeyboardInterrupt as e:
                a = e.args[0] if e.args else None
                self.plans[(i, j)] = list(a) if type(a) is list and a else None
                raise
            except BaseException:
                self.plans[(i, j)] = None
                raise
            self.plans[(i, j)] = list(sol) if sol else None
            self.returned = self.inj.n
            return sol
        return call

    def arguments(self):
        return ["-a", "x"]

    def algorithms(self, names):
        if self.b.get("real"):
            return [(a, "REAL-" + a, a, self.wrapped(j, solve.F[a]))
                    for j, a in enumerate(self.b["real"])]
        return [("a%d" % j, "ALG-%d" % j, "scripted", self.scripted(j))
                for j in range(len(self.b["out"][0]))]

    def names(self):
        if self.b.get("real"):
            return [(a, "REAL-" + a) for a in self.b["real"]]
        return [("a%d" % j, "ALG-%d" % j) for j in range(len(self.b["out"][0]))]

    def run(self, at=None, record=False, cap=3000000):
        import verypy
        import verypy.VeRyPy as V
        b = self.b
        self.build()
        self.ms = [forced(b, meaning(f)) for f in b["files"]]
        self.calls, self.fired, self.opens = [], [], {}
        self.plans = {}
        self.flags = set()
        self.first_open = None
        self.returned = None
        mip.CTL.reset()
        out, err = io.StringIO(), io.StringIO()
        clock = [1000.0]

        def fake_time():
            clock[0] += .25
            return clock[0]
        undo = perturb.swap([(time.time, fake_time), (verypy.get_algorithms, self.algorithms)])
        args = self.arguments() + b["opts"]
        if b["how"] == "sub":
            args.append("--recursive")
        args.append(self.arg)
        self.inj = inj = Injector([solve.ROOT], at=at, exc=solve.Counting("interrupt"), cap=cap,
                                  record=record)
        inj.guard = solve.masked
        mip.CTL.injector = inj
        so, se, sa = sys.stdout, sys.stderr, sys.argv
        logs = save_logging()
        end = "ret"
        exc = None
        # the parser is not what is simulated
        sys.argv = ["VeRyPy"]
        sys.stdout, sys.stderr = out, err
        try:
            with fsorder.Order(self.dir, self.arrange), \
                    vfile.Storage(self.dir, self.sim_open), inj:
                V.main(args)
        except KeyboardInterrupt:
            end = "int"
        except StepBudgetExceeded:
            end = "over"
        except SystemExit as e:
            end = "exit"
        except BaseException as e:
            import traceback
            end = "exc"
            exc = "%s: %s" % (type(e).__name__, str(e)[:200])
            self.tb = traceback.format_exc()
        finally:
            sys.stdout, sys.stderr, sys.argv = so, se, sa
            for m, k, v in undo:
                setattr(m, k, v)
            restore_logging(logs)
            shutil.rmtree(self.dir, ignore_errors=True)
        clean = lambda s: s.replace(self.dir, "<dir>")
        o = dict(end=end, exc=exc, out=clean(out.getvalue()), err=clean(err.getvalue()),
                 calls=list(self.calls), fired=list(self.fired), events=inj.n,
                 flags=sorted(self.flags),
                 injected=list(inj.fired_loc) if inj.fired_at else None,
                 # the plan was returned, but not taken yet
                 edge=bool(inj.fired_at and self.returned is not None and
                           0 <= inj.fired_at - self.returned <= EDGE),
                 before_files=self.first_open is None or
                 (inj.fired_at is not None and inj.fired_at < self.first_open))
        if record:
            o["_trace"], o["_locs"] = inj.trace, inj.loc_list
        return o

    # -- names under which files are reported -------------------------------
    def label(self, i, order):
        """base name, or the path if another file of the batch had it before"""
        used = set()
        for k in order:
            p = self.paths[k].replace(self.dir, "<dir>")
            bn = os.path.basename(p)
            for e in (".vrp", ".tsp", ".pickle"):
                bn = bn.replace(e, "")
            if bn in used:
                bn = p
            used.add(bn)
            if k == i:
                return bn


def file_order(B):
    """the order in which the library says it will go through the files"""
    b = B.b
    idx = list(range(len(b["files"])))
    if b["how"] in ("one", "list"):
        return [i for i in idx if b["files"][i]["fault"] != "folder"]
    groups = {}
    for i in idx:
        groups.setdefault(os.path.dirname(B.paths[i]), []).append(i)
    out = []
    for dname in sorted(groups):
        for ext in (".vrp", ".tsp", ".pickle"):
            out += sorted((i for i in groups[dname] if b["files"][i]["ext"] == ext),
                          key=lambda i: os.path.basename(B.paths[i]))
    return out


# -- parsing ---------------------------------------------------------------
def parse(out):
    """-> blocks [(problem, algorithm, fields)], table {row: {col: text}}, csv"""
    blocks, table, csv = [], None, []
    ls = out.split("\n")
    cur = None
    head = None
    i = 0
    while i < len(ls):
        l = ls[i]
        if l.startswith("Solving ") and " with " in l:
            a, _, c = l[8:].rpartition(" with ")
            cur = dict(problem=a, algo=c)
            blocks.append(cur)
        elif l.startswith("instance\t"):
            head = l.split("\t")
            table = {}
        elif head is not None and "\t" in l and not l.startswith("No."):
            cells = [c.strip() for c in l.split("\t")]
            table[cells[0]] = dict(zip(head[1:], cells[1:]))
            table[cells[0]]["_n"] = len(cells)
        elif l.count(";") == 5:
            csv.append(l.split(";"))
        elif cur is not None:
            if l.startswith("No.\tCost"):
                rows = []
                i += 1
                while i < len(ls) and "\t" in ls[i] and ls[i].split("\t")[0].isdigit():
                    rows.append(ls[i].split("\t"))
                    i += 1
                cur["routes"] = rows
                if i < len(ls) and ls[i].startswith("Total"):
                    cur["total"] = ls[i].split("\t")
                else:
                    continue
            elif l.startswith("SOLUTION IN VRPH"):
                i += 1
                cur["vrph"] = ls[i] if i < len(ls) else ""
            elif ":" in l:
                k, v = l.split(":", 1)
                if k in ("SOLUTION", "FEASIBLE", "SOLUTION K", "SOLUTION COST", "SOLUTION LENGTH",
                         "ALL SERVED", "IS C FEASIBLE", "IS L FEASIBLE", "SIZE", "CAPACITY",
                         "DISTANCE", "SERVICE_TIME"):
                    cur[k] = v.strip()
        i += 1
    return blocks, table, csv


def number(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return False
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(b))


def routes_of(sol):
    return sorted(min(tuple(r), tuple(r[::-1])) for r in oracle.split_routes(sol))


def sets_of(sol):
    return sorted(tuple(sorted(r)) for r in oracle.split_routes(sol))


# -- judgement -------------------------------------------------------------
def quality(B, i, sol):
    m = B.ms[i]
    D = tsplib.with_service(m["D"], m["st"]) if "-c" in B.b["opts"] else m["D"]
    return oracle.cost([0] + [n for n in sol] + [0], D)


def least(B, i, sol):
    """the least cost of any plan with these routes, in whatever order they are driven"""
    m = B.ms[i]
    D = tsplib.with_service(m["D"], m["st"]) if "-c" in B.b["opts"] else m["D"]
    total = 0.0
    for r in oracle.split_routes(sol):
        if len(r) > 9:
            return 0.0
        best = {(1 << k, k): D[0][n] for k, n in enumerate(r)}
        for size in range(2, len(r) + 1):
            nxt = {}
            for (s, k), v in best.items():
                for k2, n2 in enumerate(r):
                    if not s >> k2 & 1:
                        w, q = v + D[r[k]][n2], (s | 1 << k2, k2)
                        if w < nxt.get(q, float("inf")):
                            nxt[q] = w
            best = nxt
        total += min((v + D[r[k]][0] for (_, k), v in best.items()), default=0.0)
    return total


def tidy(sol):
    """without repeated depots"""
    out = [0]
    for n in sol:
        if n or out[-1]:
            out.append(n)
    if out[-1]:
        out.append(0)
    return out


def classify(B, i, sol):
    """-> (all served exactly once, capacity kept, route cost kept)"""
    m = B.ms[i]
    bad = oracle.judge(tidy(sol), np.array(tsplib.with_service(m["D"], m["st"])), m["d"], m["C"], m["L"])
    return (not any(x.startswith(("missing", "customers", "unknown", "does not")) for x in bad),
            not any(x.startswith("capacity") for x in bad),
            not any(x.startswith("route limit") for x in bad))


def planned(B, i, j):
    """(value expected in the report, plan) of an attempt"""
    if B.b.get("real"):
        sol = B.plans.get((i, j))
        if sol is None:
            return float("inf"), None
        return quality(B, i, tidy(sol)), tidy(sol)
    o = B.b["out"][i][j]
    if o["kind"] in ("exc", "none"):
        return float("inf"), None
    if o["kind"] == "int" and "sol" not in o:
        return None, None
    return quality(B, i, tidy(o["sol"])), tidy(o["sol"])


def judge_p06(B, o):
    """one failure or interrupt costs only what it hits"""
    b = B.b
    out = []
    order = file_order(B)
    full = [(i, j) for i in order if readable(b["files"][i]) for j in range(len(B.names()))]
    calls = [tuple(c) for c in o["calls"]]
    scripted = not b.get("real")
    cut = o["injected"] is not None or (scripted and any(
        c[0] is not None and b["out"][c[0]][c[1]]["kind"] == "int" for c in calls))
    done = calls if not cut else calls[:-1]
    over = len(calls) == len(full) or (scripted and calls and calls[-1][0] is not None and
                                       b["out"][calls[-1][0]][calls[-1][1]]["kind"] == "int")
    if o["end"] == "int" and o["injected"] and (o["before_files"] or over):
        return out
    if o["end"] != "ret":
        out.append(("the batch ended with %s" % dict(
            int="an uncaught interrupt", exc="an error", over="no end", exit="an exit").get(o["end"]),
            "%s, after %d of %d attempts: %s" % (o["end"], len(calls), len(full), o["exc"] or o["injected"])))
        return out
    if any(c[0] is None for c in calls):
        out.append(("an algorithm was handed another problem than the file defines", str(calls)))
        return out
    if len(set(calls)) != len(calls):
        out.append(("attempted twice", str(calls)))
    if not cut and set(calls) != set(full):
        out.append(("not attempted", "files %s, attempts missing %s, unexpected %s" % (
            [f["fault"] for f in b["files"]], sorted(set(full) - set(calls)), sorted(set(calls) - set(full)))))
    if not set(calls) <= set(full):
        out.append(("attempted an unreadable file", str(sorted(set(calls) - set(full)))))
    if scripted:
        for k, c in enumerate(calls[:-1]):
            if b["out"][c[0]][c[1]]["kind"] == "int":
                out.append(("went on after an interrupt", str(calls)))
    if out:
        return out
    blocks, table, csv = parse(o["out"])
    names = B.names()
    post = "--post-optimize" in b["opts"]

    def fits(text, i, j):
        """is this what has to be reported for the attempt?"""
        v = number(text)
        if v is None:
            return False
        want, sol = planned(B, i, j)
        if sol is None:
            return v == float("inf")
        if post:
            return least(B, i, sol) * (1 - 1e-6) - .01 <= v <= want * (1 + 1e-6) + .01
        return close(v, want, .006 / max(1.0, abs(want)) if "-m" in b["opts"] else 1e-6)

    must = list(done)
    if cut and calls and scripted and b["out"][calls[-1][0]][calls[-1][1]].get("sol") \
            and o["injected"] is None:
        must.append(calls[-1])        # the plan that came with the interrupt
    if "-m" in b["opts"]:
        got = [(r[0], r[1]) for r in csv if r[0] != "algo"]
        for k, c in enumerate(must):
            rows = [r for r in csv[1:] if r[0] == names[c[1]][0] and is_label(B, c[0], r[1])]
            if not any(fits(r[3], *c) for r in rows):
                out.append(("result not reported", "no line for %s: %s" % (c, csv)))
        # an attempt interrupted before the algorithm was called has a line, too
        spare = 1 if o["injected"] and len(csv) and csv[-1][3] == "inf" else 0
        if len(got) > len(calls) + spare:
            out.append(("results out of nowhere", str(csv)))
        return out
    if not (len({c[0] for c in must}) > 1 or len(names) > 1):
        for c in must:
            if planned(B, *c)[1] is None:
                continue
            if not any("SOLUTION" in x for x in blocks):
                out.append(("result not reported", "no solution printed for %s" % (c,)))
        return out
    if must and table is None:
        out.append(("no report", "no table of the results %s" % must))
        return out
    table = table or {}
    label = "+" + "+".join(b["opts"][k + 1] for k, x in enumerate(b["opts"]) if x == "--post-optimize") \
        if post else ""
    cols = [n + label for _, n in names]
    # every file has a row of its own
    rows = {}
    for i in sorted({c[0] for c in must}):
        cands = [r for r in table if is_label(B, i, r) and r not in rows.values()]
        ok = [r for r in cands if all(fits(table[r].get(cols[j]), i, j) for a, j in must if a == i)]
        if not ok:
            out.append(("result not reported", "no row for the results of file %d (%s) in %s" % (
                i, [planned(B, *c)[0] for c in must if c[0] == i], table)))
        else:
            rows[i] = ok[0]
            for j in range(len(cols)):
                v = number(table[ok[0]].get(cols[j]))
                if (i, j) not in calls and v is not None and not (v == float("inf") and o["injected"]):
                    out.append(("results out of nowhere", "%s %s: %s" % (ok[0], cols[j], table)))
    if not out:
        last = {c[0] for c in calls} - set(rows)
        extra = [r for r in table if r not in rows.values() and
                 not any(is_label(B, i, r) for i in last) and
                 not (o["injected"] and all(number(table[r].get(c)) in (None, float("inf"))
                                            for c in cols))]
        if extra:
            out.append(("results out of nowhere", str(extra)))
    return out


def is_label(B, i, text):
    p = B.paths[i].replace(B.dir, "<dir>")
    bn = os.path.basename(p)
    return text in (p, bn, os.path.splitext(bn)[0], os.path.splitext(p)[0])


def judge_p07(B, o):
    """what is reported is true"""
    b = B.b
    out = []
    if o["end"] in ("exc", "over"):
        return out if o["end"] == "exc" and not o["calls"] else \
            [("reporting failed", "%s %s" % (o["end"], o["exc"]))]
    calls = [tuple(c) for c in o["calls"]]
    if any(c[0] is None for c in calls):
        return [("an algorithm was handed another problem than the file defines", str(calls))]
    scripted = not b.get("real")
    post = "--post-optimize" in b["opts"]
    names = B.names()
    blocks, table, csv = parse(o["out"])
    best_K = {}

    def expect(what, got, want, ctx, tol=1e-6):
        v = number(got)
        if v is None or not close(v, want, tol):
            out.append(("wrong " + what, "%s: reported %s, recalculated %s" % (ctx, got, want)))

    if "-m" in b["opts"]:
        rows = [r for r in csv if r[0] != "algo"]
        for c, r in zip(calls, rows):
            want, sol = planned(B, *c)
            if not is_label(B, c[0], r[1]) or r[0] != names[c[1]][0]:
                out.append(("result under another name", "%s: %s" % (c, r)))
            elif sol is None or (o["edge"] and c == calls[-1] and r[2] == "False" and r[3] == "inf"):
                if r[2] != "False" or number(r[3]) != float("inf"):
                    out.append(("a result out of nowhere", "%s: %s" % (c, r)))
            else:
                ok = all(classify(B, c[0], sol))
                # post-optimization may also mend a plan that is too long
                if r[2] != str(ok) and not (post and r[2] == "True" and classify(B, c[0], sol)[:2] == (True, True)):
                    out.append(("wrong feasibility", "%s: %s for %s" % (r, ok, sol)))
                if not post:
                    expect("cost", r[3], round(want, 2), r, .0101 / max(1.0, want))
                elif not (number(r[3]) is not None and least(B, c[0], sol) - .01 <= number(r[3]) <= want + .01):
                    out.append(("wrong cost", "%s is not between %s and %s" % (r, least(B, c[0], sol), want)))
                expect("number of routes", r[4], len(oracle.split_routes(sol)), r)
        return out
    shown = {}
    for k, x in enumerate(blocks):
        if k >= len(calls):
            if "SOLUTION" in x:
                out.append(("a plan out of nowhere", str(x)))
            continue
        i, j = calls[k]
        m = B.ms[i]
        ctx = "file %d, %s" % (i, names[j][1])
        if x["algo"] != names[j][1] or not is_label(B, i, x["problem"]):
            out.append(("result under another name", "%s: %s" % (ctx, x)))
            continue
        if "SOLUTION" not in x:
            continue
        try:
            sol = [int(t.split("(")[-1].rstrip(")")) for t in x["SOLUTION"].strip("[]").split(",")]
        except ValueError:
            out.append(("unreadable plan", x["SOLUTION"]))
            continue
        src = planned(B, i, j)[1]
        if src is None:
            out.append(("a plan out of nowhere", "%s: %s" % (ctx, sol)))
            continue
        if (sets_of(sol) != sets_of(src)) if post else (routes_of(sol) != routes_of(src)):
            out.append(("another plan", "%s: printed %s, obtained %s" % (ctx, sol, src)))
            continue
        if post and quality(B, i, sol) > quality(B, i, src) + 1e-6:
            out.append(("worse plan", "%s: %s printed after %s" % (ctx, sol, src)))
        shown[(i, j)] = sol
        ok = classify(B, i, sol)
        if not scripted and not all(ok):
            out.append(("infeasible plan of a real algorithm", "%s: %s" % (ctx, sol)))
        if "FEASIBLE" in x and x["FEASIBLE"] != str(all(ok)):
            out.append(("wrong feasibility", "%s: reported %s, is %s for %s" % (ctx, x["FEASIBLE"], ok, sol)))
        for f, v in (("ALL SERVED", ok[0]), ("IS C FEASIBLE", ok[1]), ("IS L FEASIBLE", ok[2])):
            if f in x and x[f] != str(v):
                out.append(("wrong feasibility", "%s: %s reported %s for %s" % (ctx, f, x[f], sol)))
        if "--routes" in b["opts"] and "SOLUTION K" in x and not all(ok) and \
                all(x.get(f, "True") == "True" for f in ("ALL SERVED", "IS C FEASIBLE", "IS L FEASIBLE", "FEASIBLE")):
            out.append(("infeasibility not reported", "%s: %s" % (ctx, sol)))
        if "--routes" not in b["opts"] and "SOLUTION K" in x and "FEASIBLE" not in x:
            out.append(("infeasibility not reported", "%s: %s" % (ctx, sol)))
        R = oracle.split_routes(sol)
        best_K[i] = min(best_K.get(i, 10 ** 9), len(R))
        if "SOLUTION K" in x:
            expect("number of routes", x["SOLUTION K"], len(R), ctx)
        Dc = tsplib.with_service(m["D"], m["st"])
        if "SOLUTION COST" in x:
            expect("cost", x["SOLUTION COST"], oracle.cost(sol, Dc), ctx)
        if "SOLUTION LENGTH" in x:
            expect("length", x["SOLUTION LENGTH"], oracle.cost(sol, m["D"]), ctx)
        if "SIZE" in x:
            expect("size", x["SIZE"], m["N"] + 1, ctx)
        for f, v in (("CAPACITY", m["C"]), ("DISTANCE", m["L"]), ("SERVICE_TIME", m["st"])):
            if f in x and number(x[f]) != v and x[f] != str(v):
                out.append(("wrong problem data", "%s: %s is %s, not %s" % (ctx, f, x[f], v)))
        for r in x.get("routes", []):
            try:
                rt = [int(t.split("(")[-1].rstrip(")")) for t in r[4].strip("[]").split(",")]
            except (IndexError, ValueError):
                out.append(("unreadable route", "%s: %s" % (ctx, r)))
                continue
            mid = [n for n in rt if n]
            if tuple(mid) not in [tuple(y) for y in R] and tuple(mid[::-1]) not in [tuple(y) for y in R]:
                out.append(("another route", "%s: %s is not in %s" % (ctx, rt, sol)))
            expect("route cost", r[1], oracle.route_cost(mid, Dc), ctx, .0051)
            expect("route length", r[2], oracle.route_cost(mid, m["D"]), ctx, .0051)
            if m["C"] is not None:
                expect("route load", r[3], sum(m["d"][n] for n in mid), ctx)
        if "total" in x:
            if len(x.get("routes", [])) != len(R):
                out.append(("routes missing", "%s: %s of %s" % (ctx, x.get("routes"), sol)))
            expect("total cost", x["total"][1], oracle.cost(sol, Dc), ctx, .0051)
            expect("total length", x["total"][2], oracle.cost(sol, m["D"]), ctx, .0051)
        if x.get("vrph"):
            v = [int(t) for t in x["vrph"].split()]
            rs = []
            for n in v[1:-1]:
                if n < 0:
                    rs.append([-n])
                elif rs:
                    rs[-1].append(n)
                else:
                    rs.append([n])
            if rs != R:
                out.append(("another plan in the VRPH format", "%s: %s for %s" % (ctx, v, sol)))
    if table is not None and o["end"] == "ret":
        label = "+" + "+".join(b["opts"][k + 1] for k, y in enumerate(b["opts"])
                               if y == "--post-optimize") if post else ""
        done = {}
        for (i, j), sol in shown.items():
            rows = [r for r in table if is_label(B, i, r)]
            vals = [table[r].get(names[j][1] + label) for r in rows]
            if o["injected"] and (i, j) == calls[-1]:
                continue
            if not any(close(number(v), quality(B, i, sol)) for v in vals):
                out.append(("wrong value in the report", "%s %s is reported as %s, recalculated %s" % (
                    i, names[j][1], vals, quality(B, i, sol))))
            done.setdefault(i, rows)
        for i, rows in done.items():
            if len(rows) != 1 or o["injected"]:
                continue
            t = table[rows[0]]
            m = B.ms[i]
            for f, v in (("N", m["N"]), ("C", m["C"]), ("L", m["L"]), ("st", m["st"]), ("K*", best_K[i])):
                if f in t and t[f] != str(v) and number(t[f]) != v:
                    out.append(("wrong problem data", "%s in the report: %s, not %s" % (f, t[f], v)))
            if "tightness" in t and m["C"]:
                expect("tightness", t["tightness"], sum(m["d"]) / (m["C"] * best_K[i]), rows[0], .0006)
    return out
