"""Written problem and solution files read back equal, or writing fails."""
import math
import os
import shutil

import numpy as np

from checks.p10 import same
from sim import fsorder, inject, oracle, rng, vfile


def gen_problem(g):
    n = g.randint(1, 9)
    N = n + 1
    real = g.random() < .5
    style = g.choice(["plain", "plain", "large", "tiny", "metric"])
    D = [[0] * N for _ in range(N)]
    pts = [(g.random() * 100, g.random() * 100) for _ in range(N)]
    for i in range(N):
        for j in range(i):
            v = math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1]) if style == "metric" \
                else g.random() * {"plain": 100, "large": 1e7, "tiny": 1e-3}[style]
            if g.random() < .05:
                v = 0.0
            if not real:
                v = int(v)
            D[i][j] = D[j][i] = v
    p = dict(D=D, real=real)
    kind = g.choice(["vrp", "vrp", "tsp"])
    p["name"] = g.choice(["a.vrp", "problem-1.vrp", "UP.VRP"]) if kind == "vrp" else \
        g.choice(["a.tsp", "x.prob", "noext"])
    p["vrp"] = kind == "vrp"
    dem = g.random() < .7
    p["d"] = [0] + [g.randint(1, 30) for _ in range(n)] if dem else None
    if dem and g.random() < .3:
        p["d"] = [float(x) for x in p["d"]]
    p["C"] = g.choice([None, max(p["d"]) + g.randint(0, 50) if dem else n + g.randint(0, 4)])
    if p["C"]:
        p["C"] = int(p["C"])
    p["L"] = g.choice([None, None, g.randint(1, 10000)])
    p["sel"] = None
    if g.random() < .4:
        k = g.randint(1, N)
        rest = g.sample(range(1, N), min(k, N) - 1)
        if g.random() < .5:
            rest.sort()
        p["sel"] = [0] + rest
        if not p["vrp"] and g.random() < .5:
            g.shuffle(p["sel"])
    p["prec"] = g.choice([None, None, None, 1, 10, 1000, 100000])
    return p


def parse(text):
    """independent of the library: the fields and the upper triangle"""
    head, D, d, sec = {}, [], {}, None
    for l in text.split("\n"):
        l = l.strip()
        if not l:
            continue
        if l == "EOF":
            head["EOF"] = True
            break
        if ":" in l:
            a, b = l.split(":", 1)
            head[a.strip()] = b.strip()
        elif l[0].isalpha():
            sec = l
        elif sec == "EDGE_WEIGHT_SECTION":
            D += [float(x) for x in l.split()]
        elif sec == "DEMAND_SECTION":
            a, b = l.split()
            d[int(a)] = float(b)
        elif sec == "DEPOT_SECTION":
            head.setdefault("depot", []).append(int(l))
    return head, D, d


class Check:
    ID = "P11"
    RULE = ("a case is one write of a generated problem or solution file to the simulated disk (with short "
            "writes, a full or failing disk at some byte, or a failing close), and what can be read back")
    COV_MEASURE = ("distinct (kind of file, integer/real, subset, precision, fault, part of the file it hit "
                   "in tenths, outcome)")
    REAL = ["verypy/cvrp_io.py writers and readers", "Python text encoding and buffering"]
    STUB = ["disk (how much fits, failures, sizes of single writes)"]
    STEP_UNIT = "raw write operations received by the simulated disk"
    ASSUMPTIONS = [
        "symmetric distances; integer demands, capacity and route limit; the depot is the first selected node of "
        "a .vrp file", "with a precision, distances are written as integers: equal up to one unit of it",
        "without a given capacity the one in the file only has to be no restriction"]
    UNITS = dict(quick=20000, thorough=400000)

    def setup(self):
        import verypy.cvrp_io  # noqa

    def run(self, spec):
        import verypy.cvrp_io as io_
        d_ = fsorder.scratch("disk")
        log = []
        f = spec.get("fault") or {}
        nw = [0]

        def opener(path, mode, real):
            if not any(c in mode for c in "wax"):
                return None
            if f.get("kind") == "open":
                log.append("%s on open" % f["err"])
                raise vfile.oserror(f["err"], path)
            nw[0] += 1
            k = dict(short=f.get("short"), log=log, buffer=f.get("buffer", 8192))
            if f.get("kind") == "write":
                k.update(at=f["at"], err=f["err"], once=f.get("once", False))
            if f.get("kind") == "close":
                k.update(close_err=f["err"])
            return vfile.file_writer(path, mode, **k)
        exc = None
        back = None
        text = None
        try:
            p = spec["p"]
            path = os.path.join(d_, p["name"])
            if spec.get("stale"):
                with open(path, "w") as fh:
                    fh.write(spec["stale"])
            with vfile.Storage(d_, opener), inject.CpuCap():
                try:
                    if "sol" in p:
                        s = io_.as_OPT_solution(p["cost"], list(p["sol"]))
                        with open(path, "w") as fh:
                            fh.write(s)
                    else:
                        D = np.array(p["D"], dtype=float if p["real"] else int)
                        io_.write_TSPLIB_file(path, D, p["d"], p["C"], p["L"],
                                              list(p["sel"]) if p["sel"] else None, p["prec"])
                except KeyboardInterrupt:
                    exc = "interrupt"
                except inject.StepBudgetExceeded:
                    exc = "over"
                except Exception as e:
                    exc = "%s: %s" % (type(e).__name__, str(e)[:120].replace(d_, "<dir>"))
            if exc is None:
                try:
                  with inject.CpuCap():
                    with open(path) as fh:
                        text = fh.read()
                    if "sol" in p:
                        back = io_.read_OPT_CVRP(path)
                    else:
                        back = (io_.read_TSPLIB_CVRP(path), io_.read_TSBLIB_additional_constraints(path))
                except inject.StepBudgetExceeded:
                    back = "reading does not end"
                except Exception as e:
                    back = "%s: %s" % (type(e).__name__, str(e)[:120].replace(d_, "<dir>"))
        finally:
            shutil.rmtree(d_, ignore_errors=True)
        return exc, back, text, log, nw[0]

    def judge(self, spec, exc, back, text, log):
        p = spec["p"]
        hard = [l for l in log if l != "short write"]
        if exc == "over":
            return dict(kind="writing does not end", detail=str(log))
        if exc is not None:
            if not hard:
                return dict(kind="writing fails without a reason", detail=exc)
            if exc == "interrupt" and not any("interrupt" in l for l in hard):
                return dict(kind="interrupt out of nowhere", detail=str(log))
            return None
        ctx = "%s after %s" % (p["name"], log) if log else p["name"]
        if hard and not (spec.get("fault") or {}).get("once"):
            return dict(kind="a failed write is reported as a success", detail=ctx)
        if isinstance(back, str):
            return dict(kind="a written file cannot be read", detail="%s: %s" % (ctx, back))
        bad = []
        if "sol" in p:
            sol, f, k = back
            R = oracle.split_routes(p["sol"])
            if oracle.split_routes(sol) != R:
                bad.append("routes %s, not %s" % (sol, p["sol"]))
            if f is None or abs(f - p["cost"]) > .00501:
                bad.append("cost %s, not %s" % (f, p["cost"]))
            if k != len(R):
                bad.append("%s routes, not %s" % (k, len(R)))
            return dict(kind="another solution is read back", detail="%s: %s" % (ctx, "; ".join(bad))) \
                if bad else None
        sel = p["sel"] or list(range(len(p["D"])))
        want = [[p["D"][i][j] for j in sel] for i in sel]
        q = p["prec"]
        r, (K, L, st) = back
        D = np.asarray(r[4], dtype=float)
        head, flat, dd = parse(text)
        N = len(sel)
        tri = [[0.0] * N for _ in range(N)]
        it = iter(flat)
        try:
            for i in range(N):
                for j in range(i + 1, N):
                    tri[i][j] = tri[j][i] = next(it)
        except StopIteration:
            bad.append("distances missing in the file")
        tol = 1e-9
        if q:
            D, tri, tol = D / q, np.array(tri) / q, 1.0 / q + 1e-9 * (1 + np.abs(np.array(want)).max())
        else:
            tol = 1e-9 * (1 + np.abs(np.array(want)).max())
        if r[0] != N - 1:
            bad.append("size %s, not %s" % (r[0], N - 1))
        if not same(D, want, tol):
            bad.append("distances %s, not %s" % (D.tolist(), want))
        elif not same(tri, want, tol):
            bad.append("distances in the file %s, not %s" % (tri, want))
        if p["vrp"]:
            wd = [0] + [int(p["d"][i]) if p["d"] else 1 for i in sel[1:]]
            if not same(r[3], wd) or [dd.get(i + 1) for i in range(N)] != wd:
                bad.append("demands %s, not %s" % (r[3], wd))
            if (r[5] != p["C"]) if p["C"] else (r[5] is not None and r[5] < sum(wd)):
                bad.append("capacity %s, not %s" % (r[5], p["C"]))
            if L != p["L"]:
                bad.append("route limit %s, not %s" % (L, p["L"]))
            if "CVRP" not in head.get("TYPE", ""):
                bad.append("type %s" % head.get("TYPE"))
        elif "TSP" not in head.get("TYPE", ""):
            bad.append("type %s" % head.get("TYPE"))
        if st is not None or K is not None:
            bad.append("service time %s or vehicles %s out of nowhere" % (st, K))
        if bad:
            return dict(kind="another problem is read back", detail="%s: %s" % (ctx, "; ".join(bad)[:600]))

    def execute(self, spec):
        exc, back, text, log, n = self.run(spec)
        return dict(violation=self.judge(spec, exc, back, text, log), exc=exc, log=log, text=text)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        if g.random() < .15:
            n = g.randint(1, 12)
            sol = [0]
            for c in g.sample(range(1, n + 1), n):
                sol.append(c)
                if g.random() < .3:
                    sol.append(0)
            if sol[-1]:
                sol.append(0)
            p = dict(sol=sol, cost=g.choice([float(g.randint(1, 9999)), g.randint(1, 9999),
                                             round(g.random() * 1000, 3), g.random() * 1e5]),
                     name=g.choice(["a.opt", "A-n%d-k%d.opt" % (n + 1, sol.count(0) - 1), "X.opt"]))
        else:
            p = gen_problem(g)
        stale = g.choice([None, None, "EOF\n" * 300, "DIMENSION: 3\nold\n" * 60])
        base = dict(p=p, stale=stale)
        exc, back, text, log, n = self.run(base)
        size = len(text or "") or 200
        self.note(r, base, exc, back, text, log, n, size)
        for k in range(10):
            kind = g.choice(["write"] * 6 + ["open", "close", "short"])
            f = dict(kind=kind, buffer=g.choice([16, 64, 8192]))
            if kind == "write":
                f.update(at=g.choice([g.randrange(size + 1), g.randrange(size), size - 1, 0]),
                         err=g.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "interrupt"]))
                f["once"] = g.random() < .15
            elif kind == "open":
                f["err"] = g.choice(["EACCES", "ENOSPC", "EMFILE", "EIO"])
            elif kind == "close":
                f["err"] = g.choice(["EIO", "ENOSPC", "EDQUOT"])
            if kind == "short" or g.random() < .3:
                f["short"] = g.choice([1, 3, 17])
            s = dict(base, fault=f)
            self.note(r, s, *self.run(s), size)
        r.samples.append(dict(file=p["name"], nodes=len(p["D"]) if "D" in p else len(p["sol"]),
                              selected=p.get("sel"), precision=p.get("prec"), fault=s.get("fault"),
                              outcome=exc or "written and read back"))

    def note(self, r, s, exc, back, text, log, n, size):
        r.evals += 1
        r.steps += n + len(log)
        for l in set(log):
            r.faults[l] += 1
        f = s.get("fault") or {}
        p = s["p"]
        r.nontrivial.add(rng.subseed(str(p), str(f)))
        r.cov.add(("opt" if "sol" in p else p["vrp"], p.get("real"), bool(p.get("sel")), p.get("prec"),
                   f.get("kind"), f.get("err"), int(10 * f.get("at", 0) / max(1, size)), bool(f.get("short")),
                   exc.split(":")[0] if exc else "written"))
        r.see(f, exc, text, log)
        v = self.judge(s, exc, back, text, log)
        if v:
            r.violation(s, v["kind"], v["detail"])

    def shrink(self, spec):
        if spec.get("stale"):
            yield dict(spec, stale=None)
        if spec.get("fault"):
            yield {k: v for k, v in spec.items() if k != "fault"}
            if spec["fault"].get("short"):
                yield dict(spec, fault={k: v for k, v in spec["fault"].items() if k != "short"})
        p = spec["p"]
        if "D" in p:
            for k in ("d", "C", "L", "sel", "prec"):
                if p[k] is not None and not (k == "C" and False):
                    yield dict(spec, p=dict(p, **{k: None}))
            n = len(p["D"])
            if n > 2:
                q = dict(p, D=[r[:-1] for r in p["D"][:-1]])
                if p["d"]:
                    q["d"] = p["d"][:-1]
                if p["sel"]:
                    q["sel"] = [i for i in p["sel"] if i < n - 1]
                yield dict(spec, p=q)
