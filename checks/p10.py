"""Incomplete problem files: every cut, every failing read."""
import os
import shutil

import numpy as np

from sim import fsorder, inject, rng, tsplib, vfile

def same(a, b, tol=1e-9):
    if a is None or b is None:
        return (a is None or len(a) == 0) and (b is None or len(b) == 0)
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and (a.size == 0 or bool(np.abs(a - b).max() <= tol))


class Check:
    ID = "P10"
    RULE = ("a case is one read of a generated problem file through the simulated storage, in which the file "
            "was cut, a read failed or was short, or the two passes over the file saw different faults")
    COV_MEASURE = "distinct (distance type, matrix format, section in which the fault hit, fault, outcome)"
    REAL = ["verypy/cvrp_io.py readers", "verypy/shared_cli.py read_and_solve_a_problem",
            "Python text decoding and buffering"]
    STUB = ["file system (bytes served, sizes of reads, failures)"]
    STEP_UNIT = "raw read operations served by the simulated storage"
    ASSUMPTIONS = [
        "a cut is a prefix of the file; one directly before a section that not every file has (display "
        "coordinates, service times, depot) leaves a complete file of another problem, and is not counted",
        "a cut within a line counts if the whole line would have left the file incomplete, too"]
    UNITS = dict(quick=6000, thorough=250000)

    def setup(self):
        import verypy.cvrp_io  # noqa
        import verypy.shared_cli  # noqa

    def run(self, spec):
        import verypy.cvrp_io as io_
        import verypy.shared_cli as cli
        p = spec["p"]
        data = tsplib.text(p).encode()
        if spec.get("crlf"):
            data = data.replace(b"\n", b"\r\n")
        log, steps = [], [0]
        opens = [0]

        def opener(path, mode, real):
            opens[0] += 1
            f = spec.get("faults", {}).get(str(opens[0])) or spec.get("faults", {}).get("all")
            k = dict(chunk=spec.get("chunk"), log=log, name=path)
            d = data
            if f:
                if f["kind"] == "open":
                    log.append("%s on open" % f["err"])
                    raise vfile.oserror(f["err"], path)
                if f["kind"] == "cut":
                    log.append("cut")
                    d = data[:f["at"]]
                else:
                    k.update(at=f["at"], err=f["err"])
            steps[0] += 1
            return vfile.reader(d, mode, **k)
        root = fsorder.scratch("read")
        path = os.path.join(root, "problem.vrp")
        f0 = (spec.get("faults") or {}).get("all", {})
        with open(path, "wb") as fh:      # for those who look at it first
            fh.write(data[:f0["at"]] if f0.get("kind") == "cut" else data)
        out, exc = None, None
        with vfile.Storage(root, opener), inject.CpuCap():
            try:
                if spec["entry"] == "solve":
                    got = []

                    def algo(points, D, d, C, L, st, ewt, single, minimize_K):
                        got.append((points, D, d, C, L, st))
                        return [0] + [x for i in range(1, len(D)) for x in (i, 0)]
                    cli.read_and_solve_a_problem(path, algo, False, verbosity=-1)
                    a = got[0]
                    out = dict(N=len(a[1]) - 1, D=a[1], d=a[2], C=a[3], L=a[4], st=a[5], points=a[0])
                else:
                    r = io_.read_TSPLIB_CVRP(path)
                    K, L, st = io_.read_TSBLIB_additional_constraints(path)
                    out = dict(N=r[0], points=r[1], dd=r[2], d=r[3], D=r[4], C=r[5], K=K, L=L, st=st)
            except KeyboardInterrupt:
                exc = "interrupt"
            except inject.StepBudgetExceeded:
                exc = "over"
            except BaseException as e:
                exc = "%s: %s" % (type(e).__name__, str(e)[:120].replace(root, "<dir>"))
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return out, exc, log, opens[0]

    def judge(self, spec, out, exc):
        p = spec["p"]
        m = tsplib.meaning(p)
        fs = spec.get("faults") or {}
        if exc == "over":
            return dict(kind="reading does not end", detail="%s %s" % (p["ewt"], fs))
        if out is None:
            if not fs:
                return dict(kind="a complete file is rejected", detail=exc)
            if exc == "interrupt" and not any(f.get("err") == "interrupt" for f in fs.values()):
                return dict(kind="interrupt out of nowhere", detail=str(fs))
            return None
        must = [f for f in fs.values() if f["kind"] == "cut"]
        if must and "all" in fs:
            return dict(kind="a cut file was read without an error",
                        detail="%s %s cut %s" % (p["ewt"], p.get("fmt"), must))
        D = m["D"]
        if spec["entry"] == "solve":
            D = tsplib.with_service(D, m["st"])
        bad = []
        if out["N"] != m["N"]:
            bad.append("size %s, not %s" % (out["N"], m["N"]))
        if not same(out["D"], D):
            bad.append("distances")
        if not same(out["d"], m["d"]):
            bad.append("demands %s, not %s" % (out["d"], m["d"]))
        if "K" in out and out["K"] != m["K"]:
            bad.append("vehicles %s, not %s" % (out["K"], m["K"]))
        for k in "C", "L", "st":
            if out[k] != m[k]:
                bad.append("%s %s, not %s" % (k, out[k], m[k]))
        if spec["entry"] == "solve":
            want = m["points"] or m["dd"]
            if want and not same(out["points"], want):
                bad.append("coordinates %s, not %s" % (out["points"], want))
        else:
            if not same(out["points"], m["points"]):
                bad.append("coordinates %s, not %s" % (out["points"], m["points"]))
            if not same(out["dd"], m["dd"]):
                bad.append("display coordinates %s, not %s" % (out["dd"], m["dd"]))
        if bad:
            return dict(kind="another problem was read" if fs or spec.get("chunk")
                        else "a complete file was read as another problem",
                        detail="%s %s: %s" % (p["ewt"], p.get("fmt"), "; ".join(bad)))

    def execute(self, spec):
        out, exc, log, _ = self.run(spec)
        return dict(violation=self.judge(spec, out, exc), exc=exc, log=log,
                    out=None if out is None else {k: repr(v) for k, v in out.items()})

    def faults(self, g, p, crlf):
        """all cuts at line ends, some within lines, some failing reads"""
        ls = tsplib.lines(p)[0]
        nl = 2 if crlf else 1
        ends = [0]
        for l in ls:
            ends.append(ends[-1] + len(l.encode()) + nl)
        ks = tsplib.cuts(p)
        for k in ks:
            yield dict(all=dict(kind="cut", at=ends[k]))
        inner = [k for k in ks if k + 1 in ks]
        for k in g.sample(inner, min(6, len(inner))):
            yield dict(all=dict(kind="cut", at=g.randrange(ends[k], ends[k + 1])))
        # only one of the passes over the file sees it fail
        for _ in range(10):
            which = g.choice(["1", "2", "all"])
            kind = g.choice(["read"] * 4 + ["open"])
            f = dict(kind=kind, err=g.choice(["EIO", "ESTALE", "interrupt"]))
            if kind == "open":
                f["err"] = g.choice(["EIO", "EMFILE", "ENOENT", "EACCES"])
            f["at"] = g.randrange(ends[-1])
            yield {which: f}

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        p = tsplib.gen(g, 1 if g.random() < .2 else 2, 9)
        if g.random() < .15:            # no demands
            p.update(type="TSP", d=None, C=None, K=None)
        crlf = g.random() < .15
        entry = g.choice(["read", "read", "solve"])
        if entry == "solve" and p["pts"] is None and p["dd"] is None:
            entry = "read"
        spans = tsplib.lines(p)[2]
        base = dict(p=p, entry=entry, crlf=crlf)
        todo = [base, dict(base, chunk=g.choice([1, 2, 3, 7, 16]))]
        for f in self.faults(g, p, crlf):
            s = dict(base, faults=f)
            if g.random() < .3:
                s["chunk"] = g.choice([1, 2, 5, 64])
            todo.append(s)
        key = rng.subseed(str(sorted(p.items(), key=str)))
        for s in todo:
            out, exc, log, n = self.run(s)
            r.evals += 1
            r.steps += max(n, len(log))
            for l in set(log):
                r.faults[l] += 1
            if s.get("chunk"):
                r.faults["short reads"] += 1
            v = self.judge(s, out, exc)
            f = list((s.get("faults") or {}).values())
            if f or s.get("chunk"):
                r.nontrivial.add((key, str(s.get("faults")), s.get("chunk")))
            where = ""
            if f and "at" in f[0]:
                b = 0
                ln = 0
                for l in tsplib.lines(p)[0]:
                    b += len(l) + (2 if crlf else 1)
                    if b > f[0]["at"]:
                        break
                    ln += 1
                where = "/".join(str(k) for k, (a, e, mu) in enumerate(spans) if a <= ln < e)
            r.cov.add((p["ewt"], p.get("fmt"), where, f[0]["kind"] if f else "",
                       f[0].get("err") if f else "", exc.split(":")[0] if exc else "read"))
            r.see(s.get("faults"), s.get("chunk"), exc, None if out is None else repr(sorted(out)))
            if v:
                r.violation(s, v["kind"], v["detail"])
        r.samples.append(dict(type=p["ewt"], format=p.get("fmt"), customers=p["n"], faults=s.get("faults"),
                              outcome=exc or "read"))

    def shrink(self, spec):
        for k in ("chunk", "crlf"):
            if spec.get(k) and not spec.get("faults"):
                yield {a: b for a, b in spec.items() if a != k}
        fs = spec.get("faults") or {}
        if "all" in fs and fs["all"]["kind"] == "cut":
            if spec.get("chunk"):
                yield {a: b for a, b in spec.items() if a != "chunk"}
            p = spec["p"]
            for ch in (dict(K=None), dict(L=None), dict(blank=False), dict(st=None, st_section=False),
                       dict(comment="x", comment2=None), dict(head=None)):
                q = dict(p, **ch)
                if q == p:
                    continue
                ls = tsplib.lines(q)[0]
                for k in tsplib.cuts(q):
                    at = sum(len(l) + (2 if spec.get("crlf") else 1) for l in ls[:k])
                    yield dict(spec, p=q, faults={"all": dict(kind="cut", at=at)})
