import json
import os
import subprocess
import sys
import tempfile

from sim import oracle, perturb, rng, runner, solve, threads, variants, workload
from sim.solvecheck import REAL, STUB, strip
from checks.p03 import BIG

CAP = 4000000
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP = [dict(hashseed="1234"), dict(hashseed="99", O=True)]


def add_embedded():
    """solving a problem given by distances only: coordinates are made up by
    the library first"""
    from verypy import cvrp_ops
    for a in ("gm", "swp", "wh", "ps"):
        def call(points, D, d, C, L, st, ewt, single, minimize_K, f=solve.F[a]):
            pts, ewt = cvrp_ops.generate_missing_coordinates(D)
            return f(pts, D, d, C, L, st, ewt, single, minimize_K)
        solve.F["mds+" + a] = call
        solve.SIZES["mds+" + a] = (7, .3)
    # imports made inside functions
    import numpy as np
    cvrp_ops.generate_missing_coordinates(np.array([[0, 1, 2.], [1, 0, 2], [2, 2, 0]]))


def key(o):
    """what has to be the same"""
    return (o["end"], o.get("exc"), runner.canon(o["sol"]))


def plain_run(case, args=None):
    return strip(solve.run(case, mode="jump", cap=CAP, args=args))


def overwrite(args, case):
    """the problem of the case in the objects of another one -> arguments, or None if it does not fit"""
    new = workload.build(case["inst"])
    pts, D, d = args[:3]
    npts, nD, nd = new[:3]
    if D.shape != nD.shape or D.dtype != nD.dtype or (d is None) != (nd is None) or type(pts) is not type(npts):
        return None
    D[...] = nD
    if d is not None:
        d[:] = nd
    if pts is not None:
        pts[:] = npts
    return (pts, D, d) + tuple(new[3:])


class Check:
    ID = "P04"
    RULE = ("a case is one solve in a perturbed environment (RNG state, clock, identities, heap, logging, "
            "history, interleaving, interpreter configuration) compared with the same solve in a fresh process")
    COV_MEASURE = "distinct (algorithm, layout, set of perturbations)"
    STEP_UNIT = "loop iterations and function entries of library code"
    REAL = REAL
    STUB = STUB[1:] + ["clocks, id(), RNG states, log handler (simulated)",
                       "thread scheduler (real threads that run one at a time, switched by the seed)"]
    ASSUMPTIONS = [
        "the native libraries (numpy, scipy, scikit-learn, Gurobi) are deterministic for the same calls",
        "solves whose MIP calls hit the work limit are not compared"]
    UNITS = dict(quick=700, thorough=8000)
    UNIT_TIMEOUT = 600

    def setup(self):
        solve.setup()
        add_embedded()

    def order(self, n):
        return list(range(n))

    # -- specs ----------------------------------------------------------
    def gen(self, g, algo=None, small=False):
        names = solve.ALGOS + [a for a in solve.F if a.startswith("mds+")]
        a = algo or g.choice(sorted(names))
        hi = BIG.get(a, 8) if not small else solve.SIZES[a][0]
        return solve.gen_case(g, algo=a, nmin=3, nmax=hi, wide=g.random() < .5,
                              explicit=g.random() < .1)

    def relative(self, g, case):
        """a different problem that looks much like this one"""
        i = dict(case["inst"])
        how = g.choice(["demand", "C", "L", "points", "options", "algo"])
        c = dict(case)
        if how == "demand":
            d = i["d"][1:]
            g.shuffle(d)
            i["d"] = [0] + d
        elif how == "C" and i["C"]:
            i["C"] = i["C"] * 2
        elif how == "L" and i["L"]:
            i["L"] = i["L"] * 2
        elif how == "points" and not i.get("D"):
            p = [tuple(x) for x in i["points"]]
            m = p[1:]
            g.shuffle(m)
            i["points"] = p[:1] + m
            if i["L"]:
                i["L"] = i["L"] * 2
        elif how == "options":
            c["single"] = not c["single"]
            if c["algo"] in variants.MODS and not i.get("nod"):
                c["var"] = variants.gen(g, c["algo"], i)
            if c["algo"] not in solve.NO_MINK and not c["algo"].startswith("mds"):
                c["minK"] = not c["minK"]
        else:
            a = g.choice(solve.ALGOS)
            if len(i["points"]) <= solve.SIZES[a][0] + 1:
                c["algo"] = a
                c.pop("var", None)
                c["minK"] = c["minK"] and a not in solve.NO_MINK
                if a in solve.NEED_POINTS:
                    i.pop("nopts", None)
        c["inst"] = i
        return c

    def shuffled(self, g, case):
        """the same places and demands, but otherwise numbered"""
        i = dict(case["inst"])
        o = list(range(1, len(i["points"])))
        g.shuffle(o)
        o = [0] + o
        i["points"] = [i["points"][k] for k in o]
        i["d"] = [i["d"][k] for k in o]
        if i.get("D"):
            i["D"] = [[i["D"][a][b] for b in o] for a in o]
        return dict(case, inst=i)

    def specs(self, g, tier):
        light = [a for a in solve.ALGOS if a not in ("lr3o", "gap")]
        for _ in range(4):
            case = self.gen(g)
            p = {}
            if g.random() < .5:
                p["rng"] = g.randrange(1 << 30)
            if g.random() < .5:
                p["clock"] = g.randrange(1 << 30)
            if g.random() < .5:
                p["id"] = g.randrange(1 << 60)
            if g.random() < .5:
                p["heap"] = g.randrange(1 << 30)
            if g.random() < .4:
                p["log"] = g.choice([1, 5, 7, 8, 9, 10, 20, 50])
            if not p:
                p["again"] = 1
            yield dict(case=case, perturb=p)
        # after other solves, completed, interrupted, failed
        case = self.gen(g, small=True)
        hist = []
        for _ in range(g.randint(1, 4)):
            c = self.relative(g, case) if g.random() < .6 else \
                self.gen(g, case["algo"] if g.random() < .5 else None, small=True)
            h = dict(case=c)
            if g.random() < .5:
                h["at"] = g.choice([g.randint(1, 60), g.randint(1, 600), g.randint(1, 5000)])
                h["kind"] = g.choice(["interrupt", "memory", "float"])
            hist.append(h)
        yield dict(case=case, perturb=dict(history=hist))
        # after a solve of another problem in the same objects, or in ones at
        # the same addresses
        case = self.gen(g, small=True)
        hist = []
        for _ in range(g.randint(1, 2)):
            h = dict(case=self.shuffled(g, case))
            if g.random() < .2:
                h["case"] = dict(self.relative(g, h["case"]), inst=h["case"]["inst"])
            if g.random() < .3:
                h["at"] = g.choice([g.randint(1, 600), g.randint(1, 5000)])
                h["kind"] = g.choice(["interrupt", "memory", "float"])
            hist.append(h)
        p = dict(history=hist, ids=g.randrange(1 << 30))
        if g.random() < .5:
            p["shared"] = 1
        yield dict(case=case, perturb=p)
        # among concurrent solves
        a = g.choice(light)
        same = g.random() < .7
        case = self.gen(g, a, small=True)
        others = []
        for _ in range(g.randint(1, 2)):
            o = self.relative(g, case) if g.random() < .5 else \
                self.gen(g, a if same else g.choice(light), small=True)
            others.append(o)
        mode = g.choice(["jump", "line"])
        t = dict(others=others, seed=g.randrange(1 << 30), mode=mode,
                 switch=g.choice([1, 3, 10, 50, 300]) * (1 if mode == "jump" else 3))
        if g.random() < .3:
            t["fail"] = [g.randint(1, 3000), g.choice(["memory", "interrupt", "float"])]
        yield dict(case=case, perturb=dict(threads=t))

    # -- execution ------------------------------------------------------
    def ref(self, case):
        st, o = runner.run_forked(plain_run, (case,), 300)
        if st != "ok":
            raise RuntimeError("reference: %s" % (o,))
        return o

    def play(self, spec):
        """-> [(case, reference, outcome)], counters"""
        p = spec["perturb"]
        case = spec["case"]
        info = {}
        if "interp" in p:
            return [(case, self.ref(case), self.other_interpreter([case], p["interp"])[0])], info
        t = p.get("threads")
        if t:
            cases = [case] + t["others"]
            refs = [self.ref(c) for c in cases]
            fail = {t["fail"][0]: solve.Counting(t["fail"][1])} if t.get("fail") else None
            outs, s, n = threads.run_concurrent(
                rng.derive("sched", t["seed"]), cases, t["switch"], mode=t["mode"], fail_at=fail)
            info["switches"] = len(s.trace)
            info["failed"] = s.failed is not None
            for o in outs:
                o["events"] = n
            return [(c, r, o) for i, (c, r, o) in enumerate(zip(cases, refs, outs))
                    if i != s.failed], info
        ref = self.ref(case)
        with perturb.Perturbed(p) as pt:
            mine = workload.build(case["inst"]) if "shared" in p else None
            for h in p.get("history", []):
                solve.run(h["case"], at=h.get("at"), kind=h.get("kind", "interrupt"), cap=CAP,
                          mode="line" if h.get("at") else "jump",
                          args=overwrite(mine, h["case"]) if mine else None)
            o = plain_run(case, overwrite(mine, case) if mine else None)
        info["clock reads"] = pt.clock_reads
        info["id calls"] = pt.id_calls
        info["log records"] = pt.handler.n if pt.handler else 0
        return [(case, ref, o)], info

    def compare(self, spec, case, ref, o):
        if ref.get("mip_limited") or o.get("mip_limited") or "over" in (ref["end"], o["end"]):
            return None
        if key(ref) != key(o):
            what = sorted(spec["perturb"]) if "interp" not in spec["perturb"] else ["interpreter configuration"]
            return dict(kind="different result",
                        detail="%s: %s in a fresh process, %s with %s" % (
                            case["algo"], brief(ref), brief(o), what))

    def execute(self, spec):
        res, info = self.play(spec)
        v = None
        for c, ref, o in res:
            v = v or self.compare(spec, c, ref, o)
        return dict(violation=v, outs=[[key(r), key(o)] for _, r, o in res])

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        for spec in self.specs(g, tier):
            res, info = self.play(spec)
            p = spec["perturb"]
            for k in p:
                if k == "threads":
                    r.faults["thread switches"] += info["switches"]
                    if info["failed"]:
                        r.faults["failure in another thread"] += 1
                elif k == "history":
                    for h in p[k]:
                        r.faults["history: %s" % (h.get("kind", "other solve"))] += 1
                elif k == "clock":
                    r.faults["clock"] += 1
                    r.notes["clock reads by library code"] += info["clock reads"]
                elif k in ("id", "ids"):
                    r.faults["identities"] += 1
                    r.notes["id() calls by library code"] += info["id calls"]
                elif k == "log":
                    r.faults["log level"] += 1
                    r.notes["log records"] += info["log records"]
                else:
                    r.faults[k] += 1
            for c, ref, o in res:
                r.evals += 2
                r.steps += o.get("events", 0)
                r.see(key(ref), key(o))
                r.nontrivial.add(rng.subseed(c, sorted(p)))
                r.cov.add((c["algo"], c["inst"]["layout"], tuple(sorted(p))))
                v = self.compare(spec, c, ref, o)
                if v:
                    r.violation(spec, v["kind"], v["detail"])
        r.samples.append(dict(spec=spec, plan=res[0][2]["sol"]))

    # -- other interpreter configurations ---------------------------------
    def other_interpreter(self, cases, cfg):
        fd, path = tempfile.mkstemp(prefix="verif-p04-", suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(cases, f)
            env = dict(os.environ, VERIF_HASHSEED=cfg["hashseed"], PYTHONHASHSEED=cfg["hashseed"])
            cmd = [sys.executable] + (["-O"] if cfg.get("O") else []) + \
                [os.path.join(HERE, "check.py"), "P04", "--digests", path]
            # a directory name of another length moves the heap, too
            out = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, timeout=600)
            if out.returncode:
                raise RuntimeError(out.stderr.decode()[-2000:])
            return json.loads(out.stdout)
        finally:
            os.unlink(path)

    def emit_digests(self, path, tier, seed):
        with open(path) as f:
            cases = json.load(f)
        self.setup()
        outs = [None] * len(cases)

        def got(k, res):
            if res[0] != "ok":
                raise RuntimeError(res[1])
            outs[k] = res[1]
        runner.run_pool(((i, plain_run, (c,)) for i, c in enumerate(cases)),
                        int(os.environ.get("VERIF_WORKERS", 0)) or 8, 300, got)
        sys.stdout.write(json.dumps([dict(end=o["end"], exc=o.get("exc"), sol=o["sol"],
                                          mip_limited=o.get("mip_limited")) for o in outs]))
        return 0

    def final(self, tot, viol, tier, seed, n, digests):
        g = rng.derive(self.ID, "interp", seed)
        k = min(n, 300 if tier == "quick" else 3000)
        cases = [self.gen(g) for _ in range(k)]
        cases = json.loads(json.dumps(cases))
        refs = [None] * k

        def got(i, res):
            refs[i] = res[1] if res[0] == "ok" else None
        runner.run_pool(((i, plain_run, (c,)) for i, c in enumerate(cases)), 8, 300, got)
        for cfg in INTERP:
            outs = self.other_interpreter(cases, cfg)
            name = "hash seed" + (" and optimized mode" if cfg.get("O") else "")
            for c, ref, o in zip(cases, refs, outs):
                if ref is None:
                    continue
                tot.evals += 1
                tot.faults[name] += 1
                spec = dict(case=c, perturb=dict(interp=cfg))
                v = self.compare(spec, c, ref, o)
                if v:
                    viol.append((-1, spec, v))
        return {"interpreter configurations": INTERP, "cases per configuration": k}

    # -- minimisation ---------------------------------------------------
    def shrink(self, spec):
        p = spec["perturb"]
        keys = [k for k in p if k not in ("threads", "interp", "history")]
        if len(keys) > 1 or (keys and "history" in p):
            for k in keys:
                yield dict(spec, perturb={a: b for a, b in p.items() if a != k})
        h = p.get("history")
        if h and len(h) > 1:
            for i in range(len(h)):
                yield dict(spec, perturb=dict(p, history=h[:i] + h[i + 1:]))
        t = p.get("threads")
        if t:
            if t.get("fail"):
                yield dict(spec, perturb=dict(threads={k: v for k, v in t.items() if k != "fail"}))
            if len(t["others"]) > 1:
                for i in range(len(t["others"])):
                    yield dict(spec, perturb=dict(threads=dict(
                        t, others=t["others"][:i] + t["others"][i + 1:])))
        for c in solve.shrink_case(spec["case"]):
            yield dict(spec, case=c)


def brief(o):
    if o["end"] == "exc":
        return "raises %s(%s)" % (o.get("exc"), str(o.get("msg"))[:80])
    return "%s %s" % (o["end"], o["sol"])
