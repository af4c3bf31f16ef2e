"""A local search that is not cut short ends in a local optimum, and an operator
finds a move if there is one (the best one, if asked to)."""
from checks.p12 import CAP
from sim import inject, lsearch, oracle, rng, solve
from sim.lsearch import INTRA, OPS, ROUTES


class Check:
    ID = "P17"
    RULE = ("a case is one uncut local search judged against reference neighbourhoods of its operators, possibly "
            "after other searches (also interrupted ones) in the process, or one operator call on the routes "
            "that a seeded history of moves led to")
    COV_MEASURE = "distinct (kind of run, operators, acceptance, iteration, constraints, moves made)"
    REAL = ["verypy.local_search (search and all complete move operators)", "verypy.routedata", "numpy"]
    STUB = ["delivery of SIGINT to the searches of the history"]
    STEP_UNIT = "operator calls"
    ASSUMPTIONS = [
        "symmetric non-negative distances (not necessarily metric), start plan complete and feasible",
        "a move counts as missed only if it saves more than 4e-6 of the cost of the start plan and keeps that "
        "distance from the route limit", "routes that have become empty are no longer used (as documented)"]
    UNITS = dict(quick=15000, thorough=300000)
    UNIT_TIMEOUT = 300

    def setup(self):
        lsearch.setup()

    def search(self, spec):
        c = spec["case"]
        for h in spec.get("history", []):
            m = lsearch.Moves(h["case"], h.get("cut"))
            a = lsearch.build(h["case"])
            ops = [lsearch.F[o] for o in h["ops"]] if h.get("bare") else [m.op(o) for o in h["ops"]]
            try:
                with inject.Injector([solve.ROOT], mode="jump", cap=CAP):
                    lsearch.LS.do_local_search(ops, *a, h["accept"], h["iterate"])
            except (KeyboardInterrupt, inject.StepBudgetExceeded):
                pass
            finally:
                m.done()
        m = lsearch.Moves(c)
        sol, D, d, C, L = lsearch.build(c)
        ops = [lsearch.F[o] for o in spec["ops"]] if spec["bare"] else [m.op(o) for o in spec["ops"]]
        try:
            with inject.Injector([solve.ROOT], mode="jump", cap=CAP):
                out = lsearch.LS.do_local_search(ops, sol, D, d, C, L, spec["accept"], spec["iterate"])
        except inject.StepBudgetExceeded:
            return dict(end="over", made=[]), dict(kind="local search does not end", detail=str(spec["ops"]))
        except Exception as e:
            return dict(end="exc", made=[]), dict(kind="local search crashes", detail="%s: %s" % (type(e).__name__, e))
        finally:
            m.done()
        out = solve.plain(out)
        o = dict(sol=out, made=m.made, calls=m.calls, end="ret")
        routes = [[0] + r + [0] for r in oracle.split_routes(out)]
        lim = -4 * lsearch.unit_cost(c)
        for op in spec["ops"]:
            for ids in lsearch.combos(op, routes):
                rs = [routes[i] for i in ids]
                delta, q = lsearch.best_neighbour(op, rs, c)
                if delta < lim:
                    return o, dict(kind="not a local optimum", detail="%s %s/%s from %s ends with %s, although %s can "
                                   "change %s to %s (%r)" % ([x[3:] for x in spec["ops"]], spec["accept"],
                                   spec["iterate"], c["sol"], out, op, rs, q, delta))
        return o, None

    def single(self, spec):
        """one operator on the routes a chain of random moves leads to"""
        from verypy.routedata import RouteData
        c = spec["case"]
        sol, D, d, C, L = lsearch.build(c)
        g = rng.derive("single", spec["seed"])
        rds = RouteData.from_solution(sol, D, d)
        lim = 4 * lsearch.unit_cost(c)
        made = []
        for step in range(spec["moves"]):
            op = g.choice(spec["ops"])
            k = ROUTES[op]
            live = [i for i in range(len(rds)) if len(rds[i].route) > 2]
            if len(live) < k:
                continue
            idx = g.sample(live, k)
            st = g.choice([1, 2, 2])
            before = [list(rds[i].route) for i in idx]
            a = [rds[i].route if k == 1 else rds[i] for i in idx]
            res = lsearch.F[op](*(a + ([D] if k == 1 else [D, d, C, L]) + [st]))
            delta, q = lsearch.best_neighbour(op, before, c)
            got = 0.0 if res[-1] is None else float(res[-1])
            o = dict(made=made, calls=step + 1, sol=None, end="ret")
            if res[-1] is None and delta < -lim:
                return o, dict(kind="an improving move is not found",
                               detail="%s on %s misses %s (%r)" % (op, before, q, delta))
            if st == 2 and got > delta + lim:
                return o, dict(kind="not the best move", detail="%s on %s makes a change of %r to %s, %s is %r" % (
                    op, before, got, res[:-1] if k == 1 else [list(x.route) for x in res[:-1]], q, delta))
            if res[-1] is None:
                continue
            made.append(op)
            if k == 1:
                rds[idx[0]] = RouteData(res[0], rds[idx[0]].cost + res[1], rds[idx[0]].demand)
            else:
                for i, x in zip(idx, res[:-1]):
                    rds[i] = x
        return dict(made=made, calls=spec["moves"], end="ret",
                    sol=solve.plain(RouteData.to_solution(rds))), None

    def play(self, spec):
        return getattr(self, spec["run"])(spec)

    def execute(self, spec):
        o, v = self.play(spec)
        return dict(violation=v, out=o)

    def gen_search(self, g, c):
        ops = list(OPS)
        g.shuffle(ops)
        return dict(run="search", case=c, ops=ops[:g.choice([1, 1, 2, 2, 3, 4, 8])], accept=g.choice([1, 2]),
                    iterate=g.choice([1, 2, 3, 4]), bare=g.random() < .5)

    def specs(self, g, tier):
        c = lsearch.gen_case(g, 2, g.choice([6, 9, 9, 12]))
        for _ in range(4):
            yield "alone", self.gen_search(g, c)
        hist = []
        for _ in range(g.randint(1, 3)):
            h = self.gen_search(g, c if g.random() < .5 else lsearch.gen_case(g, 2, 7))
            if g.random() < .6:
                h["cut"] = g.randint(1, g.choice([3, 10, 40]))
                h["bare"] = False
            hist.append(h)
        yield "after other searches", dict(self.gen_search(g, c), history=hist)
        yield "operator calls", dict(run="single", case=c, seed=g.randrange(1 << 30), moves=g.choice([4, 10, 20]),
                                     ops=list(OPS))

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        for how, spec in self.specs(g, tier):
            o, v = self.play(spec)
            r.evals += 1
            r.steps += o.get("calls", 0)
            r.notes[how] += 1
            for h in spec.get("history", []):
                r.faults["history: interrupted search" if h.get("cut") else "history: other search"] += 1
            r.see(how, o)
            c = spec["case"]
            if o["made"] or spec["run"] == "single" or o.get("sol") != c["sol"]:
                r.nontrivial.add(rng.subseed(spec))
            r.cov.add((how, tuple(sorted(spec["ops"])), spec.get("accept"), spec.get("iterate"), bool(c["C"]),
                       bool(c["L"]), min(len(o["made"]), 6)))
            if v:
                r.violation(spec, v["kind"], v["detail"])
        r.samples.append(dict(how=how, spec=spec, out=o))

    def shrink(self, spec):
        if spec.get("history"):
            yield {k: v for k, v in spec.items() if k != "history"}
        c = spec["case"]
        if len(c["D"]) > 3:
            for k in range(len(c["D"]) - 1, 0, -1):
                yield dict(spec, case=lsearch.drop_customer(c, k))
        if len(spec["ops"]) > 1:
            for i in range(len(spec["ops"])):
                yield dict(spec, ops=spec["ops"][:i] + spec["ops"][i + 1:])
        for k in ("C", "L"):
            if c[k] is not None:
                yield dict(spec, case=dict(c, **{k: None}))
        if spec.get("moves", 0) > 1:
            yield dict(spec, moves=spec["moves"] // 2)
            yield dict(spec, moves=spec["moves"] - 1)
