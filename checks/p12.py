"""Local search keeps the plan complete and feasible, never makes it worse, and
its bookkeeping agrees with the routes, however its moves are scheduled and
wherever it is cut."""
import copy

import numpy as np

from sim import inject, lsearch, oracle, rng, solve
from sim.lsearch import INTER, INTRA, OPS, ROUTES

CAP = 600000


def data(a):
    return [list(a[0]), a[1].tobytes(), list(a[2]) if a[2] is not None else None]


class Check:
    ID = "P12"
    RULE = ("a case is one local search (or chain of moves scheduled by the simulator, possibly cut by a round "
            "limit or an interrupt) from a complete feasible plan, with every move compared with reference "
            "bookkeeping")
    COV_MEASURE = "distinct (kind of run, operators, acceptance, iteration, constraints, moves made, how it ended)"
    REAL = ["verypy.local_search (search and all complete move operators)", "verypy.routedata", "numpy"]
    STUB = ["scheduling of moves in the chains (the simulator picks operator, routes and threshold)",
            "delivery of SIGINT (raised at the chosen operator call or source line)"]
    STEP_UNIT = "operator calls"
    ASSUMPTIONS = [
        "symmetric non-negative distances (not necessarily metric), start plan complete and feasible, no empty routes",
        "moves that may worsen a plan by design (insert, redistribute) and the operators documented as incomplete "
        "(2 and 3 route 3-opt*) are not part of a local search",
        "an interrupted local search hands nothing over: the plan of the caller must be intact",
        "costs agree within 5e-6 of the cost of the start plan (the library's own tolerance is 1e-6 per move)"]
    UNITS = dict(quick=8000, thorough=150000)
    UNIT_TIMEOUT = 300

    def setup(self):
        lsearch.setup()

    # -- kinds of runs -----------------------------------------------------
    def search(self, spec, r=None):
        c = spec["case"]
        m = lsearch.Moves(c, spec.get("cut"))
        args = lsearch.build(c)
        before = data(args)
        sol, D, d, C, L = args
        ops = [m.op(o) for o in spec["ops"]] if not spec.get("bare") else [lsearch.F[o] for o in spec["ops"]]
        kw = {}
        if spec.get("rounds"):
            kw["max_iterations"] = spec["rounds"]
        at = spec.get("at")
        inj = inject.Injector([solve.ROOT], mode="line" if at else "jump", at=at, exc=KeyboardInterrupt, cap=CAP)
        end, out, exc = None, None, None
        try:
            with inj:
                out = lsearch.LS.do_local_search(ops, sol, D, d, C, L, spec["accept"], spec["iterate"], **kw)
            end = "ret"
        except KeyboardInterrupt:
            end = "int"
        except inject.StepBudgetExceeded:
            end = "over"
        except Exception as e:
            end, exc = "exc", "%s: %s" % (type(e).__name__, str(e)[:120])
        finally:
            m.done()
        o = dict(end=end, sol=solve.plain(out), calls=m.calls, made=m.made, problem=m.problem, exc=exc,
                 fired=inj.fired_at is not None or (spec.get("cut") and m.calls >= spec["cut"]),
                 lines=inj.n, intact=data(args) == before)
        return o, self.judge_search(spec, o)

    def judge_search(self, spec, o):
        c = spec["case"]
        ctx = "%s %s/%s from %s: " % ([x[3:] for x in spec["ops"]], spec["accept"], spec["iterate"], c["sol"])
        if o["problem"]:
            return dict(kind="a move breaks the plan or its bookkeeping", detail=o["problem"])
        if o["end"] == "over":
            return dict(kind="local search does not end", detail=ctx + "after %d moves" % len(o["made"]))
        if o["end"] == "exc":
            return dict(kind="local search crashes", detail=ctx + o["exc"])
        if not o["intact"]:
            return dict(kind="the data of the caller is changed", detail=ctx)
        if o["end"] == "int":
            if not o["fired"]:
                return dict(kind="interrupt out of nowhere", detail=ctx)
            return None
        if o["fired"]:
            return dict(kind="an interrupt is swallowed", detail=ctx)
        return self.judge_plan(c, o["sol"], ctx)

    def judge_plan(self, c, sol, ctx):
        bad = oracle.judge(sol, c["D"], c["d"] or [0] * len(c["D"]), c["C"], c["L"])
        if bad:
            return dict(kind="wrong plan: " + ", ".join(oracle.classes(bad)), detail=ctx + "%s: %s" % (sol, bad))
        a, b = oracle.cost(c["sol"], c["D"]), oracle.cost(sol, c["D"])
        if b > a + 5 * lsearch.unit_cost(c):
            return dict(kind="a more expensive plan", detail=ctx + "%s costs %r, not %r" % (sol, b, a))
        return None

    def chain(self, spec, r=None):
        """the simulator makes the moves, and hands on what the operators gave"""
        from verypy.routedata import RouteData
        c = spec["case"]
        sol, D, d, C, L = lsearch.build(c)
        g = rng.derive("chain", spec["seed"])
        rds = RouteData.from_solution(sol, D, d)
        made, calls, v = [], 0, None
        worse = 0.0
        try:
            for step in range(spec["moves"]):
                op = g.choice(spec["ops"])
                k = ROUTES[op]
                # routes that have become empty stay in the game
                if len(rds) < k:
                    continue
                idx = g.sample(range(len(rds)), k)
                threshold = g.choice(spec["thresholds"])
                if threshold:
                    threshold = threshold * oracle.cost(c["sol"], c["D"])
                st = g.choice([1, 2])
                before = [list(rds[i].route) for i in idx]
                calls += 1
                a = [rds[i].route if k == 1 else rds[i] for i in idx]
                res = lsearch.F[op](*(a + ([D] if k == 1 else [D, d, C, L]) + [st, threshold]))
                p = lsearch.judge_move(op, before, res, threshold, c)
                if p is None and [list(rds[i].route) for i in idx] != before:
                    p = "changed the routes it was given"
                if p:
                    v = dict(kind="a move breaks the plan or its bookkeeping",
                             detail="%s (threshold %r): %s" % (op, threshold, p))
                    break
                if res[-1] is None:
                    continue
                made.append(op)
                if k == 1:
                    old = rds[idx[0]]
                    new = RouteData(res[0], old.cost + res[1], old.demand)
                    if L and oracle.cost(res[0], c["D"]) > L:
                        continue        # a worsening move within a route is the business of the caller
                    rds[idx[0]] = new
                else:
                    for i, x in zip(idx, res[:-1]):
                        rds[i] = x
        except Exception as e:
            v = dict(kind="a move operator crashes", detail="%s: %s: %s" % (op, type(e).__name__, str(e)[:120]))
        out = solve.plain(RouteData.to_solution(rds)) if v is None else None
        if v is None:
            bad = oracle.judge(out, c["D"], c["d"] or [0] * len(c["D"]), C, L)
            if bad:
                v = dict(kind="wrong plan: " + ", ".join(oracle.classes(bad)), detail="%s: %s" % (out, bad))
        return dict(end="ret", sol=out, calls=calls, made=made), v

    def giant(self, spec, r=None):
        """3-opt* on the whole plan, repeatedly"""
        c = spec["case"]
        sol, D, d, C, L = lsearch.build(c)
        sol = sol + [0] * spec.get("spare", 0)
        made, v, cost = [], None, oracle.cost(sol, c["D"])
        cur = sol
        for step in range(spec["moves"]):
            keep = list(cur)
            try:
                new, delta = lsearch.F["do_3optstar_move"](cur, D, d, C, L, spec["accept"])
            except Exception as e:
                v = dict(kind="a move operator crashes", detail="3opt*: %s: %s" % (type(e).__name__, str(e)[:120]))
                break
            if cur != keep:
                v = dict(kind="the data of the caller is changed", detail="3opt*: %s" % keep)
                break
            if delta is None:
                break
            made.append("3opt*")
            v = self.judge_plan(c, solve.plain(list(new)), "3opt* from %s: " % cur)
            now = oracle.cost(new, c["D"])
            if v is None and abs(now - cost - float(delta)) > 5 * lsearch.unit_cost(c):
                v = dict(kind="a move breaks the plan or its bookkeeping",
                         detail="3opt*: change reported as %r, but %s to %s is %r" % (delta, cur, new, now - cost))
            if v:
                break
            cur, cost = new, now
            if spec.get("spare"):
                while not (cur[-1] == 0 and cur[-2] == 0):
                    cur = cur + [0]
        return dict(end="ret", sol=solve.plain(cur), calls=len(made) + 1, made=made), v

    def play(self, spec):
        return getattr(self, spec["run"])(spec)

    def execute(self, spec):
        o, v = self.play(spec)
        return dict(violation=v, out=o)

    # -- units -------------------------------------------------------------
    def gen_search(self, g, c):
        ops = list(OPS)
        g.shuffle(ops)
        k = g.choice([1, 1, 2, 2, 3, 4, 6, 8])
        ops = ops[:k]
        return dict(run="search", case=c, ops=ops, accept=g.choice([1, 2]), iterate=g.choice([1, 2, 3, 4]))

    def specs(self, g, tier):
        """(how, spec), a generator that learns from what it yields"""
        c = lsearch.gen_case(g, 2, g.choice([6, 10, 10, 14]))
        s = self.gen_search(g, c)
        o = yield "search", s
        plain_sol, calls, rounds = o["sol"], o["calls"], len(o["made"]) + 1
        yield "bare", dict(s, bare=True)
        for k in sorted(set([1, 2] + [g.randint(1, max(1, min(rounds, 12))) for _ in range(2)])):
            yield "rounds", dict(s, rounds=k)
        for _ in range(3):
            yield "interrupted between moves", dict(s, cut=g.randint(1, max(1, calls)))
        for _ in range(3):
            yield "interrupted at a line", dict(s, at=g.randint(1, g.choice([200, 2000, 20000])))
        yield "search", dict(self.gen_search(g, c))
        for _ in range(2):
            th = g.choice([[None], [None, None, 1.0], [None, .1, -.02], [1.0, .3]])
            yield "chain", dict(run="chain", case=c, seed=g.randrange(1 << 30), moves=g.choice([5, 20, 60]),
                                thresholds=th, ops=g.choice([list(OPS), list(INTER), s["ops"]]))
        small = lsearch.gen_case(g, 3, 7)
        yield "3opt*", dict(run="giant", case=small, accept=g.choice([1, 2]), moves=40, spare=g.choice([0, 0, 1]))

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        it = self.specs(g, tier)
        o = None
        while True:
            try:
                how, spec = it.send(o)
            except StopIteration:
                break
            o, v = self.play(spec)
            r.evals += 1
            r.steps += o["calls"]
            r.maxima["most events"] = max(r.maxima.get("most events", 0), o.get("lines", 0))
            r.notes[how] += 1
            if how.startswith("interrupted") and o["fired"]:
                r.faults[how] += 1
            if how == "rounds":
                r.faults["round limit"] += 1
            c = spec["case"]
            for m in o["made"]:
                r.notes["moves " + m] += 1
            r.see(how, o)
            if o["made"] or o["end"] == "int":
                r.nontrivial.add(rng.subseed(spec))
            r.cov.add((how, tuple(sorted(spec.get("ops", []))) if how != "chain" else (), spec.get("accept"),
                       spec.get("iterate"), bool(c["C"]), bool(c["L"]), min(len(o["made"]), 6), o["end"]))
            if v:
                r.violation(spec, v["kind"], v["detail"])
        r.samples.append(dict(how=how, spec=spec, out=o))

    def shrink(self, spec):
        c = spec["case"]
        if len(c["D"]) > 3:
            for k in range(len(c["D"]) - 1, 0, -1):
                yield dict(spec, case=lsearch.drop_customer(c, k))
        if len(spec.get("ops", [])) > 1:
            for i in range(len(spec["ops"])):
                yield dict(spec, ops=spec["ops"][:i] + spec["ops"][i + 1:])
        for k in ("C", "L"):
            if c[k] is not None:
                yield dict(spec, case=dict(c, **{k: None}))
        if spec.get("moves", 0) > 1:
            yield dict(spec, moves=spec["moves"] // 2)
            yield dict(spec, moves=spec["moves"] - 1)
