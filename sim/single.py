"""The solve-a-file helper (read_and_solve_a_problem) on a generated problem
file with a scripted algorithm: a sequence of starts that give a plan, nothing,
or are interrupted."""
import contextlib
import io
import os
import re
import shutil

import numpy as np

from . import cli, fsorder, inject, oracle, tsplib

GARBAGE = ["text", 3, None, {}]


def gen(g, wild=False):
    p = tsplib.gen(g, 2, 7, name="p")
    m = tsplib.meaning(p)
    n = g.choice([1, 1, 2, 3, 4, 6])
    out = []
    for _ in range(n):
        k = g.choice(["good"] * 8 + ["none", "empty", "int", "int plan", "int plan", "int garbage"])
        s = dict(kind=k)
        if k in ("good", "int plan"):
            style = g.choice(["good"] * 3 + ["missing", "over", "dup"]) if wild else "good"
            s["sol"] = cli.random_plan(g, m, style) or cli.random_plan(g, m)
            s["style"] = style
            if not s["sol"]:
                s["kind"] = "none"
        elif k == "int garbage":
            s["arg"] = g.choice(GARBAGE)
        out.append(s)
    # now and then the same plan again, the other way around
    good = [s for s in out if s.get("sol")]
    if len(good) > 1 and g.random() < .2:
        a, b = g.sample(good, 2)
        b["sol"] = a["sol"][::-1]
    return dict(p=p, starts=out, minK=g.random() < .5, verbosity=g.choice([-1, -1, 0, 1, 2, 3]),
                single=g.random() < .3, timed=g.random() < .3, n=n)


def run(spec):
    import verypy.shared_cli as sc
    p = spec["p"]
    d_ = fsorder.scratch("one")
    calls = []
    o = dict(end=None)
    buf, err = io.StringIO(), io.StringIO()

    def algo(points, D, d, C, L, st, ewt, single, minimize_K):
        calls.append(dict(D=np.asarray(D, dtype=float).tolist(), d=None if d is None else [float(x) for x in d],
                          C=C, L=L, st=st, single=single, minK=minimize_K))
        s = spec["starts"][len(calls) - 1]
        if s["kind"] == "good":
            return list(s["sol"])
        if s["kind"] == "empty":
            return []
        if s["kind"] == "int":
            raise KeyboardInterrupt()
        if s["kind"] == "int plan":
            raise KeyboardInterrupt(list(s["sol"]))
        if s["kind"] == "int garbage":
            raise KeyboardInterrupt(s["arg"])
        return None
    try:
        path = os.path.join(d_, "p.vrp")
        with open(path, "w") as f:
            f.write(tsplib.text(p))
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err), inject.CpuCap():
            try:
                o["res"] = sc.read_and_solve_a_problem(path, algo, spec["minK"], spec["n"], spec["verbosity"],
                                                       spec["single"], spec["timed"])
                o["end"] = "ret"
            except KeyboardInterrupt as e:
                o["end"] = "int"
                o["res"] = e.args[0] if e.args else None
            except inject.StepBudgetExceeded:
                o["end"], o["exc"] = "exc", "does not end"
            except Exception as e:
                o["end"] = "exc"
                o["exc"] = "%s: %s" % (type(e).__name__, str(e)[:150].replace(d_, "<dir>"))
    finally:
        shutil.rmtree(d_, ignore_errors=True)
    o["calls"] = calls
    # times are real
    o["out"] = re.sub(r"SOLVED IN: [0-9.]+ s", "SOLVED IN: <t> s", buf.getvalue())
    return o


def plan_of(o):
    r = o.get("res")
    if o["end"] == "ret":
        r = r[0]
    return [int(x) for x in r] if isinstance(r, list) else r


def sets(sol):
    """the plan without route order and directions"""
    return sorted(min(r, r[::-1]) for r in oracle.split_routes(sol))


def expected(spec):
    """-> (number of starts made, plans obtained, interrupted)"""
    plans = []
    for k, s in enumerate(spec["starts"]):
        if s.get("sol"):
            plans.append(s["sol"])
        if s["kind"].startswith("int"):
            return k + 1, plans, True
    return len(spec["starts"]), plans, False


def key(sol, D, minK):
    c = oracle.cost(sol, D)
    return (len(oracle.split_routes(sol)), c) if minK else (c,)


def less(a, b, tol):
    """a clearly better than b"""
    if len(a) == 2:
        if a[0] != b[0]:
            return a[0] < b[0]
        return a[1] < b[1] - tol
    return a[0] < b[0] - tol


def judge_best(spec, o):
    m = tsplib.meaning(spec["p"])
    Dc = tsplib.with_service(m["D"], m["st"])
    made, plans, interrupted = expected(spec)
    ctx = "starts %s: " % [(s["kind"], s.get("sol")) for s in spec["starts"]]
    if o["end"] == "exc":
        return dict(kind="the run fails", detail=ctx + o["exc"])
    if len(o["calls"]) != made:
        return dict(kind="wrong number of starts", detail=ctx + "%d instead of %d" % (len(o["calls"]), made))
    for c in o["calls"]:
        if c["minK"] != spec["minK"] or c["single"] != spec["single"]:
            return dict(kind="a start with other options", detail=ctx + "%s" % c)
        if np.abs(np.array(c["D"]) - np.array(Dc)).max() > 1e-6 or c["C"] != m["C"] or \
                (c["L"] or None) != (m["L"] or None) or c["d"] != [float(x) for x in m["d"]]:
            return dict(kind="a start with another problem", detail=ctx + "%s" % c)
    if interrupted != (o["end"] == "int"):
        return dict(kind="an interrupt is swallowed" if interrupted else "interrupt out of nowhere", detail=ctx)
    got = plan_of(o)
    if not plans:
        return dict(kind="a plan out of nowhere", detail=ctx + str(got)) if got else None
    if not got:
        return dict(kind="the plans found are lost", detail=ctx)
    if sets(got) not in [sets(x) for x in plans]:
        return dict(kind="a plan out of nowhere", detail=ctx + str(got))
    k = key(got, Dc, spec["minK"])
    for x in plans:
        if less(key(x, Dc, spec["minK"]), k, 1e-6 * max(1, k[-1])):
            return dict(kind="not the best plan", detail=ctx + "minimize %s: got %s %s, not %s %s" % (
                "K" if spec["minK"] else "cost", got, k, x, key(x, Dc, spec["minK"])))
    return None


def judge_numbers(spec, o, m=None):
    """what is returned and printed about the plan is true"""
    m = m or tsplib.meaning(spec["p"])
    Dc = tsplib.with_service(m["D"], m["st"])
    if o["end"] == "exc":
        return dict(kind="the run fails", detail=o["exc"])
    got = plan_of(o)
    if not got:
        if o["end"] == "ret" and any(x is not None and x != float("inf") for x in o["res"][:3]):
            return dict(kind="numbers of no plan", detail=str(o["res"][:3]))
        if "SOLUTION:" in o["out"]:
            return dict(kind="numbers of no plan", detail=o["out"][-300:])
        return None
    f, c = oracle.cost(got, m["D"]), oracle.cost(got, Dc)
    tol = 1e-6 * max(1, c)
    ctx = "plan %s: " % got
    if o["end"] == "ret":
        r = o["res"]
        if abs(r[1] - f) > tol or abs(r[2] - c) > tol:
            return dict(kind="wrong cost returned", detail=ctx + "%r, %r instead of %r, %r" % (r[1], r[2], f, c))
        if not r[3] >= 0:
            return dict(kind="wrong time returned", detail=ctx + "%r" % r[3])
    if spec["verbosity"] < 0:
        return None
    t = o["out"]
    if "SOLUTION:" not in t:
        return dict(kind="nothing reported", detail=ctx + t[-200:])
    said = {}
    for l in t[t.index("SOLUTION:"):].split("\n"):
        a = re.match(r"([A-Z][A-Z ]*[A-Z]):\s*(.*?)\s*$", l)
        if a:
            said.setdefault(a.group(1), a.group(2))
    bad = []
    try:
        plan = [int(x) for x in said["SOLUTION"].strip("[]").split(",")]
    except ValueError:
        return dict(kind="unreadable report", detail=t[-300:])
    if sets(plan) != sets(got):
        bad.append("another plan %s" % plan)
    probs = oracle.judge(got, Dc, m["d"], m["C"], m["L"])
    cover = not any("missing" in x or "more than once" in x for x in probs)
    capa = not any("capacity" in x for x in probs)
    leng = not any("limit" in x for x in probs)
    for name, true in (("FEASIBLE", cover and capa and leng), ("ALL SERVED", cover), ("IS C FEASIBLE", capa),
                       ("IS L FEASIBLE", leng)):
        if name in said and said[name] != str(true):
            bad.append("%s: %s" % (name, said[name]))
    if not ("FEASIBLE" in said or "ALL SERVED" in said):
        bad.append("feasibility not reported")
    if int(said.get("SOLUTION K", -1)) != len(oracle.split_routes(got)):
        bad.append("K: %s" % said.get("SOLUTION K"))
    if "SOLUTION COST" in said and abs(float(said["SOLUTION COST"]) - c) > tol:
        bad.append("cost %s, not %s" % (said["SOLUTION COST"], c))
    if "SOLUTION LENGTH" in said and abs(float(said["SOLUTION LENGTH"]) - f) > tol:
        bad.append("length %s, not %s" % (said["SOLUTION LENGTH"], f))
    rows = re.findall(r"^(\d+)\t([0-9.]+)\t([0-9.]+)\t(\S+)\t(\[.*\])$", t, re.M)
    if rows and spec["verbosity"] > 1:
        for i, rc, rl, rd, rr in rows:
            r = [int(x) for x in rr.strip("[]").split(",")]
            if abs(float(rc) - oracle.cost(r, Dc)) > .0051 or abs(float(rl) - oracle.cost(r, m["D"])) > .0051:
                bad.append("route %s: %s %s" % (r, rc, rl))
            if rd != "-" and float(rd) != sum(m["d"][x] for x in r):
                bad.append("load of %s: %s" % (r, rd))
        a = re.search(r"^Total\t([0-9.]+)\t([0-9.]+)$", t, re.M)
        if a and (abs(float(a.group(1)) - c) > .0051 or abs(float(a.group(2)) - f) > .0051):
            bad.append("totals %s" % (a.groups(),))
    if bad:
        return dict(kind="wrong report", detail=ctx + "; ".join(bad))
    return None
