"""Checks that inject something at an instant of a simulated solve."""
from . import mip, rng, solve

CAP = 4000000
REAL = ["all solution algorithms, local search, route data, utilities (verypy/*)",
        "numpy, scipy", "Gurobi (native MIP solver, where it is not told to fail)"]
STUB = ["delivery of SIGINT (the simulator raises KeyboardInterrupt at the chosen instant)",
        "return status of the MIP solver where a fault is planned",
        "LKH / ACOTSP (not installed: the library falls back to its own solver)"]


def post_bound(mode, n):
    """steps allowed after the interrupt: about 5x the largest seen"""
    b = 300 + 40 * n * n
    return b * (8 if mode == "opcode" else 1)


class SolveCheck:
    REAL, STUB = REAL, STUB
    COV_MEASURE = "distinct (algorithm, source location of the injection, how the solve ended)"
    kinds = ("interrupt",)
    doubles = True
    state = False
    steal = False
    mip_faults = ("interrupt",)
    K = dict(quick=26, thorough=60)
    UNIT_TIMEOUT = 600
    bounded = False
    prefix = 0.0            # share of units that only simulate a beginning

    def setup(self):
        solve.setup()

    def judge(self, spec, out, base):
        raise NotImplementedError

    # -- one run --------------------------------------------------------
    def run(self, spec):
        c = spec["case"]
        n = len(c["inst"]["points"])
        return solve.run(
            c, at=spec.get("at"), kind=spec.get("kind", "interrupt"),
            mode=spec.get("mode", "line"), cap=CAP,
            post_cap=post_bound(spec.get("mode", "line"), n) if self.bounded else None,
            plan=spec.get("plan"), state=self.state, steal=self.steal,
            again=spec.get("again"))

    def after(self, spec, out, base):
        """more to do with the process after an injected run (in it)"""
        return None

    def execute(self, spec):
        base = self.base(spec)
        out = self.run(spec)
        v = self.judge(spec, out, base) or self.after(spec, out, base)
        return dict(violation=v, out=strip(out))

    def base(self, spec):
        return None

    def gen(self, g, tier):
        return solve.gen_case(g)

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        if self.prefix and index % 100 < self.prefix * 100:
            return self.unit_prefix(r, g, tier)
        case = self.gen(g, tier)
        a = case["algo"]
        kind = g.choice(self.kinds)
        mode = "opcode" if a in ("ps", "ss", "sn", "pn", "ty", "si", "rfcs", "cmt", "mbsa") \
            and g.random() < .35 else "line"
        base = solve.run(case, mode=mode, cap=CAP, record=True, state=self.state,
                         steal=self.steal)
        r.evals += 1
        r.steps += base["events"]
        r.see(strip(base))
        v = self.judge_base(dict(case=case, mode=mode), base)
        if v:
            r.violation(dict(case=case, mode=mode), v["kind"], v["detail"])
        if base["end"] not in ("ret", "int"):
            r.notes["base runs ended with %s" % base["end"]] += 1
            return
        pts = solve.choose_points(g, base, self.K[tier])
        E = base["events"]
        n = len(case["inst"]["points"])
        again = g.randint(1, 40) if self.doubles and g.random() < .25 else None
        outs = solve.sweep_points(
            case, pts, kind, mode, E, CAP,
            post_bound(mode, n) if self.bounded else None,
            state=self.state, steal=self.steal, again=again) if pts else []
        specs = [(dict(case=case, at=at, kind=kind, mode=mode,
                       **({"again": again} if again else {})), o) for at, o in outs]
        # the MIP solver interrupted or failing in one of its calls
        calls = base["mip_calls"]
        if calls and self.mip_faults:
            ks = list(range(1, calls + 1))
            g.shuffle(ks)
            for k in ks[:6 if tier == "quick" else 20]:
                s = dict(case=case, kind="mip", mode=mode,
                         plan={str(k): g.choice(self.mip_faults)})
                specs.append((s, self.run(s)))
        for s, o in specs:
            r.evals += 1
            r.steps += o["events"]
            if o["end"] == "died":
                raise RuntimeError("injected child died: %r" % (s,))
            if o.get("fired") or o["mip_fired"]:
                what = kind if o.get("fired") else "MIP " + o["mip_fired"][0][1]
                r.faults[what] += o.get("nfired", 1)
                where = tuple(o["fired"]) if o.get("fired") else ("mip", o["mip_fired"][0][0], "")
                r.cov.add((a, where[0], where[1], where[2], o["end"]))
                r.nontrivial.add((a, rng.subseed(sorted(case["inst"].items(), key=str)),
                                  s.get("at"), str(s.get("plan")), kind, mode))
                r.notes["ended %s%s" % (o["end"], " with a plan" if o["sol"] is not None else "")] += 1
                if "post" in o and o["end"] == "int":
                    key = "max steps to unwind / N^2 (%s, %s)" % (mode, a)
                    r.maxima[key] = max(r.maxima.get(key, 0), round(o["post"] / float(n * n), 1))
            r.see(s.get("at"), strip(o))
            v = self.judge(s, o, base)
            if v:
                r.violation(s, v["kind"], v["detail"])
        self.unit_after(r, g, case, base, specs)
        if specs:
            s, o = specs[len(specs) // 2]
            r.samples.append(dict(spec=s, end=o["end"], plan=o["sol"], fired=o.get("fired"),
                                  steps_after=o.get("post")))

    def unit_prefix(self, r, g, tier):
        """interrupts in the beginning of the solve of a larger problem"""
        a = solve.pick_algo(g, [x for x in solve.ALGOS if x not in solve.MIP_ALGOS])
        if g.random() < .3:
            a = "lr3o"
        big = solve.prefix_size(a)
        case = solve.gen_case(g, algo=a, nmin=max(4, big // 3), nmax=big)
        window = g.choice([4000, 20000, 60000, 60000, 150000])
        base = solve.run(case, cap=window, record=True, state=self.state)
        r.evals += 1
        r.steps += base["events"]
        if base["end"] not in ("ret", "over"):
            r.notes["base runs ended with %s" % base["end"]] += 1
            return
        pts = solve.choose_points(g, base, self.K[tier])
        n = len(case["inst"]["points"])
        outs = solve.sweep_points(case, pts, "interrupt", "line", base["events"], window,
                                  post_bound("line", n) if self.bounded else None,
                                  state=self.state, prefix=True)
        for at, o in outs:
            s = dict(case=case, at=at, kind="interrupt", mode="line")
            r.evals += 1
            r.steps += o["events"]
            if o["end"] == "died":
                raise RuntimeError("injected child died: %r" % (s,))
            if o.get("fired"):
                r.faults["interrupt in the beginning of a larger solve"] += 1
                f = o["fired"]
                r.cov.add((a, f[0], f[1], f[2], o["end"]))
                r.nontrivial.add((a, rng.subseed(sorted(case["inst"].items(), key=str)), at))
                if "post" in o and o["end"] == "int":
                    key = "max steps to unwind / N^2 (line, %s)" % a
                    r.maxima[key] = max(r.maxima.get(key, 0), round(o["post"] / float(n * n), 1))
            r.see(at, strip(o))
            v = self.judge(s, o, base)
            if v:
                r.violation(s, v["kind"], v["detail"])

    def unit_after(self, r, g, case, base, specs):
        pass

    def judge_base(self, spec, out):
        return None

    # -- minimisation ---------------------------------------------------
    def shrink(self, spec):
        if spec.get("again"):
            yield {k: v for k, v in spec.items() if k != "again"}
        if spec.get("mode") == "opcode":
            yield dict(spec, mode="line", search=True)
        for c in solve.shrink_case(spec["case"]):
            yield dict(spec, case=c, search=True)

    def research(self, cand, kind):
        if not cand.get("search"):
            return None
        cand = {k: v for k, v in cand.items() if k != "search"}
        if cand.get("at") is None and not cand.get("plan"):
            o = self.execute(cand)
            return (cand, o["violation"]) if o["violation"] and \
                o["violation"]["kind"] == kind else False
        if cand.get("plan"):
            f = list(cand["plan"].values())[0]
            for k in range(1, 12):
                s = dict(cand, plan={str(k): f})
                o = self.execute(s)
                if o["violation"] and o["violation"]["kind"] == kind:
                    return s, o["violation"]
            return False
        base = solve.run(cand["case"], mode=cand["mode"], cap=CAP, record=True,
                         state=self.state, steal=self.steal)
        if base["end"] not in ("ret", "over"):
            return False
        g = rng.derive("shrink", cand["case"]["algo"])
        pts = solve.choose_points(g, base, 120)
        near = [p for p in range(cand["at"] - 10, cand["at"] + 10) if 0 < p <= base["events"]]
        for at in near + pts:
            s = dict(cand, at=at)
            o = self.execute(s)
            if o["violation"] and o["violation"]["kind"] == kind:
                return s, o["violation"]
        return False


def strip(o):
    return {k: v for k, v in o.items() if not k.startswith("_")}
