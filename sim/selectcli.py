"""Simulated runs of the command line runner in which the algorithms are
selected and forbidden by their abbreviations and aliases: what is attempted
must be what was selected, also when files cannot be read, an optional
dependency is missing, an algorithm fails or a name is unknown."""
import os
import sys

from . import cli, perturb, rng, tsplib

# what the library's documentation and listing promise
GUROBI = ["mbsa", "gap", "ptl"]
CLASSICAL = ["ps", "gpl", "ss", "gps", "ims", "mj", "mbsa", "cmt", "ty", "wh", "gm", "rfcs", "gap",
             "ptl", "lr3o"]
ALL = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "mj", "pi", "mbsa", "cmt", "sn", "pn", "ty", "swp",
       "wh", "gm", "rfcs", "gap", "ptl", "lr3o"]
NAMES = {
    "ps": ["ps", "cw64-ps", "cw", "parallelsavings", "clarkewright"],
    "ps2o": ["ps2o", "cawlip", "savingswith2opt"],
    "gpl": ["gpl", "ga67-ps", "gaskellpi", "gaskelllambda"],
    "ss": ["ss", "we64-ss", "sequentialsavings"],
    "gps": ["gps", "pa88-ps", "generalizedsavings", "paessens"],
    "ims": ["ims", "hp76-ps|ims", "suppression", "mergesuppressionsavings"],
    "si": ["si", "ci", "cheapestinsertion", "sequentialinsertion"],
    "mj": ["mj", "molejameson", "molejamesoninsertion"],
    "pi": ["pi", "parallelinsertion", "parallelcheapestinsertion"],
    "mbsa": ["mbsa", "dv89-mbsa", "matching", "maximummatching", "mm", "desrochersverhoog"],
    "cmt": ["cmt", "cmt79-2p", "tp", "twophase", "cmt2phase"],
    "sn": ["sn", "nn", "snn"],
    "pn": ["pn", "pnn"],
    "ty": ["ty", "ty68-snn", "tyagi"],
    "swp": ["swp", "sweep"],
    "wh": ["wh", "wh72-swls", "wrenholliday", "wrenhollidaysweep"],
    "gm": ["gm", "gm74-swri", "gilletmiller", "gilletmillersweep"],
    "rfcs": ["rfcs", "be83-rfcs", "routefirstclustersecond", "beasley"],
    "gap": ["gap", "fj81-gap", "fisherjaikumar"],
    "ptl": ["ptl", "fr76-ptl", "petal", "fosterryan"],
    "lr3o": ["lr3o", "sg82-lr3opt", "lr3opt"],
    "all": ["all"], "classical": ["classical", "classic"],
}


def case(g, s):
    return g.choice([s, s, s.upper(), s.capitalize()])


def gen(g):
    b = cli.gen_batch(g, nfiles=g.choice([1, 2, 2, 3]))
    b.pop("real", None)
    b.pop("out", None)
    b["opts"] = [x for x in b["opts"] if x in ("-c", "-m", "-1", "-t")]
    sel = []
    for _ in range(g.choice([1, 1, 2, 3, 5])):
        k = g.choice(ALL + ["all", "classical"] * 2)
        sel.append(case(g, g.choice(NAMES[k])))
    if g.random() < .15:
        sel.insert(g.randrange(len(sel) + 1), g.choice(["nosuch", "", "psx", "pss", "2opt"]))
    forbid = []
    if g.random() < .5:
        for _ in range(g.choice([1, 1, 2, 4])):
            forbid.append(g.choice(NAMES[g.choice(ALL)]))
    b["select"], b["forbid"] = sel, forbid
    b["nogurobi"] = g.random() < .2
    b["simulate"] = g.random() < .25
    b["outcomes"] = [g.choice(["good"] * 3 + ["exc", "none"]) for _ in range(7)]
    return b


def expected(b):
    out = []
    back = {n: k for k, ns in NAMES.items() for n in ns}
    for s in b["select"]:
        k = back.get(s.lower())
        ks = ALL if k == "all" else CLASSICAL if k == "classical" else [k] if k else []
        out += [x for x in ks if x not in out]
    bad = {back[n] for n in b["forbid"]}
    return [k for k in out if k not in bad and not (b["nogurobi"] and k in GUROBI)]


class Select(cli.Batch):
    def arguments(self):
        a = []
        for s in self.b["select"]:
            a += ["-a", s]
        for s in self.b["forbid"]:
            a += ["--forbid", s]
        if self.b["simulate"]:
            a.append("--simulate")
        return a

    def named(self, key):
        def call(points, D, d, C, L, st, ewt, single, minimize_K):
            i = self.identify((points, D, d, C, L, st))
            self.calls.append((i, key))
            if i is None:
                raise ValueError("unknown problem")
            h = rng.subseed("select", self.b["seed"], i, key) % len(self.b["outcomes"])
            k = self.b["outcomes"][h]
            if k == "exc":
                self.fired.append("algorithm fails: ValueError")
                raise ValueError("simulated failure")
            if k == "none":
                self.fired.append("algorithm finds nothing")
                return None
            return [0] + [x for n in range(1, len(D)) for x in (n, 0)]
        return call

    def algorithms(self, names):
        import verypy
        gone = None
        if self.b["nogurobi"]:
            self.fired.append("optional dependency missing")
            gone = sys.modules.get("gurobipy")
            sys.modules["gurobipy"] = None
        try:
            got = REAL(names)
        finally:
            if self.b["nogurobi"]:
                sys.modules["gurobipy"] = gone
        self.titles = {a[0]: a[1] for a in got}
        return [(a[0], a[1], a[2], self.named(a[0])) for a in got]

    def names(self):
        return []


REAL = None


def setup():
    global REAL
    import verypy
    if REAL is None:
        REAL = verypy.get_algorithms


def judge(B, o):
    b = B.b
    if o["end"] == "int" and o["injected"]:
        return []       # interrupts of batches are judged on scripted algorithms
    if o["end"] != "ret":
        return [("the batch ended with %s" % o["end"], "%s %s" % (o["end"], o["exc"]))]
    out = []
    want = expected(b)
    files = [i for i in cli.file_order(B) if cli.readable(b["files"][i])]
    if b["simulate"]:
        blocks, table, csv = cli.parse(o["out"])
        if o["calls"]:
            out.append(("an algorithm was run in a simulated run", str(o["calls"])))
        if "-m" in b["opts"]:
            got = [(r[1], r[0]) for r in csv if r[0] != "algo"]
        else:
            back = {v: k for k, v in B.titles.items()}
            got = [(x["problem"], back.get(x["algo"])) for x in blocks]
        for i in files:
            keys = [k for p, k in got if cli.is_label(B, i, p)]
            if set(keys) != set(want):
                out.append(("not the algorithms selected", "file %d: -a %s --forbid %s%s: attempted %s, selected %s" % (
                    i, b["select"], b["forbid"], " (no gurobipy)" if b["nogurobi"] else "", sorted(set(keys), key=str), want)))
        return out
    calls = [tuple(c) for c in o["calls"]]
    if any(c[0] is None for c in calls):
        return [("an algorithm was handed another problem than the file defines", str(calls))]
    full = {(i, k) for i in files for k in want}
    if set(calls) != full:
        out.append(("not the algorithms selected", "-a %s --forbid %s%s: missing %s, unexpected %s" % (
            b["select"], b["forbid"], " (no gurobipy)" if b["nogurobi"] else "",
            sorted(full - set(calls)), sorted(set(calls) - full))))
    return out
