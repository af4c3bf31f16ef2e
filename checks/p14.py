"""The list of problem files under any listing order of the storage."""
import os
import re
import shutil

from sim import fsorder, inject, rng

STEMS = ["p", "P", "a", "A", "prob", "X-n", "x-n", "E", "n10-", "z_", "k", "", "²", "ä", "p[1]", "q*", "r 1"]
EXTS = [".vrp", ".vrp", ".vrp", ".tsp", ".pickle"]
OTHER = ["readme.txt", "p1.sol", "x.vrp.bak", "vrp", "notes", "a.vrpx", "p1.opt", "b.pickle~"]


def gen_tree(g, depth=0):
    files = []
    for _ in range(g.choice([0, 1, 2, 4, 7])):
        s = g.choice(STEMS)
        num = g.choice(["", "1", "2", "10", "01", "001", "100", "9", "1a", "2b10"])
        f = (s + num or "f") + g.choice(EXTS)
        if f not in files:
            files.append(f)
    for o in OTHER:
        if g.random() < .1:
            files.append(o)
    dirs = {}
    if depth < 3:
        for _ in range(g.choice([0, 0, 1, 2, 3]) if depth else g.choice([0, 1, 2, 3])):
            n = g.choice(["s", "S", "sub", "set [1]", "b?", "c*", "٣", "²"]) + g.choice(["", "1", "2", "10", "02"])
            dirs[n] = gen_tree(g, depth + 1)
    return dict(files=files, dirs=dirs)


def natural(name):
    return [int(c) if k % 2 else c.lower() for k, c in enumerate(re.split("([0-9]+)", name))]


def is_problem(f):
    return f.endswith((".vrp", ".tsp", ".pickle"))


class Check:
    ID = "P14"
    RULE = ("a case is one listing of a generated folder tree, file or list file, with every folder listed by "
            "the simulated storage in an order of its own")
    COV_MEASURE = "distinct (tree, arguments, listing order) triples"
    REAL = ["verypy/shared_cli.py get_a_problem_file_list", "verypy/util.py natural_sort", "os.walk, glob"]
    STUB = ["order in which the storage lists the entries of a folder (os.scandir, os.listdir)"]
    STEP_UNIT = "folder listings served by the simulated storage"
    ASSUMPTIONS = [
        "the arguments do not name the same folder or file twice",
        "natural order is judged within each folder and file name extension",
        "hidden files, links and folders whose names look like problem files are not generated"]
    UNITS = dict(quick=3500, thorough=100000)

    def setup(self):
        import verypy.shared_cli  # noqa

    def build(self, spec):
        root = fsorder.scratch("tree")
        want = {}

        def make(path, t, top):
            os.mkdir(path)
            for f in t["files"]:
                with open(os.path.join(path, f), "w") as fh:
                    fh.write("x")
            if spec["recursive"] or top:
                want[path] = sorted(f for f in t["files"] if is_problem(f))
            for n, s in t["dirs"].items():
                make(os.path.join(path, n), s, False)
        args = []
        extra = []
        for k, a in enumerate(spec["args"]):
            base = os.path.join(root, "arg%d%s" % (k, a.get("suffix", "")))
            if a["kind"] == "dir":
                make(base, a["tree"], True)
                args.append(base + ("/" if a.get("slash") else ""))
            elif a["kind"] == "file":
                p = base + a["ext"]
                with open(p, "w") as fh:
                    fh.write("x")
                args.append(p)
                extra.append(p)
            elif a["kind"] == "missing":
                args.append(base + ".vrp")
            else:
                d = base + "-files"
                os.mkdir(d)
                ls = []
                for f in a["files"]:
                    p = os.path.join(d, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if not os.path.basename(f).startswith("gone"):
                        with open(p, "w") as fh:
                            fh.write("x")
                        extra.append(p)
                    ls.append(p)
                p = base + ".txt"
                with open(p, "w") as fh:
                    fh.write(a["sep"].join(ls) + (a["sep"] if a["end"] else ""))
                args.append(p)
        return root, args, want, extra

    def run(self, spec):
        import contextlib
        import io
        import verypy.shared_cli as cli
        root, args, want, extra = self.build(spec)
        log = []

        def arrange(path, names):
            g = rng.derive("order", spec["order"], path.replace(root, ""))
            how = g.choice(["shuffle", "shuffle", "reverse", "sorted"])
            if spec["order"] == 0:
                how = "sorted"
            if how == "shuffle":
                g.shuffle(names)
            elif how == "reverse":
                names = names[::-1]
            log.append(how)
            return names
        mine = list(args)
        exc, got = None, None
        try:
            with fsorder.Order(root, arrange), inject.CpuCap(), contextlib.redirect_stderr(io.StringIO()):
                got = cli.get_a_problem_file_list(mine, spec["recursive"])
        except inject.StepBudgetExceeded:
            exc = "does not end"
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, str(e)[:200].replace(root, ""))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        rel = lambda p: os.path.normpath(p).replace(root, "")
        return dict(exc=exc, got=None if got is None else [rel(p) for p in got],
                    want={rel(k): v for k, v in want.items()}, extra=[rel(p) for p in extra],
                    changed=mine != args, log=log)

    def judge(self, spec, o, ref):
        if o["exc"]:
            return dict(kind="no list", detail=o["exc"])
        got = o["got"]
        want = sorted([os.path.join(d, f) for d, fs in o["want"].items() for f in fs] + o["extra"])
        if sorted(got) != want:
            twice = sorted({p for p in got if got.count(p) > 1})
            return dict(kind="listed more than once" if twice else
                        "missing" if set(want) - set(got) else "not a problem file",
                        detail="missing %s, unexpected %s, repeated %s" % (
                            sorted(set(want) - set(got))[:6], sorted(set(got) - set(want))[:6], twice[:6]))
        if o["changed"]:
            return dict(kind="the caller's list was changed", detail="")
        if ref is not None and ref["got"] != got:
            return dict(kind="depends on the listing order", detail="%s, but %s when listed in sorted order" % (
                got, ref["got"]))
        for d in o["want"]:
            for e in (".vrp", ".tsp", ".pickle"):
                ks = [natural(os.path.basename(p)) for p in got if os.path.dirname(p) == d and p.endswith(e)]
                if ks != sorted(ks):
                    return dict(kind="not in natural order", detail="%s: %s" % (d, got))
        # list files keep their order
        pos = {p: k for k, p in enumerate(got)}
        ex = [pos[p] for p in o["extra"]]
        if ex != sorted(ex):
            return dict(kind="order of the arguments or of a list file not kept", detail=str(got))
        return None

    def execute(self, spec):
        ref = self.run(dict(spec, order=0)) if spec["order"] else None
        o = self.run(spec)
        return dict(violation=self.judge(spec, o, ref), got=o["got"], exc=o["exc"])

    def unit(self, r, seed, index, tier):
        g = rng.derive(self.ID, seed, index)
        args = []
        for _ in range(g.choice([1, 1, 1, 2, 3])):
            k = g.choice(["dir"] * 6 + ["file", "list", "missing"])
            a = dict(kind=k)
            if k == "dir":
                a.update(tree=gen_tree(g), slash=g.random() < .2,
                         suffix=g.choice(["", "", "", " [a]", "?", "[!x]", " b"]))
            elif k == "file":
                a["ext"] = g.choice([".vrp", ".tsp", ".pickle", ".VRP"])
            elif k == "list":
                fs = ["%s%d.vrp" % (g.choice(["b", "a", "gone"]), i) for i in range(g.randint(1, 6))]
                # of the same name in other folders
                fs += ["%s/%s" % (g.choice("xy"), f) for f in fs if g.random() < .4]
                fs += ["%s/%s" % (g.choice("zw"), f) for f in fs[:6] if g.random() < .2 and "/" not in f]
                g.shuffle(fs)
                a.update(files=fs, sep=g.choice(["\n", "\n", "\r\n", "\n\n", " \n"]), end=g.random() < .7)
            args.append(a)
        base = dict(args=args, recursive=g.random() < .6, order=0)
        ref = None
        for k in range(6):
            s = dict(base, order=0 if k == 0 else g.randrange(1, 1 << 30))
            o = self.run(s)
            r.evals += 1
            r.steps += len(o["log"])
            for l in o["log"]:
                r.faults["folder listed: " + l] += 1
            r.see(o["got"], o["exc"])
            r.cov.add(rng.subseed(str(s)))
            if o["log"]:
                r.nontrivial.add(rng.subseed(str(s)))
            v = self.judge(s, o, ref)
            if v:
                r.violation(s, v["kind"], v["detail"])
            ref = ref or o
        r.samples.append(dict(arguments=[a["kind"] for a in args], recursive=base["recursive"],
                              listed=len(o["got"] or [])))

    def shrink(self, spec):
        if len(spec["args"]) > 1:
            for k in range(len(spec["args"])):
                yield dict(spec, args=spec["args"][:k] + spec["args"][k + 1:])
        for k, a in enumerate(spec["args"]):
            rest = lambda b: dict(spec, args=spec["args"][:k] + [b] + spec["args"][k + 1:])
            if a["kind"] == "dir":
                for t in self.smaller(a["tree"]):
                    yield rest(dict(a, tree=t))
                if a.get("suffix"):
                    yield rest(dict(a, suffix=""))
                if a.get("slash"):
                    yield rest(dict(a, slash=False))
            elif a["kind"] == "list" and len(a["files"]) > 1:
                yield rest(dict(a, files=a["files"][1:]))
                yield rest(dict(a, files=a["files"][:-1]))
        if spec["recursive"]:
            yield dict(spec, recursive=False)
        for o in range(1, 6):
            if spec["order"] > 6:
                yield dict(spec, order=o)

    def smaller(self, t):
        for n in t["dirs"]:
            yield dict(t, dirs={k: v for k, v in t["dirs"].items() if k != n})
            for s in self.smaller(t["dirs"][n]):
                yield dict(t, dirs={k: (s if k == n else v) for k, v in t["dirs"].items()})
        for f in t["files"]:
            yield dict(t, files=[x for x in t["files"] if x != f])
