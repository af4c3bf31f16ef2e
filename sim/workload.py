"""Seeded generation of problem instances (plain JSON-able dictionaries)."""
import math

import numpy as np


def _points(rng, n, layout):
    pts = []
    if layout == "uniform":
        pts = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n + 1)]
    elif layout == "cluster":
        k = rng.randint(1, 3)
        cs = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(k)]
        pts = [(rng.uniform(0, 100), rng.uniform(0, 100))]
        for _ in range(n):
            c = rng.choice(cs)
            pts.append((c[0] + rng.gauss(0, 8), c[1] + rng.gauss(0, 8)))
    elif layout == "grid":
        w = rng.choice([3, 4, 5])
        cells = [(x * 10.0, y * 10.0) for x in range(w) for y in range(w)]
        rng.shuffle(cells)
        pts = [cells[i % len(cells)] for i in range(n + 1)]
    elif layout == "ring":
        pts = [(50.0, 50.0)]
        for i in range(n):
            a = 2 * math.pi * i / n + rng.uniform(-.01, .01)
            r = rng.choice([20.0, 35.0])
            pts.append((50 + r * math.cos(a), 50 + r * math.sin(a)))
    elif layout == "line":
        pts = [(rng.choice([0.0, 50.0]), 10.0)] + [(float(rng.randint(0, 100)), 10.0)
                                                   for _ in range(n)]
    elif layout == "copies":
        k = max(2, n // 2)
        base = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(k)]
        pts = [(rng.uniform(0, 100), rng.uniform(0, 100))] + [rng.choice(base) for _ in range(n)]
    elif layout == "atdepot":
        pts = [(50.0, 50.0)] + [(50.0, 50.0) if rng.random() < .3 else
                                (rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n)]
    elif layout == "offside":
        pts = [(-80.0, -40.0)] + [(rng.uniform(0, 40), rng.uniform(0, 40))
                                  for _ in range(n)]
    return [(round(x, 3), round(y, 3)) for x, y in pts]


WIDE = ["line", "copies", "atdepot"]
LAYOUTS = ["uniform", "cluster", "grid", "ring", "offside"]


def gen_instance(rng, nmin=3, nmax=10, constraints=None, wide=False, explicit=False):
    n = rng.randint(nmin, nmax)
    layout = rng.choice(LAYOUTS + WIDE if wide else LAYOUTS)
    pts = _points(rng, n, layout)
    ints = rng.random() < .4
    scale = 1
    if wide and rng.random() < .25:
        scale = rng.choice([.01, 100, 10000])
        ints = ints and scale >= 1
        pts = [(round(x * scale, 5), round(y * scale, 5)) for x, y in pts]
    con = constraints or rng.choice(["C", "C", "C", "L", "CL", "CL"])
    inst = dict(points=pts, ints=ints, layout=layout)
    d = None
    C = L = None
    if "C" in con:
        style = rng.choice(["unit", "small", "mixed", "big"])
        if style == "unit":
            d = [1] * n
        elif style == "small":
            d = [rng.randint(1, 5) for _ in range(n)]
        elif style == "mixed":
            d = [rng.choice([1, 2, 3, 7, 9]) for _ in range(n)]
        else:
            d = [rng.randint(4, 10) for _ in range(n)]
        m = max(d)
        tot = sum(d)
        k = rng.choice([1, 2, 2, 3, 3, 4])
        C = max(m, int(math.ceil(tot / k * rng.choice([1.0, 1.05, 1.2, 1.5]))))
        d = [0] + d
    inst["d"] = d if d is not None else [0] + [1] * n
    inst["C"] = C
    if wide and C and rng.random() < .15:
        if rng.random() < .5:
            inst["d"] = [0] + [0 if i and rng.random() < .4 else q
                                for i, q in enumerate(inst["d"][1:])]
        else:
            inst["d"] = [0] + [q - .5 for q in inst["d"][1:]]
    if explicit:
        # any symmetric matrix, not even metric
        top = rng.choice([5, 100, 10000])
        D = [[0] * (n + 1) for _ in range(n + 1)]
        for i in range(n + 1):
            for j in range(i):
                v = rng.randint(0 if rng.random() < .05 else 1, top)
                D[i][j] = D[j][i] = v if ints else v + round(rng.random(), 3)
        inst["D"] = D
    D = dist(inst)
    if "L" in con:
        lo = max(D[0][i] + D[i][0] for i in range(1, n + 1))
        L = lo * rng.choice([1.0, 1.02, 1.2, 1.6, 2.5]) + rng.choice([0, 0, 1, 10]) * scale
        L = max(L, lo)
        L = int(math.ceil(L)) if ints else round(L + .001 * scale, 5 if scale < 1 else 3)
        if L < lo:
            L = lo
    inst["L"] = L
    return inst


def dist(inst):
    if inst.get("D"):
        return inst["D"]
    p = inst["points"]
    n = len(p)
    D = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            v = math.hypot(p[i][0] - p[j][0], p[i][1] - p[j][1])
            D[i][j] = int(v + .5) if inst["ints"] else v
    return D


def build(inst):
    """fresh library arguments: (points, D, d, C, L, st, ewt)"""
    D = np.array(dist(inst), dtype=np.int64 if inst["ints"] else np.float64)
    pts = [tuple(p) for p in inst["points"]]
    ewt = "EUC_2D" if inst["ints"] else "EXACT_2D"
    d = list(inst["d"])
    form = inst.get("form")
    if form == "lists":             # as the file reader gives them
        pts = [list(p) for p in inst["points"]]
        d = [float(q) for q in d]
    elif form == "arrays":
        pts = np.array(inst["points"], dtype=np.float64)
        D = np.asfortranarray(D)
    if inst.get("nod"):             # without demands altogether
        d = None
    if inst.get("nopts"):           # only the distances are known
        pts, ewt = None, "EXPLICIT"
    return pts, D, d, inst["C"], inst["L"], None, ewt


def drop_customer(inst, k):
    """instance without customer k (for shrinking)"""
    new = dict(inst)
    new["points"] = [p for i, p in enumerate(inst["points"]) if i != k]
    new["d"] = [q for i, q in enumerate(inst["d"]) if i != k]
    if inst.get("D"):
        new["D"] = [[x for j, x in enumerate(r) if j != k]
                    for i, r in enumerate(inst["D"]) if i != k]
    return new
