"""Local search behind a seam: every call of a move operator goes through the
simulator, which decides acceptance parameters and cuts, and compares what the
operator hands on with reference bookkeeping."""
import inspect
import itertools
import math

import numpy as np

from . import oracle

INTRA = ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move")
INTER = ("do_2optstar_move", "do_1point_move", "do_2point_move", "do_chain_move")
OPS = INTRA + INTER
ROUTES = {o: 1 for o in INTRA}
ROUTES.update(do_2optstar_move=2, do_1point_move=2, do_2point_move=2, do_chain_move=3)
F = {}
LS = None


def setup():
    global LS
    if F:
        return
    import verypy.local_search as ls
    import verypy.local_search.intra_route_operators as a
    import verypy.local_search.inter_route_operators as b
    import verypy.local_search.solution_operators as c
    import verypy.routedata  # noqa
    LS = ls
    for o in INTRA:
        F[o] = getattr(a, o)
    for o in INTER:
        F[o] = getattr(b, o)
    F["do_3optstar_move"] = c.do_3optstar_move


# -- cases ---------------------------------------------------------------------
def gen_case(g, nmin=3, nmax=10):
    """a problem and a complete feasible plan for it"""
    n = g.randint(nmin, nmax)
    N = n + 1
    style = g.choice(["plane", "plane", "plane", "rounded", "rounded", "random", "grid", "clusters"])
    scale = g.choice([1, 1, 1, 1, .01, 100, 10000])
    pts = []
    for i in range(N):
        if style == "grid":
            pts.append((g.randint(0, 3) * 10.0, g.randint(0, 3) * 10.0))
        elif style == "clusters":
            c = g.choice([(0, 0), (100, 20), (30, 90)])
            pts.append((c[0] + g.random() * 10, c[1] + g.random() * 10))
        else:
            pts.append((g.random() * 100, g.random() * 100))
    ints = style == "rounded" or g.random() < .2
    if ints and scale < 1:
        scale = 1
    D = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            v = g.random() * 100 if style == "random" else \
                math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])
            if style == "random" and g.random() < .1:
                v = 0.0
            v *= scale
            if style == "rounded" and g.random() < .5 and scale == 1:
                v = v / 10          # coarse rounding: many ties, no triangle inequality
            v = int(v + .5) if ints else float(v)
            D[i][j] = D[j][i] = v
    fl = g.random() < .15
    d = [0] + [g.choice([0, 1, 1, 2, 3, 5, 8]) * (.1 if fl else 1) for _ in range(n)]
    # the plan: a random order cut into routes
    order = list(range(1, N))
    if g.random() < .3:
        order.sort(key=lambda i: math.atan2(pts[i][1] - pts[0][1], pts[i][0] - pts[0][0]))
    else:
        g.shuffle(order)
    k = min(n, g.choice([1, 2, 2, 3, 3, 4, 5]))
    cuts = sorted(g.sample(range(1, n), k - 1)) if k > 1 else []
    sol = [0]
    for i, c in enumerate(order):
        if i in cuts:
            sol.append(0)
        sol.append(c)
    sol.append(0)
    R = oracle.split_routes(sol)
    C = L = None
    if g.random() < .7:
        top = max(sum(d[i] for i in r) for r in R)
        C = top * g.choice([1, 1, 1.1, 1.3, 1.6])
        C = round(C, 6) if fl else max(1, int(math.ceil(C)))
        if C < top:
            C = top
        if not C:
            C = 1
    if g.random() < .5:
        top = max(oracle.route_cost(r, D) for r in R)
        L = top * g.choice([1, 1.02, 1.1, 1.3, 1.6])
        if ints:
            L = int(math.ceil(L))
        if L <= 0:
            L = None
    case = dict(D=D, ints=ints, d=d, C=C, L=L, sol=sol, style=style, scale=scale)
    if C is None and g.random() < .3:
        case["d"] = None
    return case


def build(c):
    D = np.array(c["D"], dtype=np.int64 if c["ints"] else np.float64)
    return list(c["sol"]), D, (list(c["d"]) if c["d"] is not None else None), c["C"], c["L"]


def drop_customer(c, k):
    n = dict(c)
    n["D"] = [[x for j, x in enumerate(r) if j != k] for i, r in enumerate(c["D"]) if i != k]
    if c["d"] is not None:
        n["d"] = [x for i, x in enumerate(c["d"]) if i != k]
    s = [x if x < k else x - 1 for x in c["sol"] if x != k]
    n["sol"] = [x for i, x in enumerate(s) if not (x == 0 and i and s[i - 1] == 0)]
    return n


def unit_cost(c):
    """what rounding errors and tolerances are measured in"""
    return 1e-6 * max(1.0, oracle.cost(c["sol"], c["D"]))


# -- one move ------------------------------------------------------------------
def load(r, d):
    return sum(d[i] for i in r)


def fits(r, c, slack=0.0):
    if c["C"] and c["d"] and load(r, c["d"]) > c["C"] + (1e-6 if not slack else -1e-9):
        return False
    if c["L"] and oracle.cost(r, c["D"]) > c["L"] + (unit_cost(c) * 2 if not slack else -slack):
        return False
    return True


def judge_move(op, before, res, threshold, c):
    """before: routes as lists; -> problem or None.  res as the operator gave it"""
    k = len(before)
    if not isinstance(res, (tuple, list)) or len(res) != k + 1:
        return "malformed result %r" % (res,)
    delta = res[-1]
    if delta is None:
        return None
    D, d, C, L = c["D"], c["d"], c["C"], c["L"]
    tol = 5 * unit_cost(c)
    routes = []
    for x in res[:-1]:
        r = x if ROUTES[op] == 1 else getattr(x, "route", None)
        if r is None:
            return "no route with a change of %r" % (delta,)
        r = list(r)
        if len(r) < 2 or r[0] != 0 or r[-1] != 0 or 0 in r[1:-1]:
            return "malformed route %s (from %s)" % (r, before)
        routes.append(r)
    a = sorted(n for r in before for n in r if n)
    b = sorted(n for r in routes for n in r if n)
    if a != b:
        return "customers %s became %s (%s to %s)" % (a, b, before, routes)
    for r in routes:
        if C and d and load(r, d) > C + 1e-6:
            return "capacity %s exceeded by %s (from %s)" % (C, r, before)
        if L and ROUTES[op] > 1 and oracle.cost(r, D) > L + tol:
            return "route limit %s exceeded by %s (from %s): %s" % (L, r, before, oracle.cost(r, D))
    true = sum(oracle.cost(r, D) for r in routes) - sum(oracle.cost(r, D) for r in before)
    if abs(true - float(delta)) > tol:
        return "change reported as %r, but %s to %s is %r" % (float(delta), before, routes, true)
    if true > (threshold or 0) + tol:
        return "accepted a change of %r (%s to %s)" % (true, before, routes)
    if ROUTES[op] > 1:
        for x, r in zip(res[:-1], routes):
            if abs(float(x.cost) - oracle.cost(r, D)) > tol:
                return "cost of %s handed on as %r, not %r" % (r, float(x.cost), oracle.cost(r, D))
            if C and d and abs(float(x.demand) - load(r, d)) > 1e-6:
                return "load of %s handed on as %r, not %r" % (r, float(x.demand), load(r, d))
    return None


class Cut(KeyboardInterrupt):
    pass


def wrapped(name, call):
    """an operator with the argument list (and the marks) of the real one"""
    f = F[name]
    args = inspect.getfullargspec(f).args
    src = "def %s(%s):\n    return _call(%s)\n" % (
        name, ", ".join(a if a in args[:len(args) - len(f.__defaults__ or ())] else "%s=_d[%d]" % (
            a, args.index(a) - (len(args) - len(f.__defaults__)))
            for a in args), ", ".join(args))
    ns = dict(_call=call, _d=f.__defaults__ or ())
    exec(src, ns)
    w = ns[name]
    w.__dict__.update(f.__dict__)
    w.__doc__ = f.__doc__
    if f in LS.ROUTE_ORDER_SENSITIVE_OPERATORS:
        LS.ROUTE_ORDER_SENSITIVE_OPERATORS.add(w)
    return w


class Moves:
    """the operators of one search, watched; cut_at: interrupt instead of the
    so manieth call"""

    def __init__(self, c, cut_at=None):
        self.c = c
        self.calls = 0
        self.made = []
        self.problem = None
        self.cut_at = cut_at
        self.wraps = []

    def op(self, name):
        f = F[name]
        k = ROUTES[name]

        def call(*a):
            self.calls += 1
            if self.calls == self.cut_at:
                raise Cut()
            before = [list(x if k == 1 else x.route) for x in a[:k]]
            res = f(*a)
            if self.problem is None:
                after = [list(x if k == 1 else x.route) for x in a[:k]]
                p = judge_move(name, before, res, None, self.c)
                if p is None and after != before:
                    p = "changed the routes it was given, %s to %s" % (before, after)
                if p:
                    self.problem = "%s: %s" % (name, p)
            if res[-1] is not None:
                self.made.append(name)
            return res
        w = wrapped(name, call)
        self.wraps.append(w)
        return w

    def done(self):
        for w in self.wraps:
            LS.ROUTE_ORDER_SENSITIVE_OPERATORS.discard(w)


# -- reference neighbourhoods (P17) ---------------------------------------------
def neighbours(op, rs):
    """all the results of one move of the operator; rs: routes as lists"""
    if op == "do_2opt_move":
        r, = rs
        for i in range(0, len(r) - 1):
            for j in range(i + 1, len(r) - 1):
                yield [r[:i + 1] + r[i + 1:j + 1][::-1] + r[j + 1:]]
    elif op == "do_3opt_move":
        r, = rs
        n = len(r)
        for i in range(0, n - 1):
            for j in range(i + 1, n - 1):
                for k in range(j + 1, n - 1):
                    A, B, S, T = r[:i + 1], r[i + 1:j + 1], r[j + 1:k + 1], r[k + 1:]
                    for x, y in ((B[::-1], S), (B, S[::-1]), (B[::-1], S[::-1]), (S, B),
                                 (S[::-1], B), (S, B[::-1]), (S[::-1], B[::-1])):
                        yield [A + x + y + T]
    elif op == "do_relocate_move":
        r, = rs
        for i in range(1, len(r) - 1):
            q = r[:i] + r[i + 1:]
            for j in range(1, len(q)):
                yield [q[:j] + [r[i]] + q[j:]]
    elif op == "do_exchange_move":
        r, = rs
        for i in range(1, len(r) - 1):
            for j in range(i + 1, len(r) - 1):
                q = list(r)
                q[i], q[j] = q[j], q[i]
                yield [q]
    elif op == "do_2optstar_move":
        a, b = rs
        for i in range(len(a) - 1):
            for j in range(len(b) - 1):
                yield [a[:i + 1] + b[j + 1:], b[:j + 1] + a[i + 1:]]
                yield [a[:i + 1] + b[:j + 1][::-1], a[i + 1:][::-1] + b[j + 1:]]
    elif op == "do_1point_move":
        a, b = rs
        for i in range(1, len(a) - 1):
            for j in range(1, len(b)):
                yield [a[:i] + a[i + 1:], b[:j] + [a[i]] + b[j:]]
    elif op == "do_2point_move":
        a, b = rs
        for i in range(1, len(a) - 1):
            for j in range(1, len(b) - 1):
                yield [a[:i] + [b[j]] + a[i + 1:], b[:j] + [a[i]] + b[j + 1:]]
    elif op == "do_chain_move":
        a, b, e = rs
        for i in range(1, len(a) - 1):
            for j in range(1, len(b) - 1):
                for k in range(1, len(e)):
                    yield [a[:i] + a[i + 1:], b[:j] + [a[i]] + b[j + 1:], e[:k] + [b[j]] + e[k:]]


def best_neighbour(op, rs, c):
    """-> (change, routes) of the best clearly feasible neighbour"""
    D = c["D"]
    base = sum(oracle.cost(r, D) for r in rs)
    slack = 3 * unit_cost(c)
    best = (0.0, None)
    for q in neighbours(op, rs):
        delta = sum(oracle.cost(r, D) for r in q) - base
        if delta < best[0] - 1e-12 and (ROUTES[op] == 1 or all(fits(r, c, slack) for r in q)):
            best = (delta, q)
    return best


def combos(op, routes):
    return itertools.permutations(range(len(routes)), ROUTES[op])
