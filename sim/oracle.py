"""Independent reference judgement of solutions (no library code)."""


def split_routes(sol):
    routes, cur = [], []
    for n in sol:
        if n == 0:
            if cur:
                routes.append(cur)
            cur = []
        else:
            cur.append(n)
    if cur:
        routes.append(cur)
    return routes


def cost(sol, D):
    c = 0.0
    for a, b in zip(sol, sol[1:]):
        c += float(D[a][b])
    return c


def route_cost(r, D):
    return cost([0] + list(r) + [0], D)


def judge(sol, D, d, C, L):
    """-> list of problems, [] when complete and feasible"""
    bad = []
    N = len(D)
    if not isinstance(sol, list):
        return ["not-a-list:%s" % type(sol).__name__]
    try:
        ints = [int(n) for n in sol]
        if any(int(n) != n for n in sol):
            return ["non-integer node"]
    except Exception:
        return ["non-integer node"]
    if not ints or ints[0] != 0 or ints[-1] != 0:
        bad.append("does not start and end at the depot")
    if any(n < 0 or n >= N for n in ints):
        bad.append("unknown node")
        return bad
    seen = {}
    for n in ints:
        if n:
            seen[n] = seen.get(n, 0) + 1
    missing = [n for n in range(1, N) if n not in seen]
    dup = sorted(n for n, k in seen.items() if k > 1)
    if missing:
        bad.append("missing customers %s" % missing)
    if dup:
        bad.append("customers served more than once %s" % dup)
    for r in split_routes(ints):
        if C:
            q = sum(d[n] for n in r)
            if q > C + 1e-6:
                bad.append("capacity exceeded %s: %s > %s" % (r, q, C))
        if L:
            l = route_cost(r, D)
            if l > L + 1e-6 * max(1.0, L):
                bad.append("route limit exceeded %s: %s > %s" % (r, l, L))
    return bad


def judge_tour(tour, c, nodes, D, tol=1e-6):
    """closed tour over exactly `nodes` with its true cost"""
    try:
        t = [int(x) for x in tour]
        if any(int(x) != x for x in tour):
            return ["non-integer node in %s" % (tour,)]
    except Exception:
        return ["not a tour: %r" % (tour,)]
    bad = []
    want = sorted(set(nodes))
    if len(want) == 1:
        if set(t) != set(want):
            bad.append("visits %s instead of %s" % (t, want))
    else:
        if not t or t[0] != t[-1]:
            bad.append("not closed %s" % t)
        if sorted(t[:-1]) != want:
            bad.append("visits %s instead of each of %s once" % (t, want))
    if not bad:
        true = cost(t, D)
        try:
            if abs(float(c) - true) > tol * max(1.0, abs(true)):
                bad.append("cost %r, that of the tour is %r" % (c, true))
        except Exception:
            bad.append("cost %r" % (c,))
    return bad


def classes(problems):
    return sorted(set(p.split(" %s" % "[")[0].split(":")[0].split(" [")[0]
                      for p in problems))
