"""Problem files: an independent generator of TSPLIB CVRP texts and of what
they mean (no library code)."""
import math
import random

FORMATS = ["FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW", "UPPER_ROW",
           "UPPER_DIAG_ROW", "LOWER_COL"]
COORDS = ["EUC_2D", "EXACT_2D", "CEIL_2D", "FLOOR_2D", "MAN_2D", "MAX_2D", "ATT"]


# what is written there is only for people
COMMENTS = ["", "(Augerat et al, No of trucks: 5, Optimal value: 784)", "MIN TOTAL DISTANCE 524",
            "best known DISTANCE: 835.26", "uses 3 VEHICLES", "VEHICLES 7", "SERVICE_TIME 10",
            "the real DISTANCE", "EOF", "see DEMAND_SECTION", "CAPACITY 1", "DIMENSION 4",
            "SVC_TIME_SECTION", "EDGE_WEIGHT_SECTION", "TYPE : ATSP", "DEPOT_SECTION 3"]


def gen(g, nmin=2, nmax=9, types=None, service=True, name=None):
    n = g.randint(nmin, nmax)                 # customers
    N = n + 1
    ewt = g.choice(types or (["EXPLICIT"] * 6 + COORDS + ["EXACT_2D", "EUC_2D", "GEO"]))
    p = dict(name=name or "p%d" % g.randrange(1000), ewt=ewt, n=n)
    real = ewt in ("EXACT_2D", "MAN_2D", "MAX_2D", "EXPLICIT") and g.random() < .5
    pts = []
    while len(pts) < N:
        q = [g.randint(0, 100), g.randint(0, 100)]
        if real:
            q = [round(x + g.choice([.125, .3, .71, 0]), 3) for x in q]
        if ewt == "GEO":         # degrees.minutes
            q = [x - 50 + (m if x >= 50 else -m) for x, m in
                 ((x, g.randrange(60) / 100.0) for x in q)]
            q = [round(x, 2) for x in q]
        if q not in pts:
            pts.append(q)
    if ewt == "EXPLICIT":
        p["fmt"] = g.choice(FORMATS)
        M = [[0] * N for _ in range(N)]
        for i in range(N):
            for j in range(i):
                v = math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])
                v = round(v, 2) if real else max(1, int(v))
                if real and v - int(v) == .5:
                    v += .01
                M[i][j] = M[j][i] = v
        p["M"] = M
        p["perline"] = g.choice([0, 0, 1, 3, 7, 10])
        what = g.random()
        p["pts"] = pts if what < .25 else None
        p["dd"] = pts if what > .75 else None
    else:
        p["pts"] = pts
        p["dd"] = None
    dem = [g.randint(1, 9) for _ in range(n)]
    p["C"] = max(max(dem), int(sum(dem) * g.choice([.3, .5, .7, 1.0])) + 1)
    p["depot"] = g.choice([1, 1, 1, g.randint(1, N)])
    D = matrix(p)
    # demands in file order
    d = list(dem)
    d.insert(p["depot"] - 1, 0)
    p["d"] = d
    p["st"] = None
    p["st_section"] = False
    if service and g.random() < .4:
        p["st"] = g.choice([10, 3, 1, 2.5, 50])
        p["st_section"] = p["depot"] == 1 and g.random() < .4
    p["L"] = None
    if g.random() < .5:
        z = p["depot"] - 1
        lo = max(2 * D[z][i] for i in range(N) if i != z) + (p["st"] or 0)
        L = lo * g.choice([1.0, 1.3, 2.0]) + 1
        p["L"] = int(math.ceil(L)) if g.random() < .6 else round(L + .01, 2)
    p["K"] = g.choice([None, None, g.randint(1, n)])
    order = ["coord", "demand", "dist"]
    if g.random() < .3:
        g.shuffle(order)
    p["order"] = order
    p["sep"] = g.choice([" : ", ": "])
    p["pad"] = g.choice(["", "", " ", "   "])
    p["eof"] = g.random() < .8
    p["depot_end"] = g.random() < .8
    p["blank"] = g.random() < .15
    p["comment"] = g.choice(["generated", g.choice(COMMENTS)])
    p["comment2"] = g.choice([None, None, g.choice(COMMENTS)])
    p["head"] = g.randrange(1 << 20) if g.random() < .3 else None
    p["extra"] = g.random() < .3
    p["nodes"] = g.randrange(1 << 20) if g.random() < .15 else None
    return p


def fnum(v):
    return ("%r" % v) if isinstance(v, float) else str(v)


def lines(p):
    """-> lines of the file (without newlines), the index of the first line
    after which nothing needed for the problem definition is missing, and the
    sections (first line, end, has every file one?)"""
    N = p["n"] + 1
    s = p["sep"]
    out = ["NAME" + s + p["name"], "COMMENT" + s + p.get("comment", "generated"),
           "TYPE" + s + p.get("type", "CVRP"), "DIMENSION" + s + str(N)]
    out.append("EDGE_WEIGHT_TYPE" + s + p["ewt"])
    if p["ewt"] == "EXPLICIT":
        out.append("EDGE_WEIGHT_FORMAT" + s + p["fmt"])
        if p["dd"]:
            out.append("DISPLAY_DATA_TYPE" + s + "TWOD_DISPLAY")
    if p["C"] is not None:
        out.append("CAPACITY" + s + str(p["C"]))
    if p["L"] is not None:
        out.append("DISTANCE" + s + fnum(p["L"]))
    if p["st"] is not None and not p["st_section"]:
        out.append("SERVICE_TIME" + s + fnum(p["st"]))
    if p["K"] is not None:
        out.append("VEHICLES" + s + str(p["K"]))
    if p.get("extra"):
        if p["pts"]:
            out.append("NODE_COORD_TYPE" + s + "TWOD_COORDS")
        if p["ewt"] != "EXPLICIT":
            out.append("EDGE_WEIGHT_FORMAT" + s + "FUNCTION")
    if p.get("comment2") is not None:
        out.append("COMMENT" + s + p["comment2"])
    if p.get("head") is not None:
        rest = out[1:]
        random.Random(p["head"]).shuffle(rest)
        out[1:] = rest

    shuffler = random.Random(p.get("nodes"))

    def numbered(values):
        """the nodes of a section can be listed in any order"""
        v = list(enumerate(values))
        if p.get("nodes") is not None:
            shuffler.shuffle(v)
        return v

    def coord():
        if p["pts"]:
            out.append("NODE_COORD_SECTION")
            for i, q in numbered(p["pts"]):
                out.append("%s%d %s %s" % (p["pad"], i + 1, fnum(q[0]), fnum(q[1])))

    def demand():
        if p["d"]:
            out.append("DEMAND_SECTION")
            for i, q in numbered(p["d"]):
                out.append("%s%d %s" % (p["pad"], i + 1, fnum(q)))

    def dist():
        if p["ewt"] != "EXPLICIT":
            return
        out.append("EDGE_WEIGHT_SECTION")
        M = p["M"]
        f = p["fmt"]
        rows = []
        for i in range(N):
            if f == "FULL_MATRIX":
                r = M[i]
            elif f == "LOWER_ROW":
                r = M[i][:i]
            elif f == "LOWER_DIAG_ROW":
                r = M[i][:i + 1]
            elif f == "UPPER_ROW":
                r = M[i][i + 1:]
            elif f == "UPPER_DIAG_ROW":
                r = M[i][i:]
            else:                       # LOWER_COL
                r = [M[k][i] for k in range(i + 1, N)]
            rows.append(r)
        if p["perline"]:
            flat = [v for r in rows for v in r]
            k = p["perline"]
            rows = [flat[i:i + k] for i in range(0, len(flat), k)]
        for r in rows:
            if r:
                out.append(p["pad"] + " ".join(fnum(v) for v in r))
    spans = []

    def section(f, must):
        a = len(out)
        f()
        if len(out) > a:
            spans.append((a, len(out), must))

    def display():
        if p["dd"]:
            out.append("DISPLAY_DATA_SECTION")
            for i, q in numbered(p["dd"]):
                out.append("%d %s %s" % (i + 1, fnum(q[0]), fnum(q[1])))

    def service():
        if p["st_section"]:
            out.append("SVC_TIME_SECTION")
            for i in [0] + [i + 1 for i, _ in numbered(range(N - 1))]:
                out.append("%d %s" % (i + 1, fnum(0 if i == 0 else p["st"])))
    for o in p["order"]:
        section(dict(coord=coord, demand=demand, dist=dist)[o],
                o != "coord" or p["ewt"] != "EXPLICIT")
        if p["blank"]:
            out.append("")
    section(display, False)
    section(service, False)
    data_end = len(out)
    out.append("DEPOT_SECTION")
    out.append(str(p["depot"]))
    if p["depot_end"]:
        out.append("-1")
    if p["eof"]:
        out.append("EOF")
    return out, data_end, spans


def cuts(p):
    """the numbers of lines after which a cut can be noticed: a section that
    every file has is not there or not complete, or another one (display
    coordinates, service times) has been started"""
    out, end, spans = lines(p)
    return [k for k in range(1, end)
            if any(e > k if must else a < k < e for a, e, must in spans)]


def text(p):
    return "\n".join(lines(p)[0]) + "\n"


def geo_radians(q):
    return [3.141592 * (math.trunc(x) + 5.0 * (x - math.trunc(x)) / 3.0) / 180.0 for x in q]


def matrix(p):
    """distances in file order"""
    if p["ewt"] == "EXPLICIT":
        return p["M"]
    P = p["pts"]
    if p["ewt"] == "GEO":
        P = [geo_radians(q) for q in P]
    N = len(P)
    D = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(N):
            dx, dy = abs(P[i][0] - P[j][0]), abs(P[i][1] - P[j][1])
            e = math.sqrt(dx * dx + dy * dy)
            t = p["ewt"]
            if t == "EUC_2D":
                v = int(e + .5)
            elif t == "CEIL_2D":
                v = math.ceil(e)
            elif t == "FLOOR_2D":
                v = math.floor(e)
            elif t == "MAN_2D":
                v = dx + dy
            elif t == "MAX_2D":
                v = max(dx, dy)
            elif t == "ATT":
                r = math.sqrt(dx * dx + dy * dy) / 10.0
                k = int(r)
                v = k + 1 if k < r else k
            elif t == "GEO":
                q1 = math.cos(P[i][1] - P[j][1])
                q2 = math.cos(P[i][0] - P[j][0])
                q3 = math.cos(P[i][0] + P[j][0])
                v = int(6378.388 * math.acos(max(-1.0, min(1.0, .5 * ((1 + q1) * q2 - (1 - q1) * q3)))) + 1)
            else:
                v = e
            D[i][j] = 0 if i == j else v
    return D


def meaning(p):
    """the problem, depot first"""
    N = p["n"] + 1
    z = p["depot"] - 1
    perm = [z] + [i for i in range(N) if i != z]
    D0 = matrix(p)

    def take(v):
        return None if v is None else [v[i] for i in perm]
    pts, dd = p["pts"], p["dd"]
    if p["ewt"] == "GEO":
        pts, dd = None, [geo_radians(q) for q in pts]
    return dict(N=p["n"], D=[[D0[i][j] for j in perm] for i in perm],
                d=take(p["d"]), C=p["C"], L=p["L"], st=p["st"], K=p["K"],
                points=take(pts), dd=take(dd) if not pts else None)


def with_service(D, st):
    """an edge costs half of the service of each of its customers more"""
    if not st:
        return [list(r) for r in D]
    N = len(D)
    return [[0 if i == j else D[i][j] + (st / 2.0 if i else 0) + (st / 2.0 if j else 0)
             for j in range(N)] for i in range(N)]
