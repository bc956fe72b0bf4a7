"""
Random case recipes (see driver.py), one generator per family.  Every choice
comes from the random.Random given; nothing here depends on the package.
"""
import random
from fractions import Fraction
import meshes

NIL = -1000000


# ---------------------------------------------------------------- meshes
def rnd_mesh(rng, lo=4, hi=30, kinds=None, plain=False, uniform=None):
    kind = rng.choice(kinds or ["structured", "structured", "vertex", "vertex", "unstructured"])
    if kind != "structured" and hi >= 16 and not plain and rng.random() < 0.1:
        return rnd_star(rng, kind, hi)
    while True:
        nr, nc = rng.randint(1, 7), rng.randint(1, 7)
        if lo <= nr * nc <= hi:
            break
    uni = rng.random() < 0.6 if uniform is None else uniform
    dx = [12] * nc if uni else [rng.choice([12, 24]) for _ in range(nc)]
    dy = [16] * nr if uni else [rng.choice([12, 16, 24]) for _ in range(nr)]
    rec = {"kind": "rect", "grid": kind, "dx": dx, "dy": dy}
    if kind != "structured":
        rec["closed"] = rng.random() < 0.4
        rec["ccw"] = rng.random() < 0.5
        if rng.random() < 0.35:
            rec["mix"] = rng.randint(1, 10 ** 6)
        rec["perm"] = rng.randint(1, 10 ** 6) if rng.random() < 0.6 else 0
        if not plain:
            cells = list(range(nr * nc))
            r = rng.random()
            if r < 0.25 and nr * nc >= 6:
                rec["drop"] = sorted(rng.sample(cells, rng.randint(1, max(1, nr * nc // 5))))
            if rng.random() < 0.3:
                rec["split"] = sorted(rng.sample(cells, rng.randint(1, max(1, nr * nc // 2))))
            if rng.random() < 0.3:
                rec["quad"] = sorted(rng.sample(cells, rng.randint(1, max(1, min(3, nr * nc // 4)))))
            if rng.random() < 0.25 and uni:
                rec["shift"] = True
            if rng.random() < 0.2:
                rec["jit"] = rng.randint(1, 10 ** 6)
            if rng.random() < 0.15:
                rec["shear"] = rng.choice([1, -1, 2])
    if kind != "unstructured" and rng.random() < 0.2:
        rec["nlay"] = rng.randint(2, 3)
    # where and how large the model is
    if rng.random() < 0.25:
        rec["scale"] = rng.choice([0.5, 0.125, 0.0625, 1001.0])
    if rng.random() < 0.25:
        rec["xo"], rec["yo"] = rng.choice([(1000, -700), (500000, 4100000), (-3, 5)])
    if rng.random() < 0.15:
        rec["rot"] = rng.randint(1, 3)
    return rec


def rnd_star(rng, kind, hi=30):
    """a cell with up to twelve neighbors at the same distance"""
    rec = {"kind": "star", "grid": kind, "rings": 2 if hi >= 25 and rng.random() < 0.5 else 1,
           "closed": rng.random() < 0.4, "ccw": rng.random() < 0.5,
           "perm": rng.randint(1, 10 ** 6) if rng.random() < 0.6 else 0}
    n = 1 + 12 * rec["rings"]
    if rng.random() < 0.6:
        rec["drop"] = sorted(rng.sample(range(1, n), rng.randint(1, 5)))
    if rng.random() < 0.3:
        rec["mix"] = rng.randint(1, 10 ** 6)
    if rng.random() < 0.25:
        rec["scale"] = rng.choice([0.5, 0.0625])
    if rng.random() < 0.15:
        rec["rot"] = rng.randint(1, 3)
    return rec


def tie_dem(rng, d, adj, dem):
    """the neighbors of the cell with the most of them, or of any, tie for steepest: some at the
    same slope, the others higher; 0-based.  The lowest cell stays lowest"""
    from math import isqrt
    dem = list(dem)
    lo = min(v for v in dem if v != NIL)
    c = max(range(d["n"]), key=lambda x: (len(adj[x]), rng.random())) if rng.random() < 0.7 else rng.randrange(d["n"])
    k = rng.choice([1, 1, 2])
    base = lo + 200
    p = rng.choice([0.3, 0.6, 0.9, 1.0])
    if rng.random() < 0.35:
        # everything around flows into it
        far = set().union(*(adj[x] for x in adj[c])) - adj[c] - {c} if adj[c] else set()
        for x in range(d["n"]):
            if dem[x] != NIL:
                dem[x] = lo + (50 if x in adj[c] else 55 if x in far else 60) + rng.randint(0, 4)
        dem[c] = lo
        return dem
    dem[c] = base
    for x in adj[c]:
        r = isqrt(dist2(d, c, x))
        if dem[x] in (lo, NIL):
            continue
        if rng.random() < p and r * r == dist2(d, c, x) and r % 4 == 0 and k * r // 4 < 190:
            dem[x] = base - k * r // 4
        else:
            dem[x] = base + rng.choice([0, 1, 1, 5])
    return dem


def lower_everywhere(adj, dem, ends):
    return all(c in ends or dem[c] == NIL or any(dem[x] != NIL and dem[x] < dem[c] for x in adj[c])
               for c in range(len(dem)))


def cliff(rng, dem):
    """the same order of elevations, with one step of some hundred units"""
    vals = sorted({v for v in dem if v != NIL})
    if len(vals) < 2:
        return dem
    t, w = rng.choice(vals[1:]), rng.choice([100, 150, 250, 600])
    return [v if v == NIL or v < t else v + w for v in dem]


def adjacency(d):
    vs = [set(r) for r in d["iv"]]
    where = {}
    for c, s in enumerate(vs):
        for v in s:
            where.setdefault(v, set()).add(c)
    return [set().union(*(where[v] for v in s)) - {c} for c, s in enumerate(vs)]


def dist2(d, a, b):
    return (d["xc"][a] - d["xc"][b]) ** 2 + (d["yc"][a] - d["yc"][b]) ** 2


def exact_dist(d, adj):
    """24000 / hundredths of distance is an integer for all neighbors"""
    from math import isqrt
    for a in range(d["n"]):
        for b in adj[a]:
            r = isqrt(dist2(d, a, b))
            if r * r != dist2(d, a, b) or 24000 % (100 * r):
                return False
    return True


# ---------------------------------------------------------------- DEMs
def rnd_dem(rng, d, hi=None):
    n = d["n"]
    hi = hi or rng.choice([1, 2, 3, 5, 9, 40])
    r = rng.random()
    if r < 0.55:
        dem = [rng.randint(0, hi) for _ in range(n)]
    elif r < 0.75:          # bowl or cone
        cx, cy = rng.choice(d["xc"]), rng.choice(d["yc"])
        s = rng.choice([1, -1])
        dem = [30 + s * ((abs(x - cx) + abs(y - cy)) // 8) + rng.randint(0, rng.choice([0, 1, 3]))
               for x, y in zip(d["xc"], d["yc"])]
    elif r < 0.9:           # slope with noise
        a, b = rng.randint(-2, 2), rng.randint(-2, 2)
        dem = [40 + (a * x + b * y) // 16 + rng.randint(0, rng.choice([0, 2, 8]))
               for x, y in zip(d["xc"], d["yc"])]
    else:                   # terraces
        t = rng.choice([2, 4])
        dem = [(rng.randint(0, 12) // t) * t for _ in range(n)]
    m = min(dem)
    return [v - m for v in dem]


def chordless(rng, adj, tries=30):
    """a cycle of 4..8 cells without a chord, or None"""
    n = len(adj)
    for _ in range(tries):
        path = [rng.randrange(n)]
        while len(path) < 8:
            opts = [x for x in sorted(adj[path[-1]]) if x not in path
                    and not any(x in adj[p] for p in path[1:-1])]
            if len(path) >= 3:
                close = [x for x in opts if path[0] in adj[x]]
                if close:
                    return path + [rng.choice(close)]
            opts = [x for x in opts if len(path) == 1 or path[0] not in adj[x]]
            if not opts:
                break
            path.append(rng.choice(opts))
    return None


def ring_dem(rng, d, adj):
    """a level ring of cells around higher ground: every cell of it ties between two
    neighbors that do not touch; with no, one or two ways out.  0-based; outlet is 0"""
    n = d["n"]
    rings = [r for r in (chordless(rng, adj) for _ in range(rng.choice([1, 1, 2]))) if r]
    if not rings:
        return None
    dem = [rng.choice([6, 7, 9, 20]) for _ in range(n)]
    for r in rings:
        lev = rng.choice([4, 5, 5])
        for x in r:
            dem[x] = lev
    ring = set(rings[0])
    near = set().union(*(adj[x] for x in ring)) | ring
    far = [x for x in range(n) if x not in near]
    out = rng.choice(far) if far and rng.random() < 0.8 else rng.randrange(n)
    dem[out] = 0
    if rng.random() < 0.4:
        for x in rng.sample(sorted(near), min(len(near), rng.choice([1, 1, 2]))):
            if x != out:
                dem[x] = rng.choice([2, 3, 4, 5])
    return dem


def widen(rng, dem):
    """the same order of elevations over a range of several 100000 units, with differences of one unit"""
    top = max(v for v in dem if v != NIL)
    w = rng.choice([1000, 20011, 200000])
    w = max(1, min(w, 800000 // max(1, top)))
    if w < 4:
        return dem
    lo = min(v for v in dem if v != NIL)
    return [v if v == NIL else v * w + (rng.randint(0, 2) if v > lo else 0) for v in dem]


def unique_min(rng, dem, at=None):
    dem = list(dem)
    k = rng.randrange(len(dem)) if at is None else at
    lo = min(v for v in dem if v != NIL)
    dem[k] = lo - rng.choice([1, 1, 2, 5])
    return dem


def conditioned(rng, d, adj, nterm=None):
    """a DEM in which every cell but the terminals has a lower neighbor;
    (dem, terminals besides the outlet), or None if the mesh has parts that
    cannot be reached.  cells are 0-based here."""
    n = d["n"]
    comps = components(adj)
    nterm = rng.choice([0, 0, 1, 2, 3]) if nterm is None else nterm
    seeds = {rng.choice(sorted(c)) for c in comps}
    for _ in range(nterm):
        seeds.add(rng.randrange(n))
    base = rng.choice([0, 0, 3, 20])
    dem = {s: base + rng.randint(0, 6) for s in seeds}
    style = rng.choice(["low", "low", "unit", "rand", "high"])
    front = set(seeds)
    todo = set(range(n)) - front
    while todo:
        cand = sorted(c for c in todo if adj[c] & set(dem))
        c = rng.choice(cand)
        nb = [dem[x] for x in adj[c] if x in dem]
        if style == "unit":
            v = min(nb) + 1
        elif style == "low":
            v = min(nb) + rng.choice([1, 1, 2, 3])
        elif style == "high":
            v = max(nb) + rng.randint(1, 2)
        else:
            v = min(nb) + rng.choice([1, 2, 5, 9])
        dem[c] = v
        todo.discard(c)
    out = sorted(seeds)[rng.randrange(len(seeds))]
    dem[out] = min(dem.values()) - rng.choice([1, 1, 4])
    dl = [dem[c] for c in range(n)]
    m = min(dl)
    dl = [v - m for v in dl]
    # an outlet that became lower can leave its former neighbors only better off
    terms = sorted(seeds - {out})
    return dl, terms


def components(adj):
    left = set(range(len(adj)))
    out = []
    while left:
        s = {min(left)}
        st = list(s)
        while st:
            c = st.pop()
            for x in adj[c]:
                if x not in s:
                    s.add(x)
                    st.append(x)
        out.append(s)
        left -= s
    return out


def tie_free(d, adj, dem):
    """no cell's minimal slope is attained twice (exact), float-safe"""
    for c in range(d["n"]):
        best = []
        for x in adj[c]:
            dr = dem[x] - dem[c]
            s = Fraction(dr * abs(dr), dist2(d, c, x))
            best.append(s)
        best.sort()
        if len(best) > 1 and best[0] == best[1]:
            return False
    return True


UNITS = [(3, 0), (3, 0), (0, 0), (0, 1000), (3, 2048), (19, 0), (19, 1000), (10, 512), (3, -64), (0, -3000), (10, -1)]


def base_case(rng, cid, mesh):
    k, o = rng.choice(UNITS)
    return {"id": cid, "mesh": mesh, "unit": k, "off": o, "ops": []}


# ---------------------------------------------------------------- families
METHODS = ["priority", "complete", "drain"]


def fam_fill(rng, cid, masked=False, small=False):
    mesh = rnd_mesh(rng, 2, 20 if small else 36)
    d = meshes.describe(mesh)
    c = base_case(rng, cid, mesh)
    n = d["n"]
    for _ in range(rng.randint(2, 4)):
        hi = rng.choice([1, 2, 3, 5, 9, 40])
        dem = rnd_dem(rng, d, hi)
        if rng.random() < 0.12:
            dem = widen(rng, dem)
        op = {"op": "fill", "dem": dem, "eps": rng.choice([1, 1, 1, 2, 0, 3])}
        if rng.random() < 0.3:          # eps small compared with the DEM
            op["dem"] = [v * rng.choice([64, 128]) for v in [x % 12 for x in dem]]
        r = rng.random()
        if r < 0.12:
            op["dtype"] = "f4"
        op["method"] = rng.choice(METHODS + [m.upper() for m in METHODS] + [None])
        if masked:
            k = rng.choice([0, 1, 2, n // 3, n // 2, n])
            cells = set()
            if k:
                # connected stretches of stream plus stray cells
                adj = adjacency(d)
                cur = rng.randrange(n)
                for _ in range(k):
                    cells.add(cur)
                    cur = rng.choice(sorted(adj[cur]) or [cur]) if rng.random() < 0.85 else rng.randrange(n)
            op["mask"] = [1 if x in cells else 0 for x in range(n)]
            op["mdtype"] = rng.choice(["int", "int", "bool", "float", "int8"])
            if op["mdtype"] != "bool" and rng.random() < 0.3:
                # numbered streams
                op["mask"] = [v * rng.randint(1, 9) for v in op["mask"]]
        if rng.random() < 0.3:
            op["flat"] = True
            # masks are given in the grid's shape whatever the DEM's shape
        c["ops"].append(op)
    if rng.random() < 0.15:
        # integer DEM: units of one
        c["unit"], c["off"] = 3, 0
        for op in c["ops"]:
            op["dem"] = [v % 40 * 8 for v in op["dem"]]
            op["dtype"] = rng.choice(["i8", "i4"])
    elif any(op.get("dtype") == "f4" for op in c["ops"]):
        c["unit"], c["off"] = 3, 0
    return c


def fam_nan(rng, cid):
    mesh = rnd_mesh(rng, 2, 25)
    d = meshes.describe(mesh)
    n = d["n"]
    c = base_case(rng, cid, mesh)
    for _ in range(3):
        dem = rnd_dem(rng, d, rng.choice([3, 9, 40]))
        r = rng.random()
        if r < 0.75:
            k = rng.randint(0, min(7, n))
        elif r < 0.95:
            k = rng.randint(0, n)
        else:
            k = n
        cells = set()
        cur = rng.randrange(n)
        adj = adjacency(d)
        while len(cells) < k:
            cells.add(cur)
            cur = rng.choice(sorted(adj[cur]) or [cur]) if rng.random() < 0.7 else rng.randrange(n)
        if rng.random() < 0.3 and n >= 6:      # the last cells of the numbering
            cells = set(range(n - k, n))
        for x in cells:
            dem[x] = NIL
        op = {"op": "nanfill", "dem": dem,
              "method": rng.choice(["mean", "median", "min", "max", None, "MEAN", "Max"])}
        if rng.random() < 0.05:
            op["method"] = "mode"
        if rng.random() < 0.3:
            op["flat"] = True
        if rng.random() < 0.15:
            op["neigh"] = "rook"
        c["ops"].append(op)
    return c


def flow_setup(rng, cid, kind="mixed", lo=2, hi=30, kinds=None, plain=False, nan=True, uniform=None,
               wide=False):
    """mesh, DEM, FlowDirections object and flow_directions"""
    if rng.random() < 0.02:
        lo = hi = 1                     # a single cell
    mesh = rnd_mesh(rng, lo, hi, kinds=kinds, plain=plain, uniform=uniform)
    d = meshes.describe(mesh)
    adj = adjacency(d)
    n = d["n"]
    c = base_case(rng, cid, mesh)
    if kind == "mixed":
        kind = rng.choice(["cond", "cond", "arb", "arb", "fill"])
    term = []
    if kind == "cond":
        dem, t = conditioned(rng, d, adj)
        term = [x + 1 for x in t]
        if mesh["kind"] == "star" or rng.random() < 0.15:
            for _ in range(8):
                tied = tie_dem(rng, d, adj, dem)
                m = min(tied)
                if tied.count(m) == 1 and lower_everywhere(adj, tied, set(t) | {tied.index(m)}):
                    dem = [v - m for v in tied]
                    break
        fa = {"op": "fa", "dem": dem}
    elif kind == "fill":
        # fill_sinks with a mask of the terminal cells, then route
        dem = rnd_dem(rng, d, rng.choice([2, 5, 9, 40]))
        if rng.random() < 0.5:
            dem = [v * 2 for v in dem]
        seeds = {rng.choice(sorted(s)) for s in components(adj)}
        if rng.random() < 0.3:
            seeds.add(rng.randrange(n))
        seeds = sorted(seeds)
        # isolated seeds: no two of them neighbors, so none is raised
        keep = []
        for s in seeds:
            if all(k not in adj[s] for k in keep):
                keep.append(s)
        seeds = keep
        dem = unique_min(rng, dem, at=seeds[0])
        for s in seeds[1:]:
            dem[s] = max(dem[s], dem[seeds[0]] + 1)
        c["ops"].append({"op": "fill", "dem": dem, "eps": rng.choice([1, 1, 2]),
                         "method": rng.choice(["priority", None]),
                         "mask": [1 if x in seeds else 0 for x in range(n)]})
        term = [s + 1 for s in seeds[1:]]
        fa = {"op": "fa", "dem": "last"}
    else:
        dem = rnd_dem(rng, d)
        if nan and rng.random() < 0.3 and n > 2:
            for x in rng.sample(range(n), rng.randint(1, max(1, n // 5))):
                dem[x] = NIL
        good = [x for x in range(n) if dem[x] != NIL]
        dem = unique_min(rng, dem, at=rng.choice(good))
        lo_ = min(v for v in dem if v != NIL)
        dem = [v if v == NIL else v - lo_ for v in dem]
        r_ = rng.random()
        if r_ < 0.15:
            dem = ring_dem(rng, d, adj) or dem
        elif r_ < (0.7 if mesh["kind"] == "star" else 0.25):
            dem = tie_dem(rng, d, adj, dem)
        if rng.random() < 0.35:
            term = sorted(rng.sample(range(1, n + 1), rng.randint(1, min(3, n))))
        fa = {"op": "fa", "dem": dem}
    if wide and fa["dem"] != "last" and rng.random() < 0.2:
        fa["dem"] = widen(rng, fa["dem"])
    if rng.random() < 0.1 and c["off"] == 0 and c["unit"] <= 3 and fa["dem"] != "last":
        fa["dtype"] = "f4"
    if rng.random() < 0.2:
        fa["flat"] = True
    c["ops"].append(fa)
    if rng.random() < 0.08 and n > 1:
        # routed before, with other terminal cells and another threshold
        c["ops"].append({"op": "fdir", "term": sorted(rng.sample(range(1, n + 1), rng.randint(0, min(2, n)))),
                         "tform": "int", "thr": rng.choice([0, 2, 5])})
    op = {"op": "fdir", "term": term}
    forms = ["int", "int", "np"] + (["rc", "rc", "rcl"] if mesh["grid"] == "structured" else [])
    op["tform"] = rng.choice(forms)
    if rng.random() < 0.25:
        op["thr"] = rng.choice([0, 1, 2, 3, 5])
    c["ops"].append(op)
    c["_d"], c["_adj"], c["_kind"] = d, adj, kind
    return c


def spice(rng, c):
    """memory layouts of the arrays passed in: Fortran order, strided, read only; inactive cells"""
    if rng.random() < 0.25:
        c["mesh"]["idom"] = rng.choice([1, 2, 3, 4, "none"])
    for op in c["ops"]:
        if op["op"] != "same" and rng.random() < 0.15:
            op["lay"] = rng.choice(["F", "S", "R"])
        if op["op"] == "thresh" and op["thr2"] == 0 and rng.random() < 0.5:
            op["dflt"] = True
    return c


def strip(c):
    for k in list(c):
        if k.startswith("_"):
            del c[k]
    return c


PFORMS = ["tuple", "tuple", "list", "array", "fpoint", "shape", "shapely"]


def pick_cells(rng, n, k):
    return [rng.randint(1, n) for _ in range(k)]


def ws_op(rng, n):
    return {"op": "ws", "cell": rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)]),
            "form": rng.choice(PFORMS), "frac": rng.choice([0, 0, 1, 2, 3])}


def sub_op(rng, n):
    cells = pick_cells(rng, n, rng.randint(1, min(6, n)))
    if rng.random() < 0.3:
        cells.append(1)
        rng.shuffle(cells)
    return {"op": "sub", "cells": cells,
            "form": rng.choice(["tuple", "list", "array", "collection", "ndarray", "fpoint", "shape", "shapely", "multi"]),
            "frac": rng.choice([0, 0, 1, 2])}


def bad_point(rng, n, what):
    """a point of one or three coordinates, alone or among others"""
    return {"op": "badpoint", "what": what, "cells": pick_cells(rng, n, rng.randint(1, 3)), "n": rng.choice([1, 3]),
            "form": rng.choice(["tuple", "list", "array"])}


def fam_flow(rng, cid, kind="mixed", focus="fdir"):
    big = rng.random() < 0.2
    c = flow_setup(rng, cid, kind, 2, 40 if big else 25, wide=focus != "geom")
    n = c["_d"]["n"]
    if focus == "facc":
        for _ in range(rng.randint(1, 3)):
            c["ops"].append({"op": "facc", "cells": rng.random() < 0.5})
        c["ops"].append({"op": "nidp"})
        c["ops"].append({"op": "facc", "cells": rng.random() < 0.5})
    elif focus == "ws":
        for _ in range(rng.randint(2, 5)):
            c["ops"].append(ws_op(rng, n))
        if rng.random() < 0.4:
            c["ops"].insert(-1, sub_op(rng, n))
        if rng.random() < 0.1:
            c["ops"].insert(-1, bad_point(rng, n, "ws"))
        if rng.random() < 0.3:
            # route again with other terminal cells, then delineate again
            t = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(3, n))))
            c["ops"].append({"op": "fdir", "term": t, "tform": "int"})
            c["ops"].append(ws_op(rng, n))
    elif focus == "sub":
        for _ in range(rng.randint(2, 5)):
            c["ops"].append(sub_op(rng, n))
        if rng.random() < 0.3:
            c["ops"].insert(-1, ws_op(rng, n))
        if rng.random() < 0.1:
            c["ops"].insert(-1, bad_point(rng, n, "sub"))
    elif focus == "geom":
        if rng.random() < 0.5:
            c["ops"].append({"op": "facc"})
        c["ops"].append({"op": "geom"})
        if rng.random() < 0.3 and c["ops"][0]["op"] == "fa":
            c["unit"], c["off"] = 21, 0          # drops of 1, 2 units are under 1e-6
    elif focus == "term":
        if rng.random() < 0.4:
            t = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(4, n))))
            c["ops"].append({"op": "fdir", "term": t, "tform": rng.choice(["int", "np"])})
    return strip(c)


def fam_term(rng, cid):
    """terminal cells and ambiguous outlets"""
    r = rng.random()
    if r < 0.7:
        return fam_flow(rng, cid, "mixed", "term")
    mesh = rnd_mesh(rng, 2, 20)
    d = meshes.describe(mesh)
    n = d["n"]
    c = base_case(rng, cid, mesh)
    dem = rnd_dem(rng, d, rng.choice([1, 3, 9]))
    if r < 0.85:            # tied minimum
        lo = min(dem)
        for x in rng.sample(range(n), min(n, rng.randint(2, 3))):
            dem[x] = lo
        if rng.random() < 0.3:
            k = rng.randrange(n)
            if sum(1 for v in dem if v == lo) > 2 or dem[k] != lo:
                dem[k] = NIL
        chk = rng.random() < 0.5
        c["ops"].append({"op": "fa", "dem": dem, "check": chk})
        if not chk:
            t = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(2, n))))
            c["ops"].append({"op": "fdir", "term": t, "tform": "int"})
        elif sum(1 for v in dem if v == min(w for w in dem if w != NIL)) == 1:
            c["ops"].append({"op": "fdir", "term": [], "tform": "int"})
    else:                   # (row, column) terminals on other grids
        dem = unique_min(rng, dem)
        c["ops"].append({"op": "fa", "dem": dem})
        c["ops"].append({"op": "fdir", "term": [rng.randint(1, n)], "tform": rng.choice(["rc", "rcl"])})
    return c


# ---------------------------------------------------------------- streams
def rnd_streams(rng, d, adj):
    n = d["n"]
    r = rng.random()
    if r < 0.15:
        k = {rng.randrange(n)}
    elif r < 0.6:
        p = rng.choice([0.2, 0.5, 0.8])
        k = {x for x in range(n) if rng.random() < p}
    elif r < 0.7:
        k = set(range(n))
    else:
        k = set()
        cur = rng.randrange(n)
        for _ in range(rng.randint(1, n)):
            k.add(cur)
            cur = rng.choice(sorted(adj[cur]) or [cur])
    return [1 if x in k else 0 for x in range(n)] if k else [1] + [0] * (n - 1)


def rnd_bb(rng, d, adj):
    """a basin boundary, or the labels of several basins"""
    bb = rnd_bb01(rng, d, adj)
    return [v * rng.choice([1, 2, 3, 4, -1]) for v in bb] if rng.random() < 0.3 else bb


def rnd_bb01(rng, d, adj):
    n = d["n"]
    if rng.random() < 0.4:
        return []
    if rng.random() < 0.5:
        return [1 if rng.random() < 0.75 else 0 for _ in range(n)]
    cur = {rng.randrange(n)}
    for _ in range(rng.randint(1, 3)):
        cur |= {y for x in cur for y in adj[x]}
    return [1 if x in cur else 0 for x in range(n)]


def step(cls, s, call):
    """module Session's Step, to know which streams a call uses"""
    arr, mode = s
    op, a, g = call["op"], call.get("arr") or None, call.get("group", False)
    a = None if a is None else [1 if v else 0 for v in a]
    eff = a if a is not None else arr
    mf = "seg" if g else ("cell" if cls == "Sfr2005" else "reach")
    if op in ("delineate", "setstream"):
        return (a, "none")
    if eff is None:
        return s
    if op == "conn":
        return (eff, mf)
    if op == "conndata":
        return (arr, "reach" if mode == "none" else mode)
    if op == "packdata":
        return (eff, "reach") if mode == "none" or a is not None else s
    if op in ("reachdata", "segdata", "irunbnd", "casc"):
        return s if mode != "none" and eff == arr else (eff, mf)
    if op == "pgsf":
        if cls == "Prms":
            return (eff, mf)
        return s if mode != "none" else (arr, mf)
    if op == "vectors":
        return s if a is None or a == arr else (a, "none")
    return s


OPS = {"Sfr6": ["conn", "conndata", "packdata", "vectors"],
       "Sfr2005": ["conn", "reachdata", "segdata", "irunbnd", "vectors", "pgsf"],
       "Prms": ["conn", "casc", "vectors", "pgsf"]}
GROUPED_DEFAULT = {"reachdata": True, "segdata": True, "irunbnd": True, "casc": False,
                   "vectors": True, "pgsf": True}


def stream_call(rng, ctx, op, arr=None, group=None, twin=False):
    """one call; arr None = no explicit array.  ctx: cls, s, d, adj, exact, flat1"""
    cls, s = ctx["cls"], ctx["s"]
    c = {"op": op}
    if arr is not None and op != "conndata":
        c["arr"] = list(arr)
        r = rng.random()
        if r < 0.15:
            c["adtype"] = "bool"
        elif r < 0.3:
            c["adtype"] = "int8"
        elif r < 0.4 and op != "vectors":
            # some other numbering of the same cells
            c["arr"] = [v * rng.randint(1, 9) for v in arr]
        if rng.random() < 0.1:
            c["flat"] = True
        if s[0] is not None and list(arr) == list(s[0]) and rng.random() < 0.5:
            # the object's own array, numbered or not
            c["arr"], c["own"] = list(s[0]), True
    a = c.get("arr")
    a01 = None if a is None else [1 if v else 0 for v in a]
    eff = a01 if a01 is not None else s[0]
    reuse = s[1] != "none" and eff == s[0]
    if op == "conn":
        c["group"] = bool(rng.random() < 0.5 if group is None else group) if cls != "Sfr6" else False
    elif op in ("reachdata", "segdata", "irunbnd", "casc") or (op == "pgsf" and cls == "Sfr2005"):
        g = group
        if g is None and rng.random() < 0.6:
            g = rng.random() < 0.5
        if op == "pgsf":
            reuse = s[1] != "none"
        if reuse:
            # connectivity that is there already is used, the flag is not
            c["gs"] = None
            c["group"] = s[1] == "seg"
            if op == "irunbnd" and (c.get("own") or a is None) and rng.random() < 0.4:
                c["sg"] = True
        else:
            c["gs"] = g
            c["group"] = GROUPED_DEFAULT[op] if g is None else g
    elif op == "vectors":
        c["group"] = rng.random() < 0.7 if group is None else group
        if rng.random() < 0.2:
            c["nan"] = True
            c.pop("adtype", None)
            if c.get("arr"):
                c["arr"] = [1 if v else 0 for v in c["arr"]]
    elif op == "pgsf":
        c["group"] = rng.random() < 0.6 if group is None else group
    else:
        c["group"] = False
    if op in ("conn", "vectors", "pgsf") and not (op == "pgsf" and cls == "Sfr2005"):
        # the documented default of the flag
        if c["group"] == (op != "conn" or cls == "Sfr2005") and rng.random() < 0.5:
            c["bydef"] = True
    if op == "packdata" and rng.random() < 0.3:
        c["detuple"] = True
    if op == "reachdata":
        c["flat1"] = ctx["flat1"]
    if op == "casc" or (op == "pgsf" and cls == "Prms"):
        c["bb"] = rnd_bb(rng, ctx["d"], ctx["adj"])
        c["many"] = bool(rng.random() < 0.5 and ctx["m2m"])
        c["sc"], c["tol"] = (24000, -1 if ctx.get("strict") else 0) if ctx["exact"] else (160000, 1)
        if c["bb"] and rng.random() < 0.2:
            c["bdtype"] = "bool"
    if op == "pgsf" and cls == "Sfr2005":
        c.pop("arr", None)
        kw = {}
        for k, vals in (("strhc1", [0.5, 2.0]), ("strthick", [3.0]), ("roughch", [0.04]),
                        ("width1", [7]), ("etsw", [0.25]), ("icalc", [2]), ("flow", [3.5]),
                        ("min_slope", [0.0005, 0.01, 0.02]), ("max_slope", [0.5, 0.05]),
                        ("default_slope", [0.02, 0.003])):
            if rng.random() < 0.2:
                kw[k] = rng.choice(vals)
        if rng.random() < 0.06:
            kw["bogus"] = 1
        c["kw"] = kw
        if rng.random() < 0.2:
            c["defaults"] = False
        if rng.random() < 0.15:
            c["given"] = [rng.randint(0, 5) for _ in range(ctx["d"]["n"])]
        if rng.random() < 0.15 and "bogus" not in kw:
            c["tables"] = True
        c["flat1"] = ctx["flat1b"]
    n2 = step(cls, s, c) if not (op == "pgsf" and cls == "Sfr2005" and "bogus" in c.get("kw", {})) else s
    if n2[0] is None:
        c.pop("given", None)
    ctx["s"] = n2
    if twin and n2[0] is not None and not c.get("given"):
        c["twin"] = True
        c["eff"] = {"arr": n2[0], "mode": n2[1]}
    return c


def stream_setup(rng, cid, cls, kind="mixed", hi=25, nan=False, kinds=None, facc=True, m2m=False, unit=None,
                 big=False):
    if cls == "Sfr2005" and kinds is None:
        kinds = ["structured"]
    uniform = True if (m2m and rng.random() < 0.7) else None
    plain = bool(uniform)
    if m2m and rng.random() < 0.06:
        return one_percent(rng, cid, cls)
    c = flow_setup(rng, cid, kind, 2, hi, kinds=kinds, nan=nan, uniform=uniform, plain=plain)
    d, adj = c["_d"], c["_adj"]
    if not big and c["mesh"].get("scale", 0) > 1:
        c["mesh"].pop("scale")
    if unit is not None:
        c["unit"], c["off"] = unit
    elif cls == "Sfr2005" and (c["unit"], c["off"]) == (19, 1000):
        c["off"] = 0            # the MODFLOW-2005 tables are single precision
    cells = rng.random() < 0.4
    if rng.random() < 0.25:
        c["ops"].append({"op": "facc", "cells": not cells if rng.random() < 0.7 else cells})
    c["ops"].append({"op": "facc", "cells": cells})
    c["ops"].append({"op": "new", "cls": cls})
    if rng.random() < 0.2:
        c["ops"][-1]["neigh"] = rng.choice(["rook", "rook", "queen"])
    ex = exact_dist(d, adj)
    mesh = c["mesh"]
    if m2m:
        mesh.pop("rot", None)           # exact fractions
        d = c["_d"] = meshes.describe(mesh)
    if cls == "Sfr2005" and not 1 <= 2 ** c["unit"] * mesh.get("scale", 1) < 10 ** 6:
        mesh.pop("scale", None)
    strict = ex and all(dist2(d, a, b) == 256 for a in range(d["n"]) for b in adj[a]) and mesh.get("scale", 1) <= 1
    unit = 2.0 ** -c["unit"]
    f1 = 0.0001 * 1000 / unit * mesh.get("scale", 1)
    ctx = {"cls": cls, "s": (None, "none"), "d": d, "adj": adj, "exact": ex,
           "flat1": int(round(f1)) if f1 < 1e5 else -1000001, "flat1b": 1, "m2m": m2m, "cells": cells,
           "strict": strict}
    return c, ctx


def one_percent(rng, cid, cls):
    """cells in a column, some of which send exactly 1% one way"""
    n = rng.randint(3, 7)
    mesh = {"kind": "rect", "grid": rng.choice(["structured", "vertex", "unstructured"]), "dx": [12], "dy": [16] * n}
    d = meshes.describe(mesh)
    adj = adjacency(d)
    j = rng.choice([1, 2])
    dem = [300 + 7 * k for k in range(n)]
    k = rng.randrange(1, n - 1)
    dem[k - 1], dem[k], dem[k + 1] = [(200, 200 + 99 * j, 200 + 98 * j), (200, 200 + 98 * j, 200 + 97 * j),
                                      (200, 200 + 100 * j, 200 + 99 * j)][rng.randrange(3)]
    if rng.random() < 0.5:
        dem.reverse()
    dem = unique_min(rng, dem, rng.choice([x for x in (0, n - 1) if abs(x - k) > 1] or [0 if dem[0] < dem[-1] else n - 1]))
    m = min(dem)
    c = {"id": cid, "mesh": mesh, "unit": rng.choice([0, 3]), "off": 0,
         "ops": [{"op": "fa", "dem": [v - m for v in dem]}, {"op": "fdir", "term": [], "tform": "int"},
                 {"op": "facc", "cells": True}, {"op": "new", "cls": cls}], "_d": d, "_adj": adj}
    return c, {"cls": cls, "s": (None, "none"), "d": d, "adj": adj, "exact": True, "flat1": -1000001, "flat1b": 1,
               "m2m": True, "cells": True, "strict": True}


def maybe_delineate(rng, c, ctx, arr=None):
    """streams from a mask or from a custom array; sets ctx['s'] for custom arrays"""
    a = arr if arr is not None else rnd_streams(rng, ctx["d"], ctx["adj"])
    op = {"op": "setstream", "arr": a, "adtype": rng.choice(["int", "int", "bool", "int8"]),
          "flat": rng.random() < 0.2}
    r = rng.random()
    if r < 0.3:
        # the same streams by delineation: no threshold, and the mask as the basin
        op = {"op": "delineate", "thr2": 0, "bb": [1 if v else 0 for v in a]}
    elif r < 0.4:
        op = {"op": "delineate", "thr2": [0 if v else 10 ** 9 for v in a]}
    c["ops"].append(op)
    ctx["s"] = (a, "none")
    return a


def fam_streams(rng, cid, cls, focus, n_calls=3, kind="mixed", m2m=False, kinds=None):
    """a few calls of the focus product on different streams"""
    small_unit = focus in ("pgsf",)
    c, ctx = stream_setup(rng, cid, cls, kind, m2m=m2m, kinds=kinds,
                          unit=rng.choice([(3, 0), (0, 0), (3, -64)]) if small_unit else None, big=True)
    if ctx["m2m"] and not ctx["exact"]:
        # keep slopes resolvable by the integer scale
        for op in c["ops"]:
            if op["op"] in ("fa", "fill") and isinstance(op.get("dem"), list):
                if max(v for v in op["dem"]) > 60:
                    ctx["m2m"] = False
    if ctx["m2m"] and ctx["exact"] and rng.random() < 0.35:
        for op in c["ops"]:
            if op["op"] == "fa" and op["dem"] != "last" and max(op["dem"]) <= 250:
                op["dem"] = cliff(rng, op["dem"])
    for k in range(n_calls):
        if k == 0 or rng.random() < 0.6:
            maybe_delineate(rng, c, ctx)
        arr = None
        if rng.random() < 0.4:
            arr = ctx["s"][0] if rng.random() < 0.4 else rnd_streams(rng, ctx["d"], ctx["adj"])
        if rng.random() < 0.4 and focus != "conn":
            c["ops"].append(stream_call(rng, ctx, "conn", None))
        c["ops"].append(stream_call(rng, ctx, focus, arr))
    return strip(c)


def fam_conndata_graph(rng, cid):
    """connectiondata of graphs given by the user"""
    c, ctx = stream_setup(rng, cid, "Sfr6")
    for _ in range(3):
        n = rng.randint(1, 9)
        g = []
        for k in range(1, n + 1):
            g.append([k, rng.choice([0, k] + list(range(k + 1, n + 1)) * 2)])
        rng.shuffle(g)
        c["ops"].append({"op": "conndata", "graph": g})
    return strip(c)


def fam_session(rng, cid, cls, length=7):
    """any calls in any order, with twins"""
    c, ctx = stream_setup(rng, cid, cls, rng.choice(["cond", "cond", "arb"]), hi=16,
                          m2m=(cls == "Prms"), unit=(3, 0) if cls == "Sfr2005" else None)
    if not ctx["exact"]:
        ctx["m2m"] = False
    pool = [rnd_streams(rng, ctx["d"], ctx["adj"]) for _ in range(3)]
    for _ in range(length):
        r = rng.random()
        if r < 0.2:
            maybe_delineate(rng, c, ctx, rng.choice(pool))
            continue
        if r < 0.25:
            n = ctx["d"]["n"]
            c["ops"].append({"op": "thresh", "cells": pick_cells(rng, n, rng.randint(1, 2)), "thr2": 100001})
            continue
        if r < 0.3:
            dem = unique_min(rng, rnd_dem(rng, ctx["d"], 9))
            c["ops"].append({"op": "other", "dem": [v - min(dem) for v in dem]})
            continue
        op = rng.choice(OPS[cls])
        arr = rng.choice(pool) if rng.random() < 0.45 else None
        if rng.random() < 0.1:
            arr = ctx["s"][0]
        c["ops"].append(stream_call(rng, ctx, op, arr, twin=True))
    return strip(c)


def fam_delineate(rng, cid):
    cls = rng.choice(["Sfr6", "Prms", "Sfr2005"])
    c, ctx = stream_setup(rng, cid, cls, kinds=None if cls != "Sfr2005" else ["structured"], big=True)
    d, adj, n = ctx["d"], ctx["adj"], ctx["d"]["n"]
    # accumulations equal to the threshold have to be exact
    c["mesh"].pop("rot", None)
    if c["mesh"].get("xo", 0) > 10 ** 4:
        c["mesh"]["xo"], c["mesh"]["yo"] = 1000, -700
    unit2 = 2 if ctx["cells"] else 2 * 192
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.12:
            c["ops"].append({"op": "setstream", "arr": [rng.randint(0, 3) for _ in range(n + rng.choice([-1, 1, 2]))]
                             if n > 1 else [1, 0]})
            continue
        if r < 0.2:
            c["ops"].append({"op": "badthr", "extra": rng.choice([1, 3])})
            continue
        if r < 0.35:
            c["ops"].append({"op": "setstream", "arr": [rng.randint(0, 3) for _ in range(n)]})
            continue
        step_ = rng.choice([unit2, unit2, unit2 // 2, 1])
        k = rng.randint(0, 8)
        if rng.random() < 0.5:
            thr = k * step_ + (rng.choice([0, 0, 0, 1]) if step_ > 1 else 0)
        else:
            thr = [rng.randint(0, 6) * step_ for _ in range(n)]
        op = {"op": "delineate", "thr2": thr, "bb": rnd_bb(rng, d, adj)}
        if isinstance(thr, int) and thr % 2 == 0 and rng.random() < 0.5:
            op["intthr"] = True
        if rng.random() < 0.2:
            op["flat"] = True
        if op["bb"] and rng.random() < 0.3:
            op["bdtype"] = rng.choice(["bool", "float"])
        c["ops"].append(op)
    return strip(c)


def fam_thresh(rng, cid):
    cls = rng.choice(["Sfr6", "Prms", "Sfr2005"])
    c, ctx = stream_setup(rng, cid, cls)
    n = ctx["d"]["n"]
    if rng.random() < 0.1:
        c["ops"].append(bad_point(rng, n, "thresh"))
    for _ in range(3):
        thr2 = rng.choice([100001, 100001, 55, 7, 0, 3000])
        c["ops"].append({"op": "thresh", "cells": pick_cells(rng, n, rng.randint(1, 4)), "thr2": thr2,
                         "intthr": thr2 % 2 == 0 and rng.random() < 0.5,
                         "form": rng.choice(["tuple", "list", "array", "collection", "fpoint", "shape", "shapely", "multi"]), "frac": rng.choice([0, 1, 2])})
    return strip(c)


def fam_history(rng, cid):
    """C22: everything on a shared grid, with fresh twins"""
    c = flow_setup(rng, cid, "mixed", 2, 20)
    d, adj, n = c["_d"], c["_adj"], c["_d"]["n"]
    for op in c["ops"]:
        if op["op"] in ("fill", "fdir"):
            op["twin"] = True
        if op["op"] in ("fa", "fill") and rng.random() < 0.5:
            op["neigh"] = rng.choice(["rook", "queen"])

    def more():
        r = rng.random()
        if r < 0.3:
            o = ws_op(rng, n)
        elif r < 0.45:
            o = sub_op(rng, n)
        elif r < 0.6:
            o = {"op": "facc", "cells": rng.random() < 0.5}
        elif r < 0.7:
            o = {"op": "geom"}
        elif r < 0.9:
            t = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(3, n))))
            o = {"op": "fdir", "term": t, "tform": "int"}
            if rng.random() < 0.4:
                o["thr"] = rng.choice([0, 2, 4])
        else:
            o = {"op": "fill", "dem": rnd_dem(rng, d), "eps": 1, "method": rng.choice(METHODS),
                 "neigh": rng.choice(["rook", "queen"])}
            if rng.random() < 0.5:
                o = {"op": "nanfill", "dem": [NIL if rng.random() < 0.2 else v for v in rnd_dem(rng, d)],
                     "neigh": rng.choice(["rook", "queen"])}
        o["twin"] = True
        return o
    for _ in range(rng.randint(4, 8)):
        c["ops"].append(more())
    if rng.random() < 0.5:
        # a second object on the same grid
        dem = unique_min(rng, rnd_dem(rng, d))
        lo = min(dem)
        c["ops"].append({"op": "fa", "dem": [v - lo for v in dem], "neigh": rng.choice([None, "rook"])})
        c["ops"].append({"op": "fdir", "term": [], "twin": True})
        for _ in range(2):
            c["ops"].append(more())
    return strip(c)


def fam_cache(rng, cid):
    """C22: conditioning on a grid whose neighbor cache holds other neighbors"""
    mesh = rnd_mesh(rng, 12, 36)
    d = meshes.describe(mesh)
    n = d["n"]
    c = base_case(rng, cid, mesh)
    for _ in range(rng.randint(2, 5)):
        dem = rnd_dem(rng, d, rng.choice([3, 9, 40]))
        if rng.random() < 0.3:
            dem = [NIL if rng.random() < 0.3 else v for v in dem]
            if all(v == NIL for v in dem):
                dem[0] = 1
            o = {"op": "nanfill", "dem": dem}
        else:
            o = {"op": "fill", "dem": dem, "eps": rng.choice([0, 1, 1, 2]), "method": rng.choice(METHODS)}
            if rng.random() < 0.2:
                o["mask"] = [int(rng.random() < 0.2) for _ in range(n)]
        o["twin"] = True
        o["neigh"] = rng.choice(["rook", "rook", "queen", None])
        c["ops"].append(o)
    return c


def fam_same(rng, cid):
    """C23: one mesh, three grid classes, no ties"""
    free = rng.random() < 0.4
    while True:
        mesh = rnd_mesh(rng, 2, 20 if free else 16, kinds=["vertex"] if free else ["structured"])
        if free and rng.random() < 0.5 and mesh["kind"] == "rect":
            # triangles everywhere
            mesh["split"] = [k for k in range(len(mesh["dx"]) * len(mesh["dy"])) if rng.random() < 0.8]
        if rng.random() < 0.5:
            mesh.pop("rot", None)
        d = meshes.describe(mesh)
        adj = adjacency(d)
        n = d["n"]
        if rng.random() < 0.6:
            dem, term = conditioned(rng, d, adj)
        else:
            dem, term = unique_min(rng, [rng.randint(0, 300) for _ in range(n)]), []
        vals = sorted(range(n), key=lambda x: (dem[x], rng.random()))
        dem = [v * 5 + rng.randint(0, 4) for v in dem] if max(dem) < 60 else dem
        lo = min(dem)
        dem = [v - lo for v in dem]
        if dem.count(0) != 1 or max(dem) > 380:
            continue
        if tie_free(d, adj, dem):
            break
    c = base_case(rng, cid, mesh)
    ops = []
    for m in ("complete", "drain"):
        ops.append({"op": "fill", "dem": dem, "eps": rng.choice([1, 2]), "method": m})
    ops.append({"op": "fa", "dem": dem})
    ops.append({"op": "fdir", "term": [t + 1 for t in term], "tform": "int"})
    ops.append({"op": "facc", "cells": rng.random() < 0.5})
    ops.append({"op": "geom"})
    ops.append(ws_op(rng, n))
    ops.append(sub_op(rng, n))
    for cls in rng.sample(["Sfr6", "Prms", "Sfr2005"], 2):
        ops.append({"op": "new", "cls": cls})
        ctx = {"cls": cls, "s": (None, "none"), "d": d, "adj": adj, "exact": exact_dist(d, adj),
               "flat1": 0, "flat1b": 1, "m2m": exact_dist(d, adj), "cells": True}
        if rng.random() < 0.5:
            ops.append({"op": "delineate", "thr2": rng.choice([2, 4, 6, 8, 400, 800])})
            ctx["s"] = ([2] * n, "none")    # not known here, never compared
            arr = None
        else:
            a = rnd_streams(rng, d, adj)
            ops.append({"op": "setstream", "arr": a})
            ctx["s"] = (a, "none")
        calls = {"Sfr6": ["conn", "conndata", "packdata", "vectors"], "Sfr2005": ["conn", "irunbnd", "segdata", "vectors"],
                 "Prms": ["conn", "casc", "pgsf", "casc"]}[cls]
        for o in calls:
            q_ = stream_call(rng, ctx, o, None)
            ops.append(q_)
    c["ops"] = [{"op": "same", "ops": ops, "closed": rng.random() < 0.5, "ccw": rng.random() < 0.5,
                 "mix": rng.randint(1, 10 ** 6) if rng.random() < 0.4 else 0}]
    return c


# ---------------------------------------------------------------- large meshes
def large_setup(rng, cid, shape=None, kind=None, snake=False):
    """a conditioned DEM on a mesh of some hundred cells"""
    nr, nc = shape or rng.choice([(1, 300), (12, 25), (17, 17), (150, 2)])
    kind = kind or rng.choice(["structured", "vertex", "unstructured"])
    mesh = {"kind": "rect", "grid": kind, "dx": [12] * nc, "dy": [16] * nr}
    if kind != "structured":
        mesh["perm"] = rng.randint(1, 10 ** 6)
        mesh["closed"] = rng.random() < 0.5
    d = meshes.describe(mesh)
    adj = adjacency(d)
    n = d["n"]
    # breadth first from the outlet, so that paths are long and elevations small
    o = rng.randrange(n) if nr > 1 and nc > 1 else 0
    if snake:
        # one winding path between walls
        mesh.pop("perm", None)
        path = []
        for r in range(0, nr, 2):
            cols = list(range(nc)) if r % 4 == 0 else list(range(nc - 1, -1, -1))
            path += [r * nc + k for k in cols]
            if r + 2 < nr:
                path.append((r + 1) * nc + cols[-1])
        if rng.random() < 0.5:
            path.reverse()
        top = 2 * len(path)
        dl = [top + rng.randint(0, 5) for _ in range(n)]
        step_ = rng.randint(1, 2)
        for k, x in enumerate(path):
            dl[x] = step_ * k
        c = {"id": cid, "mesh": mesh, "unit": 3, "off": 0, "_path": path,
             "ops": [{"op": "fa", "dem": dl}, {"op": "fdir", "term": []}]}
        return c, d, adj
    dem, front = {o: 0}, [o]
    while front:
        k = rng.randrange(len(front)) if rng.random() < 0.5 else len(front) - 1
        x = front.pop(k)
        for y in sorted(adj[x]):
            if y not in dem:
                dem[y] = dem[x] + rng.randint(1, 2)
                front.append(y)
    c = {"id": cid, "mesh": mesh, "unit": 3, "off": 0,
         "ops": [{"op": "fa", "dem": [dem[k] for k in range(n)]}, {"op": "fdir", "term": []}]}
    return c, d, adj


def fam_large(rng, cid, focus, deep=False, snake=False):
    # a path of cells deeper than Python's recursion limit, or one that winds
    c, d, adj = large_setup(rng, cid, (1, 1030) if deep else rng.choice([(9, 9), (17, 13), (21, 9)]) if snake else None,
                            "structured" if focus in ("reachdata", "pgsf") or snake == 1 else None, snake)
    path = c.pop("_path", None)
    n = d["n"]
    ops = c["ops"]
    if focus == "fill":
        dem = rnd_dem(rng, d, rng.choice([3, 9, 40]))
        c["ops"] = [{"op": "fill", "dem": dem, "eps": 1, "method": m} for m in METHODS]
        return c
    if focus == "mask":
        dem = rnd_dem(rng, d, rng.choice([3, 9, 40]))
        cells = {rng.randrange(n)}
        for _ in range(n // 6):
            cells.add(rng.choice(sorted(adj[rng.choice(sorted(cells))])))
        c["ops"] = [{"op": "fill", "dem": dem, "eps": 1, "method": m, "mdtype": "int",
                     "mask": [1 if x in cells else 0 for x in range(n)]} for m in ("priority", "complete")]
        return c
    if focus == "nan":
        dem = [rng.randint(0, 9) for _ in range(n)]
        c["ops"] = [{"op": "nanfill", "dem": [NIL if rng.random() < p else v for v in dem], "method": m}
                    for p, m in ((0.3, "mean"), (0.9, "max"))]
        return c
    ops.append({"op": "facc", "cells": rng.random() < 0.5})
    if focus == "flow":
        ops.append({"op": "nidp"})
        ops.append({"op": "geom"})
        return c
    if focus == "ws":
        return dict(c, ops=ops + [ws_op(rng, n) for _ in range(2)])
    if focus == "sub":
        k = rng.choice([130, 150, 200])
        cells = rng.sample(range(1, n + 1), min(n, k))
        if path:
            # far apart on the path, downstream ones first as well
            for k in (0, 0, 1, 2):
                cells = [path[rng.randrange(3)] + 1, path[-1 - rng.randrange(3)] + 1]
                cells += [1 + path[rng.randrange(len(path))] for _ in range(k)]
                rng.shuffle(cells)
                ops.append({"op": "sub", "cells": cells, "form": "tuple"})
        return dict(c, ops=ops + [{"op": "sub", "cells": cells, "form": "tuple"}])
    if focus == "thresh":
        return dict(c, ops=ops + [{"op": "new", "cls": "Sfr6"},
                                  {"op": "thresh", "cells": pick_cells(rng, n, rng.randint(1, 3)) + ([1] if deep else []),
                                   "thr2": 100001}])
    all_ = [1] * n
    if focus == "m2m":
        all_ = [1 if rng.random() < 0.2 else 0 for _ in range(n)]
    elif not deep and rng.random() < 0.5:
        all_ = [1 if rng.random() < 0.93 else 0 for _ in range(n)]
    cls = {"conn6": "Sfr6", "packdata": "Sfr6", "reachdata": "Sfr2005", "conn5": "Sfr2005", "irunbnd": "Sfr2005",
           "casc": "Prms", "m2m": "Prms", "pgsf": "Sfr2005", "vectors": "Sfr6", "delineate": "Sfr6"}[focus]
    ops.append({"op": "new", "cls": cls})
    if focus == "delineate":
        ops.append({"op": "delineate", "thr2": rng.choice([2, 40, 400, 4000]), "bb": rnd_bb(rng, d, adj)})
        return c
    ops.append({"op": "setstream", "arr": all_})
    g = rng.random() < 0.5
    if focus in ("conn6", "conn5"):
        ops.append({"op": "conn", "group": g and cls != "Sfr6"})
    elif focus == "packdata":
        ops += [{"op": "conndata"}, {"op": "packdata"}]
    elif focus == "reachdata":
        ops += [{"op": "reachdata", "gs": g, "group": g, "flat1": 1}, {"op": "segdata", "gs": None, "group": g}]
    elif focus == "irunbnd":
        ops.append({"op": "irunbnd", "gs": g, "group": g})
    elif focus in ("casc", "m2m"):
        ops.append({"op": "casc", "gs": g, "group": g, "bb": rnd_bb(rng, d, adj), "sc": 160000, "tol": 1,
                    "many": focus == "m2m"})
    elif focus == "vectors":
        ops.append({"op": "vectors", "group": g})
    elif focus == "pgsf":
        ops.append({"op": "pgsf", "gs": g, "group": g, "kw": {}, "flat1": 1})
    return c


# the operation sequence of a property on a large mesh
LARGE = {"C01": "fill", "C02": "fill", "C03": "mask", "C04": "nan", "C05": "flow", "C06": "flow", "C07": "flow",
         "C08": "flow", "C09": "ws", "C10": "sub", "C11": "delineate", "C12": "conn6", "C13": "packdata",
         "C14": "conn5", "C15": "reachdata", "C16": "irunbnd", "C17": "casc", "C18": "m2m", "C19": "vectors",
         "C20": "thresh", "C24": "flow", "C25": "pgsf"}


# ---------------------------------------------------------------- huge meshes
def fam_huge(rng, cid, focus):
    """more cells than 16 bits can count; judged by module Huge"""
    nr = rng.randint(178, 188)
    nc = 33200 // nr + rng.randint(1, 8)
    n = nr * nc
    kind = "structured" if focus in ("reachdata",) else rng.choice(["structured", "structured", "vertex", "unstructured"])
    side = 70 if focus == "m2m" else 2      # the diagonal of 70 by 70 is 98.995
    mesh = {"kind": "rect", "grid": kind, "dx": [side] * nc, "dy": [side] * nr}
    if kind != "structured":
        mesh["closed"] = rng.random() < 0.5
    a, b = rng.choice([-1, 1]) * rng.randint(2, 8), rng.choice([-1, 1]) * rng.randint(2, 8)
    # along its edge the mesh falls towards one corner, so that all paths end
    edge = {x for x in range(n) if x // nc in (0, nr - 1) or x % nc in (0, nc - 1)}
    dem = [a * (x // nc) + b * (x % nc) + (0 if x in edge else rng.randint(0, 50)) for x in range(n)]
    lo = min(dem)
    dem = [v - lo for v in dem]
    c = {"id": cid, "mesh": mesh, "unit": 3, "off": 0, "huge": True, "ops": []}
    ops = c["ops"]
    if focus == "fill":
        ops += [{"op": "fill", "dem": dem, "eps": 1, "method": m} for m in ("drain", "priority", "complete")]
        return c
    if focus == "mask":
        cells = {n - 1 - rng.randrange(nc)}
        while len(cells) < 120:
            x = rng.choice(sorted(cells))
            y = x + rng.choice([1, -1, nc, -nc, nc + 1, -nc - 1])
            if 0 <= y < n and abs(y % nc - x % nc) <= 1:
                cells.add(y)
        ops += [{"op": "fill", "dem": dem, "eps": 1, "method": "priority", "mdtype": "int",
                 "mask": [1 if x in cells else 0 for x in range(n)]}]
        return c
    if focus == "nan":
        dem = [rng.randint(0, 800) for _ in range(n)]
        ops += [{"op": "nanfill", "dem": [NIL if rng.random() < 0.12 else v for v in dem], "method": m}
                for m in rng.sample(["mean", "median", "min", "max"], 2)]
        return c
    ops += [{"op": "fill", "dem": dem, "eps": 1, "method": "priority"},
            {"op": "fa", "dem": "last", "check": False},
            {"op": "fdir", "term": sorted({n - rng.randrange(300) for _ in range(2)} | set()), "tform": rng.choice(["int", "np"])}]
    if focus == "fdir":
        return c
    ops.append({"op": "facc", "cells": focus == "m2m" or rng.random() < 0.5})
    if focus in ("facc", "geom"):
        ops += {"facc": [{"op": "nidp"}, {"op": "facc", "cells": not ops[-1]["cells"]}], "geom": [{"op": "geom"}]}[focus]
        return c
    low = sorted(range(n), key=lambda x: dem[x])
    if focus == "ws":
        ops += [{"op": "ws", "cell": 1 + x} for x in (low[0], low[rng.randrange(40)], low[rng.randrange(3000)])]
        return c
    if focus == "sub":
        ops.append({"op": "sub", "cells": sorted({1 + rng.randrange(n) for _ in range(5)} | {low[0] + 1, n}), "form": "tuple"})
        rng.shuffle(ops[-1]["cells"])
        return c
    cls = {"conn6": "Sfr6", "packdata": "Sfr6", "reachdata": "Sfr2005", "conn5": rng.choice(["Sfr2005", "Prms"]),
           "irunbnd": "Sfr2005", "casc": "Prms", "m2m": "Prms", "vectors": "Sfr2005", "delineate": "Sfr6",
           "thresh": "Sfr6"}[focus]
    ops.append({"op": "new", "cls": cls})
    if focus == "thresh":
        ops.append({"op": "thresh", "cells": [low[0] + 1, low[rng.randrange(500)] + 1, n], "thr2": 100001})
        return c
    if focus == "delineate":
        ops += [{"op": "delineate", "thr2": t, "bb": [1 if rng.random() < 0.99 else 0 for _ in range(n)]} for t in (40, 4)]
        return c
    # segments of several cells are found in time quadratic in their length and number
    g = focus == "vectors" or rng.random() < 0.4
    p = 0.1 if focus == "m2m" else 0.3 if g and focus not in ("conn6", "packdata") else 1 if rng.random() < 0.4 else 0.9995 if focus == "packdata" else 0.995
    ops.append({"op": "setstream", "arr": [1 if rng.random() < p else 0 for _ in range(n)]})
    ops += {"conn6": [{"op": "conn", "group": False}],
            "packdata": [{"op": "packdata"}, {"op": "conndata"}],
            "conn5": [{"op": "conn", "group": g}],
            "reachdata": [{"op": "reachdata", "gs": g, "group": g, "flat1": 1}, {"op": "segdata", "gs": None, "group": g}],
            "irunbnd": [{"op": "irunbnd", "gs": g, "group": g}],
            "casc": [{"op": "casc", "gs": g, "group": g, "bb": [1 if rng.random() < 0.99 else 0 for _ in range(n)],
                      "sc": 20000, "tol": 1, "many": False}],
            "m2m": [{"op": "casc", "gs": g, "group": g, "bb": [], "sc": 500000, "tol": 2, "many": True}],
            "vectors": [{"op": "conn", "group": True}, {"op": "vectors", "group": True}]}[focus]
    return c


HUGE = {"C01": "fill", "C02": "fill", "C03": "mask", "C04": "nan", "C05": "fdir", "C06": "fdir", "C07": "fdir",
        "C08": "facc", "C09": "ws", "C10": "sub", "C11": "delineate", "C12": "conn6", "C13": "packdata", "C14": "conn5",
        "C15": "reachdata", "C16": "irunbnd", "C17": "casc", "C18": "m2m", "C19": "vectors", "C20": "thresh", "C24": "geom"}
