"""
Mesh recipes -> flopy grids + the mesh record given to the specification.

Every coordinate is an even integer, so that cell centres are integers and
areas and squared centre distances are exact.  Recipe kinds

  {"kind": "rect", "dx": [..], "dy": [..], "drop": [cells], "perm": seed|0,
   "split": [cells], "shift": bool, "quad": [cells],
   "grid": "structured|vertex|unstructured", "closed": bool, "ccw": bool, "mix": seed,
   "rot": 0..3, "scale": 2**-k, "xo": int, "yo": int, "nlay": layers}

rot    the grid is rotated by that many right angles (angrot)
scale  model coordinates are the integer coordinates times scale, plus (xo, yo)

  {"kind": "forest", "parent": [..], "grid": "vertex|unstructured", ...}

parent[k-1] is the cell that cell k hangs below (0: none).  Cells share
vertices with their parent and their children only, so that a DEM that falls
towards the parents has exactly these flow directions.

  {"kind": "poly", "polys": [[[x, y], ..], ..], ...}

the cells as they are (convex, counterclockwise), centres the means of the corners.

  {"kind": "star", "rings": 1|2, "drop": [cells], "grid": "vertex|unstructured", ...}

a twelve-sided cell (cell 0) among twelve cells at the same distance: any number of its
neighbors can tie for steepest; a second ring of cells around them.

drop   cells removed (holes)            (not for structured)
split  cells split in two triangles     (not for structured)
quad   cells refined 2x2, with hanging nodes on their neighbors
shift  every other row is shifted by half a column (brick / hexagon pattern)
jit    every vertex is moved by up to 2 in x and y, with that seed
shear  x coordinates grow by shear * y: slanted cells
perm   cell numbering is shuffled with that seed
"""
import random


def polygons(rec):
    """list of (polygon, corners); both are ccw lists of integer points, the
    polygon includes the hanging nodes on its sides"""
    if rec["kind"] == "forest":
        return hang(forest(rec["parent"]))
    if rec["kind"] == "poly":
        return [([tuple(p) for p in q], [tuple(p) for p in q]) for q in rec["polys"]]
    if rec["kind"] == "star":
        return [(p, p) for _, p in star(rec)]
    dx, dy = rec["dx"], rec["dy"]
    nc, nr = len(dx), len(dy)
    xs = [0]
    for d in dx:
        xs.append(xs[-1] + d)
    ys = [0]
    for d in reversed(dy):
        ys.append(ys[-1] + d)
    ys = list(reversed(ys))            # ys[0] is the top, like flopy
    drop = set(rec.get("drop") or [])
    split = set(rec.get("split") or [])
    quad = set(rec.get("quad") or [])
    polys = []
    for r in range(nr):
        off = (dx[0] // 2) if (rec.get("shift") and r % 2) else 0
        for c in range(nc):
            k = r * nc + c
            if k in drop:
                continue
            x0, x1, y1, y0 = xs[c] + off, xs[c + 1] + off, ys[r], ys[r + 1]
            if k in quad:
                xm, ym = (x0 + x1) // 2, (y0 + y1) // 2
                for (a, b, cc, d) in ((x0, xm, ym, y1), (xm, x1, ym, y1),
                                      (x0, xm, y0, ym), (xm, x1, y0, ym)):
                    polys.append([(a, cc), (b, cc), (b, d), (a, d)])
            elif k in split:
                polys.append([(x0, y0), (x1, y0), (x1, y1)])
                polys.append([(x0, y0), (x1, y1), (x0, y1)])
            else:
                polys.append([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])
    if quad or rec.get("shift"):
        return hang(polys)
    return [(p, list(p)) for p in polys]


def star(rec):
    """[(centre, polygon)]; the petals' centres are the lattice points of a circle of radius 80"""
    p = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
    p = [(16 * x, 16 * y) for x, y in p]
    v = [((a[0] + b[0]) // 4, (a[1] + b[1]) // 4) for a, b in zip(p, p[1:] + p[:1])]
    out = [((0, 0), list(v))]
    for r in range(rec["rings"]):
        for k in range(12):
            a, b = (v[k - 1], v[k])
            f, g = ((1, 3), (3, 5))[r]
            q = [(g * a[0], g * a[1]), (g * b[0], g * b[1]), (f * b[0], f * b[1]), (f * a[0], f * a[1])]
            c = p[k] if r == 0 else (2 * p[k][0], 2 * p[k][1])
            out.append((c, q))
    return [x for k, x in enumerate(out) if k not in set(rec.get("drop") or [])]


def hang(polys):
    """the polygons with every vertex that lies on one of their axis-parallel
    sides inserted, and their corners"""
    pts = {p for poly in polys for p in poly}
    new = []
    for poly in polys:
        np_ = []
        for i, a in enumerate(poly):
            b = poly[(i + 1) % len(poly)]
            np_.append(a)
            mid = []
            for p in pts:
                if p == a or p == b:
                    continue
                if a[0] == b[0] == p[0] and min(a[1], b[1]) < p[1] < max(a[1], b[1]):
                    mid.append(p)
                elif a[1] == b[1] == p[1] and min(a[0], b[0]) < p[0] < max(a[0], b[0]):
                    mid.append(p)
            mid.sort(key=lambda p: abs(p[0] - a[0]) + abs(p[1] - a[1]))
            np_ += mid
        new.append(np_)
    return list(zip(new, [list(p) for p in polys]))


def forest(parent):
    n = len(parent)
    kids = {k: [c for c in range(1, n + 1) if parent[c - 1] == k] for k in range(n + 1)}

    def width(k):
        return max(24, sum(width(c) for c in kids[k]) + 12 * (len(kids[k]) - 1))
    box = {}

    def place(k, x, y):
        w = width(k)
        box[k] = [(x, y - 16), (x + w, y - 16), (x + w, y), (x, y)]
        for c in kids[k]:
            place(c, x, y - 16)
            x += width(c) + 12
    x = 0
    for r in kids[0]:
        place(r, x, 0)
        x += width(r) + 12
    return [box[k] for k in range(1, n + 1)]


def centre(poly):
    """an integer point inside the (convex) polygon"""
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    if len(poly) == 3:
        return (sum(xs) // 3, sum(ys) // 3)
    return ((min(xs) + max(xs)) // 2, (min(ys) + max(ys)) // 2)


def inside(c, poly):
    """the point sees every side of the polygon from the same side"""
    if poly[0] == poly[-1]:
        poly = poly[:-1]
    s = [(a[0] - c[0]) * (b[1] - c[1]) - (b[0] - c[0]) * (a[1] - c[1])
         for a, b in zip(poly, poly[1:] + poly[:1])]
    return all(v > 0 for v in s) or all(v < 0 for v in s)


def describe(rec):
    """the mesh record: 1-based vertex numbers, integer coordinates"""
    if rec["grid"] == "structured":
        rec = dict(rec, drop=[], split=[], quad=[], shift=False, perm=0, jit=0, shear=0, mix=0)
    polys = polygons(rec)
    if rec.get("perm"):
        random.Random(rec["perm"]).shuffle(polys)
    pts = []
    idx = {}
    iv = []
    mix = random.Random(rec["mix"]) if rec.get("mix") else None
    for poly, _ in polys:
        row = []
        for p in poly:
            if p not in idx:
                idx[p] = len(pts)
                pts.append(p)
            row.append(idx[p])
        if not rec.get("ccw"):
            row.reverse()
        if mix:
            # cells listed in either sense, from any corner, closed or not
            k = mix.randrange(len(row))
            row = row[k:] + row[:k]
            if mix.random() < 0.5:
                row.reverse()
        if rec["grid"] != "structured" and (mix.random() < 0.5 if mix and rec.get("closed") else rec.get("closed")):
            row.append(row[0])
        iv.append(row)
    cen = [centre(p) for _, p in polys]
    if rec["kind"] == "poly":
        cen = [(sum(x for x, _ in p) // len(p), sum(y for _, y in p) // len(p)) for _, p in polys]
    if rec["kind"] == "star":
        cen = [c for c, _ in star(rec)]
        if rec.get("perm"):
            random.Random(rec["perm"]).shuffle(cen)
    if rec.get("jit"):
        r = random.Random(rec["jit"])
        flat = pts
        pts = [(x + r.choice((-2, 0, 2)), y + r.choice((-2, 0, 2))) for x, y in pts]
        while True:
            # every cell is still seen in full, and strictly, from its centre
            bad = {i for row, c in zip(iv, cen) if not inside(c, [pts[i] for i in row]) for i in row}
            if not bad:
                break
            pts = [flat[i] if i in bad else p for i, p in enumerate(pts)]
    if rec.get("shear"):
        pts = [(x + rec["shear"] * y, y) for x, y in pts]
        cen = [(x + rec["shear"] * y, y) for x, y in cen]
    for _ in range(rec.get("rot") or 0):
        pts = [(-y, x) for x, y in pts]
        cen = [(-y, x) for x, y in cen]
    d = {"kind": rec["grid"], "n": len(polys),
         "vx": [p[0] for p in pts], "vy": [p[1] for p in pts],
         "iv": [[i + 1 for i in row] for row in iv],
         "xc": [c[0] for c in cen], "yc": [c[1] for c in cen],
         "nrow": 0, "ncol": 0, "delr": [0], "delc": [0]}
    if rec["grid"] == "structured":
        d["nrow"], d["ncol"] = len(rec["dy"]), len(rec["dx"])
        d["delr"], d["delc"] = list(rec["dx"]), list(rec["dy"])
    return d


def build(rec):
    """flopy grid for a recipe (imports flopy lazily)"""
    import numpy as np
    from flopy.discretization import StructuredGrid, VertexGrid, UnstructuredGrid
    d = describe(rec)
    n = d["n"]
    z = rec.get("scale") or 1.0
    rot = rec.get("rot") or 0
    kw = {"xoff": float(rec.get("xo") or 0), "yoff": float(rec.get("yo") or 0), "angrot": 90.0 * rot}
    nlay = rec.get("nlay", 1)
    idom = rec.get("idom")                  # which cells are active plays no part in dany

    def active(*shape):
        if idom == "none":
            return None
        a = np.ones(shape, int)
        if idom:
            a.ravel()[[k for k in range(a.size) if (k * 7 + idom) % 5 < 2]] = 0
            a.ravel()[[k for k in range(a.size) if (k * 3 + idom) % 7 == 0]] = -1
        return a

    if rec["grid"] == "structured":
        nr, nc = d["nrow"], d["ncol"]
        return StructuredGrid(
            delc=np.array(rec["dy"], float) * z, delr=np.array(rec["dx"], float) * z,
            top=np.ones((nr, nc)), botm=np.zeros((nlay, nr, nc)),
            idomain=active(nlay, nr, nc), nlay=nlay, **kw), d
    u = describe(dict(rec, rot=0))
    verts = [(i, x * z, y * z) for i, (x, y) in enumerate(zip(u["vx"], u["vy"]))]
    iv = [[i - 1 for i in row] for row in u["iv"]]
    if rec["grid"] == "vertex":
        cell2d = [[k, u["xc"][k] * z, u["yc"][k] * z, len(row)] + list(row)
                  for k, row in enumerate(iv)]
        return VertexGrid(vertices=verts, cell2d=cell2d, top=np.ones(n),
                          botm=np.zeros((nlay, n)), idomain=active(nlay, n),
                          nlay=nlay, ncpl=n, **kw), d
    return UnstructuredGrid(
        vertices=verts, iverts=iv, xcenters=np.array(u["xc"], float) * z,
        ycenters=np.array(u["yc"], float) * z, top=np.ones(n), botm=np.zeros(n),
        idomain=active(n), ncpl=np.array([n]), **kw), d
