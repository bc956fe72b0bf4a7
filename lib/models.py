"""
The model half of a check: TLC runs of the algorithm modules (spec/M_*.tla),
and the inputs TLC enumerated, turned into cases for the implementation
(spec -> code).

A model is (module, constants, invariants, temporal properties).  Every TLC run
has to end without error: the transcribed algorithm meets the declarative
conditions on everything in its scope.  With EMIT = TRUE each initial state is
printed; those are the inputs that the driver runs on the package afterwards.
"""
import json, os, random, re, shutil, subprocess, tempfile
import gen, meshes

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
TLA = "/opt/veriftools/tla"


class Broken(Exception):
    pass


def M(module, inv, prop, q, t, **kw):
    """q, t: the constants of the quick and the thorough runs"""
    return dict(module=module, inv=inv, prop=prop, quick=q, thorough=t, **kw)


def S(*names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"


def flood(shape, q, t):
    def c(r, k, hi, eps, ties, emit=True):
        return {"ROWS": r, "COLS": k, "HI": hi, "EPS": "{%s}" % ", ".join(map(str, eps)), "SHAPE": '"%s"' % shape,
                "TIES": "TRUE" if ties else "FALSE", "VARIANT": '"dany"', "EMIT": "TRUE" if emit else "FALSE"}
    return M("M_Flood", ["Safe", "EdgeResult", "MaskResult"], ["Terminates"], [c(*a) for a in q], [c(*a) for a in t])


def drain(shape, q, t):
    def c(r, k, hi, eps, emit=True):
        return {"ROWS": r, "COLS": k, "HI": hi, "EPS": "{%s}" % ", ".join(map(str, eps)), "SHAPE": '"%s"' % shape,
                "VARIANT": '"dany"', "EMIT": "TRUE" if emit else "FALSE"}
    return M("M_Drain", ["Safe", "Above", "Result"], ["Terminates"], [c(*a) for a in q], [c(*a) for a in t])


def simple(module, inv, prop, q, t, emit=True):
    def c(d):
        d = dict(d)
        d.setdefault("VARIANT", '"dany"')
        if emit:
            d.setdefault("EMIT", "TRUE")
        return d
    return M(module, inv, prop, [c(x) for x in q], [c(x) for x in t])


NAN = simple("M_Nan", ["Safe", "Result"], ["Terminates"],
             [{"ROWS": 2, "COLS": 2, "HI": 1, "METHODS": S("mean", "median", "min", "max")}],
             [{"ROWS": 2, "COLS": 3, "HI": 1, "METHODS": S("mean", "median", "min", "max")},
              {"ROWS": 1, "COLS": 5, "HI": 2, "METHODS": S("mean", "median", "min", "max")}])
ACCUM = simple("M_Accum", ["Result"], ["Terminates"], [{"N": 4}], [{"N": 5}])
BASIN = simple("M_Basin", ["Result"], [], [{"N": 4, "MAXPTS": 2}], [{"N": 4, "MAXPTS": 3}])
REACH = simple("M_Reach", ["Result"], ["Terminates"], [{"N": 3}], [{"N": 4}])
SEG = simple("M_Seg", ["Segments", "Runbnd", "Vectors"], ["Terminates"],
             [{"N": 4, "FORESTS": "TRUE"}], [{"N": 5, "FORESTS": "TRUE"}, {"N": 4, "FORESTS": "FALSE", "EMIT": "FALSE"}])
CASC = simple("M_Casc", ["Result"], ["Terminates"], [{"N": 3}], [{"N": 4}])
def route(q, t):
    def c(r, k, hi, thr, terms, voids=False, orders="{1}", emit=True):
        return {"ROWS": r, "COLS": k, "HI": hi, "THR": "{%s}" % ", ".join(map(str, thr)), "TERMS": terms,
                "VOIDS": "TRUE" if voids else "FALSE", "ORDERS": orders, "VARIANT": '"dany"',
                "EMIT": "TRUE" if emit else "FALSE"}
    return M("M_Route", ["NoError", "Result", "CondResult", "Kept"], ["Terminates"], [c(*a) for a in q], [c(*a) for a in t])


def proto(q, t):
    def c(cls, depth, emit=True):
        return {"CLASS": '"%s"' % cls, "DEPTH": depth, "VARIANT": '"dany"', "EMIT": "TRUE" if emit else "FALSE"}
    return M("M_Proto", ["CurrentStreams", "Current", "NotStale", "Products"], [], [c(*a) for a in q], [c(*a) for a in t])


def flows(q, t):
    def c(depth, emit=True):
        return {"DEPTH": depth, "VARIANT": '"dany"', "EMIT": "TRUE" if emit else "FALSE"}
    return M("M_Flow", ["Result", "Kept"], [], [c(*a) for a in q], [c(*a) for a in t])


ALL = ["Sfr6", "Sfr2005", "Prms"]
ALLO = "{1, 2, 3}"
ROUTE_Q = [(2, 3, 2, [1, 2], 1, False, ALLO)]
ROUTE_T = [(3, 3, 2, [1], 1, False, "{1}"), (3, 3, 2, [2], 0, False, ALLO), (2, 4, 1, [1, 2], 1, True, ALLO),
           (3, 3, 3, [1], 0, False, "{2}", False), (2, 5, 1, [1], 1, False, ALLO), (1, 6, 2, [1, 3], 2, True, ALLO)]
MANY = simple("M_Many", ["Result"], [], [{"K": 3}], [{"K": 4}])
CTRL = simple("M_Ctrl", ["Result"], ["Terminates"], [{"N": 3, "MAXPTS": 2, "THR": "{0, 7, 100}"}],
              [{"N": 4, "MAXPTS": 2, "THR": "{0, 7, 100}"}])

DELIN = simple("M_Delin", ["Result", "Closed", "Whole"], ["Terminates"], [{"N": 3, "THR": "{1, 2, 4, 5}"}],
               [{"N": 3, "THR": "{0, 1, 2, 3, 4, 5, 6, 7}"}, {"N": 4, "THR": "{2, 4, 5}"}])
GEOM = simple("M_Geom", ["Result"], ["Terminates"], [{"SIDE": 2, "PAD": 6}], [{"SIDE": 3, "PAD": 7}])
BUILD = simple("M_Build", ["Result", "Within"], ["Terminates"], [{"N": 3, "DROPS": "{1, 3}", "LIMITS": "{0, 2, 4}"}],
               [{"N": 3, "DROPS": "{0, 1, 2, 3}", "LIMITS": "{0, 1, 2, 3}"}, {"N": 4, "DROPS": "{1, 3}", "LIMITS": "{0, 2}"}])
GRAPH = simple("M_Graph", ["Result", "Mutual"], ["Terminates"], [{"N": 4}], [{"N": 5}])
FORMS = simple("M_Forms", ["Result", "Grid"], ["Terminates"], [{"ROWS": 4, "COLS": 5, "LAYERS": 2}],
               [{"ROWS": 6, "COLS": 7, "LAYERS": 3}])

THEORY_INV = ("Paths1 Circles EndOf Nested Inside Cover Counts Balance Grows Conserved Inflow Only Subs Rest Share Single "
              "OneIn Number Graphs Irunbnd Above Links Within Closed Vecs").split()
COND_INV = "Levels Bounds Seeds Again Higher More Drained Kept Descends Pipeline".split()
THEORY = simple("M_Theory", THEORY_INV, [], [{"N": 4, "FORESTS": "TRUE"}],
                [{"N": 5, "FORESTS": "TRUE"}, {"N": 4, "FORESTS": "FALSE"}])
COND = simple("M_Cond", COND_INV, [], [{"ROWS": 2, "COLS": 3, "HI": 1, "SEEDS": '"all"', "EPS": "{0, 1}"}],
              [{"ROWS": 2, "COLS": 3, "HI": 2, "SEEDS": '"all"', "EPS": "{1}"},
               {"ROWS": 3, "COLS": 4, "HI": 1, "SEEDS": '"edge"', "EPS": "{0, 1, 2}"},
               {"ROWS": 2, "COLS": 4, "HI": 1, "SEEDS": '"all"', "EPS": "{1}"}])
LOCAL_INV = ("Accumulation WatershedSame SubSame IrunSame StartsSame NumberSame PairsSame ReachSame LinesSame Descends "
             "SurfaceSame DrainsSame GridSame").split()
LOCAL = simple("M_Local", LOCAL_INV, [], [{"N": 3, "HI": 1}], [{"N": 3, "HI": 3}])

MODELS = {
    "C01": [flood("grid", [(3, 3, 1, [0, 1], False)], [(3, 3, 1, [0, 1], True), (3, 3, 2, [1], False), (2, 4, 2, [1], False)]),
            flood("rim", [], [(4, 4, 2, [0, 1], False)]),
            drain("grid", [], [(3, 3, 1, [0, 1])])],
    "C02": [flood("rim", [(4, 4, 1, [0, 1], False)], [(4, 4, 2, [0, 1], False), (3, 5, 2, [1], True)]),
            drain("rim", [(4, 4, 1, [0, 1])], [(4, 4, 2, [0, 1]), (3, 5, 3, [1])]), LOCAL],
    "C03": [flood("mask", [(2, 3, 1, [1], False)], [(2, 3, 1, [0, 1], True), (1, 5, 2, [1], True), (3, 3, 1, [1], False)])],
    "C04": [NAN], "C05": [route(ROUTE_Q, ROUTE_T)], "C06": [route([(2, 3, 3, [1], 1)], ROUTE_T), COND],
    "C07": [route([(2, 3, 1, [1, 2], 2, True, ALLO)], ROUTE_T)],
    "C21": [proto([(k, 99) for k in ALL], [(k, d) for d in (99, 3) for k in ALL])],
    "C22": [flows([(99,)], [(99,), (4,)])],
    "C08": [ACCUM, THEORY], "C09": [BASIN, LOCAL], "C10": [BASIN, THEORY], "C12": [REACH], "C13": [REACH, GRAPH],
    "C14": [SEG, LOCAL], "C15": [SEG], "C16": [SEG, THEORY], "C17": [CASC], "C18": [MANY], "C19": [SEG], "C20": [CTRL],
    "C11": [DELIN], "C23": [FORMS], "C24": [GEOM], "C25": [BUILD],
}


MOST = {"C21": 700, "C22": 350, "C23": 80}

# ---------------------------------------------------------------- TLC
def tlc(module, constants, inv, prop, base, workers, limit, heap="6g", view=None):
    """(states, distinct, cases, output) of one run"""
    w = tempfile.mkdtemp(dir=base)
    cfg = os.path.join(w, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for k, v in constants.items():
            f.write("  %s = %s\n" % (k, v))
        for i in inv:
            f.write("INVARIANT %s\n" % i)
        for p in prop:
            f.write("PROPERTY %s\n" % p)
        if view:
            f.write("VIEW %s\n" % view)
        f.write("CHECK_DEADLOCK FALSE\n")
    try:
        r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
                            TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
                            "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(w, "meta"),
                            "-config", cfg, module + ".tla"],
                           cwd=SPEC, capture_output=True, text=True, timeout=limit)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "time limit", -99
    finally:
        shutil.rmtree(w, ignore_errors=True)
    n = d = 0
    for x in re.finditer(r"(\d+) states generated, (\d+) distinct", out):
        n, d = int(x.group(1)), int(x.group(2))
    cases = []
    for line in out.splitlines():
        if line.startswith('"CASE\\t'):
            cases.append(json.loads(json.loads(line).split("\t", 1)[1]))
    return rc, n, d, cases, out


def run(pid, tier, base, workers):
    res = {"states": 0, "transitions": 0, "models": [], "cases": []}
    raw = []
    for m in MODELS.get(pid, []):
        for const in m[tier]:
            rc, n, d, cases, out = tlc(m["module"], const, m["inv"], m["prop"], base, workers,
                                       60 if tier == "quick" else 400,
                                       view="Tags" if const.get("DEPTH") == 99 else None)
            if rc != 0:
                raise Broken("model %s %s: %s" % (m["module"], const,
                                                  "\n".join(x for x in out.splitlines() if not x.startswith('"CASE'))[-1500:]))
            res["states"] += d
            res["transitions"] += n
            res["models"].append({"module": m["module"], "constants": const, "invariants": m["inv"],
                                  "temporal": m["prop"], "states": d, "inputs_printed": len(cases)})
            raw += cases
    rng = random.Random("%s/%s/%s" % (pid, tier, os.environ.get("VERIF_SEED", "1")))
    res["cases"] = convert(pid, raw, rng, MOST.get(pid, 250) if tier == "quick" else 20000)
    return res


SIZE = {"geom": 1, "forms": 1, "build": 1, "many": 1}      # inputs per case


# ---------------------------------------------------------------- inputs -> cases
def convert(pid, raw, rng, most):
    """at most that many operations, in cases of several operations each"""
    raw = [json.loads(x) for x in sorted({json.dumps(c, sort_keys=True) for c in raw})]
    rng.shuffle(raw)
    groups = {}
    for c in raw[:most]:
        key = (c["kind"],) + ((c["rows"], c["cols"], c.get("nlay")) if "rows" in c else (tuple(c["par"]),) if "par" in c else ())
        groups.setdefault(key, []).append(c)
    out = []
    for key, cs in groups.items():
        size = SIZE.get(key[0]) or (8 if "rows" in cs[0] else 1 if "calls" in cs[0] else 4)
        for k in range(0, len(cs), size):
            case = CONVERT[cs[0]["kind"]](rng, cs[k:k + size], pid)
            case["id"] = "%s-T%d" % (pid, len(out))
            out.append(gen.spice(rng, gen.strip(case)))
    return out


def on_grid(rng, c):
    rec = {"kind": "rect", "grid": rng.choice(["structured", "structured", "vertex", "unstructured"]),
           "dx": [24] * c["cols"], "dy": [24] * c["rows"]}
    k, o = rng.choice(gen.UNITS)
    return {"mesh": rec, "unit": k, "off": o, "ops": []}


def c_flood(rng, cs, pid):
    case = on_grid(rng, cs[0])
    n = cs[0]["rows"] * cs[0]["cols"]
    for c in cs:
        op = {"op": "fill", "dem": c["dem"], "eps": c["eps"], "method": rng.choice(["priority", "complete", None])}
        if c["mask"] != [0]:
            op["mask"] = [1 if x in c["mask"] else 0 for x in range(1, n + 1)]
            op["mdtype"] = rng.choice(["int", "bool", "float", "int8"])
        case["ops"].append(op)
    return case


def c_drain(rng, cs, pid):
    case = on_grid(rng, cs[0])
    case["ops"] = [{"op": "fill", "dem": c["dem"], "eps": c["eps"], "method": "drain"} for c in cs]
    return case


def c_nan(rng, cs, pid):
    case = on_grid(rng, cs[0])
    case["ops"] = [{"op": "nanfill", "dem": [v if v == gen.NIL else v // 1000 for v in c["dem"]], "method": c["method"]}
                   for c in cs]
    return case


def on_forest(rng, par, streams=None, m2m=False):
    """the mesh, FlowDirections and flow directions of a parent function"""
    n = len(par)
    grid = rng.choice(["vertex", "unstructured"])
    rec = {"kind": "forest", "parent": par, "grid": grid, "closed": rng.random() < 0.4, "ccw": rng.random() < 0.5}
    roots = [k for k in range(1, n + 1) if par[k - 1] == 0]
    rng.shuffle(roots)
    depth = {}
    for k in range(1, n + 1):
        d, x = 0, k
        while par[x - 1]:
            d, x = d + 1, par[x - 1]
        depth[k] = 8 * d if d else roots.index(k)
    k, o = rng.choice(gen.UNITS[:4])
    case = {"mesh": rec, "unit": k, "off": o, "ops": [
        {"op": "fa", "dem": [depth[x] for x in range(1, n + 1)]},
        {"op": "fdir", "term": sorted(roots[1:]), "tform": rng.choice(["int", "np"])}]}
    case["_d"] = d = meshes.describe(rec)
    case["_adj"] = gen.adjacency(d)
    return case


def c_accum(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    cells = rng.random() < 0.5
    case["ops"] += [{"op": "facc", "cells": cells}, {"op": "nidp"}, {"op": "facc", "cells": not cells}]
    return case


def c_basin(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    for c in cs:
        if pid == "C09":
            case["ops"] += [{"op": "ws", "cell": p, "form": rng.choice(gen.PFORMS)} for p in sorted(set(c["pts"]))]
        else:
            case["ops"].append({"op": "sub", "cells": c["pts"], "form": rng.choice(["tuple", "list", "ndarray", "collection"])})
    return case


def new(rng, case, cls, cells=True):
    case["ops"] += [{"op": "facc", "cells": cells}, {"op": "new", "cls": cls}]
    f1 = 0.1 * 2 ** case["unit"]
    return {"cls": cls, "s": (None, "none"), "d": case["_d"], "adj": case["_adj"], "exact": False, "m2m": False,
            "flat1": int(round(f1)) if f1 < 1e5 else -1000001, "flat1b": 1, "cells": cells}


def put(case, ctx, locs):
    n = ctx["d"]["n"]
    a = [1 if k in locs else 0 for k in range(1, n + 1)]
    case["ops"].append({"op": "setstream", "arr": a})
    ctx["s"] = (a, "none")


def c_stream(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    ctx = new(rng, case, "Sfr6")
    for c in cs:
        put(case, ctx, c["locs"])
        ops = ["conn"] if pid == "C12" else rng.choice([["conndata", "packdata"], ["packdata", "conndata"], ["conn", "packdata"]])
        case["ops"] += [gen.stream_call(rng, ctx, o) for o in ops]
    return case


def c_seg(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    cls = "Prms" if pid in ("C14", "C19") and rng.random() < 0.4 else "Sfr2005"
    ctx = new(rng, case, cls)
    for c in cs:
        put(case, ctx, c["locs"])
        ops = {"C14": ["conn"], "C15": ["segdata"], "C16": ["irunbnd"], "C19": ["vectors"]}[pid]
        if pid != "C14" and rng.random() < 0.5:
            ops = ["conn"] + ops
        case["ops"] += [gen.stream_call(rng, ctx, o, group=c["grouped"]) for o in ops]
    return case


def c_casc(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    ctx = new(rng, case, "Prms")
    n = ctx["d"]["n"]
    for c in cs:
        put(case, ctx, [k for k in range(1, n + 1) if rng.random() < 0.5] or [1])
        op = gen.stream_call(rng, ctx, "casc")
        op["bb"] = [1 if k in c["bb"] else 0 for k in range(1, n + 1)]
        op.pop("bdtype", None)
        case["ops"].append(op)
    return case


def c_ctrl(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    case["off"] = 0
    new(rng, case, rng.choice(["Sfr6", "Prms"]))
    case["ops"] += [{"op": "thresh", "cells": c["pts"], "thr2": c["thr"], "form": rng.choice(["tuple", "list", "array"])}
                    for c in cs]
    return case


def c_route(rng, cs, pid):
    case = on_grid(rng, cs[0])
    grid = case["mesh"]["grid"]
    for c in cs:
        fa = {"op": "fa", "dem": c["dem"]}
        if rng.random() < 0.2:
            fa["flat"] = True
        forms = ["int", "int", "np"] + (["rc", "rcl"] if grid == "structured" else [])
        case["ops"] += [fa, {"op": "fdir", "term": c["term"], "thr": c["thr"], "tform": rng.choice(forms)}]
    return case


def c_history(rng, cs, pid):
    """a history of M_Proto on a random mesh with two sets of streams"""
    cls, calls = cs[0]["cls"], cs[0]["calls"]
    while True:
        case, ctx = gen.stream_setup(rng, "h", cls, rng.choice(["cond", "cond", "arb"]), hi=12,
                                     m2m=(cls == "Prms"), unit=(3, 0) if cls == "Sfr2005" else None)
        if not ctx["exact"]:
            ctx["m2m"] = False
        a = gen.rnd_streams(rng, ctx["d"], ctx["adj"])
        b = gen.rnd_streams(rng, ctx["d"], ctx["adj"])
        if a != b:
            break
    for c in calls:
        arr = {0: None, 1: a, 2: b}[c["arr"][0] if c["arr"] else 0]
        if c["op"] == "setstream":
            gen.maybe_delineate(rng, case, ctx, arr)
        else:
            case["ops"].append(gen.stream_call(rng, ctx, c["op"], arr, c["group"], twin=True))
    return case


def c_flows(rng, cs, pid):
    """a history of M_Flow: two FlowDirections objects on one grid"""
    while True:
        mesh = gen.rnd_mesh(rng, 2, 14)
        d = meshes.describe(mesh)
        adj = gen.adjacency(d)
        dems = [gen.unique_min(rng, gen.rnd_dem(rng, d)) for _ in range(2)]
        if rng.random() < 0.5:
            dems[0] = gen.conditioned(rng, d, adj)[0]
        dems = [[v - min(x) for v in x] for x in dems]
        if dems[0] != dems[1]:
            break
    n = d["n"]
    case = gen.base_case(rng, "f", mesh)
    opts = {1: ([], None), 2: (sorted(rng.sample(range(1, n + 1), rng.randint(1, min(3, n)))), rng.choice([0, 2, 4]))}
    ops, cur = case["ops"], 0
    for c in cs[0]["calls"]:
        if c["k"] and c["k"] != cur:
            cur = c["k"]
            ops.append({"op": "use", "k": cur})
        o = c["op"]
        if o == "neigh":
            ops.append({"op": "neigh", "method": {1: "rook", 2: "queen"}[c["x"]]})
        elif o == "fill":
            ops.append({"op": "fill", "dem": gen.rnd_dem(rng, d), "eps": 1, "method": rng.choice(gen.METHODS), "twin": True})
        elif o == "nan":
            ops.append({"op": "nanfill", "dem": [gen.NIL if rng.random() < 0.2 else v for v in gen.rnd_dem(rng, d)],
                        "twin": True})
        elif o == "new":
            ops.append({"op": "fa", "dem": dems[c["k"] - 1]})
        elif o == "route":
            t, thr = opts[c["x"]]
            q = {"op": "fdir", "term": t, "tform": rng.choice(["int", "np"]), "twin": True}
            if thr is not None:
                q["thr"] = thr
            ops.append(q)
        else:
            q = {"acc": lambda: {"op": "facc", "cells": rng.random() < 0.5}, "ws": lambda: gen.ws_op(rng, n),
                 "sub": lambda: gen.sub_op(rng, n), "geom": lambda: {"op": "geom"}}[o]()
            ops.append(dict(q, twin=True))
    return case


def c_delin(rng, cs, pid):
    case = on_forest(rng, cs[0]["par"])
    new(rng, case, rng.choice(["Sfr6", "Sfr2005", "Prms"]))
    n = len(cs[0]["par"])
    for c in cs:
        thr = c["thr"]
        if len(set(thr)) == 1 and rng.random() < 0.7:
            thr = thr[0]
        op = {"op": "delineate", "thr2": thr, "bb": [1 if k in c["bb"] else 0 for k in range(1, n + 1)]}
        if len(c["bb"]) == n and rng.random() < 0.5:
            op["bb"] = []
        if rng.random() < 0.3:
            op["bdtype"] = rng.choice(["bool", "float", "int8"])
        if rng.random() < 0.3:
            op["flat"] = True
        case["ops"].append(op)
    return case


def c_geom(rng, cs, pid):
    """the polygon and its reflection in the middle of one of its sides"""
    out = None
    for c in cs:
        p = [(24 * x, 24 * y) for x, y in c["poly"]]
        k = rng.randrange(len(p))
        a, b = p[k], p[(k + 1) % len(p)]
        r = [(a[0] + b[0] - x, a[1] + b[1] - y) for x, y in p]
        rec = {"kind": "poly", "polys": [p, r], "grid": rng.choice(["vertex", "unstructured"]), "closed": c["closed"],
               "ccw": not c["cw"], "mix": rng.randint(1, 10 ** 6) if rng.random() < 0.5 else 0}
        case = {"mesh": rec, "unit": 3, "off": 0, "ops": []}
        for dem in ([0, rng.randint(1, 40)], [rng.randint(1, 40), 0]):
            case["ops"] += [{"op": "fa", "dem": dem}, {"op": "fdir", "term": []},
                            {"op": "facc", "cells": False}, {"op": "geom"}]
        out = case
        break       # one polygon per case
    return out


def sparse(rng, par):
    """places of the cells on a grid, neighbors exactly when one is the other's parent"""
    n = len(par)
    while True:
        place = {}
        for k in sorted(range(1, n + 1), key=lambda k: depth_of(par, k)):
            up = par[k - 1]
            near = [(place[up][0] + a, place[up][1] + b) for a in (-1, 0, 1) for b in (-1, 0, 1)] if up else \
                [(rng.randint(0, 8), rng.randint(0, 8))]
            near = [q for q in near if all(max(abs(q[0] - r[0]), abs(q[1] - r[1])) >= (1 if j == up else 2)
                                           for j, r in place.items())]
            if not near:
                break
            place[k] = rng.choice(near)
        if len(place) == n:
            r0, c0 = min(q[0] for q in place.values()), min(q[1] for q in place.values())
            return {k: (q[0] - r0, q[1] - c0) for k, q in place.items()}


def depth_of(par, k):
    d = 0
    while par[k - 1]:
        d, k = d + 1, par[k - 1]
    return d


def c_build(rng, cs, pid):
    """the forest among voids of a structured grid"""
    c = cs[0]
    par = c["par"]
    n = len(par)
    place = sparse(rng, par)
    nr, nc = 1 + max(q[0] for q in place.values()), 1 + max(q[1] for q in place.values())
    node = {k: q[0] * nc + q[1] + 1 for k, q in place.items()}
    dem = {}
    roots = [k for k in range(1, n + 1) if not par[k - 1]]
    rng.shuffle(roots)
    step = rng.choice([1, 1, 8])
    for k in sorted(range(1, n + 1), key=lambda k: depth_of(par, k)):
        dem[k] = dem[par[k - 1]] + max(1, step * 2 * c["drop"][k - 1]) if par[k - 1] else roots.index(k)
    rec = {"kind": "rect", "grid": "structured", "dx": [16] * nc, "dy": [16] * nr}
    arr = [gen.NIL] * (nr * nc)
    for k in node:
        arr[node[k] - 1] = dem[k]
    case = {"mesh": rec, "unit": 3, "off": 0, "ops": [
        {"op": "fa", "dem": arr}, {"op": "fdir", "term": sorted(node[k] for k in roots[1:])},
        {"op": "facc", "cells": rng.random() < 0.5}, {"op": "new", "cls": "Sfr2005"}]}
    for c in cs:
        if c["drop"] != cs[0]["drop"]:
            continue
        case["ops"].append({"op": "setstream", "arr": [1 if any(node[k] == x for k in c["locs"]) else 0
                                                       for x in range(1, nr * nc + 1)]})
        unit = step * 2 / 8 / 16        # the slope of a drop of one between cells side by side
        kw = {n_: v * unit for n_, v in zip(("default_slope", "min_slope", "max_slope"), c["lim"])}
        case["ops"].append({"op": "pgsf", "group": c["grouped"], "gs": c["grouped"], "kw": kw, "flat1": 1})
    return case


def c_theory(rng, cs, pid):
    """all products of one forest and set of streams"""
    case = on_forest(rng, cs[0]["par"])
    n = len(cs[0]["par"])
    ctx = new(rng, case, "Sfr2005", cells=True)
    for c in cs:
        locs = c["locs"]
        if pid != "C16":
            case["ops"].append({"op": "nidp"})
            case["ops"] += [{"op": "ws", "cell": p, "form": rng.choice(gen.PFORMS)} for p in locs]
            if locs:
                case["ops"].append({"op": "sub", "cells": locs, "form": rng.choice(["tuple", "list", "ndarray"])})
        put(case, ctx, locs)
        case["ops"] += [gen.stream_call(rng, ctx, o, group=rng.random() < 0.5) for o in rng.sample(["conn", "irunbnd", "vectors"], 3)]
    return case


def c_pipe(rng, cs, pid):
    """condition, then route to the seeds"""
    case = on_grid(rng, cs[0])
    n = cs[0]["rows"] * cs[0]["cols"]
    nr, nc = cs[0]["rows"], cs[0]["cols"]
    edge = [x for x in range(1, n + 1) if (x - 1) // nc in (0, nr - 1) or (x - 1) % nc in (0, nc - 1)]
    for c in cs:
        op = {"op": "fill", "dem": c["dem"], "eps": c["eps"], "method": rng.choice(["priority", "drain"])}
        if set(c["seeds"]) != set(edge) or rng.random() < 0.3:
            op["mask"] = [1 if x in c["seeds"] else 0 for x in range(1, n + 1)]
            op.pop("method")
        case["ops"] += [op, {"op": "fa", "dem": "last", "check": False}, {"op": "fdir", "term": c["seeds"]}, {"op": "facc", "cells": True}]
    return case


def c_graph(rng, cs, pid):
    case = on_forest(rng, [0])
    new(rng, case, "Sfr6")
    case["ops"] += [{"op": "conndata", "graph": c["graph"]} for c in cs]
    return case


def c_forms(rng, cs, pid):
    """every cell as the terminal cell, by (row, column) and by number"""
    c = cs[0]
    rec = {"kind": "rect", "grid": "structured", "dx": [rng.choice([16, 24, 40]) for _ in range(c["cols"])],
           "dy": [rng.choice([16, 24, 40]) for _ in range(c["rows"])], "nlay": c["nlay"]}
    d = meshes.describe(rec)
    adj = gen.adjacency(d)
    n = d["n"]
    for _ in range(400):
        dem = rng.sample(range(1, 381), n)
        dem[rng.randrange(n)] = 0
        if dem.count(0) == 1 and gen.tie_free(d, adj, dem):
            break
    ops = [{"op": "fa", "dem": dem}, {"op": "fdir", "term": [c["term"]], "tform": rng.choice(["int", "np"])},
           {"op": "facc", "cells": True}, {"op": "new", "cls": "Sfr6"},
           {"op": "setstream", "arr": [1 if rng.random() < 0.7 else 0 for _ in range(n - 1)] + [1]},
           {"op": "packdata"}, {"op": "packdata", "detuple": True}]
    case = {"mesh": rec, "unit": 3, "off": 0, "ops": [{"op": "same", "ops": ops, "closed": rng.random() < 0.5,
                                                       "ccw": rng.random() < 0.5, "mix": 0}]}
    if n == 1 or not gen.tie_free(d, adj, dem):
        case["ops"] = ops
    return case


def c_many(rng, cs, pid):
    """a cell among cells at the same distance that do not touch; the last one is a stream"""
    c = cs[0]
    k = len(c["slopes"])
    at = sorted(rng.sample(range(1, 7), k + 1))
    keep = [0] + [2 * x - 1 for x in at]
    rec = {"kind": "star", "grid": rng.choice(["vertex", "unstructured"]), "rings": 1, "closed": rng.random() < 0.5,
           "ccw": rng.random() < 0.5, "drop": [x for x in range(13) if x not in keep]}
    dem = [10000] + [10000 - x for x in c["slopes"]] + [10002]
    lo = min(dem)
    bb = [1] + list(c["inside"]) + [1]
    return {"mesh": rec, "unit": 3, "off": 0, "ops": [
        {"op": "fa", "dem": [v - lo for v in dem], "check": False}, {"op": "fdir", "term": [], "tform": "int"},
        {"op": "facc", "cells": True}, {"op": "new", "cls": "Prms"},
        {"op": "setstream", "arr": [0] * (k + 1) + [1]},
        {"op": "casc", "gs": None, "group": False, "bb": bb, "many": True, "sc": 24000, "tol": 0},
        {"op": "casc", "gs": None, "group": False, "bb": [], "many": True, "sc": 24000, "tol": 0}]}


CONVERT = {"many": c_many, "delin": c_delin, "geom": c_geom, "build": c_build, "graph": c_graph, "theory": c_theory, "pipe": c_pipe, "forms": c_forms,
           "flood": c_flood, "drain": c_drain, "nan": c_nan, "accum": c_accum, "basin": c_basin, "stream": c_stream,
           "seg": c_seg, "casc": c_casc, "ctrl": c_ctrl,
           "route": c_route, "history": c_history, "flows": c_flows}
