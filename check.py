#!/usr/bin/env python3
"""
check.py <property> [quick|thorough]      decide one property on /repo's working tree
check.py --replay <file>                  run one recorded case again

Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" per distinct violated clause.

1. model half: TLC explores the property's algorithm module(s) (spec/M_*.tla, scopes in lib/models.py)
2. spec -> code: cases enumerated by TLC are run on the implementation
3. code -> spec: randomly generated and enumerated calls on the implementation
   are recorded and every recorded event is judged by spec/Trace.tla
   (spec/Huge.tla on meshes of more than 2^15 cells)
"""
import json, os, random, shutil, subprocess, sys, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan, models                                              # noqa: E402

REPO = os.environ.get("DANY_REPO", "/repo")
PY = os.environ.get("DANY_PYTHON", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla"
JAVA = ["java", "-XX:+UseSerialGC", "-Xmx2500m", "-Xss32m", "-cp",
        TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC"]
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# operations whose rejection by the specification (a trace it cannot evaluate)
# concerns the property
OPS = {"C01": {"fill"}, "C02": {"fill"}, "C03": {"fill"}, "C04": {"nanfill"}, "C05": {"fdir", "fa"},
       "C06": {"fdir"}, "C07": {"fdir", "fa"}, "C08": {"facc", "nidp"}, "C09": {"ws"}, "C10": {"sub"},
       "C11": {"delineate", "setstream", "badthr"}, "C12": {"conn"}, "C13": {"conndata", "packdata"},
       "C14": {"conn"}, "C15": {"reachdata", "segdata"}, "C16": {"irunbnd"}, "C17": {"casc"}, "C18": {"casc"},
       "C19": {"vectors"}, "C20": {"thresh"},
       "C21": {"conn", "conndata", "packdata", "reachdata", "segdata", "irunbnd", "casc", "vectors", "pgsf"},
       "C22": {"fill", "nanfill", "fdir", "facc", "ws", "sub", "geom"}, "C23": {"same"}, "C24": {"geom"},
       "C25": {"pgsf"}}


class Failure(Exception):
    pass


def run_driver(cases, w, limit):
    src, dst = os.path.join(w, "cases.json"), os.path.join(w, "trace.ndjson")
    with open(src, "w") as f:
        json.dump(cases, f)
    if os.path.exists(dst):
        os.remove(dst)
    env = dict(os.environ, DANY_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=w)
    try:
        r = subprocess.run([PY, os.path.join(HERE, "lib", "driver.py"), src, dst], capture_output=True,
                           text=True, env=env, timeout=limit, cwd=w)
        return r.returncode, (r.stderr or "")[-2000:], dst
    except subprocess.TimeoutExpired:
        return -99, "time limit", dst


def module_of(trace):
    """the specification that judges a trace"""
    with open(trace) as f:
        return "Huge" if '"hr":' in f.readline() else "Trace"


def run_tlc(trace, w, limit):
    """(fails, events, ok, text)"""
    module = module_of(trace)
    meta = tempfile.mkdtemp(dir=w)
    try:
        java = [x.replace("2500", "4000") for x in JAVA] if module == "Huge" else JAVA
        r = subprocess.run(java + ["-workers", "1", "-metadir", meta, "-config", module + ".cfg", module + ".tla"],
                           cwd=os.path.join(HERE, "spec"), capture_output=True, text=True,
                           env=dict(os.environ, TRACE=trace), timeout=limit)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -99
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    fails, done = [], None
    for line in out.splitlines():
        if line.startswith('"FAIL\\t'):
            fails.append(line.strip('"').split("\\t")[1:])
        elif line.startswith('"DONE\\t'):
            done = int(line.strip('"').split("\\t")[1])
    return fails, done, rc == 0 and done is not None, out


def read_events(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    return out


def split_trace(path, w):
    """the trace cut at a case boundary in two halves"""
    lines = open(path).read().splitlines()
    starts = [k for k, x in enumerate(lines) if '"op": "mesh"' in x]
    if len(starts) < 2:
        return None
    cut = starts[len(starts) // 2]
    a, b = path + "a", path + "b"
    open(a, "w").write("\n".join(lines[:cut]) + "\n")
    open(b, "w").write("\n".join(lines[cut:]) + "\n")
    return a, b


def judge(trace, w, limit, until=None):
    """all verdicts on a trace; traces TLC cannot evaluate are narrowed down (for a while)"""
    until = until or time.time() + 150
    fails, n, ok, out = run_tlc(trace, w, limit)
    if ok:
        return fails, n, []
    if "Parsing or semantic analysis failed" in out or "*** Errors" in out:
        raise Failure("the specification does not parse: " + out[-600:])
    if "java.lang.OutOfMemoryError" in out or "Error:" not in out:
        # not a verdict of the specification: once more, then give up
        fails, n, ok, out = run_tlc(trace, w, limit)
        if ok:
            return fails, n, []
        if "Error:" not in out:
            raise Failure("TLC gave no answer on %s: %s" % (trace, out[-600:]))
    halves = split_trace(trace, w)
    if halves is None:
        ev = read_events(trace)
        # the event TLC was working on
        k = out.rfind("/\\ i = ")
        i = int(out[k + 7:].split()[0]) if k >= 0 else 0
        e = ev[min(i, len(ev) - 1)]
        text = out[out.find("Error:"):][:800]
        return fails, len(ev), [(e["id"], e.get("what", e["op"]) if e["op"] == "broken" else e["op"], text)]
    f, n, b = [], 0, []
    for h in halves:
        if b and time.time() > until:
            break
        x = judge(h, w, limit, until)
        f += x[0]
        n += x[1]
        b += x[2]
    return f, n, b


def chunk_run(args):
    k, cases, base, dlimit, tlimit = args
    w = os.path.join(base, "c%d" % k)
    os.makedirs(w)
    rc, err, trace = run_driver(cases, w, dlimit)
    died = None
    if rc != 0:
        done = {e["id"].rsplit(".", 1)[0] for e in read_events(trace)}
        bad = next((c for c in cases if c["id"] not in done), cases[-1])
        w2 = os.path.join(w, "again")
        os.makedirs(w2)
        rc2, err2, _ = run_driver([bad], w2, dlimit)
        rc3 = 0
        if rc2 == 0:
            # the last case seen may have been the one under way
            last = [c for c in cases if c["id"] in done][-1:]
            if last:
                rc3, err3, _ = run_driver(last, w2, dlimit)
                if rc3 != 0:
                    bad, err2 = last[0], err3
        if rc2 != 0 or rc3 != 0:
            died = (bad, err2)
        else:
            raise Failure("driver ended with %s, not reproducible: %s" % (rc, err))
    ev = read_events(trace)
    fails, n, broken = [], 0, []
    if ev:
        with open(trace, "w") as f:
            for e in ev:
                f.write(json.dumps(e) + "\n")
        fails, n, broken = judge(trace, w, tlimit)
    ops = Counter(e["op"] for e in ev)
    sample = [{"id": e["id"], "op": e["op"]} for e in ev[:1]]
    cells = max([e["m"]["n"] for e in ev if e["op"] == "mesh"] or [0])
    sizes = os.path.getsize(trace) if os.path.exists(trace) else 0
    shutil.rmtree(w, ignore_errors=True)
    return {"fails": fails, "n": n, "broken": broken, "ops": ops, "died": died, "sample": sample,
            "cells": cells, "bytes": sizes}


def findings():
    """the known findings: (property, clause) -> text"""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                p, clause, text = line[8:].strip().split(" | ", 2)
                out[(p, clause)] = text
    return out


def save_replay(pid, k, case, verdicts, note=""):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, k))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "verdicts": verdicts, "note": note}, f, indent=1)
    return path


def size(case):
    return len(json.dumps(case))


def check(pid, tier, seed):
    t0 = time.time()
    rng = random.Random("%s/%s/%d" % (pid, tier, seed))
    base = tempfile.mkdtemp(prefix="dany_check_")
    for f in os.listdir(os.path.join(HERE, "replay")) if os.path.isdir(os.path.join(HERE, "replay")) else []:
        if f.startswith(pid + "-"):
            os.remove(os.path.join(HERE, "replay", f))
    known = findings()
    try:
        thorough = tier == "thorough"
        tstats = models.run(pid, tier, base, WORKERS)         # raises Failure via models.Broken
        cases = list(tstats["cases"])
        per, rounds = plan.budget(pid, tier)
        res, count = [], 0
        deadline = t0 + (660 if thorough else 240)
        r, enumerated = 0, 0
        while r < rounds and (r == 0 or time.time() < deadline):
            batch = plan.cases(pid, rng, per * WORKERS, "%s%d_" % (tier[0], r))
            some = cases[r * 800:(r + 1) * 800]
            enumerated += len(some)
            batch = some + plan.fixed(pid, rng, tier, r) + batch
            rng2 = random.Random(seed)
            rng2.shuffle(batch)
            chunks = [batch[k::WORKERS] for k in range(WORKERS)]
            huge = plan.huge(pid, rng, tier, r)                # one to a trace
            batch += huge
            chunks = [[c] for c in huge] + chunks
            jobs = [(r * 100 + k, c, base, 300, 400) for k, c in enumerate(chunks) if c]
            with ThreadPoolExecutor(WORKERS + 1) as ex:
                out = list(ex.map(chunk_run, jobs))
            byid = {c["id"]: c for c in batch}
            count += len(batch)
            res.append((byid, out))
            r += 1
            if any(mine(pid, o, known)[0] for o in out):
                break
        return report(pid, tier, seed, res, known, tstats, enumerated, count, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def mine(pid, o, known):
    """violations and known findings of this property in one chunk's result"""
    v = [f for f in o["fails"] if f[2] == pid and (pid, f[3]) not in known]
    k = [f for f in o["fails"] if f[2] == pid and (pid, f[3]) in known]
    v += [[i, op, pid, "not-a-behaviour: " + txt.splitlines()[0][:200] if txt else "not-a-behaviour"]
          for i, op, txt in o["broken"] if op in OPS[pid]]
    if o["died"]:
        v.append([o["died"][0]["id"] + ".0", "driver", pid, "process-ended: " + o["died"][1].strip()[-300:]])
    return v, k


def report(pid, tier, seed, res, known, tstats, nenum, count, t0):
    viol, hits, ops, n, others = {}, Counter(), Counter(), 0, Counter()
    cells = 0
    for byid, out in res:
        for o in out:
            v, k = mine(pid, o, known)
            for f in k:
                hits[(pid, f[3])] += 1
            for f in v:
                c = byid.get(f[0].rsplit(".", 1)[0])
                cur = viol.get(f[3])
                if cur is None or size(c) < size(cur[1]):
                    viol[f[3]] = (f, c)
            for f in o["fails"]:
                if f[2] != pid:
                    others[f[2] + " " + f[3]] += 1
            ops += o["ops"]
            n += o["n"]
            cells = max(cells, o["cells"])
    for (p, clause), text in known.items():
        if p == pid and (hits[(p, clause)] or not viol):
            print("KNOWN-FINDING: property=%s %s" % (p, text))
    lines = []
    for k, (clause, (f, c)) in enumerate(sorted(viol.items())):
        path = save_replay(pid, k, c, [f])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("  clause %s, event %s (%s)" % (clause, f[0], f[1]))
    for line in lines:
        print(line)
    byid0 = res[0][0]
    sample = [byid0[i] for i in sorted(byid0, key=lambda i: size(byid0[i]))[:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": n + tstats["states"], "transitions": max(n - 1, 0) + tstats["transitions"],
            "traces_validated_against_impl": count, "samples": sample,
            "trace_events_judged": n, "events_by_operation": dict(ops), "largest_mesh_cells": cells,
            "cases_enumerated_by_tlc": nenum, "models": tstats["models"],
            "known_finding_hits": sum(hits.values()),
            "clauses_of_other_properties_seen": dict(others.most_common(8)),
        },
        "assumptions": ["TLC, the JVM, CPython, numpy and flopy's grid geometry (vertices, centres) are trusted",
                        "elevations are multiples of 2^-k with bounded range, meshes have integer geometry",
                        "randomly generated cases beyond the enumerated scopes are a sample"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d events judged, model states %d, %d violated clauses, %.1f s"
          % (pid, tier, count, n, tstats["states"], len(viol), time.time() - t0))
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    base = tempfile.mkdtemp(prefix="dany_replay_")
    try:
        rc, err, trace = run_driver([d["case"]], base, 300)
        print("driver", rc, err)
        fails, n, broken = judge(trace, base, 300)
        for f in fails:
            print("\t".join(f))
        for b in broken:
            print("not a behaviour:", b)
        for e in read_events(trace):
            print(json.dumps(e)[:2000])
        return 1 if [f for f in fails if f[2] == d["property"]] or broken or rc else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except (Failure, models.Broken) as e:
        print("ERROR", e)
        sys.exit(2)
