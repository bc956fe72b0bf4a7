#!/usr/bin/env python3
"""corrupt.py [cases per property] [copies] [seed]

How much of a recorded call does the specification pin down?  Records calls of
the package on the generator's inputs, changes one value in the result of one
call (a number, a flag, an element dropped, repeated or exchanged with another)
and lets TLC judge the changed traces.  Lists, per call and field, how many of
the changes got a verdict, and examples of those that got none: results the
specification admits although the package did not give them.
"""
import copy, json, os, random, subprocess, sys, tempfile, shutil
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
sys.path.insert(0, H)
import plan, check                                              # noqa: E402

SKIP = {"mesh", "other"}
TOP = ("res", "err", "nidp", "out", "shape", "after", "before", "kept", "copyok", "raw")


def leaves(x, path=()):
    """(path, kind) of everything in x that can be changed"""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "drop"
            yield path, "dup"
        if any(v != x[0] for v in x):
            yield path, "swap"
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    elif isinstance(x, bool):
        yield path, "flip"
    elif isinstance(x, int):
        for k in ("+1", "-1", "*3", "neg", "zero"):
            yield path, k
    elif isinstance(x, str):
        yield path, "err"


def put(e, path, kind, rng):
    x = e
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    v = x[k]
    if kind == "drop":
        v = list(v)
        v.pop(rng.randrange(len(v)))
    elif kind == "dup":
        i = rng.randrange(len(v))
        v = v[:i] + [copy.deepcopy(v[i])] + v[i:]
    elif kind == "swap":
        v = list(v)
        i, j = rng.choice([(i, j) for i in range(len(v)) for j in range(i) if v[i] != v[j]])
        v[i], v[j] = v[j], v[i]
    elif kind == "flip":
        v = not v
    elif kind == "err":
        v = "" if v else "ValueError"
    else:
        v = {"+1": v + 1, "-1": v - 1, "*3": 3 * v, "neg": -v, "zero": 0}[kind]
    if v == x[k]:
        return False
    x[k] = v
    return True


def norm(path):
    return ".".join("#" if isinstance(k, int) else k for k in path)


def main(per, copies, seed):
    rng = random.Random("corrupt%s" % seed)
    w = tempfile.mkdtemp(prefix="dany_corrupt_")
    try:
        cases = [c for k in range(1, 26) for c in plan.cases("C%02d" % k, random.Random("c%d/%s" % (k, seed)), per, "k%02d" % k)]

        def drive(k):
            d = os.path.join(w, "d%d" % k)
            os.makedirs(d)
            rc, err, t = check.run_driver(cases[k::8], d, 900)
            return check.read_events(t)
        with ThreadPoolExecutor(8) as ex:
            ev = [e for x in ex.map(drive, range(8)) for e in x]
        by, order = defaultdict(list), []
        for e in ev:
            i = e["id"].rsplit(".", 1)[0]
            by[i].append(e)
        opts = defaultdict(list)
        for i, L in by.items():
            for k, e in enumerate(L):
                if e["op"] in SKIP:
                    continue
                e0 = {n: e[n] for n in TOP if n in e}
                bad = (e0.get("res") or {}).get("err") or e0.get("err") or ""
                for path, kind in leaves(e0):
                    if bad and path[-1] != "err":
                        continue
                    opts[(e["op"], norm(path), kind)].append((i, k, path))
        keys = sorted(opts)
        n, made, chunks = 0, {}, [[] for _ in range(8)]
        for q in range(copies):
            op, p, kind = keys[q % len(keys)]
            i, k, path = rng.choice(opts[(op, p, kind)])
            L = copy.deepcopy(by[i][:k + 1])
            e = L[-1]
            if path[0] == "res" and e.get("tw"):
                e["tw"] = []
            if not put(e, path, kind, rng):
                continue
            n += 1
            for j, x in enumerate(L):
                x["id"] = "x%d.%d" % (n, j)
            made[n] = (op, p, kind, L)
            chunks[n % 8] += L

        def tlc(k):
            d = os.path.join(w, "t%d" % k)
            os.makedirs(d)
            t = os.path.join(d, "t.nd")
            with open(t, "w") as f:
                for e in chunks[k]:
                    f.write(json.dumps(e) + "\n")
            f, _, b = check.judge(t, d, 900, 10 ** 12)
            return [(x[0], x[2:]) for x in f] + [(x[0], ["broken"]) for x in b]
        hit = set()
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(tlc, range(8)):
                for i, _ in r:
                    a, j = i[1:].split(".")
                    if int(j) == len(made[int(a)][3]) - 1:
                        hit.add(int(a))
        tot, got, miss = defaultdict(int), defaultdict(int), defaultdict(list)
        for a, (op, p, kind, L) in made.items():
            key = (op, p, kind)
            tot[key] += 1
            got[key] += a in hit
            if a not in hit:
                miss[key].append(L)
        print("%d changed results, %d judged wrong" % (len(made), len(hit)))
        for key in sorted(tot):
            if got[key] < tot[key]:
                print("%-10s %-22s %-5s %d of %d" % (*key, got[key], tot[key]))
        json.dump({"|".join(k): v[:3] for k, v in miss.items()}, open("/tmp/corrupt_missed.json", "w"))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    main(int(a[0]) if a else 40, int(a[1]) if len(a) > 1 else 4000, a[2] if len(a) > 2 else "1")
