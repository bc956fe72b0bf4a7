#!/usr/bin/env python3
"""catch.py [id ...]: run each seeded bug's check (quick) on a patched copy of /repo; -a: all checks"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
S = os.environ.get("SEEDED", os.path.join(H, "seeded"))
ids = args or sorted(os.listdir(S))
w = tempfile.mkdtemp(prefix="catch_")
try:
    for i in ids:
        r = os.path.join(w, "r")
        if os.path.isdir(r):
            shutil.rmtree(r)
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        p = os.path.join(S, i, "patch.diff")
        if subprocess.run(["git", "apply", p], cwd=r).returncode:
            print(i, "DOES NOT APPLY"); continue
        pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        pids = ["C%02d" % k for k in range(1, 26)] if "-a" in sys.argv else [pid]
        for q in pids:
            x = subprocess.run([sys.executable, os.path.join(H, "check.py"), q, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, DANY_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            cl = sorted({l.split("clause ")[1].split(",")[0] for l in x.stdout.splitlines() if "clause " in l})
            print(i, q, {0: "MISSED" if q == pid else "quiet", 1: "caught"}.get(x.returncode, "ERROR"), cl, flush=True)
finally:
    shutil.rmtree(w)
