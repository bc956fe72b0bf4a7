#!/usr/bin/env python3
"""
Every algorithm module with each of its wrong VARIANTs, in the quick scopes of
the properties that use it: TLC has to find an error for each variant in at
least one of them.  Not part of any check; run by hand after changes in spec/.
"""
import glob, os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import models

base = tempfile.mkdtemp(dir="/tmp")
bad = 0
try:
    runs = {}
    for pid, ms in models.MODELS.items():
        for m in ms:
            for tier in ("quick", "thorough"):
                for c in m[tier]:
                    runs.setdefault(m["module"], []).append((tier == "thorough", m, c))
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(models.SPEC, "M_*.tla"))):
        name = os.path.basename(f)[:-4]
        if want and name not in want:
            continue
        text = open(f).read()
        for v in sorted(set(re.findall(r'VARIANT (?:=|#) "([a-z]+)"', text)) - {"dany"}):
            for slow, m, c in sorted(runs[name], key=lambda r: r[0]):
                rc, n, d, cases, out = models.tlc(name, dict(c, VARIANT='"%s"' % v, EMIT="FALSE"), m["inv"], m["prop"],
                                                  base, 4, 300, view="Tags" if c.get("DEPTH") == 99 else None)
                hit = re.search(r"(?:Invariant|property|properties) (\w*) ?(?:is|was|were) violated|Temporal", out)
                if rc != 0 and hit:
                    print("ok    %-9s %-10s %s %s" % (name, v, hit.group(1) or "temporal", c), flush=True)
                    break
            else:
                bad += 1
                print("MISS  %-9s %-10s" % (name, v), flush=True)
finally:
    shutil.rmtree(base)
sys.exit(1 if bad else 0)
