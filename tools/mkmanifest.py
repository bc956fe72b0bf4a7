"""writes /verif/MANIFEST.json"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Every recorded call of the implementation is judged by TLC against the TLA+ specification (spec/Trace.tla); "
        "exhaustive within the enumerated scopes, sampled beyond them. Trusts TLC, CPython, numpy and flopy's grid geometry.")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": "TLA+ specification checked with TLC; recorded and TLC-enumerated executions of dany validated against it",
                 "level": "model_checking", "level_note": NOTE} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: the public API exposes the state the specification talks about."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
