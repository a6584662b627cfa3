#!/usr/bin/env python3
"""Turn the history of a C08 replay into cases for history.rs: hist_from_replay.py REPLAY DIR"""
import json, sys, subprocess, os, tempfile
d = json.load(open(sys.argv[1])); s = d["scenario"]
here = os.path.dirname(os.path.abspath(__file__))
for k, st in enumerate(s["steps"]):
    u = dict(s["units"][st["unit"]]); u["fast"] = st["fast"]
    t = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump({"scenario": u}, t); t.close()
    o = subprocess.run(["python3", here + "/case_from_replay.py", t.name], stdout=subprocess.PIPE, text=True, check=True).stdout
    os.unlink(t.name)
    if st["validate"]: o = "validate\n" + o
    if st["fault"] != "None" or st["take"]: print("note: step", k, "has fault", st["fault"], "take", st["take"])
    open(f"{sys.argv[2]}/step{k}.txt", "w").write(o)
