#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (dev tool; outputs are committed)"""
import json, os, subprocess
import specs
V = os.path.dirname(os.path.abspath(__file__))
PROPS = json.load(open(os.path.join(V, "props.json")))
NA = {}
checks, na = [], []
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in specs.SPECS:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                           "technique": "symbolic execution of the LLVM IR of the real code with SMT (z3) deciding every branch and assertion; counterexamples replayed natively",
                           "level": "model_checking",
                           "level_note": "Bounded: " + specs.SPECS[p["id"]]["bounds"][:600] + ". Trusts rustc's IR, the symex engine (validated per run by replaying path models natively) and z3."})
        else:
            na.append({"property": p["id"], "reason": "check under construction"})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "yam_verif", "enable": "RUSTFLAGS='--cfg yam_verif' (set by symlib.py for the IR and the native replay builds)", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
