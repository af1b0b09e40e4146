#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: every property of properties.jsonl that has a check registered in mc/props.
import json, os, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
impl = set()
for f in glob.glob(os.path.join(root, "mc/props/*.go")):
    impl |= set(re.findall(r'Property\{\s*ID:\s+"(C\d+)"', open(f).read()))
notes = json.load(open(os.path.join(root, "tools/levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in impl:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": n.get("technique", "stateless model checking of the real code: exhaustive enumeration of bounded operation sequences and random outcomes against a reference model"),
            "level": "model_checking",
            "level_note": n.get("note", "Exhaustive within the bounds listed per scenario in the evidence; assumes the reference model and the recorded alphabets are representative beyond the bound.")})
    else:
        na.append({"property": i, "reason": "check under construction: not claimed yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: library randomness is owned by an overlay of math/rand at build time (mc/mkoverlay.py)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
