#!/usr/bin/env python3
"""Rewrite the generated tables of DESIGN.md (repairs, planted bugs, scenarios) from their sources."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def cell(s):
    return " ".join(str(s).split()).replace("|", "\\|")

def fixes():
    out = ["| property | commit | what failed |", "|---|---|---|"]
    for f in json.load(open(V + "/known_findings.json")):
        if f["status"] == "fixed":
            what = f["what"].split(f["commit"], 1)[1].strip()
            out.append(f"| {f['property']} | {f['commit']} | {cell(what)} |")
    return out

CATCH = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}

def plants():
    out = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        out.append(f"| {d} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {CATCH.get(d, m['property'] + ' quick')} |")
    return out

def scenarios():
    r = subprocess.run([V + "/run.sh", "list"], capture_output=True, text=True, check=True)
    out, last = [], None
    rows = {}
    for l in r.stdout.splitlines():
        a, b, c = l.split("\t")
        rows.setdefault(a, []).append((b, c))
    for a in sorted(rows):
        if a == "C31":
            continue
        out.append(f"* **{a}**: " + ", ".join(f"`{b}`" for b, _ in rows[a]))
    return out

t = open(V + "/DESIGN.md").read()
for name, f in (("fixes", fixes), ("plants", plants), ("scenarios", scenarios)):
    pat = re.compile(f"(<!-- {name} -->\n).*?(<!-- /{name} -->)", re.S)
    if pat.search(t):
        body = "\n".join(f()) + "\n"
        t = pat.sub(lambda m: m.group(1) + body + m.group(2), t)
open(V + "/DESIGN.md", "w").write(t)
