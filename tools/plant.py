#!/usr/bin/env python3
"""plant.py new SPECDIR...      make seeded/<id>/ from a spec directory holding spec.py and main.go
   plant.py check ID...         confirm that a planted bug counts, and run its property's quick check on it
Everything runs in scratch copies of /repo under /tmp."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13", GOTOOLCHAIN="local", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOWORK="off", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
ENV["PATH"] = "/opt/veriftools/go1.24.13/bin:" + ENV["PATH"]
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]

def scratch():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    subprocess.check_call("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=d)
    return d

def tests(d):
    """the names of the baseline tests that fail"""
    rc, out = sh("go test -json -vet=off -count=1 -timeout 10m ./...", d)
    bad = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "fail": bad.add(e["Package"] + " " + e.get("Test", ""))
    return sorted(bad)

DEMO = r'''#!/bin/bash
# run with cwd = the library's source tree; exit 0 when the property holds on this input
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \
    GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/main.go" "$T/main.go" && cp "$R/go.sum" "$T/go.sum" || exit 3
cat > "$T/go.mod" <<EOF
module demo

go 1.24.0

require github.com/apache/datasketches-go v0.0.0

replace github.com/apache/datasketches-go => $R
EOF
cd "$T" || exit 3
timeout 250 go run .
'''

def new(spec):
    """spec: {id, property, needs, what_it_breaks, edits:[(file, old, new)], main}"""
    d = scratch()
    try:
        for f, a, b in spec["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            n = s.count(a)
            if n != 1:
                print(spec["id"], "EDIT matches", n, "times in", f); return False
            open(p, "w").write(s.replace(a, b))
        rc, out = sh("gofmt -l .", d)
        if out.strip(): print(spec["id"], "gofmt:", out)
        sh("git diff > /tmp/%s.diff" % spec["id"], d)
        o = os.path.join(V, "seeded", spec["id"]); os.makedirs(o, exist_ok=True)
        shutil.move("/tmp/%s.diff" % spec["id"], o + "/patch.diff")
        open(o + "/main.go", "w").write(spec["main"]); open(o + "/demo.sh", "w").write(DEMO.replace("go run .", "env CGO_ENABLED=1 go run -race .") if spec.get("race") else DEMO); os.chmod(o + "/demo.sh", 0o755)
        json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(o + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(d)

def check(i, quick=True, other=None):
    o = os.path.join(V, "seeded", i); meta = json.load(open(o + "/meta.json"))
    d = scratch(); r = {"id": i, "property": meta["property"]}
    try:
        rc, out = sh(o + "/demo.sh", d); r["demo clean"] = rc
        if rc: print(out[-1500:])
        rc, out = sh("git apply %s/patch.diff" % o, d); r["apply"] = rc
        rc, out = sh("go build ./...", d); r["build"] = rc
        if rc: print(out[-1500:])
        r["tests failing"] = tests(d)[:5]
        rc, out = sh(o + "/demo.sh", d); r["demo patched"] = rc; r["demo says"] = out[-200:]
        ok = r["demo clean"] == 0 and r["apply"] == 0 and r["build"] == 0 and not r["tests failing"] and rc not in (0, 3, 124)
        if os.environ.get("NOCHECK"): quick = False
        if quick:
            v = tempfile.mkdtemp(prefix="plantv.")
            try:
                subprocess.check_call("cp -r run.sh mc known_findings.json %s/ && mkdir %s/evidence %s/replays" % (v, v, v), shell=True, cwd=V)
                p = v + "/mc/go.mod"; s = open(p).read(); open(p, "w").write(s.replace("=> /repo", "=> " + d))
                rc, out = sh("./run.sh %s quick" % (other or meta["property"]), v)
                vio = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                r["check"] = rc; r["caught"] = rc == 1 and bool(vio)
                r["says"] = [l for l in out.splitlines() if "sig" in l or "VIOLATION" in l or "violat" in l][:3] or out[-300:]
            finally:
                shutil.rmtree(v)
        print(("OK   " if ok else "BAD  ") + ("CAUGHT " if r.get("caught") else "MISSED ") + json.dumps(r)[:900], flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    if sys.argv[1] == "new":
        import importlib.util
        for f in sys.argv[2:]:
            sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
            for s in m.SPECS: 
                if new(s): check(s["id"])
    else:
        for i in sys.argv[2:]: check(i)
