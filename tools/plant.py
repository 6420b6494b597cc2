#!/usr/bin/env python3
"""plant.py FILE...: confirms planted bugs described in FILE (a Python file that defines BUGS) in a scratch copy
of /repo and writes each confirmed one to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo.go.txt beside this file as a program of the module in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp go.mod "$T/go.mod"; cp go.sum "$T/go.sum"
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/demo.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go build %s-modfile "$T/go.mod" -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 2
timeout 250 "$T/demo"
'''
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def main():
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)["BUGS"]:
            one(b)
def one(b):
    W = "/tmp/pb"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    for path, old, new in b["edits"]:
        s = open(W + "/" + path).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times:", old[:60]); return
        open(W + "/" + path, "w").write(s.replace(old, new))
    sh("gofmt -l .", W)
    diff = sh("git diff", W).stdout
    r = sh("go build ./... && go vet ./%s" % os.path.dirname(b["edits"][0][0]), W)
    if sh("go build ./...", W).returncode:
        print(b["id"], "does not build", r.stderr); return
    for _ in range(3):
        r = sh("go test -vet=off -count=1 ./...", W)
        if r.returncode:
            print(b["id"], "fails the tests", r.stdout[-800:]); return
    d = HERE + "/seeded/" + b["id"]
    tmp = "/tmp/pbdemo"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/demo.sh", "w").write(DEMO % ("-race " if b.get("race") else ""))
    open(tmp + "/demo.go.txt", "w").write(b["demo"])
    c = sh("bash %s/demo.sh" % tmp, "/repo")
    p = sh("bash %s/demo.sh" % tmp, W)
    if c.returncode != 0 or p.returncode in (0, 2) and "panic" not in p.stderr:
        print(b["id"], "demo: clean", c.returncode, c.stdout[-300:], c.stderr[-500:], "| patched", p.returncode, p.stdout[-300:], p.stderr[-500:])
        return
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for n in ("demo.sh", "demo.go.txt"):
        shutil.copy(tmp + "/" + n, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "confirmed:", (p.stdout + p.stderr).strip()[:150])
    shutil.rmtree(W, ignore_errors=True)
main()
