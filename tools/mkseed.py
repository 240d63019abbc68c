#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds /verif/seeded/<id>/ from a spec and confirms it.
A spec file defines id, property, needs, breaks, edits [(file, old, new)], demo (Go main source, or
test source in package main). Confirmation happens in a scratch copy of /repo: the change builds, passes the stable tests,
demo.sh fails with it and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.go against the repository in the current directory and runs it.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/verifdemo/main.go": "%%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
cp go.mod go.sum "$tmp/"
go build %s-overlay "$tmp/overlay.json" -modfile "$tmp/go.mod" -o "$tmp/demo" ./verifdemo || exit 2
timeout 120 "$tmp/demo"
'''
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(spec):
    g = {}
    exec(open(spec).read(), g)
    out = f"{D}/seeded/{g['id']}"
    os.makedirs(out, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        r = scratch + "/repo"
        sh(f"git clone -q /repo {r}", "/")
        open(out + "/demo.sh", "w").write(DEMO % ("-race " if g.get("race") else ""))
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.go", "w").write(g["demo"])
        env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
        p = sh(f"bash {out}/demo.sh", r, env=env)
        if p.returncode != 0: return print(g["id"], "DEMO FAILS UNCHANGED", p.returncode, p.stdout[-1500:])
        for f, old, new in g["edits"]:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1: return print(g["id"], "EDIT matches", t.count(old), "times in", f, repr(old[:60]))
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        sh(f"git diff > {out}/patch.diff", r)
        p = sh("go build ./...", r, env=env)
        if p.returncode: return print(g["id"], "DOES NOT BUILD", p.stdout)
        if g.get("tests", True):
            for k in range(4):
                p = sh("go test -json -vet=off -count=1 -cpu 1 -timeout 2m ./...", r, env=env)
                st = {}
                for l in p.stdout.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get("Test") and e.get("Action") in ("pass", "fail"): st[e["Package"] + "/" + e["Test"]] = e["Action"]
                bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if st.get(t) != "pass"]
                if not bad: break
            if bad: return print(g["id"], "TESTS FAIL", bad)
        p = sh(f"bash {out}/demo.sh", r, env=env)
        if p.returncode in (0, 2): return print(g["id"], "DEMO DOES NOT FAIL", p.returncode, p.stdout[-800:])
        json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(out + "/meta.json", "w"), indent=1)
        print(g["id"], "ok:", p.stdout.strip().splitlines()[-1][:150] if p.stdout.strip() else p.returncode)
    finally:
        shutil.rmtree(scratch)
for s in sys.argv[1:]:
    build(s)
