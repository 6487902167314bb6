#!/usr/bin/env python3
"""seed.py FILE.py...: plant bugs. Each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go test).
A bug is kept under /verif/seeded/ID when its demo passes without and fails with the change and the stable tests pass with it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off CGO_ENABLED=1
cp go.mod "$d/tcpx.mod" && cp go.sum "$d/tcpx.sum" || exit 1
grep -q BurntSushi/toml go.mod || GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 "$d/tcpx.mod" || exit 1
python3 - "$PWD" "$here" "$d" <<'P'
import json, os, sys
repo, here, d = sys.argv[1:]
r = {os.path.join(repo, f): "" for f in os.listdir(repo) if f.endswith("_test.go")}
r[os.path.join(repo, "zz_demo_test.go")] = os.path.join(here, "demo_test.go.txt")
json.dump({"Replace": r}, open(os.path.join(d, "o.json"), "w"))
P
GOFLAGS="-mod=mod -modfile=$d/tcpx.mod" go test -vet=off -count=1 -timeout 120s -overlay "$d/o.json" -run '^TestDemo' .
'''
BASE = [k for k in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if os.path.exists("/opt/vp/BASELINE.json") else []

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def one(f):
    m = runpy.run_path(f)
    i = m["ID"]
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        sd = os.path.join(d, "s")
        os.makedirs(sd)
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(sd, "demo_test.go.txt"), "w").write(m["DEMO"])
        ns = ["unshare", "-Urn", "bash", "-c"]
        demo = ns + ["ip link set lo up; bash %s/demo.sh" % sd]
        p = sh(demo, r, timeout=300)
        if p.returncode != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (i, p.stdout[-2000:])
        for fn, old, new in m["EDITS"]:
            s = open(os.path.join(r, fn)).read()
            if s.count(old) != 1:
                return "%s: %d occurrences of %r" % (i, s.count(old), old)
            open(os.path.join(r, fn), "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], r).stdout
        p = sh(demo, r, timeout=300)
        if p.returncode == 0:
            return "%s: demo passes with the change" % i
        if "build failed" in p.stdout:
            return "%s: does not build\n%s" % (i, p.stdout[-2000:])
        dout = p.stdout
        test = '''export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off CGO_ENABLED=1
ip link set lo up; cp go.mod %s/t.mod; cp go.sum %s/t.sum; GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 %s/t.mod
GOFLAGS="-mod=mod -modfile=%s/t.mod" go test -json -vet=off -count=1 -timeout 6m ./... > %s/go.json''' % (d, d, d, d, d)
        if "--notest" not in sys.argv:
            sh(ns + [test], r, timeout=500)
            res = sh(["python3", "/opt/vp/results.py", d + "/res.json", "gojson:%s/go.json" % d], "/tmp")
            rj = json.load(open(d + "/res.json"))
            passed = set(rj.get("passed") or [])
            miss = [k for k in BASE if k not in passed]
            if miss:
                return "%s: stable tests fail: %s" % (i, miss)
        out = "/verif/seeded/" + i
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        open(out + "/demo_test.go.txt", "w").write(m["DEMO"])
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        return "%s: kept (%s)" % (i, [l.strip() for l in dout.split("\n") if l.strip()][:4])
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [a for a in sys.argv[1:] if a.endswith(".py")]):
        print(r, flush=True)
