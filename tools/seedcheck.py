#!/usr/bin/env python3
"""seedcheck.py [PATTERN]: run each planted bug's check in a scratch copy of /repo"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
pat = sys.argv[1] if len(sys.argv) > 1 else "."
def one(i):
    m = json.load(open("/verif/seeded/%s/meta.json" % i))
    d = tempfile.mkdtemp(prefix="sc_")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        p = subprocess.run(["git", "apply", "/verif/seeded/%s/patch.diff" % i], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return i, "DOES NOT APPLY " + p.stdout
        e = dict(os.environ, VERIF_REPO=r, VERIF_OUT=d)
        p = subprocess.run(["unshare", "-Urn", "bash", "-c", "ip link set lo up; python3 /verif/check.py " + m["property"]], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        l = [x for x in p.stdout.split("\n") if x.startswith("VIOLATION")]
        f = [x for x in p.stdout.split("\n") if x.startswith("failing input")]
        u = [x for x in p.stdout.split("\n") if x.startswith("undischarged")]
        return i, "exit %d %s %s | %s" % (p.returncode, "NO-INPUT" if l and "no-failing" in l[0] else ("caught" if l else "MISSED"), f[:1], u[:1])
    finally:
        shutil.rmtree(d, ignore_errors=True)
ids = [i for i in sorted(os.listdir("/verif/seeded")) if re.search(pat, i)]
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, ids):
        print(i, r[:400], flush=True)
