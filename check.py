#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

1. build the verifier (engine/) if this copy has not been built yet,
2. generate and discharge every obligation of contracts/ID.spec from the source,
3. on a failed obligation, look for a failing input on the real code (replay/),
4. write evidence/ID.json.
Exit 0: every obligation discharged.  Exit 1 and a VIOLATION line: one was not.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIMIT = int(os.environ.get("VERIF_LIMIT", "600"))

def env(modfile=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", GOPROXY="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["GOFLAGS"] = "-mod=mod" + (" -modfile=" + modfile if modfile else "")
    return e

def build():
    """build the engine unless an up-to-date binary is there"""
    out = os.path.join(V, "bin", "gcv")
    src = [os.path.join(V, "engine", f) for f in os.listdir(os.path.join(V, "engine"))]
    if os.path.exists(out) and all(os.path.getmtime(f) <= os.path.getmtime(out) for f in src):
        return out
    os.makedirs(os.path.join(V, "bin"), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    e = env()
    subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(V, "engine"), env=e, check=True)
    os.replace(tmp, out)
    return out

def modfile(d):
    m = os.path.join(d, "tcpx.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), m)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "tcpx.sum"))
    if "github.com/BurntSushi/toml" not in open(m).read():
        e = env()
        e["GOFLAGS"] = ""
        subprocess.run(["go", "mod", "edit", "-require=github.com/BurntSushi/toml@v0.3.1", m], cwd=d, env=e, check=True)
    return m

def replay(pid, mf, d, log):
    """look for a failing input on the real code; returns its description or None"""
    files = [f for f in sorted(os.listdir(os.path.join(V, "replay"))) if re.match(r"(%s|common)_.*_test\.go$" % pid, f)]
    if not any(f.startswith(pid) for f in files):
        log.append("no replay harness for this property")
        return None
    ov = os.path.join(d, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "zz_verif_" + f): os.path.join(V, "replay", f) for f in files}}, open(ov, "w"))
    # the repository's own tests are left out: only the harness is compiled
    rep = {os.path.join(REPO, f): "" for f in os.listdir(REPO) if f.endswith("_test.go")}
    o = json.load(open(ov)); o["Replace"].update(rep); json.dump(o, open(ov, "w"))
    cmd = ["go", "test", "-vet=off", "-count=1", "-timeout", "100s", "-overlay", ov, "-run", "^TestReplay%s" % pid, "-v", "."]
    try:
        p = subprocess.run(cmd, cwd=REPO, env=env(mf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        log.append("replay did not finish")
        return None
    out = p.stdout
    log.append("replay: " + " ".join(cmd) + "\n" + out[-6000:])
    if p.returncode == 0 or "[build failed]" in out or "[setup failed]" in out:
        return None
    m = re.findall(r"FAILING-INPUT: (.*)", out)
    if m:
        return m[0]
    if "panic:" in out:
        return "panic: " + out.split("panic:", 1)[1].strip().split("\n")[0]
    if "fatal error:" in out:
        return "fatal error: " + out.split("fatal error:", 1)[1].strip().split("\n")[0]
    return None

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    gcv = build()
    d = tempfile.mkdtemp(prefix="gcv_")
    try:
        return run(pid, tier, seed, t0, gcv, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def merge(rs):
    """the results of several contract files of one property as one"""
    out = {"obligations": 0, "discharged": 0, "failed": 0, "functions": [], "back_ends": {}, "solver_s": 0.0, "queries": 0}
    for r in rs:
        for k in ("obligations", "discharged", "failed", "queries", "solver_s"):
            out[k] += r.get(k) or 0
        out["functions"] += r.get("functions") or []
        for k, v in (r.get("back_ends") or {}).items():
            out["back_ends"][k] = out["back_ends"].get(k, 0) + v
        for k in ("assumed_externals", "pure_externals", "axioms", "stable_regions", "assumptions", "spec_files"):
            o = out.setdefault(k, [])
            o += [x for x in r.get(k) or [] if x not in o]
        for k in ("trusted", "contracts_from_other_checks"):
            out.setdefault(k, {}).update(r.get(k) or {})
    out["solver_s"] = round(out["solver_s"], 2)
    return out

def verify(pid, tier, gcv, d, mf, late=False):
    """run the verifier on every contract file of the property: ID.spec and ID_*.spec"""
    names = sorted(f for f in os.listdir(os.path.join(V, "contracts")) if re.match(r"%s(_\w+)?\.spec$" % pid, f))
    e = env(mf)
    e.setdefault("GOMEMLIMIT", "10GiB")
    text, rs, end = "", [], time.time() + LIMIT
    for n in names:
        resf = os.path.join(d, n + ".json")
        cmd = [gcv, "-repo", REPO, "-modfile", mf, "-spec", os.path.join(V, "contracts", n), "-out", resf]
        if tier == "thorough":
            cmd += ["-thorough"]
        if late:
            cmd += ["-late"]
        r = None
        try:
            p = subprocess.run(cmd, cwd=os.path.join(V, "contracts"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(10, end - time.time()), text=True, errors="replace")
            text += "== %s\n%s" % (n, p.stdout)
            if os.path.exists(resf):
                r = json.load(open(resf))
        except subprocess.TimeoutExpired as ex:
            o = ex.stdout or b""
            text += "== %s\n%s\nthe verifier did not finish within %d s\n" % (n, o.decode(errors="replace") if isinstance(o, bytes) else o, LIMIT)
        rs.append(r)
    return text, rs

def run(pid, tier, seed, t0, gcv, d):
    mf = modfile(d)
    text, rs = verify(pid, tier, gcv, d, mf)
    found, log = None, []
    if any(r is None or r["failed"] for r in rs) and "load:" not in text:
        found = replay(pid, mf, d, log)
        if not found and any("loopinv2" in open(os.path.join(V, "contracts", f)).read() for f in os.listdir(os.path.join(V, "contracts")) if re.match(r"%s(_\w+)?\.spec$" % pid, f)):
            # the code may have loops of another shape: once more, with more invariant candidates
            text, rs = verify(pid, tier, gcv, d, mf, True)
    complete = bool(rs) and all(r is not None and r["obligations"] > 0 for r in rs)
    res = merge([r for r in rs if r is not None])
    if not complete and "load:" in text:
        # the source does not compile: nothing can be decided
        print(text[-2000:])
        print("check error: /repo does not load")
        return 2
    failures = []
    for f in res["functions"]:
        for o in f.get("failures") or []:
            failures.append(o)
    ok = complete and res["failed"] == 0 and res["obligations"] == res["discharged"]
    line = None
    if not ok:
        os.makedirs(os.path.join(V, "out"), exist_ok=True)
        rp = os.path.join(os.environ.get("VERIF_OUT", os.path.join(V, "out")), pid + ".replay.txt")
        if not log:
            found = replay(pid, mf, d, log)
        with open(rp, "w") as w:
            w.write("property %s: obligations not discharged\n" % pid)
            for o in failures:
                w.write("\nobligation: %s\n  kind: %s\n  where: %s\n  clause: %s\n  solver: %s\n" % (o["Name"], o["Kind"], o["Site"], o["Detail"], o["Result"]))
                for x in (o.get("Trace") or []):
                    w.write("    path: %s\n" % x)
                if o.get("Model"):
                    w.write("  counterexample (verifier):\n" + "".join("    %s\n" % x for x in o["Model"].split("\n")[:200]))
            w.write("\nfailing input on the real code: %s\n" % (found or "none found"))
            w.write("\nverifier output:\n" + text[-20000:] + "\n\n" + "\n".join(log))
        print(text[-4000:])
        for o in failures[:10]:
            print("undischarged: %s at %s [%s]" % (o["Name"], o["Site"], o["Result"]))
        if found:
            print("failing input: " + found)
        line = "VIOLATION property=%s replay=%s%s" % (pid, rp, "" if found else " no-failing-input-found")
    kf = os.path.join(V, "known-findings.txt")
    for l in open(kf) if os.path.exists(kf) else []:
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            print(l.strip())
    r = res
    fns = r["functions"]
    tb = ["engine/ (this condition generator: go/ssa semantics, memory model, staged quantifier instantiation)", "golang.org/x/tools/go/ssa v0.52.0, go 1.27.3 front end", "z3 4.8.12, z3 (new release), cvc5 1.1.2: unsat answers"]
    tb += ["assumed contract of external: " + x for x in r.get("assumed_externals") or []]
    tb += ["external treated as effect-free: " + x for x in r.get("pure_externals") or []]
    tb += ["trusted: %s (%s)" % kv for kv in sorted((r.get("trusted") or {}).items())]
    tb += ["axiom: " + x for x in r.get("axioms") or []]
    ass = ["contract of %s is proved by check %s" % kv for kv in sorted((r.get("contracts_from_other_checks") or {}).items())]
    ass += ["stable (not changed by other goroutines): " + x for x in r.get("stable_regions") or []]
    ass += r.get("assumptions") or []
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": 0 if ok else 1,
          "coverage": {"obligations": r["obligations"], "discharged": r["discharged"], "checker_cmd": "python3 /verif/check.py " + pid,
                       "trusted_base": tb, "functions_under_contract": [f["name"] for f in fns],
                       "per_function": [{k: f.get(k) for k in ("name", "obligations", "discharged", "paths", "queries", "solver_s", "loop_invariants", "inlined", "callee_contracts", "kinds", "back_ends")} for f in fns],
                       "back_ends": r.get("back_ends"), "solver_s": r.get("solver_s"), "queries": r.get("queries"), "spec_files": r.get("spec_files"),
                       "failed_obligations": [o["Name"] for o in failures]},
          "assumptions": ass}
    evd = os.path.join(os.environ.get("VERIF_OUT", V), "evidence")
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions under contract, %.1f s" % (pid, r["discharged"], r["obligations"], len(fns), time.time() - t0))
    if line:
        print(line)
        return 1
    return 0

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        build()
        sys.exit(0)
    sys.exit(main())
