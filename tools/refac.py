#!/usr/bin/env python3
"""refac.py [pid...]: stdin python defining R={name: [(file, old, new), ...]}, behaviour-preserving edits; applies each set to a
private copy, runs the repository's tests and the checks (all claimed ones by default), which must stay quiet"""
import json, subprocess, sys, time, os
g = {}
exec(sys.stdin.read(), g)
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd or R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
W = "/tmp/ref%d" % os.getpid()
sh("mkdir %s; cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/[a-zA-Z]* %s/verif; sed -i s,/repo,%s/repo, %s/verif/probe/Cargo.toml %s/verif/witness/Cargo.toml; git -C %s/repo checkout -q -- ." % ((W,) * 8), "/tmp")
R = W + "/repo"
pids = sys.argv[1:] or [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
for name, edits in g["R"].items():
    bad = False
    for f, old, new in edits:
        s = open(R + "/" + f).read()
        if s.count(old) != 1:
            print(name, "BAD EDIT", s.count(old), repr(old[:80])); bad = True
        open(R + "/" + f, "w").write(s.replace(old, new))
    if bad:
        sh("git checkout -q -- ."); continue
    r = sh("cargo test --workspace --no-fail-fast --offline -q --lib --tests 2>&1 | tail -40")
    if "test result: ok" not in r.stdout or "FAILED" in r.stdout:
        print(name, "TESTS FAIL", r.stdout[-3000:]); sh("git checkout -q -- ."); continue
    t0 = time.time()
    out = []
    for p in pids:
        t = time.time()
        r = sh("timeout 900 python3 check.py " + p, W + "/verif")
        if r.returncode:
            l = r.stdout.strip().split("\n")
            print("  ", name, p, {1: "ALARM"}.get(r.returncode, "rc=%d" % r.returncode), "%.0fs" % (time.time() - t), l[0][:400], flush=True)
            out.append(p)
    print(name, "NOT QUIET " + " ".join(out) if out else "quiet", "%.0fs" % (time.time() - t0), flush=True)
    sh("git checkout -q -- .")
sh("rm -rf " + W, "/tmp")
