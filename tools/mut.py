#!/usr/bin/env python3
"""mut.py: stdin python defining M=[(name, "pid[,pid]", file, old, new)]; applies each to /repo, runs the checks, undoes it"""
import subprocess, sys, time
g = {}
exec(sys.stdin.read(), g)
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd or R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
W = "/tmp/mut%d" % __import__("os").getpid()
sh("mkdir %s; cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/[a-z]* /verif/build %s/verif; sed -i s,/repo,%s/repo, %s/verif/probe/Cargo.toml %s/verif/witness/Cargo.toml; git -C %s/repo checkout -q -- ." % ((W,) * 8), "/tmp")
R = W + "/repo"
for m in g["M"]:
    name, pids, f, old, new = m[:5]
    s = open(R + "/" + f).read()
    if s.count(old) != 1:
        print(name, "BAD EDIT", s.count(old)); continue
    open(R + "/" + f, "w").write(s.replace(old, new))
    try:
        if "-t" in sys.argv:
            r = sh("cargo test --workspace --no-fail-fast --offline -q --lib --tests 2>&1 | tail -5; exit ${PIPESTATUS[0]}")
            if "test result: ok" not in r.stdout or "FAILED" in r.stdout: print(name, "(existing tests catch it or does not build)")
        for p in pids.split(","):
            t = time.time()
            r = sh("timeout 900 python3 check.py " + p, W + "/verif")
            l = r.stdout.strip().split("\n")
            print(name, p, {0: "quiet", 1: "ALARM"}.get(r.returncode, "rc=%d" % r.returncode), "%.0fs" % (time.time() - t), (l[0][:230] if r.returncode else ""), flush=True)
    finally:
        sh("git checkout -q -- .")

sh("rm -rf " + W, "/tmp")
