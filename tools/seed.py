#!/usr/bin/env python3
"""seed.py verify <id>...   confirm planted bugs in a scratch copy of /repo (build, stable tests, demo before/after)
seed.py check <id>...    apply each to a private copy of /repo, run its property's check there"""
import json, os, subprocess, sys, shutil
V = "/verif"
SC = "/tmp/seedwt"
env = dict(os.environ)

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def verify(i):
    d = os.path.join(V, "seeded", i)
    if not os.path.exists(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", SC)
    dd = "/tmp/seeddemo-" + i
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r0 = sh("bash %s/demo.sh" % dd, SC)
    a = sh("git apply %s/patch.diff" % d, SC)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout); return
    b = sh("cargo test --workspace --no-run --offline -q 2>&1 && cargo build --workspace --all-targets --no-default-features --offline -q", SC)
    t = sh("cargo test --workspace --no-fail-fast --offline -q --lib --tests -- --test-threads 8", SC)
    r1 = sh("bash %s/demo.sh" % dd, SC)
    sh("git checkout -q -- .", SC)
    shutil.rmtree(dd, ignore_errors=True)
    ok = r0.returncode == 0 and b.returncode == 0 and t.returncode == 0 and r1.returncode != 0
    print(i, "OK" if ok else "BAD", "clean-demo", r0.returncode, "build", b.returncode, "tests", t.returncode, "bug-demo", r1.returncode)
    if not ok or "-v" in sys.argv:
        print(r0.stdout[-1500:] if r0.returncode else "", b.stdout[-1500:] if b.returncode else "", t.stdout[-1500:] if t.returncode else "", r1.stdout[-800:])
    if "-v" in sys.argv: print(r1.stdout[-600:])

CK = "/tmp/seedck"

def copy():
    sh("mkdir -p %s; rsync -a --delete /repo/ %s/repo/; rsync -a --delete --exclude .git --exclude seeded /verif/ %s/verif/; sed -i s,/repo,%s/repo, %s/verif/probe/Cargo.toml %s/verif/witness/Cargo.toml; git -C %s/repo checkout -q -- ." % ((CK,) * 7), "/tmp")

def check(i):
    d = os.path.join(V, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    a = sh("git apply %s/patch.diff" % d, CK + "/repo")
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout); return
    try:
        r = sh("timeout 900 python3 check.py " + p, CK + "/verif")
    finally:
        sh("git checkout -q -- .", CK + "/repo")
    c = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
    print(i, p, "CAUGHT" if c else "MISSED rc=%d" % r.returncode)
    print("    " + "\n    ".join(r.stdout.strip().split("\n")[:4])[:900], flush=True)

ids = [x for x in sys.argv[2:] if x != "-v"] or sorted(os.listdir(V + "/seeded"))
if sys.argv[1] == "check": copy()
for i in ids:
    (verify if sys.argv[1] == "verify" else check)(i)
