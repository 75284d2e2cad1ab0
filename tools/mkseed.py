#!/usr/bin/env python3
"""mkseed.py <id> <property>: reads a spec on stdin: python source defining NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main.rs)"""
import sys, os, json, subprocess, shutil, difflib
i, p = sys.argv[1:3]
g = {}
exec(sys.stdin.read(), g)
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
out = ""
files = {}
for f, old, new in g["EDITS"]:
    s = files.get(f) or open("/repo/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    files[f] = s.replace(old, new)
for f, s in files.items():
    o = open("/repo/" + f).read()
    out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(1), s.splitlines(1), "a/" + f, "b/" + f))
open(d + "/patch.diff", "w").write(out)
json.dump(dict(property=p, needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.rs", "w").write(g["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.rs against the goggles in the current directory and runs it: exit 0 = property respected
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
%scp "$repo/Cargo.lock" "$w/" 2>/dev/null || true
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
goggles = { path = "$repo" }
rayon = "1"
[workspace]
T
cd "$w"
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS="-Awarnings"
cargo %s --offline -q
timeout 250 "$w/target/%s/demo"
%s''' % ("" if "BAD" not in g else 'cp "$here/bad.rs" "$w/bad.rs"\n', g.get("CARGO", "build"), g.get("BIN", "debug"),
       "" if "BAD" not in g else '''# bad.rs must be rejected
cp "$w/bad.rs" "$w/src/main.rs"
if cargo build --offline -q 2> "$w/err"; then echo "bad.rs compiles"; exit 1; fi
grep -q "error\\[E" "$w/err"
'''))
if "BAD" in g: open(d + "/bad.rs", "w").write(g["BAD"].lstrip())
