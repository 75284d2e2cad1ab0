#!/bin/bash
# builds the MIR driver and pre-compiles the probe's dependencies (offline)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 - <<'P'
import sys, os
sys.path.insert(0, "engine")
import extract, leafs
extract.build_driver()
lf = os.path.join(extract.BUILD, "leafs-setup.txt")
open(lf, "w").write(leafs.Leafs().export())
d = os.path.join(extract.BUILD, "dump-setup.json")
import witness
try:
    witness.deps()
    extract.extract(d, lf, ["c08::"], features=["c08"])
    os.unlink(d)
except Exception as e:
    # a broken tree is reported by the checks themselves
    print(e)
P
