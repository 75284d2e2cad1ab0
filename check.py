#!/usr/bin/env python3
"""check.py <property> [--learn]: decides one property of /repo by static analysis.

Extracts the monomorphic MIR that the property's most-general clients (probe/src/roots) reach from /repo's current
source, runs the abstract interpreter (engine/) on each client to a fixpoint, and compiles the property's type-level
witnesses.  exit 0: every obligation holds in every reachable abstract state; exit 1: a VIOLATION line; exit 2: the
analysis could not decide."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(20000)
import spec  # noqa: E402
import extract  # noqa: E402
import core  # noqa: E402
import leafs  # noqa: E402

PROG = None


def run_root(job):
    name, fid, opts = job
    t = time.time()
    E = core.Engine(PROG, leafs.Leafs(), name, opts)
    err = None
    try:
        E.run(fid)
    except core.Unsupported as e:
        err = str(e)
        err += " [" + "; ".join(E.stack()[:4]) + "]"
    except RecursionError:
        err = "recursion limit"
    except Exception as e:  # an analyser fault is never a verdict
        err = "analyser error: %r" % (e,)
        if os.environ.get("TB"):
            raise
    return dict(root=name, err=err, violations=E.violations, steps=E.steps, stats=E.stats, heads=len(E.visited),
                checks=E.checks_seen, fns=sorted(set(PROG.fns[i].key for i in E.used_fns)), wall=time.time() - t)


def known():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding:"):
            a = dict(x.split("=", 1) for x in line[8:].split("|"))
            out.setdefault(a["property"].strip(), []).append((a["root"].strip(), a["msg"].strip()))
    return out


def main():
    pid = sys.argv[1]
    learn = "--learn" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    s = spec.PROPS[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(extract.BUILD, exist_ok=True)
    res, viol, errs = [], [], []
    cov = {}
    if s.get("roots"):
        pats = list(s["roots"])
        if tier == "thorough":
            pats += s.get("thorough", [])
        dump = os.path.join(extract.BUILD, "dump-%s.json" % pid)
        lf = os.path.join(extract.BUILD, "leafs-%s.txt" % pid)
        open(lf, "w").write(leafs.Leafs().export())
        feats = sorted(set(p.split("::")[0] for p in pats))
        try:
            extract.extract(dump, lf, pats, features=feats)
        except Exception as e:
            print("analysis not possible: /repo or its clients do not compile\n%s" % e)
            sys.exit(2)
        global PROG
        PROG = core.Prog(dump)
        base = dict(timeout=600 if tier == "quick" else 3000, maxsteps=300000000, only=pid)
        base.update(s.get("opts", {}))
        jobs = []
        for n, fid in PROG.roots:
            if any(n.startswith(p) for p in pats):
                o = dict(base)
                for k, x in s.get("root_opts", {}).items():
                    if n.startswith(k):
                        o.update(x)
                for vn, x in s.get("variants", {"": {}}).items():
                    jobs.append((n + vn, fid, dict(o, **x)))
        for p in pats:
            if not any(j[0].startswith(p) for j in jobs):
                errs.append("no client matches " + p)
        with mp.Pool(min(8, max(1, len(jobs)))) as pool:
            res = pool.map(run_root, jobs, 1)
        os.unlink(dump)
    for r in res:
        viol += r["violations"]
        if r["err"]:
            errs.append("%s: %s" % (r["root"], r["err"]))
    # every obligation confirmed on the reference tree must still be reached
    ef = os.path.join(V, "engine", "expect.json")
    expect = json.load(open(ef)) if os.path.exists(ef) else {}
    if learn:
        if viol or errs:
            print("not learning from a tree with violations or errors", viol, errs)
            sys.exit(2)
        expect[pid] = {r["root"]: sorted(r["checks"]) for r in res}
        json.dump(expect, open(ef, "w"), indent=0, sort_keys=True)
    if not errs:
        for root, msgs in expect.get(pid, {}).items():
            r = [x for x in res if x["root"] == root]
            got = r[0]["checks"] if r else {}
            if r and r[0]["violations"]:
                continue
            for m in msgs:
                if m not in got:
                    viol.append(dict(root=root, kind="unreachable", stack=[], trace=[],
                                     msg="no execution of the client gets to the obligation: " + m))
    wit = []
    if s.get("witness"):
        import witness
        wit, wv, we = witness.run(pid, s["witness"])
        viol += wv
        errs += we
    kn = known().get(pid, [])
    new = []
    for v in viol:
        if (v["root"], v["msg"]) in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["root"], v["msg"]))
        else:
            new.append(v)
    fns = sorted(set(f for r in res for f in r["fns"]))
    nob = sum(len(r["checks"]) for r in res) + len(wit)
    cov = dict(
        explanation="Abstract interpretation (forward dataflow fixpoint with widening at loop heads) of the monomorphic MIR of "
                    "/repo reached from the most-general clients listed, plus compile-time witnesses; nothing is executed. "
                    "An obligation is discharged when it holds in every reachable abstract state.",
        obligations=nob,
        discharged=nob - len(set((v["root"], v["msg"]) for v in viol)),
        obligation_instances=sum(sum(r["checks"].values()) for r in res),
        abstract_states=sum(r["heads"] for r in res),
        transfer_steps=sum(r["steps"] for r in res),
        clients=[dict(client=r["root"], abstract_states=r["heads"], steps=r["steps"], obligations=len(r["checks"]),
                      wall_s=round(r["wall"], 2), undecided=r["err"]) for r in res],
        analysed_functions=len(fns),
        functions=[f for f in fns if f.startswith(("goggles", "<goggles")) or "goggles" in f][:250],
        rules=sorted(set(m for r in res for m in r["checks"]))[:150],
        witness_programs=len(wit),
        witnesses=wit[::max(1, len(wit) // 300)],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=s.get("level", "other"), coverage=cov,
              assumptions=s.get("assumptions", []) + ["models of std, hibitset and rayon in engine/leafs.py"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(extract.BUILD, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for v in new:
                f.write("%s in client %s: %s\n" % (v["kind"], v["root"], v["msg"]))
                for x in v["stack"]:
                    f.write("    at %s\n" % x)
                if v["trace"]:
                    f.write("  path through the call graph:\n")
                for x in v["trace"]:
                    f.write("    %s\n" % x)
                f.write("\n")
        for v in new[:8]:
            print("%s: %s [client %s] %s" % (v["kind"], v["msg"], v["root"], " < ".join(v["stack"][:5])))
        for e in errs:
            print("note: undecided: " + e)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if errs:
        for e in errs:
            print("UNDECIDED " + e)
        sys.exit(2)
    print("property %s holds: %d obligations in %d clients, %d abstract states, %d witnesses, %.1fs"
          % (pid, nob, len(res), cov["abstract_states"], len(wit), time.time() - t0))


try:
    main()
except SystemExit:
    raise
except BaseException as e:  # a fault of the machinery is never a verdict
    import traceback
    traceback.print_exc()
    print("UNDECIDED the check itself failed: %r" % (e,))
    sys.exit(2)
