import sys, time, json
sys.setrecursionlimit(10000)
from core import *
import leafs
def main(dump, names, **opts):
    p = Prog(dump)
    L = leafs.Leafs()
    rc = 0
    sh = opts.pop('shapes', 0)
    for n, fid in p.roots:
        short = n
        if names and not any(x in n for x in names):
            continue
        t = time.time()
        E = Engine(p, L, n, opts)
        err = None
        try:
            E.run(fid)
        except Unsupported as e:
            err = e
        print("==", n, "%.1fs" % (time.time() - t), "steps", E.steps, E.stats, "heads", len(E.visited))
        if sh:
            from collections import Counter
            C = Counter(tuple((p.fns[f[0]].key.split("::")[-1] if f[0] >= 0 else "", f[1]) for f in s[0]) for s in E.visited)
            for a, b in C.most_common(12):
                print("  ", b, a)
            ks = [s for s in E.visited if tuple((p.fns[f[0]].key.split("::")[-1] if f[0] >= 0 else "", f[1]) for f in s[0]) == C.most_common(1)[0][0]]
            for s in ks[:sh]:
                print("     ", s)
        for m, c in sorted(E.checks_seen.items()):
            print("   check", c, m)
        if err:
            print("   UNSUPPORTED", err)
            for s in E.stack()[:14]:
                print("      at", s)
            if opts.get("tb"):
                import traceback; traceback.print_exception(err)
        for v in E.violations:
            print("   VIOLATION", v["kind"], v["msg"])
            for s in v["stack"]:
                print("      at", s)
            for s in v["trace"][-(60 if GTRACE else 14):]:
                print("         ..", s)
if __name__ == "__main__":
    o = {}
    a = []
    for x in sys.argv[2:]:
        if "=" in x:
            k, v = x.split("=", 1); o[k] = eval(v)
        else:
            a.append(x)
    if o.pop("x", None) :
        from extract import extract
        open("/tmp/leafs.txt", "w").write(leafs.Leafs().export())
        print(extract(sys.argv[1], "/tmp/leafs.txt", None, sorted(set(n.split("::")[0] for n in a)) or None))
    main(sys.argv[1], a, **o)
