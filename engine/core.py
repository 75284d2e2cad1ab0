"""Abstract interpreter over the dumped monomorphic MIR.

The analysis is a forward dataflow fixpoint: abstract states are partitioned by their discrete part
(call string, enum variants, set-membership bits, ...) and within one partition the numeric parts are
joined and widened at every loop head, so every loop (including the most-general-client loop of a
harness) is closed by a fixpoint, never by bounded unrolling."""
import re
import json
import os
import time
from num import Lin, Num, add, sub, neg, scale, sym, mk, const, norm_ineq, project, infeasible
from fractions import Fraction
from collections import deque

GTRACE = os.environ.get("GTRACE")
U = ("U",)
Q = ("?",)
FB = 4096
HEAPD = 1 << 20
HEAPB = HEAPD * FB
UNIT = ("A", -1, 0, ())


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, nums=None, n=0):
        self.nums = nums
        self.n = n


class Panic(Exception):
    def __init__(self, msg="", user=False):
        self.msg = msg
        self.user = user


class Dead(Exception):
    """the path is infeasible or irrelevant"""


class Halt(Exception):
    """path finished (violation recorded or program end)"""


class Fn:
    __slots__ = ("id", "d", "key", "blocks", "locals", "nargs", "spread", "leaf", "args", "file", "line",
                 "closure", "crate", "virtual", "heads", "liveat", "taken", "names", "short", "rec", "cleanup")


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        for i, t in enumerate(self.types):
            t["id"] = i
        self.fns = []
        for i, f in enumerate(d["fns"]):
            fn = Fn()
            fn.id = i
            fn.d = f
            fn.key = f["key"]
            fn.args = f["args"]
            fn.leaf = bool(f.get("leaf"))
            fn.file = f["file"]
            fn.line = f["line"]
            fn.crate = f["crate"]
            fn.closure = bool(f["closure"])
            fn.virtual = f.get("virtual")
            fn.heads = None
            fn.cleanup = None
            fn.taken = None
            fn.liveat = {}
            fn.rec = False
            if not fn.leaf:
                fn.blocks = f["blocks"]
                fn.locals = f["locals"]
                fn.nargs = f["nargs"]
                fn.spread = f["spread"]
                fn.names = dict((a, b) for a, b in f["names"])
            self.fns.append(fn)
        self.vts = d["vts"]
        self.roots = d["roots"]
        self.cache = {}
        self.by_key = {}
        for f in self.fns:
            self.by_key.setdefault(f.key, f)
        self.unit_ty = None
        for t in self.types:
            if t["k"] == "tuple" and not t["ts"]:
                self.unit_ty = t["id"]
            if t["k"] == "bool":
                self.bool_ty = t["id"]

    # -------------------------------------------------------------- types
    def is_zst(self, ty):
        k = ("z", ty)
        c = self.cache.get(k)
        if c is None:
            self.cache[k] = False
            t = self.types[ty]
            kk = t["k"]
            if kk in ("tuple", "closure"):
                c = all(self.is_zst(x) for x in t["ts"])
            elif kk == "fndef":
                c = True
            elif kk == "adt":
                c = (not t["opaque"]) and t["kind"] == "struct" and all(self.is_zst(x) for x in t["vs"][0][2])
            elif kk == "array":
                c = t["n"] == 0 or self.is_zst(t["to"])
            else:
                c = False
            self.cache[k] = c
        return c

    def only_variant(self, ty):
        """the variant of an enum that has a single possible value, which takes no memory"""
        t = self.types[ty]
        if t["k"] != "adt" or t["opaque"] or t["kind"] != "enum":
            return None
        live = [i for i, v in enumerate(t["vs"]) if not any(self.types[f]["k"] == "never" for f in v[2])]
        if len(live) == 1 and all(self.is_zst(f) for f in t["vs"][live[0]][2]):
            return live[0]
        return None

    def wrapper_field(self, ty):
        """index and type of the single non-ZST field of a struct/union, or None"""
        k = ("w", ty)
        if k in self.cache:
            return self.cache[k]
        t = self.types[ty]
        r = None
        if t["k"] == "adt" and not t["opaque"] and t["kind"] in ("struct", "union"):
            fs = [(i, f) for i, f in enumerate(t["vs"][0][2]) if not self.is_zst(f)]
            if len(fs) == 1:
                r = (0 if t["kind"] == "union" else fs[0][0], fs[0][1])
            elif not fs and t["vs"][0][2] and (t["kind"] == "union" or len(t["vs"][0][2]) == 1):
                # a wrapper of a value without data
                r = (0, t["vs"][0][2][-1])
        elif t["k"] in ("tuple", "closure"):
            fs = [(i, f) for i, f in enumerate(t["ts"]) if not self.is_zst(f)]
            if len(fs) == 1:
                r = fs[0]
        elif t["k"] == "pat":
            r = None
        self.cache[k] = r
        return r

    def field_tys(self, ty, variant=0):
        t = self.types[ty]
        if t["k"] == "adt":
            if t["kind"] == "union":
                return None
            return t["vs"][variant][2]
        if t["k"] in ("tuple", "closure"):
            return t["ts"]
        return None

    def zst_value(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "tuple" and not t["ts"]:
            return UNIT
        if k == "adt" and not t["opaque"]:
            return ("A", ty, 0, tuple(self.zst_value(f) for f in t["vs"][0][2]))
        if k in ("tuple", "closure"):
            return ("A", ty, 0, tuple(self.zst_value(f) for f in t["ts"]))
        if k == "array":
            return ("V", t["to"], 0, (), ())
        return ("A", ty, 0, ())

    def int_range(self, ty):
        t = self.types[ty]
        if t["k"] == "int":
            b = t["b"]
            if t["s"]:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] == "bool":
            return 0, 1
        return None

    def discr(self, ty, var):
        t = self.types[ty]
        if t["k"] == "adt" and t["kind"] == "enum":
            return t["vs"][var][1]
        return 0

    def adt_path(self, ty):
        t = self.types[ty]
        return t.get("path") if t["k"] in ("adt", "closure") else None

    # -------------------------------------------------------------- cfg
    def succs(self, b):
        t = b[1]
        k = t[0]
        if k == "g":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            return [t[3]] + ([t[4]] if t[4] >= 0 else [])
        if k == "call":
            r = [t[5]] if t[5] >= 0 else []
            return r + ([t[6]] if t[6] >= 0 else [])
        if k == "assert":
            return [t[4]] + ([t[5]] if t[5] >= 0 else [])
        return []

    def loop_heads(self, fn):
        if fn.heads is not None:
            return fn.heads
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(fn.blocks[0])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(fn.blocks[s]))))
                    break
                elif c == 1:
                    heads.add(s)
            else:
                color[n] = 2
                stack.pop()
        fn.heads = heads
        return heads

    def liveness(self, fn):
        """block -> set of locals live at block entry (address-taken ones are added by the caller)"""
        if fn.taken is not None:
            return fn.liveat
        taken = set()
        gen, kill = [], []

        def place_uses(p, g, k):
            if p[0] not in k:
                g.add(p[0])
            for e in p[1:]:
                if e[0] == "i" and e[1] not in k:
                    g.add(e[1])

        def op_uses(o, g, k):
            if o[0] in ("c", "m"):
                place_uses(o[1], g, k)

        def rv_uses(r, g, k):
            t = r[0]
            if t in ("use",):
                op_uses(r[1], g, k)
            elif t == "rep":
                op_uses(r[1], g, k)
            elif t == "ref":
                place_uses(r[2], g, k)
                if not any(e[0] == "d" for e in r[2][1:]):
                    taken.add(r[2][0])
            elif t == "cast":
                op_uses(r[2], g, k)
            elif t == "bin":
                op_uses(r[2], g, k)
                op_uses(r[3], g, k)
            elif t == "un":
                op_uses(r[2], g, k)
            elif t == "disc":
                place_uses(r[1], g, k)
            elif t == "agg":
                for o in r[5]:
                    op_uses(o, g, k)

        for b in fn.blocks:
            g, k = set(), set()
            for s in b[0]:
                if s[0] == "=":
                    rv_uses(s[2], g, k)
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                    else:
                        place_uses(s[1], g, k)
                elif s[0] in ("sl", "sx"):
                    if s[1] not in g:
                        k.add(s[1])
                elif s[0] == "sd":
                    place_uses(s[1], g, k)
                elif s[0] == "as":
                    op_uses(s[1], g, k)
                elif s[0] == "cp":
                    for o in s[1:4]:
                        op_uses(o, g, k)
            t = b[1]
            if t[0] == "sw":
                op_uses(t[1], g, k)
            elif t[0] == "drop":
                place_uses(t[1], g, k)
            elif t[0] == "call":
                if t[1][0] == "o":
                    op_uses(t[1][1], g, k)
                for o in t[2]:
                    op_uses(o, g, k)
                if len(t[3]) > 1:
                    place_uses(t[3], g, k)
            elif t[0] == "assert":
                op_uses(t[1], g, k)
            elif t[0] == "ret":
                if 0 not in k:
                    g.add(0)
            gen.append(g)
            kill.append(k)
        n = len(fn.blocks)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(fn.blocks[i]):
                    out |= live[s]
                new = gen[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        fn.taken = taken
        fn.liveat = live
        return live


class Frame:
    __slots__ = ("fn", "loc", "bb", "i", "dest", "kind", "x", "hv", "past")

    def __init__(self, fn, loc, bb, i, dest, kind="n", x=None, hv=(), past=False):
        self.hv = hv
        self.past = past
        self.fn = fn
        self.loc = loc
        self.bb = bb
        self.i = i
        self.dest = dest
        self.kind = kind
        self.x = x

    def copy(self):
        return Frame(self.fn, dict(self.loc), self.bb, self.i, self.dest, self.kind, self.x, self.hv, self.past)


class State:
    __slots__ = ("frames", "heap", "num", "tracked", "ghost", "choices", "ci", "trace", "nheap", "nsym", "undo",
                 "unw", "flags")

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.num = self.num
        s.tracked = self.tracked
        s.ghost = self.ghost
        s.choices = self.choices
        s.ci = 0
        s.trace = self.trace
        s.nheap = self.nheap
        s.nsym = self.nsym
        s.undo = []
        s.unw = self.unw
        s.flags = self.flags
        return s


def subst_value(v, f):
    """apply f to every int/Lin leaf"""
    t = type(v)
    if t is Lin or t is int:
        return f(v)
    if t is tuple:
        k = v[0] if v else None
        if k == "A":
            return ("A", v[1], v[2], tuple([subst_value(x, f) for x in v[3]]))
    return v


# models that write through their first argument without an atomic step
PLAIN_WRITES = {"add", "remove", "clear", "push", "pop", "truncate", "set_len", "insert", "extend", "write", "replace", "swap",
                "get_mut", "extend_from_slice", "append", "drain", "resize", "resize_with"}


class Engine:
    def __init__(self, prog, leafs, root, opts=None):
        self.p = prog
        self.types = prog.types
        self.leafs = leafs
        self.root = root
        self.opts = opts or {}
        self.visited = {}
        self.violations = []
        self.vkeys = set()
        self.work = []
        self.steps = 0
        self.maxsteps = self.opts.get("maxsteps", 3000000)
        self.deadline = time.time() + self.opts.get("timeout", 240)
        self.stats = {"forks": 0, "joins": 0, "states": 0, "paths": 0, "checks": 0, "leafcalls": 0}
        self.used_fns = set()
        self.checks_seen = {}
        self.foreign_c = {}
        self.unroll = self.opts.get("unroll")
        self.LIM = self.opts.get("lim", 2)
        self.leaf_cache = {}
        self.recs = {}

    # ------------------------------------------------------------ decisions
    def choose(self, n):
        st = self.st
        if st.ci < len(st.choices):
            st.ci += 1
            return st.choices[st.ci - 1]
        raise Fork(n=n)

    def ge0(self, e):
        st = self.st
        r = st.num.ge0(e)
        if r is not None:
            return r
        a = st.num.assume_ge0(e)
        b = st.num.assume_ge0(sub(-1, e))
        raise Fork(nums=[x for x in (a, b) if x is not None])

    def eq0(self, e):
        st = self.st
        r = st.num.eq0(e)
        if r is not None:
            return r
        a = st.num.assume_eq0(e)
        b = st.num.assume_ne0(e)
        raise Fork(nums=[x for x in (a, b) if x is not None])

    def assume_ge0(self, e):
        n = self.st.num.assume_ge0(e)
        if n is None:
            raise Dead()
        self.st.num = n

    def assume_ne0(self, e):
        n = self.st.num.assume_ne0(e)
        if n is None:
            raise Dead()
        self.st.num = n

    def fresh(self, lo, hi):
        st = self.st
        v = st.nsym
        st.nsym += 1
        st.num = st.num.with_sym(v, lo, hi)
        return sym(v)

    def fresh_ty(self, ty):
        r = self.p.int_range(ty)
        if r is None:
            return Q
        return self.fresh(*r)

    # a value of type ty about which nothing is known; enums choose a variant
    def havoc(self, ty, depth=0):
        t = self.types[ty]
        k = t["k"]
        if k == "int" or k == "char":
            return self.fresh_ty(ty)
        if k == "bool":
            return bool(self.choose(2))
        if k == "adt" and not t["opaque"]:
            if t["kind"] == "enum":
                vs = t["vs"]
                var = self.choose(len(vs)) if len(vs) > 1 else 0
                return ("A", ty, var, tuple(self.havoc(f, depth + 1) for f in vs[var][2]))
            if t["kind"] == "struct":
                return ("A", ty, 0, tuple(self.havoc(f, depth + 1) for f in t["vs"][0][2]))
        if k in ("tuple", "closure"):
            if not t["ts"] and k == "tuple":
                return UNIT
            return ("A", ty, 0, tuple(self.havoc(f, depth + 1) for f in t["ts"]))
        if k == "pat":
            return self.havoc(t["to"])
        return Q

    # ------------------------------------------------------------ memory
    def getbase(self, loc):
        d, l = divmod(loc, FB)
        if d >= HEAPD:
            return self.st.heap.get(loc, U)
        return self.st.frames[d].loc.get(l, U)

    def setbase(self, loc, v):
        st = self.st
        d, l = divmod(loc, FB)
        if d >= HEAPD:
            m = st.heap
            l = loc
        else:
            m = st.frames[d].loc
        st.undo.append((m, l, m.get(l)))
        m[l] = v

    def alloc(self, v):
        st = self.st
        loc = HEAPB + st.nheap * FB
        st.nheap += 1
        self.setbase(loc, v)
        return loc

    def find_elem(self, v, idx):
        """index into v's explicit elements, or -1"""
        elems = v[3]
        st = self.st
        # exact hits first
        unk = []
        for i, (p, _) in enumerate(elems):
            if p is idx or p == idx:
                return i
            r = st.num.eq0(sub(p, idx))
            if r:
                return i
            if r is None:
                unk.append(i)
        for i in unk:
            if self.eq0(sub(elems[i][0], idx)):
                return i
        return -1

    def get(self, loc, path, touch=True):
        v = self.getbase(loc)
        for n, s in enumerate(path):
            if type(s) is int:
                if v[0] == "A":
                    v = v[3][s]
                elif v is U or v is Q:
                    return v
                elif v[0] == "P" and s == 0:
                    pass  # the pointer inside a box
                else:
                    raise Unsupported("field %r of %r" % (s, v[0]))
            elif s[0] == "e":
                if v is U or v is Q:
                    return v
                if v[0] != "V":
                    if v[0] == "A" and self.types[v[1]]["k"] == "adt" :
                        w = self.p.wrapper_field(v[1])
                    raise Unsupported("element of %r" % (v[:3],))
                i = self.find_elem(v, s[1])
                if i >= 0:
                    v = v[3][i][1]
                else:
                    if not v[4]:
                        return U
                    if self.st.tracked and "o" not in self.st.flags:
                        self.st.flags = self.st.flags + ("o",)
                    x = self.materialise(v[4], v[1])
                    self.set_elem(loc, path[:n], v, s[1], x)
                    v = x
            elif s[0] == "k":
                if v is U or v is Q:
                    return v
                i = self.map_find(v, s[1])
                if i < 0:
                    return U
                v = v[3][i][1]
            else:
                raise Unsupported("path step %r" % (s,))
        return v

    def set_elem(self, loc, path, v, idx, x):
        nv = ("V", v[1], v[2], v[3] + ((idx, x),), v[4])
        self.put(loc, path, nv)

    def map_find(self, m, key):
        unk = []
        for i, (k, _) in enumerate(m[3]):
            r = self.val_eq_q(k, key)
            if r:
                return i
            if r is None:
                unk.append(i)
        for i in unk:
            if self.val_eq(m[3][i][0], key):
                return i
        return -1

    # structural equality of plain-data values: query (None = unknown) and deciding versions
    def val_eq_q(self, a, b):
        ta, tb = type(a), type(b)
        if ta is bool and tb is bool:
            return a == b
        if ta in (int, Lin, bool) and tb in (int, Lin, bool):
            return self.st.num.eq0(sub(int(a) if ta is bool else a, int(b) if tb is bool else b))
        if a is Q or b is Q:
            return None
        if ta is tuple and tb is tuple:
            if a[0] != b[0]:
                return None if Q in (a, b) else False
            k = a[0]
            if k == "A":
                if a[2] != b[2] or len(a[3]) != len(b[3]):
                    return False
                res = True
                for x, y in zip(a[3], b[3]):
                    r = self.val_eq_q(x, y)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if k == "P":
                x = self.get(a[1], a[2])
                y = self.get(b[1], b[2])
                return self.val_eq_q(x, y)
            return a == b
        return False

    def val_eq(self, a, b):
        ta, tb = type(a), type(b)
        if ta is bool and tb is bool:
            return a == b
        if ta in (int, Lin, bool) and tb in (int, Lin, bool):
            return self.eq0(sub(int(a) if ta is bool else a, int(b) if tb is bool else b))
        if a is Q or b is Q:
            return bool(self.choose(2))
        if a is U or b is U:
            self.violation("ub", "comparison of uninitialised memory")
            raise Halt()
        if ta is tuple and tb is tuple:
            if a[0] != b[0]:
                return False
            k = a[0]
            if k == "A":
                if a[2] != b[2] or len(a[3]) != len(b[3]):
                    return False
                for x, y in zip(a[3], b[3]):
                    if not self.val_eq(x, y):
                        return False
                return True
            if k == "P":
                return self.val_eq(self.get(a[1], a[2]), self.get(b[1], b[2]))
            return a == b
        return False

    def put(self, loc, path, val, ctys=None):
        if not path:
            self.setbase(loc, val)
            return
        base = self.getbase(loc)
        self.setbase(loc, self._upd(base, path, 0, val, ctys))

    def _skeleton(self, ctys, path, i):
        if ctys is None:
            raise Unsupported("write into uninitialised aggregate")
        j = i - (len(path) - len(ctys))
        if j < 0:
            raise Unsupported("write into uninitialised aggregate behind pointer")
        ty, var = ctys[j]
        t = self.types[ty]
        if t["k"] == "adt" and t["kind"] == "union":
            return ("A", ty, 0, (U,))
        if t["k"] == "array":
            return ("V", t["to"], t["n"], (), (U,))
        fs = self.p.field_tys(ty, var)
        if fs is None:
            raise Unsupported("skeleton of %s" % t["n"])
        return ("A", ty, var, (U,) * len(fs))

    def _upd(self, v, path, i, val, ctys):
        if i == len(path):
            return val
        s = path[i]
        if v is U or v is Q:
            if type(s) is int or v is U:
                v = self._skeleton(ctys, path, i)
        if type(s) is int:
            if v[0] == "P" and s == 0:
                # the pointer inside a box
                r = self._upd(v, path, i + 1, val, ctys)
                return r if r is U else self.to_ptr(r)
            if v[0] != "A":
                raise Unsupported("field write into %r" % (v[0],))
            f = v[3]
            return ("A", v[1], v[2], f[:s] + (self._upd(f[s], path, i + 1, val, ctys),) + f[s + 1:])
        if s[0] == "e":
            if v[0] != "V":
                raise Unsupported("element write into %r" % (v[0],))
            j = self.find_elem(v, s[1])
            el = v[3]
            if j >= 0:
                nv = self._upd(el[j][1], path, i + 1, val, ctys)
                return ("V", v[1], v[2], el[:j] + ((el[j][0], nv),) + el[j + 1:], v[4])
            if i + 1 == len(path):
                x = U
            elif v[4]:
                x = self.materialise(v[4], v[1])
            else:
                x = U
            return ("V", v[1], v[2], el + ((s[1], self._upd(x, path, i + 1, val, ctys)),), v[4])
        if s[0] == "k":
            j = self.map_find(v, s[1])
            el = v[3]
            if j < 0:
                raise Unsupported("write to missing map entry")
            nv = self._upd(el[j][1], path, i + 1, val, ctys)
            return ("M", v[1], v[2], el[:j] + ((el[j][0], nv),) + el[j + 1:], v[4])
        raise Unsupported("path")

    # rest templates: values whose ints are ('*', lo, hi, ne) markers
    def materialise(self, rest, ety):
        i = self.choose(len(rest)) if len(rest) > 1 else 0
        return self._mat(rest[i])

    def _mat(self, v):
        if type(v) is tuple and v:
            if v[0] == "*":
                x = self.fresh(v[1], v[2])
                for t in v[3]:
                    if t < len(self.st.tracked):
                        self.assume_ne0(sub(x, self.st.tracked[t]))
                return x
            if v[0] == "*b":
                return bool(self.choose(2))
            if v[0] == "A":
                return ("A", v[1], v[2], tuple(self._mat(x) for x in v[3]))
            if v[0] == "*p":
                return ("P", self.alloc(self._mat(v[2])), (), v[1])
            if v[0] == "V":
                return ("V", v[1], self._mat(v[2]), v[3], v[4])
        return v

    def shape_key(self, v):
        if type(v) is tuple and v:
            if v[0] == "A":
                return ("A", v[2]) + tuple(self.shape_key(x) for x in v[3])
            if v[0] in ("P", "F", "T", "U", "?"):
                return v[0]
            return v[0]
        if type(v) is bool or type(v) is int:
            return v
        return "#"

    def templ(self, v):
        """abstract a value into a rest template (no tracked content inside)"""
        st = self.st
        t = type(v)
        if t is int or t is Lin:
            lo, hi = st.num.interval(st.num.nrm(v))
            if self.opts.get("coarse"):
                lo, hi = (0, (1 << 24) - 1 if hi is not None and hi < 1 << 24 else (1 << 31) - 1 if hi is not None and hi < 1 << 31 else (1 << 32) - 1 if hi is not None and hi < 1 << 32 else None) \
                    if lo is not None and lo >= 0 else (-(1 << 31), (1 << 31) - 1) if None not in (lo, hi) and lo >= -(1 << 31) and hi < 1 << 31 \
                    else (None, None)
            ne = []
            for i, k in enumerate(st.tracked):
                if st.num.eq0(sub(v, k)) is False:
                    ne.append(i)
            return ("*", lo, hi, tuple(ne))
        if t is bool:
            return v
        if v[0] == "A":
            return ("A", v[1], v[2], tuple(self.templ(x) for x in v[3]))
        if v[0] == "V":
            rest = v[4]
            for _, x in v[3]:
                rest = self.tjoin(rest, self.templ(x))
            return ("V", v[1], self.templ(v[2]), (), rest)
        if v[0] == "P":
            if v[1] // FB >= HEAPD and not v[2]:
                return ("*p", v[3], self.templ(self.getbase(v[1])))
            raise Unsupported("summary of pointers")
        if v[0] in ("B", "M", "I"):
            raise Unsupported("summary of nested containers")
        return v

    def tmerge(self, a, b):
        """merge two templates of equal shape or return None"""
        if a == b:
            return a
        if type(a) is bool or type(b) is bool:
            return None
        if a[0] == "*" and b[0] == "*":
            lo = None if a[1] is None or b[1] is None else (a[1] if a[1] <= b[1] else (0 if b[1] >= 0 else (-(1 << 31) if b[1] >= -(1 << 31) else None)))
            if a[2] is None or b[2] is None:
                hi = None
            elif a[2] >= b[2]:
                hi = a[2]
            else:
                hi = None
                for c in (1, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
                    if b[2] <= c:
                        hi = c
                        break
            return ("*", lo, hi, tuple(x for x in a[3] if x in b[3]))
        if a[0] == "A" and b[0] == "A" and a[1] == b[1] and a[2] == b[2]:
            r = []
            for x, y in zip(a[3], b[3]):
                m = self.tmerge(x, y)
                if m is None:
                    return None
                r.append(m)
            return ("A", a[1], a[2], tuple(r))
        if a[0] == "*p" and b[0] == "*p" and a[1] == b[1]:
            n = self.tmerge(a[2], b[2])
            return None if n is None else ("*p", a[1], n)
        if a[0] == "V" and b[0] == "V" and a[1] == b[1]:
            n = self.tmerge(a[2], b[2])
            if n is None:
                return None
            rest = a[4]
            for x in b[4]:
                rest = self.tjoin(rest, x)
            return ("V", a[1], n, (), rest)
        return None

    def tjoin(self, rest, x):
        for i, r in enumerate(rest):
            m = self.tmerge(r, x)
            if m is not None:
                return rest[:i] + (m,) + rest[i + 1:]
        return tuple(sorted(rest + (x,), key=repr))

    # ------------------------------------------------------------ places
    def peel(self, loc, path, ty):
        """descend through wrapper types until the stored value has type ty"""
        v = self.get(loc, path)
        n = 0
        while type(v) is tuple and v and v[0] == "A" and v[1] != ty:
            if v[1] == -1:
                break
            t = self.types[ty]
            w = self.p.wrapper_field(v[1])
            if w is None:
                break
            if t["k"] in ("dyn", "slice", "str") :
                break
            path = path + (w[0],)
            v = v[3][w[0]]
            n += 1
            if n > 20:
                break
        return path

    def peel_elem(self, loc, path, ty, ctys):
        """a slice viewed at another, transparent, element type"""
        v = self.get(loc, path[:-1])
        if v[0] != "V" or v[1] == ty or v[1] < 0 or self.types[v[1]]["k"] != "adt":
            return path
        p2 = self.peel(loc, path, ty)
        for _ in range(len(p2) - len(path)):
            ctys.append((v[1], 0))
        return p2

    def place(self, fr, depth, pl):
        """-> loc, path, meta, ctys"""
        loc = depth * FB + pl[0]
        if len(pl) == 1:
            return loc, (), None, None
        path = ()
        ctys = []
        meta = None
        cur = fr.fn.locals[pl[0]]
        var = 0
        types = self.types
        for e in pl[1:]:
            k = e[0]
            if k == "d":
                v = self.get(loc, path)
                if v[0] == "A":
                    v = self.to_ptr(v)
                if v[0] != "P":
                    if v is U:
                        self.violation("ub", "dereference of uninitialised pointer")
                        raise Halt()
                    if v[0] == "S":
                        loc = self.alloc(v)
                        path = ()
                        meta = None
                        cur = e[1]
                        ctys = []
                        continue
                    if v is Q:
                        raise Unsupported("dereference of unknown pointer")
                    raise Unsupported("deref of %r" % (v,))
                loc, path, meta = v[1], v[2], v[3]
                cur = e[1]
                ctys = []
                tk = types[cur]["k"]
                if tk not in ("dyn", "slice", "str"):
                    path = self.peel(loc, path, cur)
                var = 0
            elif k == "f":
                t = types[cur]
                if t["k"] == "adt" and t["kind"] == "union":
                    path = path + (0,)
                    ctys.append((cur, 0))
                    path2 = self.peel(loc, path, e[2])
                    for _ in range(len(path2) - len(path)):
                        ctys.append((cur, 0))
                    path = path2
                else:
                    path = path + (e[1],)
                    ctys.append((cur, var))
                cur = e[2]
                var = 0
            elif k == "v":
                var = e[1]
            elif k == "i":
                idx = fr.loc.get(e[1], U)
                if meta is not None and meta[0] == "s":
                    idx = add(meta[1], idx)
                path = path + (("e", idx),)
                ctys.append((cur, 0))
                cur = e[2]
                meta = None
                path = self.peel_elem(loc, path, cur, ctys)
            elif k == "ci":
                if e[2]:
                    ln = meta[2] if meta is not None and meta[0] == "s" else self.get(loc, path)[2]
                    idx = sub(ln, e[1])
                else:
                    idx = e[1]
                if meta is not None and meta[0] == "s":
                    idx = add(meta[1], idx)
                path = path + (("e", idx),)
                ctys.append((cur, 0))
                cur = e[3]
                meta = None
                path = self.peel_elem(loc, path, cur, ctys)
            elif k == "s":
                if meta is not None and meta[0] == "s":
                    st_, ln = meta[1], meta[2]
                else:
                    st_, ln = 0, self.get(loc, path)[2]
                if e[3]:
                    meta = ("s", add(st_, e[1]), sub(sub(ln, e[1]), e[2]))
                else:
                    meta = ("s", add(st_, e[1]), e[2] - e[1])
                cur = e[4]
            else:
                cur = e[1]
        return loc, path, meta, ctys

    def read(self, fr, depth, pl):
        if len(pl) == 1:
            return fr.loc.get(pl[0], U)
        loc, path, meta, _ = self.place(fr, depth, pl)
        return self.get(loc, path)

    def operand(self, fr, depth, o):
        k = o[0]
        if k == "c":
            pl = o[1]
            if len(pl) == 1:
                return fr.loc.get(pl[0], U)
            return self.read(fr, depth, pl)
        if k == "m":
            pl = o[1]
            if len(pl) == 1:
                v = fr.loc.get(pl[0], U)
                if type(v) is tuple:
                    self.st.undo.append((fr.loc, pl[0], v))
                    fr.loc[pl[0]] = U
                return v
            loc, path, meta, _ = self.place(fr, depth, pl)
            v = self.get(loc, path)
            if type(v) is tuple and v is not U:
                self.put(loc, path, U)
            return v
        return self.constant(o[1])

    def constant(self, c):
        k = c[0]
        if k == "i":
            t = self.types[c[1]]
            if t["k"] == "bool":
                return bool(c[2])
            return c[2]
        if k == "z":
            return self.p.zst_value(c[1])
        if k == "s":
            return ("S", c[2])
        if k == "a":
            t = self.types[c[1]]
            fs = tuple(self.constant(x) for x in c[3])
            if t["k"] == "array":
                return ("V", t["to"], t["n"], tuple((i, x) for i, x in enumerate(fs)), ())
            if t["k"] == "tuple" and not fs:
                return UNIT
            return ("A", c[1], c[2], fs)
        if k == "p":
            return self.eval_const_fn(c[2])
        return Q

    def eval_const_fn(self, fid):
        """evaluate a promoted / const body by a nested deterministic run"""
        key = ("const", fid)
        if key in self.p.cache:
            r = self.p.cache[key]
        else:
            fn = self.p.fns[fid]
            if fn.leaf:
                r = None
            else:
                e2 = Engine(self.p, self.leafs, "const", {"timeout": 5, "maxsteps": 100000})
                try:
                    r = e2.eval_single(fn)
                except (Unsupported, Panic, Fork, Dead, Halt):
                    r = None
            self.p.cache[key] = r
        if r is None:
            return Q
        val, heap = r
        if not heap:
            return val
        # import heap cells
        m = {}
        for l in heap:
            m[l] = HEAPB + self.st.nheap * FB
            self.st.nheap += 1
        for l, v in heap.items():
            self.setbase(m[l], self.remap(v, m))
        return self.remap(val, m)

    def remap(self, v, m):
        if type(v) is tuple and v:
            if v[0] == "P":
                return ("P", m.get(v[1], v[1]), v[2], v[3])
            if v[0] == "A":
                return ("A", v[1], v[2], tuple(self.remap(x, m) for x in v[3]))
            if v[0] == "V":
                return ("V", v[1], v[2], tuple((i, self.remap(x, m)) for i, x in v[3]), v[4])
        return v

    def eval_single(self, fn):
        st = new_state()
        self.st = st
        holder = Frame(fn, {}, 0, 0, None, "const")
        st.frames.append(Frame(fn, {}, 0, 0, None, "n"))
        st.undo = []
        n = 0
        while True:
            n += 1
            if n > 2000:
                raise Unsupported("const")
            fr = st.frames[-1]
            r = self.step(fr)
            if r == "end":
                break
        v = self.result
        # locals referenced from the result live on as heap cells
        heap = {}
        def walk(x):
            if type(x) is tuple and x:
                if x[0] == "P":
                    if x[1] not in heap:
                        heap[x[1]] = None
                        heap[x[1]] = self.constbase(x[1])
                        walk(heap[x[1]])
                elif x[0] == "A":
                    for y in x[3]:
                        walk(y)
                elif x[0] == "V":
                    for _, y in x[3]:
                        walk(y)
        walk(v)
        return v, heap

    def constbase(self, loc):
        d, l = divmod(loc, FB)
        if d >= HEAPD:
            return self.st.heap.get(loc, U)
        return self.lastlocals.get(l, U)

    # ------------------------------------------------------------ value conversions
    def to_ptr(self, v):
        n = 0
        while type(v) is tuple and v and v[0] == "A":
            w = self.p.wrapper_field(v[1])
            if w is None:
                return v
            v = v[3][w[0]]
            n += 1
            if n > 20:
                break
        return v

    def peel_val(self, v):
        while type(v) is tuple and v and v[0] == "A":
            if v[1] == -1:
                return v
            w = self.p.wrapper_field(v[1])
            if w is None:
                return v
            v = v[3][w[0]]
        return v

    def retype(self, v, ty, meta="keep"):
        """give v (wrappers around a pointer, or plain data) the type ty; optionally replace pointer meta"""
        if type(v) is tuple and v:
            if v[0] == "P":
                t = self.types[ty]
                if t["k"] in ("adt",) and not t["opaque"]:
                    return self.wrap(v if meta == "keep" else ("P", v[1], v[2], meta), ty)
                return v if meta == "keep" else ("P", v[1], v[2], meta)
            if v[0] == "A" and v[1] != -1:
                t = self.types[ty]
                if t["k"] == "adt" and not t["opaque"] and t["kind"] != "union":
                    fs = t["vs"][v[2]][2]
                    if len(fs) == len(v[3]):
                        return ("A", ty, v[2], tuple(self.retype(x, f, meta) for x, f in zip(v[3], fs)))
                elif t["k"] == "adt" and t["kind"] == "union":
                    return ("A", ty, 0, v[3])
                elif t["k"] in ("tuple", "closure"):
                    return ("A", ty, 0, tuple(self.retype(x, f, meta) for x, f in zip(v[3], t["ts"])))
        return v

    def wrap(self, v, ty):
        t = self.types[ty]
        if t["k"] == "adt" and not t["opaque"]:
            if t["kind"] == "union":
                return ("A", ty, 0, (v,))
            if t["kind"] == "struct":
                w = self.p.wrapper_field(ty)
                fs = t["vs"][0][2]
                if w is None:
                    raise Unsupported("wrap into %s" % t["n"])
                return ("A", ty, 0, tuple(self.wrap(v, f) if i == w[0] else self.p.zst_value(f) for i, f in enumerate(fs)))
            if type(v) is int and not any(x[2] for x in t["vs"]):
                for i in range(len(t["vs"])):
                    if self.p.discr(ty, i) == v:
                        return ("A", ty, i, ())
            if type(v) in (int, Lin):
                return Q
            raise Unsupported("wrap into enum %s" % t["n"])
        return v

    def transmute(self, v, sty, dty):
        if sty == dty:
            return v
        d = self.types[dty]
        s = self.types[sty]
        dk = d["k"]
        if type(v) is tuple and (v is U or v is Q):
            return v
        if dk in ("ref", "ptr", "fnptr", "pat"):
            x = self.to_ptr(v)
            if type(x) is int or type(x) is Lin:
                return x if dk == "pat" else Q
            if type(x) is tuple and x[0] == "P":
                return x
            if type(x) is tuple and x[0] in ("F", "S"):
                return x
            return Q
        if dk in ("int", "bool", "char"):
            x = self.peel_val(v)
            if type(x) is tuple and x[0] == "T":
                return x
            if type(x) is bool:
                x = int(x)
            if type(x) in (int, Lin):
                if dk == "bool":
                    return not self.eq0(x)
                return self.fit(x, dty)
            if type(x) is tuple and x[0] == "A" and self.types[x[1]]["k"] == "adt" and self.types[x[1]]["kind"] == "enum":
                # e.g. transmute of a fieldless enum or Option<NonZero>
                inner = x[3]
                if not inner:
                    nm = self.types[x[1]].get("path", "")
                    if nm == "core::option::Option":
                        return 0
                    return self.p.discr(x[1], x[2])
                return self.transmute(inner[0], 0, dty)
            return self.havoc(dty)
        if dk == "adt" and not d["opaque"]:
            if type(v) is tuple and v[0] == "A":
                pv = self.peel_val(v)
                if type(pv) is tuple and pv[0] == "A" and pv[1] == dty:
                    return pv
                if s["k"] == "adt" and s.get("path") == d.get("path"):
                    return self.retype(v, dty)
                if type(pv) is not tuple or pv[0] in ("P", "S", "F"):
                    return self._wrap_enum(pv, dty)
                # wrapper around the very same value
                w = self.p.wrapper_field(dty)
                n = 0
                chain = []
                t = dty
                while w is not None and n < 10:
                    chain.append(t)
                    if w[1] == v[1] or w[1] == (pv[1] if type(pv) is tuple and pv[0] == "A" else -2):
                        r = v if w[1] == v[1] else pv
                        for c in reversed(chain):
                            r = self._wrap1(r, c)
                        return r
                    t = w[1]
                    w = self.p.wrapper_field(t)
                    n += 1
                return Q
            return self._wrap_enum(v, dty)
        if dk in ("tuple", "closure") and type(v) is tuple and v[0] == "A":
            return self.retype(v, dty)
        if dk == "array" and type(v) is tuple and v[0] == "V":
            return ("V", d["to"], d["n"], v[3], v[4])
        if type(v) is tuple and v[0] in ("V", "M", "B", "I"):
            return v
        x = self.peel_val(v)
        if type(x) is tuple and x[0] in ("V", "M", "B", "I"):
            return x
        return Q

    def _wrap1(self, v, ty):
        t = self.types[ty]
        if t["kind"] == "union":
            return ("A", ty, 0, (v,))
        w = self.p.wrapper_field(ty)
        fs = t["vs"][0][2]
        return ("A", ty, 0, tuple(v if i == w[0] else self.p.zst_value(f) for i, f in enumerate(fs)))

    def _wrap_enum(self, v, ty):
        t = self.types[ty]
        if t["k"] == "adt" and t["kind"] == "enum":
            if t.get("path") == "core::option::Option" and type(v) in (int, Lin):
                if self.eq0(v):
                    return ("A", ty, 0, ())
                return ("A", ty, 1, (self._wrap_enum(v, t["vs"][1][2][0]),))
            if t.get("path") == "core::option::Option" and type(v) is tuple and v[0] == "P":
                return ("A", ty, 1, (self._wrap_enum(v, t["vs"][1][2][0]),))
            if type(v) is int:
                for i, vv in enumerate(t["vs"]):
                    if vv[1] == v and not vv[2]:
                        return ("A", ty, i, ())
            return Q
        return self.wrap(v, ty)

    def fit(self, e, ty):
        """value e converted to integer type ty (wrapping)"""
        lo, hi = self.p.int_range(ty)
        if type(e) is int:
            if lo <= e <= hi:
                return e
            m = hi - lo + 1
            return (e - lo) % m + lo
        if self.ge0(sub(e, lo)) and self.ge0(sub(hi, e)):
            return e
        # out of range by one modulus?
        m = hi - lo + 1
        r = self.fresh(lo, hi)
        if self.st.num.ge0(sub(e, lo)) is True:
            x = sub(e, m)
            if self.st.num.ge0(sub(x, lo)) is True and self.st.num.ge0(sub(hi, x)) is True:
                return x
        else:
            x = add(e, m)
            if self.st.num.ge0(sub(x, lo)) is True and self.st.num.ge0(sub(hi, x)) is True:
                return x
        return r

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, depth, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, depth, r[1])
        if k == "ref":
            pl = r[2]
            if len(pl) == 1:
                return ("P", depth * FB + pl[0], (), None)
            if len(pl) == 2 and pl[1][0] == "d" and self.getbase(depth * FB + pl[0]) is Q:
                return Q
            loc, path, meta, _ = self.place(fr, depth, pl)
            return ("P", loc, path, meta)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, depth, r[2]), self.operand(fr, depth, r[3]), r[4])
        if k == "disc":
            v = self.read(fr, depth, r[1])
            if v is U:
                z = self.p.only_variant(r[2])
                if z is not None:
                    return self.p.discr(r[2], z)
                self.violation("ub", "read of uninitialised enum")
                raise Halt()
            if v is Q:
                return Q
            if v[0] == "A":
                return self.p.discr(v[1], v[2])
            raise Unsupported("discriminant of %r" % (v[0],))
        if k == "agg":
            ops = tuple([self.operand(fr, depth, o) for o in r[5]])
            kn, ty, var, af = r[1], r[2], r[3], r[4]
            if kn == "adt":
                if af >= 0 and self.types[ty]["kind"] == "union":
                    return ("A", ty, 0, (ops[0],))
                return ("A", ty, var, ops)
            if kn == "tuple":
                if not ops:
                    return UNIT
                return ("A", ty, 0, ops)
            if kn == "closure":
                return ("A", ty, 0, ops)
            if kn == "array":
                t = self.types[ty]
                return ("V", t["to"], len(ops), tuple((i, x) for i, x in enumerate(ops)), ())
            if kn == "rawptr":
                p = ops[0]
                m = ops[1]
                p = self.to_ptr(p)
                if type(p) is tuple and p[0] == "P":
                    if m == UNIT:
                        return ("P", p[1], p[2], None)
                    if type(m) in (int, Lin):
                        return self.slice_from_raw(p, m)
                    return ("P", p[1], p[2], m)
                return Q
            raise Unsupported("aggregate " + kn)
        if k == "cast":
            v = self.operand(fr, depth, r[2])
            return self.cast(r[1], v, r[3], r[4], r[5])
        if k == "un":
            v = self.operand(fr, depth, r[2])
            op = r[1]
            if op == "Not":
                if type(v) is bool:
                    return not v
                if type(v) is int:
                    lo, hi = self.p.int_range(r[3])
                    x = ~v
                    return x if lo <= x <= hi else x & hi
                if v is Q:
                    return Q
                if type(v) is Lin:
                    lo, hi = self.p.int_range(r[3])
                    return sub(hi, v) if lo == 0 else sub(-1, v)
            if op == "Neg":
                if type(v) in (int, Lin):
                    return neg(v)
                return Q
            if op == "PtrMetadata":
                v = self.to_ptr(v)
                if type(v) is tuple and v[0] == "P":
                    m = v[3]
                    if m is None:
                        t = self.types[r[3]]
                        to = self.types[t["to"]] if "to" in t else None
                        if to is not None and to["k"] == "slice":
                            x = self.get(v[1], v[2])
                            if type(x) is tuple and x[0] == "V":
                                return x[2]
                        return UNIT
                    if m[0] == "s":
                        return m[2]
                    return m
                return Q
            raise Unsupported("unop " + op)
        if k == "rep":
            v = self.operand(fr, depth, r[1])
            n = r[2]
            if 0 <= n <= 4:
                return ("V", -1, n, tuple((i, v) for i in range(n)), ())
            return ("V", -1, n, (), (self.templ(v),))
        raise Unsupported("rvalue " + k)

    def slice_from_raw(self, p, ln):
        path = p[2]
        if p[3] is not None and p[3][0] == "s":
            return ("P", p[1], path, ("s", p[3][1], ln))
        if path and type(path[-1]) is tuple and path[-1][0] == "e":
            return ("P", p[1], path[:-1], ("s", path[-1][1], ln))
        v = self.get(p[1], path)
        if type(v) is tuple and v[0] == "V":
            return ("P", p[1], path, ("s", 0, ln))
        if ln == 1 or ln == 0:
            return ("P", p[1], path, ("one", 0, ln))
        raise Unsupported("slice from raw parts")

    def cast(self, k, v, sty, dty, info):
        if k == "int":
            if type(v) is bool:
                return int(v)
            if type(v) in (int, Lin):
                return self.fit(v, dty)
            if v is U:
                return U
            if v is Q:
                return self.havoc(dty)
            if type(v) is tuple and v[0] == "A":
                return self.fit(self.p.discr(v[1], v[2]), dty)
            raise Unsupported("int cast of %r" % (v,))
        if k == "ptr":
            v = self.to_ptr(v)
            if type(v) is tuple and v[0] == "P" and v[3] is not None:
                to = self.types[dty].get("to")
                if to is not None and self.types[to]["k"] not in ("dyn", "slice", "str", "adt", "other"):
                    if v[3][0] == "s":
                        return ("P", v[1], v[2] + (("e", v[3][1]),), None)
                    return ("P", v[1], v[2], None)
                if to is not None and self.types[to]["k"] == "adt":
                    # thin ADT pointee: drop dyn metadata
                    st = self.types[sty].get("to") if "to" in self.types[sty] else None
                    if st is not None and self.types[st]["k"] == "dyn":
                        return ("P", v[1], v[2], None)
                    if st is not None and self.types[st]["k"] == "slice":
                        return ("P", v[1], v[2] + (("e", v[3][1]),), None)
            return v
        if k == "tr":
            return self.transmute(v, sty, dty)
        if k == "unsize":
            if info[0] == "slice":
                p = self.to_ptr(v)
                if type(p) is tuple and p[0] == "P":
                    return self.retype(v, dty, ("s", 0, info[1])) if v[0] == "A" else ("P", p[1], p[2], ("s", 0, info[1]))
                return v
            if info[0] == "dyn":
                return self.retype(v, dty, ("vt", info[1]))
            if info[0] == "up":
                return self.retype(v, dty)
            if sty == dty:
                return v
            raise Unsupported("unsize")
        if k == "reify":
            return ("F", info)
        if k == "closurefn":
            return ("F", info, 1)
        return Q

    ARITH = {"Add": 1, "AddUnchecked": 1, "Sub": 1, "SubUnchecked": 1, "Mul": 1, "MulUnchecked": 1}

    def binop(self, op, a, b, ty):
        ta, tb = type(a), type(b)
        if ta is bool and tb is bool:
            if op == "Eq":
                return a == b
            if op == "Ne":
                return a != b
            if op == "BitAnd":
                return a and b
            if op == "BitOr":
                return a or b
            if op == "BitXor":
                return a != b
            a, b = int(a), int(b)
            ta = tb = int
        elif ta is bool:
            a, ta = int(a), int
        elif tb is bool:
            b, tb = int(b), int
        if a is U or b is U:
            self.violation("ub", "use of uninitialised memory in %s" % op)
            raise Halt()
        if a is Q or b is Q:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return bool(self.choose(2))
            if op.endswith("WithOverflow"):
                return ("A", -1, 0, (self.havoc(ty), bool(self.choose(2))))
            return self.havoc(ty)
        if ta is tuple or tb is tuple:
            if op in ("Eq", "Ne"):
                a1, b1 = self.to_ptr(a), self.to_ptr(b)
                if type(a1) is tuple and type(b1) is tuple and a1[0] == "P" and b1[0] == "P":
                    if a1[1] != b1[1] or a1[2] != b1[2]:
                        # elements of one array at possibly equal positions
                        if a1[1] == b1[1] and len(a1[2]) == len(b1[2]) and a1[2][:-1] == b1[2][:-1] and a1[2] \
                                and type(a1[2][-1]) is tuple and type(b1[2][-1]) is tuple and a1[2][-1][0] == "e":
                            r = self.eq0(sub(a1[2][-1][1], b1[2][-1][1]))
                        else:
                            r = False
                    else:
                        r = True
                    return r if op == "Eq" else not r
                if type(a1) is tuple and a1[0] == "T" and type(b1) is tuple and b1[0] == "T":
                    return (a1 == b1) == (op == "Eq")
            if op == "Offset":
                a1 = self.to_ptr(a)
                return self.ptr_offset(a1, b)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return bool(self.choose(2))
            raise Unsupported("binop %s on %r %r" % (op, a, b))
        if op == "Eq":
            return self.eq0(sub(a, b))
        if op == "Ne":
            return not self.eq0(sub(a, b))
        if op == "Lt":
            return self.ge0(sub(sub(b, a), 1))
        if op == "Le":
            return self.ge0(sub(b, a))
        if op == "Gt":
            return self.ge0(sub(sub(a, b), 1))
        if op == "Ge":
            return self.ge0(sub(a, b))
        if op == "Cmp":
            if self.eq0(sub(a, b)):
                x = 0
            else:
                x = 1 if self.ge0(sub(a, b)) else -1
            return ("A", ty, x + 1, ())
        ov = op.endswith("WithOverflow")
        base = op[:-12] if ov else (op[:-9] if op.endswith("Unchecked") else op)
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                e = add(a, b)
            elif base == "Sub":
                e = sub(a, b)
            elif type(a) is int:
                e = scale(b, a)
            elif type(b) is int:
                e = scale(a, b)
            else:
                x = self.havoc(ty)
                if ov:
                    return ("A", -1, 0, (x, bool(self.choose(2))))
                return x
            if ov:
                lo, hi = self.p.int_range(ty)
                if self.ge0(sub(e, lo)) and self.ge0(sub(hi, e)):
                    return ("A", -1, 0, (e, False))
                return ("A", -1, 0, (self.fit(e, ty), True))
            if op.endswith("Unchecked"):
                return e
            return self.fit(e, ty)
        if type(a) is int and type(b) is int:
            lo, hi = self.p.int_range(ty)
            if base == "Div":
                if b == 0:
                    raise Dead()
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if base == "Rem":
                if b == 0:
                    raise Dead()
                q = abs(a) % abs(b)
                return -q if a < 0 else q
            if base == "BitAnd":
                return a & b
            if base == "BitOr":
                return a | b
            if base == "BitXor":
                return a ^ b
            if base == "Shl":
                bits = (hi - lo + 1).bit_length() - 1
                return self.fit(a << (b % bits), ty)
            if base == "Shr":
                bits = (hi - lo + 1).bit_length() - 1
                return a >> (b % bits)
        if base == "Div" and type(b) is int and b > 0:
            lo, hi = self.st.num.interval(self.st.num.nrm(a))
            q = self.fresh(0 if (lo is not None and lo >= 0) else -(1 << 63), 1 << 63 if hi is None else max(hi, 0) // b)
            if self.ge0(a):
                self.assume_ge0(sub(a, scale(q, b)))
                self.assume_ge0(sub(add(scale(q, b), b - 1), a))
                self.assume_ge0(q)
            return q
        if base == "Rem" and type(b) is int and b > 0:
            if self.ge0(a):
                return self.fresh(0, b - 1)
            return self.fresh(-(b - 1), 0)
        if base == "Shr" and type(b) is int and 0 <= b < 64:
            return self.binop("Div", a, 1 << b, ty)
        if base == "Shl" and type(b) is int and 0 <= b < 64:
            return self.fit(scale(a, 1 << b), ty)
        if base == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if type(x) is int and x >= 0:
                    if x == 0:
                        return 0
                    if (x & (x + 1)) == 0:
                        n = self.st.num.nrm(y)
                        if self.st.num.ge0(n) is True and self.st.num.ge0(sub(x, n)) is True:
                            return n
                    return self.fresh(0, x)
        if base in ("BitAnd", "BitOr", "BitXor", "Div", "Rem", "Shr", "Shl"):
            return self.havoc(ty)
        raise Unsupported("binop " + op)

    def ptr_offset(self, p, n):
        if type(p) is tuple and p[0] == "P":
            path = p[2]
            if path and type(path[-1]) is tuple and path[-1][0] == "e":
                return ("P", p[1], path[:-1] + (("e", add(path[-1][1], n)),), p[3])
            if n == 0:
                return p
            v = self.get(p[1], path)
            if type(v) is tuple and v[0] == "V":
                return ("P", p[1], path + (("e", n),), None)
        raise Unsupported("pointer offset")

    def unwinding(self):
        """is some frame running its clean-up?"""
        for f in self.st.frames:
            if f.kind == "du":
                return True
            if f.kind == "n":
                c = f.fn.cleanup
                if c is None:
                    c, todo = set(), []
                    for b in f.fn.blocks:
                        t = b[1]
                        u = t[6] if t[0] == "call" else t[4] if t[0] == "drop" else t[5] if t[0] == "assert" else -1
                        if type(u) is int and u >= 0:
                            todo.append(u)
                    while todo:
                        x = todo.pop()
                        if x not in c:
                            c.add(x)
                            todo.extend(self.p.succs(f.fn.blocks[x]))
                    f.fn.cleanup = c
                if f.bb in c:
                    return True
        return False

    def copy_elems(self, src, dst, n):
        """memmove of n elements"""
        if type(n) is not int:
            n = self.st.num.nrm(n)
        if type(n) is not int:
            for c in range(3):
                if self.eq0(sub(n, c)):
                    n = c
                    break
            else:
                raise Unsupported("copy of an unknown number of elements")
        if n == 0:
            return
        src, dst = self.to_ptr(src), self.to_ptr(dst)
        vals = []
        for i in range(n):
            p = src if i == 0 else self.ptr_offset(src, i)
            vals.append(self.get(p[1], p[2]))
        for i in range(n):
            p = dst if i == 0 else self.ptr_offset(dst, i)
            self.put(p[1], p[2], vals[i])

    # ------------------------------------------------------------ reporting
    def stack(self):
        out = []
        for f in reversed(self.st.frames):
            if f.kind != "n":
                continue
            ln = 0
            b = f.fn.blocks[f.bb]
            if f.i < len(b[0]):
                s = b[0][f.i]
                ln = s[3] if s[0] == "=" else 0
            else:
                t = b[1]
                ln = t[-1] if t[0] in ("sw", "drop", "call", "assert") else 0
            if f.fn.crate in ("goggles", "probe"):
                out.append("%s (%s:%d)" % (f.fn.key, f.fn.file, ln))
        return out

    def goggles_site(self):
        for s in self.stack():
            if s.startswith("goggles::") or s.startswith("<goggles") or "/repo/" in s:
                return s
        return None

    def havoc_or_q(self, ty):
        try:
            return self.havoc(ty)
        except (Unsupported, RecursionError):
            return Q

    def foreign(self, msg):
        """an obligation of another property ("Cnn Cmm: …")"""
        only = self.opts.get("only")
        if only is None:
            return False
        r = self.foreign_c.get(msg)
        if r is None:
            m = re.match(r"((?:C\d\d )*C\d\d): ", msg)
            r = self.foreign_c[msg] = bool(m) and only not in m.group(1).split()
        return r

    def violation(self, kind, msg):
        stack = self.stack()
        key = (kind, msg)
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        tr = []
        t = self.st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        self.deadline = min(self.deadline, time.time() + self.opts.get("grace", 60))
        self.violations.append({"root": self.root, "kind": kind, "msg": msg, "stack": stack, "trace": list(reversed(tr))})

    # ------------------------------------------------------------ calls
    def push(self, fn, args, dest):
        st = self.st
        if len(st.frames) > 120:
            raise Unsupported("call depth (recursion through %s)" % fn.key)
        n = fn.nargs
        if len(args) != n:
            if fn.spread < 0 and len(args) == 2 and type(args[1]) is tuple and args[1] and args[1][0] == "A" and 1 + len(args[1][3]) == n:
                args = (args[0],) + tuple(args[1][3])
            elif fn.spread >= 0 and n == len(args):
                pass
            else:
                raise Unsupported("arity mismatch calling %s (%d vs %d)" % (fn.key, len(args), n))
        elif fn.closure and n == 2 and len(args) == 2 and fn.spread < 0:
            # rust-call ABI: a single-argument closure still receives its arguments as a tuple
            want = fn.locals[2]
            a = args[1]
            if type(a) is tuple and a and a[0] == "A":
                wt = self.types[want]
                if a[1] == -1 and a is UNIT:
                    pass
                elif a[1] >= 0 and self.types[a[1]]["k"] == "tuple" and len(a[3]) == 1 and a[1] != want:
                    args = (args[0], a[3][0])
                elif a[1] == -1 and len(a[3]) == 1 and not (wt["k"] == "tuple" and len(wt["ts"]) == 1):
                    args = (args[0], a[3][0])
        if GTRACE and fn.crate != "goggles":
            st.trace = (st.trace, "call %s %r" % (fn.key, args))
        if fn.crate == "goggles":
            self.used_fns.add(fn.id)
            st.trace = (st.trace, "%s (%s:%d)" % (fn.key, fn.file, fn.line))
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = a
        st.frames.append(Frame(fn, loc, 0, 0, dest))
        self.pushed = True

    def call(self, fid, args, dest, destty):
        """returns value or None if a frame was pushed"""
        fn = self.p.fns[fid]
        if fn.virtual is not None:
            a0 = args[0]
            p = self.to_ptr(a0)
            if not (type(p) is tuple and p[0] == "P" and p[3] is not None and p[3][0] == "vt"):
                raise Unsupported("virtual call on %r" % (p,))
            vt = self.p.vts[p[3][1]]
            tgt = vt[2][fn.virtual]
            if tgt < 0:
                raise Unsupported("virtual slot")
            tf = self.p.fns[tgt]
            if not tf.leaf:
                want = tf.locals[1]
                if type(a0) is tuple and a0[0] == "P":
                    a0 = ("P", p[1], p[2], None)
                else:
                    a0 = self.retype(a0, want, None)
            else:
                a0 = ("P", p[1], p[2], None)
            return self.call(tgt, (a0,) + tuple(args[1:]), dest, destty)
        if fn.leaf:
            h = self.leaf_cache.get(fid)
            if h is None:
                h = self.leafs.lookup(fn)
                self.leaf_cache[fid] = h
            if h is False:
                raise Unsupported("no model for %s" % fn.key)
            self.stats["leafcalls"] += 1
            if GTRACE:
                self.st.trace = (self.st.trace, "leaf %s %r" % (fn.key, args))
            self.pushed = False
            self.cur_dest = dest
            if "S" in self.st.flags and args and fn.key.rsplit("::", 1)[-1] in PLAIN_WRITES:
                a0 = self.to_ptr(args[0])
                if type(a0) is tuple and a0 and a0[0] == "P":
                    self.race(a0[1])
            r = h(self, fn, args, destty)
            if self.pushed:
                return None
            return r
        self.push(fn, args, dest)
        return None

    def call_value(self, f, args, dest, destty):
        if type(f) is tuple and f[0] == "F":
            if len(f) > 2:
                # a closure without captures: it receives its environment and a tuple
                args = (UNIT, ("A", -1, 0, tuple(args)))
            return self.call(f[1], args, dest, destty)
        raise Unsupported("call of %r" % (f,))

    def drop_at(self, loc, path, ty, meta):
        """start dropping the place; returns True if a frame was pushed"""
        t = self.types[ty]
        if t["k"] == "dyn":
            if meta is None or meta[0] != "vt":
                raise Unsupported("drop of dyn without vtable")
            ty = self.p.vts[meta[1]][0]
            t = self.types[ty]
            meta = None
        if t["drop"] < 0:
            return False
        fn = self.p.fns[t["drop"]]
        if fn.leaf:
            if fn.key == "drop:none":
                return False
            path = self.peel(loc, path, ty)
            v = self.get(loc, path)
            items = self.leafs.drop_items(self, fn, v, loc, path, ty, meta)
            if not items:
                return False
            self.st.frames.append(Frame(fn, {}, 0, 0, None, "d", (tuple(items), 0)))
            return True
        self.push(fn, (("P", loc, path, meta),), None)
        return True

    def finish_call(self, fr, val):
        """a call whose frame has been popped (or a leaf) returned val to frame fr"""
        t = fr.fn.blocks[fr.bb][1]
        if t[0] == "call":
            depth = len(self.st.frames) - 1
            pl = t[3]
            if len(pl) == 1:
                st = self.st
                st.undo.append((fr.loc, pl[0], fr.loc.get(pl[0])))
                fr.loc[pl[0]] = val
            else:
                loc, path, meta, ctys = self.place(fr, depth, pl)
                self.put(loc, path, val, ctys)
            if t[5] < 0:
                raise Dead()
            self.goto(fr, t[5])
        elif t[0] == "drop":
            self.goto(fr, t[3])
        else:
            raise Unsupported("finish")

    def goto(self, fr, bb):
        fr.bb = bb
        fr.i = 0

    def do_unwind(self, first_fr_handled=False):
        """a panic is propagating; the top frame is at its call/drop/assert terminator"""
        st = self.st
        # a second panic inside a destructor that runs during unwinding aborts the process
        for fr in reversed(st.frames):
            if fr.kind == "c":
                break
            if fr.kind == "du":
                return "end"
            if fr.kind == "n":
                t = fr.fn.blocks[fr.bb][1]
                if t[0] in ("call", "drop", "assert"):
                    u = t[6] if t[0] == "call" else t[4] if t[0] == "drop" else t[5]
                    if u == -3:
                        return "end"
        while True:
            if not st.frames:
                for g, v in st.ghost:
                    if g == -1 and not self.opts.get("allow_panic") and self.opts.get("panics", True):
                        self.violation("panic", "the operation panics: " + v[1])
                return "end"
            fr = st.frames[-1]
            if fr.kind == "d":
                # keep dropping the remaining items while unwinding
                items, i = fr.x
                if i < len(items):
                    fr.x = (items, i)
                    fr.kind = "du"
                    return None
                st.frames.pop()
                continue
            if fr.kind == "du":
                # panic inside a drop during unwinding: abort
                return "end"
            if fr.kind == "e":
                raise Unsupported("the interfering operation panics")
            if fr.kind == "c":
                st.frames.pop()
                st.ghost = tuple(g for g in st.ghost if g[0] != -1)
                top = st.frames[-1]
                self.finish_call(top, True)
                return None
            t = fr.fn.blocks[fr.bb][1]
            u = None
            if t[0] == "call":
                u = t[6]
            elif t[0] == "drop":
                u = t[4]
            elif t[0] == "assert":
                u = t[5]
            elif t[0] == "res":
                u = -1
            else:
                u = -1
            if u == -1:
                st.frames.pop()
                continue
            if u == -2:
                return "end"
            if u == -3:
                return "end"
            self.goto(fr, u)
            return None

    # ------------------------------------------------------------ shared mode
    def interfere(self, fid):
        """before an atomic step of an operation on a shared object: another thread may do an operation first"""
        fn = self.p.fns[fid]
        if not fn.leaf or not ("atomic" in fn.key and (fn.key.startswith("intrinsic:atomic_") or "AtomicBitSet" in fn.key)):
            return False
        st = self.st
        for i, (g, v) in enumerate(st.ghost):
            if g == -2:
                break
        else:
            return False
        f, env, budget, depth = v[3]
        if budget <= 0 or not self.choose(2):
            return False
        self.stats["interferences"] = self.stats.get("interferences", 0) + 1
        st.ghost = st.ghost[:i] + ((-2, ("A", -1, 0, (f, env, budget - 1, depth))),) + st.ghost[i + 1:]
        st.trace = (st.trace, "-- another thread")
        st.frames.append(Frame(fn, {}, 0, 0, None, "e"))
        self.call(f[1], (env,), None, None)
        return True

    def race(self, loc):
        """a plain (non-atomic) write while threads share the object: memory older than the shared phase is off limits"""
        st = self.st
        for g, v in st.ghost:
            if g == -2:
                break
        else:
            return
        d = loc // FB
        if d >= v[3][3] or st.frames[-1].fn.crate == "probe":
            return
        self.violation("race", "C15: memory shared between threads is written without an atomic step")

    # ------------------------------------------------------------ one step
    def step(self, fr):
        """execute one statement/terminator of the top frame"""
        st = self.st
        depth = len(st.frames) - 1
        k = fr.kind
        if k != "n":
            if k == "c":
                # closure returned: handled in ret
                raise Unsupported("catch frame step")
            if k in ("d", "du"):
                items, i = fr.x
                if i >= len(items):
                    st.frames.pop()
                    if k == "du":
                        return self.do_unwind()
                    top = st.frames[-1]
                    if top.kind == "n":
                        self.finish_call(top, UNIT)
                    return None
                fr.x = (items, i + 1)
                loc, path, ty, meta = items[i]
                self.drop_at(loc, path, ty, meta)
                return None
            raise Unsupported("frame kind")
        b = fr.fn.blocks[fr.bb]
        ss = b[0]
        i = fr.i
        if i < len(ss):
            s = ss[i]
            k = s[0]
            if k == "=":
                v = self.rvalue(fr, depth, s[2])
                pl = s[1]
                if len(pl) == 1:
                    st.undo.append((fr.loc, pl[0], fr.loc.get(pl[0])))
                    fr.loc[pl[0]] = v
                else:
                    loc, path, meta, ctys = self.place(fr, depth, pl)
                    if "S" in st.flags:
                        self.race(loc)
                    self.put(loc, path, v, ctys)
            elif k == "sx" or k == "sl":
                if s[1] in fr.loc:
                    st.undo.append((fr.loc, s[1], fr.loc[s[1]]))
                    del fr.loc[s[1]]
            elif k == "sd":
                loc, path, meta, ctys = self.place(fr, depth, s[1])
                v = self.get(loc, path)
                if v[0] == "A":
                    n = len(self.p.field_tys(v[1], s[2]))
                    f = v[3]
                    if len(f) != n:
                        f = (U,) * n
                    self.put(loc, path, ("A", v[1], s[2], f))
                else:
                    raise Unsupported("set discriminant")
            elif k == "as":
                v = self.operand(fr, depth, s[1])
                if v is False:
                    raise Dead()
            elif k == "cp":
                self.copy_elems(self.operand(fr, depth, s[1]), self.operand(fr, depth, s[2]), self.operand(fr, depth, s[3]))
            fr.i = i + 1
            return None
        t = b[1]
        k = t[0]
        if k == "g":
            fr.bb = t[1]
            fr.i = 0
            return None
        if k == "sw":
            v = self.operand(fr, depth, t[1])
            if type(v) is bool:
                v = int(v)
            if type(v) is int:
                for x, bb in t[3]:
                    if x == v:
                        self.goto(fr, bb)
                        return None
                self.goto(fr, t[4])
                return None
            if type(v) is Lin:
                for x, bb in t[3]:
                    if self.eq0(sub(v, x)):
                        self.goto(fr, bb)
                        return None
                self.goto(fr, t[4])
                return None
            if v is U:
                self.violation("ub", "branch on uninitialised memory")
                raise Halt()
            c = self.choose(len(t[3]) + 1)
            self.goto(fr, t[3][c][1] if c < len(t[3]) else t[4])
            return None
        if k == "call":
            f = t[1]
            if "S" in st.flags and f[0] == "f" and self.interfere(f[1]):
                return None
            args = tuple([self.operand(fr, depth, o) for o in t[2]])
            if f[0] == "f":
                r = self.call(f[1], args, None, t[4])
            elif f[0] == "o":
                fv = self.operand(fr, depth, f[1])
                r = self.call_value(fv, args, None, t[4])
            else:
                raise Unsupported("unresolved call " + f[1])
            if r is not None:
                self.finish_call(fr, r)
            return None
        if k == "ret":
            v = fr.loc.get(0, U)
            if v is U and self.p.is_zst(fr.fn.locals[0]):
                v = self.p.zst_value(fr.fn.locals[0])
            self.lastlocals = fr.loc
            st.frames.pop()
            if not st.frames:
                self.result = v
                return "end"
            top = st.frames[-1]
            if top.kind == "n":
                self.finish_call(top, v)
            elif top.kind == "c":
                st.frames.pop()
                self.finish_call(st.frames[-1], False)
            elif top.kind == "e":
                # another thread has done its operation: the interrupted step is taken now
                st.frames.pop()
            return None
        if k == "drop":
            loc, path, meta, _ = self.place(fr, depth, t[1])
            if not self.drop_at(loc, path, t[2], meta):
                self.goto(fr, t[3])
            return None
        if k == "assert":
            v = self.operand(fr, depth, t[1])
            if v is Q:
                v = bool(self.choose(2))
            if v is U:
                self.violation("ub", "assert on uninitialised memory")
                raise Halt()
            if bool(v) == bool(t[2]):
                self.goto(fr, t[4])
                return None
            if t[3] in ("align", "null"):
                raise Dead()
            if t[3] == "overflow" and self.opts.get("wrap"):
                self.goto(fr, t[4])
                return None
            raise Panic(t[3])
        if k == "res":
            st.frames.pop()
            return self.do_unwind()
        if k == "unr":
            raise Dead()
        if k == "abort":
            return "end"
        raise Unsupported("terminator " + k)

    # ------------------------------------------------------------ main loop
    def rollback(self):
        st = self.st
        for m, l, v in reversed(st.undo):
            if v is None:
                m.pop(l, None)
            else:
                m[l] = v
        st.undo.clear()

    def run(self, fid):
        fn = self.p.fns[fid]
        st = new_state()
        st.frames.append(Frame(fn, {}, 0, 0, None))
        self.work = [st]
        self.queue = deque()
        inner = self.opts.get("inner")
        while self.work or self.queue:
            if self.work:
                self.st = self.work.pop()
            else:
                if inner:
                    # inner loops first
                    rec = max(self.queue, key=lambda r: len(r.shape[0]))
                    self.queue.remove(rec)
                else:
                    rec = self.queue.popleft()
                rec.dirty = False
                self.st = decode(self, rec)
            self.run_path()
            self.stats["paths"] += 1
        return self.violations

    def enqueue(self, rec):
        if not rec.dirty:
            rec.dirty = True
            self.queue.append(rec)

    def again(self, fr):
        """has this frame been at this loop head (as often as it may be without merging states)?"""
        k = fr.fn.key
        for u, n in self.unroll:
            if u in k:
                break
        else:
            return True
        if fr.hv.count(fr.bb) >= n:
            return True
        fr.hv = fr.hv + (fr.bb,)
        return False

    def run_path(self):
        st = self.st
        heads = self.p.loop_heads
        while True:
            self.steps += 1
            if self.steps & 1023 == 0:
                if self.steps > self.maxsteps or time.time() > self.deadline:
                    raise Unsupported("analysis budget exceeded (%d steps)" % self.steps)
            fr = st.frames[-1]
            st.ci = 0
            st.undo.clear()
            num0 = st.num
            nsym0 = st.nsym
            nheap0 = st.nheap
            trace0 = st.trace
            tracked0 = st.tracked
            ghost0 = st.ghost
            flags0 = st.flags
            nfr = len(st.frames)
            topkind = fr.kind
            topx = fr.x
            topi, topbb = fr.i, fr.bb
            try:
                if fr.i == 0 and fr.kind == "n" and fr.bb in heads(fr.fn) and not st.choices:
                    if not st.unw and not fr.past:
                        if self.unroll is None or self.again(fr):
                            canonical(self)
                            return
                        fr.past = True
                r = self.step(fr)
                fr.past = False
                st.unw = 0
                if st.choices:
                    st.choices = ()
                if r == "end":
                    return
            except Fork as f:
                # undo partial effects
                while len(st.frames) > nfr:
                    st.frames.pop()
                if len(st.frames) < nfr:
                    if len(st.frames) == nfr - 1:
                        st.frames.append(fr)
                    else:
                        raise Unsupported("fork after multiple pops")
                fr.kind = topkind
                fr.x = topx
                fr.i, fr.bb = topi, topbb
                self.rollback()
                st.num = num0
                st.nsym = nsym0
                st.nheap = nheap0
                st.trace = trace0
                st.tracked = tracked0
                st.ghost = ghost0
                st.flags = flags0
                self.stats["forks"] += 1
                if f.nums is not None:
                    if not f.nums:
                        return
                    for n in f.nums[1:]:
                        c = st.clone()
                        c.num = n
                        self.work.append(c)
                    st.num = f.nums[0]
                else:
                    for i in range(f.n - 1, 0, -1):
                        c = st.clone()
                        c.choices = st.choices + (i,)
                        self.work.append(c)
                    st.choices = st.choices + (0,)
            except Panic as p:
                st.choices = ()
                st.unw = 0
                if "o" in st.flags and not p.user:
                    # caused by an untracked key: covered by the run in which that key is tracked
                    return
                while len(st.frames) > nfr:
                    st.frames.pop()
                where = (self.stack() or ["?"])[0]
                st.trace = (st.trace, "panic: %s at %s" % (p.msg, where))
                if not p.user and not any(g[0] == -1 for g in st.ghost):
                    st.ghost = ((-1, ("S", "%s at %s" % (p.msg, where))),) + st.ghost
                st.undo.clear()
                try:
                    if self.do_unwind() == "end":
                        return
                except Dead:
                    return
            except (Dead, Halt):
                return


def new_state():
    st = State()
    st.frames = []
    st.heap = {}
    st.num = Num()
    st.tracked = ()
    st.ghost = ()
    st.choices = ()
    st.ci = 0
    st.trace = None
    st.nheap = 0
    st.nsym = 0
    st.undo = []
    st.unw = 0
    st.flags = ()
    return st


from canon import canonical, decode  # noqa: E402
