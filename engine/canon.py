"""Loop-head canonicalisation: garbage collection of untracked container entries, partitioning by shape,
affine-hull / inequality join and widening of the numeric part, subsumption."""
from fractions import Fraction
from num import Lin, Num, add, sub, scale, sym, mk, norm_ineq, infeasible

FB = 4096
HEAPD = 1 << 20
HEAPB = HEAPD * FB
U = ("U",)
THR = [-(1 << 63), -(1 << 31), -(1 << 31) + 1, -1, 0, 1, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 31) - 2,
       (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, (1 << 64) - 1]


def simple_int(E, ty):
    """vectors of plain numbers, references or entities are not addressed by index"""
    return ty >= 0 and (E.types[ty]["k"] in ("int", "ref") or E.types[ty].get("path") == "goggles::entity::Entity")


def live_set(E, fr, top, held=False):
    """held: interrupted right before its terminator, which is still to be executed"""
    p = E.p
    c = fr.fn
    key = ("live", c.id, fr.bb, top, held)
    r = p.cache.get(key)
    if r is not None:
        return r
    live = p.liveness(c)
    if top:
        r = frozenset(live[fr.bb])
    else:
        s = set()
        for b in p.succs(c.blocks[fr.bb]):
            s |= live[b]
        t = c.blocks[fr.bb][1]
        if t[0] == "call":
            pl = t[3]
            if len(pl) > 1:
                s.add(pl[0])
                for e in pl[1:]:
                    if e[0] == "i":
                        s.add(e[1])
            else:
                s.discard(pl[0])
            if held:
                for o in t[2]:
                    if o[0] in ("c", "m"):
                        s.add(o[1][0])
                        for e in o[1][1:]:
                            if e[0] == "i":
                                s.add(e[1])
        r = frozenset(s)
    p.cache[key] = r
    return r


class Enc:
    def __init__(self, E):
        self.E = E
        self.st = E.st
        self.num = E.st.num
        self.slots = []
        self.lim = E.LIM
        self.locmap = {}
        self.queue = []
        self.trk = {}
        for i, t in enumerate(self.st.tracked):
            n = self.num.nrm(t)
            self.slots.append(n)
            self.trk.setdefault(n, i)
        self.keep = E.opts.get("keep_consts", ())
        self.coarse = E.opts.get("coarse")
        self.big = 1000 if self.lim >= 0 else 1 << 200
        self.aux = []
        self.tags = []

    def int(self, v):
        if type(v) is int:
            if v in self.trk:
                return ("=", self.trk[v])
            if -self.lim <= v <= self.lim or abs(v) >= self.big or v in self.keep:
                return v
            self.slots.append(v)
            return ("#", len(self.slots) - 1)
        n = self.num.nrm(v)
        i = self.trk.get(n)
        if i is not None:
            return ("=", i)
        if type(n) is int:
            return self.int(n)
        self.slots.append(n)
        return ("#", len(self.slots) - 1)

    def plain(self, v):
        """an integer whose type can hold no index"""
        if type(v) is not int:
            v = self.num.nrm(v)
        if type(v) is int and (-self.lim <= v <= self.lim or abs(v) >= self.big or v in self.keep):
            return v
        self.slots.append(v)
        return ("#", len(self.slots) - 1)

    def fkeys(self, ty, variant):
        """may the fields of this type hold indexes?"""
        k = ("fk", ty, variant)
        r = self.E.p.cache.get(k)
        if r is None:
            r = ()
            if ty >= 0:
                if self.E.p.adt_path(ty) == "core::sync::atomic::Atomic":
                    r = (False,) * 4
                else:
                    fs = self.E.p.field_tys(ty, variant)
                    if fs:
                        r = tuple(self.haskey(f) for f in fs)
            self.E.p.cache[k] = r
        return r

    def haskey(self, ty):
        """False: plain numbers only"""
        t = self.E.types[ty] if ty >= 0 else None
        if t is None:
            return True
        if t["k"] == "int":
            lo, hi = self.E.p.int_range(ty)
            return lo == 0 and hi > 1 << 24
        if t["k"] == "adt" and t.get("path") in ("core::sync::atomic::Atomic",):
            return False
        return True

    def loc(self, l):
        r = self.locmap.get(l)
        if r is None:
            d, x = divmod(l, FB)
            if d >= HEAPD:
                r = HEAPB + sum(1 for y in self.locmap.values() if y >= HEAPB) * FB
            else:
                r = l
            self.locmap[l] = r
            self.queue.append(l)
        return r

    def path(self, path):
        out = []
        for s in path:
            if type(s) is int:
                out.append(s)
            elif s[0] == "e":
                out.append(("e", self.int(s[1])))
            else:
                out.append((s[0], self.val(s[1])))
        return tuple(out)

    def meta(self, m):
        if m is None:
            return None
        if m[0] in ("s", "one"):
            return (m[0], self.int(m[1]), self.int(m[2]))
        return m

    def interesting(self, v, key=True):
        t = type(v)
        if t is int or t is Lin:
            if not key:
                return False
            n = self.num.nrm(v)
            return n in self.trk
        if t is not tuple:
            return False
        k = v[0]
        if k == "A":
            if v[1] >= 0:
                p = self.E.p.adt_path(v[1])
                if p is not None and p.endswith("::Id") and v[3] and v[3][0] != 0:
                    return True
            fk = self.fkeys(v[1], v[2])
            if fk and len(fk) >= len(v[3]):
                return any(self.interesting(x, y) for x, y in zip(v[3], fk))
            return any(self.interesting(x) for x in v[3])
        if k == "P":
            # owned heap contents
            d = v[1] // FB
            if d >= HEAPD:
                b = self.st.heap.get(v[1], U)
                for s in v[2]:
                    if type(s) is int and b[0] == "A":
                        b = b[3][s]
                    else:
                        return True
                return self.interesting(b)
            return True
        if k == "V":
            return any(self.interesting(x) for _, x in v[3]) or any(self.interesting(i) for i, _ in v[3])
        if k in ("B", "M", "I"):
            return True
        return False

    def val(self, v, key=True):
        t = type(v)
        if t is bool:
            return v
        if t is int or t is Lin:
            return self.int(v) if key else self.plain(v)
        k = v[0]
        if k == "A":
            fk = self.fkeys(v[1], v[2])
            if not key:
                return ("A", v[1], v[2], tuple([self.val(x, False) for x in v[3]]))
            if fk and len(fk) >= len(v[3]):
                return ("A", v[1], v[2], tuple([self.val(x, y) for x, y in zip(v[3], fk)]))
            return ("A", v[1], v[2], tuple([self.val(x) for x in v[3]]))
        if k == "P":
            return ("P", self.loc(v[1]), self.path(v[2]), self.meta(v[3]))
        if k == "V":
            return self.vec(v)
        if k == "B":
            return self.bits(v)
        if k == "M":
            return self.map(v)
        if k == "I":
            if self.coarse and v[1] in ("sl", "into") and v[3][0][0] == "P":
                self.passed(v)
            return ("I", v[1], v[2], tuple([self.val(x) for x in v[3]]))
        return v

    def passed(self, v):
        """states are told apart by which of the followed elements an iterator has passed"""
        p, cur, end = v[3]
        try:
            c = self.E.get(p[1], p[2], False)
        except Exception:
            return
        if type(c) is tuple and c[0] == "V":
            key = self.haskey(c[1])
            t = []
            for i, x in c[3]:
                if self.interesting(x, key):
                    d = self.num.ge0(sub(i, cur))
                    t.append("?" if d is None else "n" if d else "p")
            self.tags.append(tuple(sorted(t)))

    def vec(self, v):
        ety, ln, elems, rest = v[1], v[2], v[3], v[4]
        E = self.E
        allk = E.p.types[ety]["k"] if ety >= 0 else None
        keep = []
        pinned = self.pins
        small = type(ln) is int and ln <= E.opts.get("small", 4) or E.opts.get("keep_elems")
        posk = not simple_int(self.E, ety)
        for i, x in elems:
            n = self.num.nrm(i)
            if posk and n in self.trk:
                keep.append(((0, self.trk[n], 0), n, x))
            elif small or self.interesting(x, self.haskey(ety)) or (n in pinned):
                keep.append(((1 if type(n) is int else 2, n if type(n) is int else 0, E.shape_key(x)), n, x))
            else:
                tx = E.templ(x)
                rest = E.tjoin(rest, tx)
        keep.sort(key=lambda a: (a[0][0], a[0][1], repr(a[0][2])))
        key = self.haskey(ety)
        if posk and len(self.trk) > 1:
            # states are told apart by which followed positions have a value of their own
            self.tags.append(tuple((a[0][1], a[1] if small and type(a[1]) is int else "") for a in keep if a[0][0] == 0))
        return ("V", ety, self.plain(ln), tuple([((self.int if posk else self.plain)(i), self.val(x, key)) for _, i, x in keep]), self.rest(rest))

    def rest(self, r):
        """summaries are joined rather than partitioned on in coarse mode"""
        if not self.coarse:
            return r
        self.aux.append(r)
        return ("%", len(self.aux) - 1)

    def bits(self, v):
        d = v[1]
        if d == 0 and self.E.opts.get("coarse"):
            d = 2
        out = {}
        for x, b in v[2]:
            n = self.num.nrm(x)
            i = self.trk.get(n)
            if i is not None:
                out[i] = b
            elif b != d:
                d = 2
        if v[1] != 2:
            for i in set(self.trk.values()):
                out.setdefault(i, bool(v[1]))
        out = sorted(out.items())
        return ("B", d, tuple((("=", i), b) for i, b in out))

    def map(self, v):
        # ("M", kty, vty, entries, (default, rest))
        E = self.E
        d, rest = v[4]
        out = []
        entries = v[3]
        if d == 0 and E.p.types[v[1]]["k"] == "int":
            # tracked keys stay exact when the rest of the map is summarised
            have = {self.keytag(k) for k, _ in entries}
            entries = entries + tuple((self.st.tracked[i], ("-",)) for i in sorted(set(self.trk.values())) if i not in have)
        for k, x in entries:
            tk = self.keytag(k)
            if tk is not None:
                out.append((tk, k, x))
            elif x == ("-",):
                if d == 1:
                    d = 2
            else:
                rest = E.tjoin(rest, E.templ(x))
                if d == 0:
                    d = 2
        out.sort(key=lambda a: repr(a[0]))
        return ("M", v[1], v[2], tuple([(self.val(k), self.val(x)) for _, k, x in out]), (d, self.rest(rest)))

    def keytag(self, k):
        t = type(k)
        if t is int or t is Lin:
            n = self.num.nrm(k)
            return self.trk.get(n)
        if t is tuple:
            if k[0] == "T":
                return k
            if k[0] == "A":
                r = []
                for x in k[3]:
                    y = self.keytag(x)
                    if y is None:
                        return None
                    r.append(y)
                return (k[2],) + tuple(r)
            if k[0] == "P":
                return self.keytag(self.E.get(k[1], k[2]))
        return None


def canonical(E):
    st = E.st
    enc = Enc(E)
    enc.pins = E.pins(enc) if hasattr(E, "pins") else ()
    frames = []
    nf = len(st.frames)
    dec = []
    for d, fr in enumerate(st.frames):
        if fr.kind == "n":
            live = live_set(E, fr, d == nf - 1, d + 1 < nf and st.frames[d + 1].kind == "e")
            ls = []
            for l in sorted(live):
                if l in fr.loc:
                    enc.locmap[d * FB + l] = d * FB + l
                    ls.append((l, enc.val(fr.loc[l], enc.haskey(fr.fn.locals[l]))))
            frames.append((fr.fn.id, fr.bb, fr.i, "n", tuple(ls)))
        else:
            x = fr.x
            if x is not None and fr.kind in ("d", "du"):
                items, i = x
                its = tuple((enc.loc(a), enc.path(b), c, enc.meta(m)) for a, b, c, m in items[i:])
                frames.append((fr.fn.id, fr.bb, fr.i, fr.kind, its))
            else:
                frames.append((fr.fn.id if fr.fn else -1, fr.bb, fr.i, fr.kind, enc.val(x) if x is not None else None))
    cells = []
    done = set()
    while enc.queue:
        l = enc.queue.pop(0)
        if l in done:
            continue
        done.add(l)
        cells.append((enc.locmap[l], enc.val(E.getbase(l))))
    ghost = tuple((g[0], enc.val(g[1])) for g in st.ghost)
    shape = (tuple(frames), tuple(cells), ghost, st.flags, tuple(enc.tags))
    num, exprs = compact(st.num, enc.slots)
    if num is None:
        return None
    E.stats["states"] += 1
    rec = E.visited.get(shape)
    if rec is None:
        rec = Rec(shape, num, exprs, st.trace, len(st.tracked))
        rec.aux = tuple(enc.aux)
        E.visited[shape] = rec
        E.enqueue(rec)
        return None
    aux = rec.aux
    if enc.aux:
        na = []
        for r, x in zip(rec.aux, enc.aux):
            for t in x:
                r = E.tjoin(r, t)
            na.append(r)
        aux = tuple(na)
    if aux == rec.aux and subsumes(rec, num, exprs):
        return None
    rec.aux = aux
    E.stats["joins"] += 1
    rec.count += 1
    r = join(rec.num, rec.exprs, num, exprs, rec.count > E.opts.get("widen", 3), rec.count > 12)
    rec.num, rec.exprs = r
    rec.trace = st.trace
    if rec.count > 60:
        from core import Unsupported
        raise Unsupported("no convergence")
    E.enqueue(rec)
    return None


class Rec:
    __slots__ = ("shape", "num", "exprs", "trace", "count", "dirty", "ntrk", "aux")

    def __init__(self, shape, num, exprs, trace, ntrk):
        self.shape = shape
        self.num = num
        self.exprs = exprs
        self.trace = trace
        self.count = 0
        self.dirty = False
        self.ntrk = ntrk
        self.aux = ()


def decode(E, rec):
    from core import State, Frame
    ex = rec.exprs
    st = State()
    st.num = rec.num
    st.tracked = tuple(ex[:rec.ntrk])

    def di(v):
        t = type(v)
        if t is int:
            return v
        return ex[v[1]]

    def dpath(p):
        out = []
        for s in p:
            if type(s) is int:
                out.append(s)
            elif s[0] == "e":
                out.append(("e", di(s[1])))
            else:
                out.append((s[0], dv(s[1])))
        return tuple(out)

    def drest(r):
        if r and r[0] == "%":
            return rec.aux[r[1]]
        return r

    def dmeta(m):
        if m is None:
            return None
        if m[0] in ("s", "one"):
            return (m[0], di(m[1]), di(m[2]))
        return m

    def dv(v):
        t = type(v)
        if t is not tuple:
            return v
        k = v[0]
        if k == "A":
            return ("A", v[1], v[2], tuple([dv(x) for x in v[3]])) if v[3] else v
        if k == "#" or k == "=":
            return ex[v[1]]
        if k == "P":
            return ("P", v[1], dpath(v[2]), dmeta(v[3]))
        if k == "V":
            return ("V", v[1], di(v[2]), tuple([(di(i), dv(x)) for i, x in v[3]]), drest(v[4]))
        if k == "B":
            return ("B", v[1], tuple([(di(i), b) for i, b in v[2]]))
        if k == "M":
            return ("M", v[1], v[2], tuple([(dv(i), dv(x)) for i, x in v[3]]), (v[4][0], drest(v[4][1])))
        if k == "I":
            return ("I", v[1], v[2], tuple([dv(x) for x in v[3]]))
        return v

    frames, cells, ghost, flags = rec.shape[:4]
    st.frames = []
    for d, (fid, bb, i, kind, x) in enumerate(frames):
        fn = E.p.fns[fid] if fid >= 0 else None
        if kind == "n":
            st.frames.append(Frame(fn, {l: dv(v) for l, v in x}, bb, i, None))
        elif kind in ("d", "du"):
            its = tuple((a, dpath(b), c, dmeta(m)) for a, b, c, m in x)
            st.frames.append(Frame(fn, {}, bb, i, None, kind, (its, 0)))
        else:
            st.frames.append(Frame(fn, {}, bb, i, None, kind, dv(x) if x is not None else None))
    st.heap = {}
    nh = 0
    for l, v in cells:
        d, x = divmod(l, FB)
        if d >= HEAPD:
            st.heap[l] = dv(v)
            nh = max(nh, d - HEAPD + 1)
        else:
            st.frames[d].loc[x] = dv(v)
    st.ghost = tuple((a, dv(b)) for a, b in ghost)
    st.choices = ()
    st.ci = 0
    st.trace = rec.trace
    st.nheap = nh
    st.nsym = len(ex) + 1
    st.undo = []
    st.unw = 1
    st.flags = flags
    return st


# ------------------------------------------------------------------ numeric canonical form
def _lin(c, d):
    """Fractions -> (Lin over ints) or None"""
    if any(Fraction(k).denominator != 1 for k in d.values()) or Fraction(c).denominator != 1:
        return None
    return mk(int(c), {v: int(k) for v, k in d.items() if k})


def compact(num, slots):
    """rewrite num over one symbol per pivot slot; returns (Num, exprs over new symbols)"""
    OFF = 1 << 40
    piv = {}  # old symbol -> (const, {sym: coef}) where syms are new (OFF+slot) or old free
    exprs = [None] * len(slots)
    order = []

    def subst(c, d):
        d = dict(d)
        ch = True
        while ch:
            ch = False
            for v in list(d):
                if v in piv:
                    k = d.pop(v)
                    pc, pd = piv[v]
                    c += k * pc
                    for x, kk in pd.items():
                        d[x] = d.get(x, 0) + k * kk
                    ch = True
        return c, {v: k for v, k in d.items() if k}

    for j, e in enumerate(slots):
        if type(e) is not Lin:
            exprs[j] = e
            continue
        c, d = subst(Fraction(e.c), {v: Fraction(k) for v, k in e.t})
        old = [v for v in d if v < OFF]
        if not old:
            l = _lin(c, d)
            if l is not None:
                exprs[j] = l
                continue
            exprs[j] = sym(OFF + j)
            order.append(j)
            continue
        cand = sorted(old, key=lambda v: (abs(d[v]) != 1, -v))
        p = cand[0]
        k = d.pop(p)
        nd = {v: -x / k for v, x in d.items()}
        nd[OFF + j] = 1 / k
        pc = -c / k
        piv[p] = (pc, nd)
        for q in list(piv):
            if q != p:
                qc, qd = piv[q]
                if p in qd:
                    piv[q] = subst(qc, qd)
        exprs[j] = sym(OFF + j)
        order.append(j)
    ren = {OFF + j: i for i, j in enumerate(order)}
    # constraints
    cons = []

    def lower(e):
        c, d = subst(Fraction(e.c), {v: Fraction(k) for v, k in e.t})
        den = 1
        for x in list(d.values()) + [c]:
            den = den * x.denominator // __import__("math").gcd(den, x.denominator)
        c *= den
        dd = {}
        for v, k in d.items():
            dd[ren.get(v, v + (1 << 50)) if v >= OFF else v + (1 << 50)] = int(k * den)
        # floor for inequality is done by norm_ineq
        return mk(int(c), dd)

    used = set()
    for f in num.facts:
        used.update(v for v, _ in f.t)
    for e in slots:
        if type(e) is Lin:
            used.update(v for v, _ in e.t)
    L = []
    for f in num.facts:
        L.append(lower(f))
    for v in used:
        lo, hi = num.b.get(v, (None, None))
        if lo is not None:
            L.append(lower(Lin(-lo, ((v, 1),))))
        if hi is not None:
            L.append(lower(Lin(hi, ((v, -1),))))
    final = fm_project(L, 1 << 50)
    if final is None:
        return None, None
    new = Num({i: (None, None) for i in range(len(order))})
    single = [e for e in final if len(e.t) == 1]
    multi = [e for e in final if len(e.t) > 1]
    for i, j in enumerate(order):
        lo, hi = num.interval(slots[j])
        b = new.b
        nb = dict(b)
        nb[i] = (lo, hi)
        new = Num(nb)
    for e in single + multi:
        new = new.assume_ge0(e)
        if new is None:
            return None, None
    new = fix_points(new)
    if new is None:
        return None, None
    for q in num.neqs:
        l = lower(q)
        if type(l) is Lin and all(v < (1 << 50) for v, _ in l.t):
            new = new.assume_ne0(l)
            if new is None:
                return None, None
    out = []
    for e in exprs:
        if type(e) is Lin:
            e = mk(e.c, {ren[v]: k for v, k in e.t})
            e = new.nrm(e)
        out.append(e)
    if new.sub:
        # an equality surfaced while projecting: canonicalise once more
        return compact(new, out)
    return new, out


def fix_points(num):
    """symbols with a single possible value become constants"""
    ch = True
    while ch:
        ch = False
        for v, (lo, hi) in num.b.items():
            if lo is not None and lo == hi:
                num = num._subst(v, lo)
                if num is None:
                    return None
                ch = True
                break
    return num


def fm_project(L, lim):
    """eliminate symbols >= lim; best effort (drops constraints when too many)"""
    cons = {}

    def put(e):
        e = norm_ineq(e)
        if type(e) is not Lin:
            return e >= 0
        o = cons.get(e.t)
        if o is None or e.c < o:
            cons[e.t] = e.c
        return True

    for e in L:
        if not put(e):
            return None
    while True:
        occ = {}
        for t in cons:
            for v, k in t:
                if v >= lim:
                    p = occ.setdefault(v, [0, 0])
                    p[k < 0] += 1
        if not occ:
            break
        v = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x))
        pos, ng, rest = [], [], {}
        for t, c in cons.items():
            k = 0
            for x, kk in t:
                if x == v:
                    k = kk
                    break
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                ng.append((-k, c, t))
            else:
                rest[t] = c
        cons = rest
        if len(pos) * len(ng) > 200:
            continue
        for kp, cp, tp in pos:
            for kn, cn, tn in ng:
                d = {}
                for x, k in tp:
                    d[x] = k * kn
                for x, k in tn:
                    d[x] = d.get(x, 0) + k * kp
                if not put(mk(cp * kn + cn * kp, d)):
                    return None
    return [Lin(c, t) for t, c in cons.items()]


def at(e, vals):
    """substitute symbols of e (slot-pivot symbols) by vals[sym]"""
    if type(e) is not Lin:
        return e
    r = e.c
    for v, k in e.t:
        r = add(r, scale(vals[v], k))
    return r


def pivots(exprs):
    """symbol -> slot"""
    m = {}
    for j, e in enumerate(exprs):
        if type(e) is Lin and e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1 and e.t[0][0] not in m:
            m[e.t[0][0]] = j
    return m


def subsumes(rec, num, exprs):
    pm = pivots(rec.exprs)
    vals = {s: exprs[j] for s, j in pm.items()}
    for j, e in enumerate(rec.exprs):
        if type(e) is Lin and e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1 and pm.get(e.t[0][0]) == j:
            continue
        d = num.nrm(sub(at(e, vals), exprs[j]))
        if d == 0:
            continue
        if type(d) is int or num.eq0(d) is not True:
            return False
    for s, j in pm.items():
        lo, hi = rec.num.b.get(s, (None, None))
        e = exprs[j]
        if lo is not None and num.ge0(sub(e, lo)) is not True:
            return False
        if hi is not None and num.ge0(sub(hi, e)) is not True:
            return False
    for f in rec.num.facts:
        if num.ge0(at(f, vals)) is not True:
            return False
    for q in rec.num.neqs:
        if num.eq0(at(q, vals)) is not False:
            return False
    return True


def join(na, ea, nb, eb, widen, hard):
    n = len(ea)
    # ---- affine hull over the slots
    def gens(e):
        base = [Fraction(x.c if type(x) is Lin else x) for x in e]
        dirs = {}
        for j, x in enumerate(e):
            if type(x) is Lin:
                for v, k in x.t:
                    dirs.setdefault(v, [Fraction(0)] * n)[j] += k
        return base, list(dirs.values())
    a0, da = gens(ea)
    b0, db = gens(eb)
    rows = [list(r) for r in da + db]
    diff = [y - x for x, y in zip(a0, b0)]
    if any(diff):
        rows.append(diff)
    red = []  # (pivot, row)
    rows = [r for r in rows if any(r)]
    for j in range(n):
        piv = None
        for r in rows:
            if r[j]:
                piv = r
                break
        if piv is None:
            continue
        rows.remove(piv)
        k = piv[j]
        piv = [x / k for x in piv]
        nr = []
        for r in rows:
            if r[j]:
                f = r[j]
                r = [x - f * y for x, y in zip(r, piv)]
            if any(r):
                nr.append(r)
        rows = nr
        red2 = []
        for q, r in red:
            if r[j]:
                f = r[j]
                r = [x - f * y for x, y in zip(r, piv)]
            red2.append((q, r))
        red = red2
        red.append((j, piv))
    pidx = {}
    for q, _ in red:
        pidx[q] = len(pidx)
    exprs = [None] * n
    extra = []
    for j in range(n):
        if j in pidx:
            exprs[j] = sym(pidx[j])
            continue
        c = a0[j]
        d = {}
        for q, r in red:
            if r[j]:
                d[pidx[q]] = r[j]
                c -= r[j] * a0[q]
        l = _lin(c, d)
        if l is None:
            extra.append(j)
        else:
            exprs[j] = l
    for j in extra:
        s = len(pidx)
        pidx[j] = s
        exprs[j] = sym(s)
    # differences: closed difference-bound matrices of both sides
    dep = [j for j in range(n) if type(ea[j]) is Lin or type(eb[j]) is Lin or ea[j] != eb[j]]
    zb = Zone(nb, eb, dep)
    za = Zone(na, ea, dep)

    # ---- bounds
    def bounds(j):
        la, ha = za.closed(j, *tight(na, ea[j]))
        lb, hb = zb.closed(j, *tight(nb, eb[j]))
        if widen:
            # a is the old state
            if la is not None and nb.ge0(sub(eb[j], la)) is True:
                lo = la
            else:
                lo = None
                m = None if la is None or lb is None else min(la, lb)
                if m is not None:
                    for t in reversed(THR):
                        if t <= m:
                            lo = t
                            break
            if ha is not None and nb.ge0(sub(ha, eb[j])) is True:
                hi = ha
            else:
                hi = None
                m = None if ha is None or hb is None else max(ha, hb)
                if m is not None:
                    for t in THR:
                        if t >= m:
                            hi = t
                            break
            if hard and (lo != la):
                lo = None if lo is None or lo < -(1 << 31) else lo
        else:
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
        return lo, hi

    b = {}
    for j, s in pidx.items():
        b[s] = bounds(j)
    num = Num(b)
    for j in range(n):
        # bounds of the dependent slots
        if j not in pidx and type(exprs[j]) is Lin:
            lo, hi = bounds(j)
            l2, h2 = num.interval(exprs[j])
            if lo is not None and (l2 is None or l2 < lo):
                num = num.assume_ge0(sub(exprs[j], lo)) or num
            if hi is not None and (h2 is None or h2 > hi):
                num = num.assume_ge0(sub(hi, exprs[j])) or num
    # ---- candidates over slots: list of (Lin over slot ids)
    cand = {}
    neqc = set()

    def to_slots(num_, ex):
        pm = pivots(ex)
        for f in num_.facts:
            if all(v in pm for v, _ in f.t):
                cand[mk(0, {pm[v]: k for v, k in f.t})] = None
                yield mk(f.c, {pm[v]: k for v, k in f.t})

    cs = set(to_slots(na, ea))
    qs = set()
    for nn, ee, use in ((na, ea, True), (nb, eb, not widen)):
        if not use:
            continue
        pm = pivots(ee)
        for q in nn.neqs:
            if all(v in pm for v, _ in q.t):
                qs.add(mk(q.c, {pm[v]: k for v, k in q.t}))
    # a number that is none of those every state has in another slot
    fixed = {ea[j] for j in range(n) if type(ea[j]) is int and type(eb[j]) is int and ea[j] == eb[j]}
    for j in dep:
        for c in fixed:
            if type(exprs[j]) is Lin and num.eq0(sub(exprs[j], c)) is None:
                qs.add(Lin(-c, ((j, 1),)))
    if not widen:
        cs |= set(to_slots(nb, eb))
        for x, i in enumerate(dep):
            for j in dep[x + 1:]:
                # equality in one, unequal constants in the other is covered by the hull
                qs.add(Lin(0, ((i, 1), (j, -1))))
    # sums that are fixed on one side: the orders that are left of them
    for x, i in enumerate(dep):
        for j in dep[x + 1:]:
            if type(exprs[i]) is not Lin or type(exprs[j]) is not Lin or type(add(exprs[i], exprs[j])) is not Lin:
                continue
            for ex in (ea, eb):
                k = add(ex[i], ex[j])
                if type(k) is int and -1 <= k <= 1 and type(ex[i]) is Lin:
                    cs.add(Lin(k, ((i, -1), (j, -1))))
                    cs.add(Lin(-k, ((i, 1), (j, 1))))
    if widen:
        # sums the new state bounds: finitely many, so that they cannot keep a loop from settling
        cs |= {c for c in to_slots(nb, eb) if len(c.t) == 2 and -1 <= c.c <= 1 and c.t[0][1] == c.t[1][1] in (-1, 1)}
    add_ = []

    def proved(num_, ex, u, w, x, y):
        """an order the other side's bounds give and this side only implies"""
        if w is None or w > 0 or (u is not None and u <= w):
            return u
        for t in ((-1, 0) if w < 0 else (0,)):
            if u is not None and u <= t:
                return u
            if num_.ge0(sub(t, sub(ex[x], ex[y]))) is True:
                return t
        return u

    if not widen:
        for x in dep:
            for y in dep:
                if x != y:
                    u = za.upper(x, y)
                    w = zb.upper(x, y)
                    if u is None or w is None or (u > 0) != (w > 0):
                        u, w = proved(na, ea, u, w, x, y), proved(nb, eb, w, u, x, y)
                    if u is not None and w is not None:
                        add_.append((max(u, w), x, y))
    else:
        # keep the differences of the old state that still hold; when hard, only what an equality that broke leaves
        for x in dep:
            for y in dep:
                if x != y:
                    e = sub(ea[x], ea[y])
                    u = za.upper(x, y) if type(e) is Lin else e
                    if type(e) is Lin and (u is None or u > 0):
                        u = proved(na, ea, u, zb.upper(x, y), x, y)
                    if u is not None and type(e) is Lin and hard and u not in (-1, 0):
                        continue
                    if u is not None:
                        if type(e) is Lin:
                            h, l = na.interval(ea[x])[1], na.interval(ea[y])[0]
                            if u > 0 and h is not None and l is not None and h - l <= u:
                                continue
                        w = zb.upper(x, y)
                        if u <= 0 and (w is None or w > 0):
                            w = proved(nb, eb, w, u, x, y)
                        if w is not None:
                            if w > u:
                                # thresholds
                                u = -1 if w <= -1 else 0 if w <= 0 else None
                            if u is not None:
                                add_.append((u, x, y))
    for c in sorted(cs, key=lambda e: (len(e.t), e.t, -e.c)):
        d = unit_diff(c)
        if d is not None:
            x, y, k = d
            if not widen and x in za.node and y in za.node and x in zb.node and y in zb.node:
                continue
        xa = at(c, ea)
        xb = at(c, eb)
        if na.ge0(xa) is True and nb.ge0(xb) is True:
            x = at(c, exprs)
            if num.ge0(x) is not True:
                n2 = num.assume_ge0(x)
                if n2 is not None:
                    num = n2
    if add_:
        # x - y <= u
        zj = Zone(num, exprs, dep)
        add_.sort()
        for u, x, y in add_:
            o = zj.upper(x, y)
            if o is not None and o <= u:
                continue
            e = add(sub(u, exprs[x]), exprs[y])
            if (x not in zj.node or y not in zj.node) and num.ge0(e) is True:
                continue
            n2 = num.assume_ge0(e)
            if n2 is not None:
                num = n2
                zj.tighten(x, y, u)
    if qs:
        for q in sorted(qs, key=repr):
            xa, xb = at(q, ea), at(q, eb)
            if quick_ne(na, za, q, xa) and quick_ne(nb, zb, q, xb):
                x = at(q, exprs)
                if num.eq0(x) is None:
                    n2 = num.assume_ne0(x)
                    if n2 is not None:
                        num = n2
    num = fix_points(num)
    if num.sub:
        return compact(num, [num.nrm(e) for e in exprs])
    return num, exprs


def unit_diff(c):
    """c = k + x - y over slots -> (x, y, k)"""
    if type(c) is Lin and len(c.t) == 2:
        (a, k), (b, m) = c.t
        if k == 1 and m == -1:
            return a, b, c.c
        if k == -1 and m == 1:
            return b, a, c.c
    return None


def quick_ne(num, z, q, x):
    lo, hi = num.interval(num.nrm(x))
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return True
    d = unit_diff(q)
    if d is not None and q.c == 0:
        a, b, _ = d
        u = z.upper(a, b)
        if u is not None and u < 0:
            return True
        u = z.upper(b, a)
        if u is not None and u < 0:
            return True
        return bool(num.neqs) and num._has_neq(num.nrm(x))
    return num.eq0(x) is False


def tight(num, e):
    lo, hi = num.interval(e)
    if type(e) is Lin and len(e.t) > 1:
        m = None
        for f in num.facts:
            if f.t == e.t:
                if lo is None or e.c - f.c > lo:
                    lo = e.c - f.c
            elif len(f.t) == len(e.t):
                if m is None:
                    m = scale(e, -1).t
                if f.t == m and (hi is None or e.c + f.c < hi):
                    hi = e.c + f.c
    return lo, hi


class Zone:
    """closed difference bounds of slots: node 0 is the constant zero"""

    def __init__(self, num, ex, dep):
        self.node = {}
        ids = {}
        comp = {}
        for j in dep:
            e = ex[j]
            if type(e) is not Lin:
                self.node[j] = (0, e)
            elif len(e.t) == 1 and e.t[0][1] == 1:
                v = e.t[0][0]
                if v not in ids:
                    ids[v] = len(ids) + 1
                self.node[j] = (ids[v], e.c)
            elif len(e.t) <= 4:
                # a compound slot is a node of its own
                if e.t not in comp:
                    comp[e.t] = -1
                self.node[j] = (e.t, e.c)
        for f in num.facts:
            if len(f.t) == 2:
                for v, k in f.t:
                    if v not in ids:
                        ids[v] = len(ids) + 1
        for t in comp:
            comp[t] = len(ids) + 1 + sum(1 for x in comp.values() if x >= 0)
        if comp:
            for j, (a, c) in list(self.node.items()):
                if type(a) is tuple:
                    self.node[j] = (comp[a], c)
        n = len(ids) + len(comp) + 1
        INF = None
        D = [[None] * n for _ in range(n)]
        for i in range(n):
            D[i][i] = 0
        # D[i][j]: upper bound of node_i - node_j
        for v, i in ids.items():
            lo, hi = num.b.get(v, (None, None))
            if hi is not None:
                D[i][0] = hi
            if lo is not None:
                D[0][i] = -lo
        fs = num.facts
        for f in num.facts:
            if len(f.t) == 3:
                # a bounded variable eliminated
                for v, k in f.t:
                    lo, hi = num.b.get(v, (None, None))
                    m = hi if k > 0 else lo
                    if m is not None:
                        fs = fs + (Lin(f.c + k * m, tuple(x for x in f.t if x[0] != v)),)
        wide = [f for f in num.facts if len(f.t) > 2]
        if wide:
            # a difference added to a wider fact, where that cancels variables
            for g in num.facts:
                if len(g.t) == 2:
                    (v, k), (w, m) = g.t
                    for f in wide:
                        t = dict(f.t)
                        if t.get(v) == -k and t.get(w) == -m:
                            x = add(f, g)
                            if type(x) is Lin and len(x.t) == 2:
                                fs = fs + (x,)
        for f in fs:
            for v, k in f.t:
                if v not in ids:
                    break
            else:
              d = unit_diff(f)
              if d is not None:
                x, y, k = d
                # x - y + k >= 0: y - x <= k
                i, j = ids[y], ids[x]
                if D[i][j] is None or D[i][j] > k:
                    D[i][j] = k
        if comp:
            ft = {f.t: f.c for f in num.facts}
            simple = [((), 0)] + [(((v, 1),), i) for v, i in ids.items()]
            cl = list(comp.items())
            for x, (t, i) in enumerate(cl):
                for u, j in simple + cl[:x]:
                    e = sub(Lin(0, t), Lin(0, u) if u else 0)
                    for g, p, q in ((e, i, j), (scale(e, -1), j, i)):
                        if type(g) is not Lin:
                            h = g
                        else:
                            h = num.interval(g)[1]
                            c = ft.get(scale(g, -1).t)
                            if c is not None and (h is None or c < h):
                                h = c
                        if h is not None and (D[p][q] is None or D[p][q] > h):
                            D[p][q] = h
        for k in range(n):
            Dk = D[k]
            for i in range(n):
                a = D[i][k]
                if a is None or i == k:
                    continue
                Di = D[i]
                for j in range(n):
                    b = Dk[j]
                    if b is not None:
                        c = a + b
                        if Di[j] is None or Di[j] > c:
                            Di[j] = c
        self.D = D

    def closed(self, x, lo, hi):
        """bounds of a slot, with what the differences imply"""
        a = self.node.get(x)
        if a is not None:
            u, l = self.D[a[0]][0], self.D[0][a[0]]
            if u is not None and (hi is None or u + a[1] < hi):
                hi = u + a[1]
            if l is not None and (lo is None or a[1] - l > lo):
                lo = a[1] - l
        return lo, hi

    def upper(self, x, y):
        a = self.node.get(x)
        b = self.node.get(y)
        if a is None or b is None:
            return None
        d = self.D[a[0]][b[0]]
        return None if d is None else d + a[1] - b[1]

    def tighten(self, x, y, u):
        if x not in self.node or y not in self.node:
            return
        a, ca = self.node[x]
        b, cb = self.node[y]
        d = u - ca + cb
        D = self.D
        n = len(D)
        if D[a][b] is not None and D[a][b] <= d:
            return
        for i in range(n):
            p = D[i][a]
            if p is None:
                continue
            for j in range(n):
                q = D[b][j]
                if q is not None:
                    c = p + d + q
                    if D[i][j] is None or D[i][j] > c:
                        D[i][j] = c
