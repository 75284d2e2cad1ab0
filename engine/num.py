"""Numeric abstract domain: linear expressions over symbols, with interval bounds, linear
inequalities (>= 0), disequalities (!= 0) and eliminated equalities.  Entailment is decided by
interval reasoning and a capped Fourier-Motzkin emptiness test (incomplete, sound)."""
from math import gcd
from fractions import Fraction

BIG = 1 << 70


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(o) is Lin and o.h == self.h and o.c == self.c and o.t == self.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        s = []
        for v, k in self.t:
            s.append(("%+d*s%d" % (k, v)) if k not in (1, -1) else ("%ss%d" % ("+" if k > 0 else "-", v)))
        if self.c or not s:
            s.append("%+d" % self.c)
        return "".join(s).lstrip("+")


def mk(c, d):
    t = tuple(sorted((v, k) for v, k in d.items() if k))
    return Lin(c, t) if t else c


def sym(v):
    return Lin(0, ((v, 1),))


def add(a, b):
    if type(a) is not Lin:
        if type(b) is not Lin:
            return a + b
        return Lin(b.c + a, b.t)
    if type(b) is not Lin:
        return Lin(a.c + b, a.t)
    d = dict(a.t)
    for v, k in b.t:
        d[v] = d.get(v, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if type(a) is not Lin:
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((v, c * k) for v, c in a.t))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def terms(a):
    return a.t if type(a) is Lin else ()


def const(a):
    return a.c if type(a) is Lin else a


def norm_ineq(e):
    """normalise e >= 0 over the integers"""
    if type(e) is not Lin:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
    return e


class Contra(Exception):
    pass


class Num:
    __slots__ = ("b", "facts", "neqs", "sub", "cache")

    def __init__(self, b=None, facts=(), neqs=(), subst=None):
        self.b = b if b is not None else {}
        self.facts = facts
        self.neqs = neqs
        self.sub = subst if subst is not None else {}
        self.cache = {}

    # ---------------------------------------------------------------- basics
    def nrm(self, e):
        if type(e) is not Lin:
            return e
        s = self.sub
        if not s:
            return e
        while type(e) is Lin:
            for v, k in e.t:
                r = s.get(v)
                if r is not None:
                    d = dict(e.t)
                    del d[v]
                    e = add(mk(e.c, d), scale(r, k))
                    break
            else:
                return e
        return e

    def interval(self, e):
        if type(e) is not Lin:
            return e, e
        lo = hi = e.c
        b = self.b
        for v, k in e.t:
            l, h = b.get(v, (None, None))
            if k < 0:
                l, h = h, l
            if lo is not None:
                lo = None if l is None else lo + k * l
            if hi is not None:
                hi = None if h is None else hi + k * h
        return lo, hi

    def with_sym(self, v, lo, hi):
        b = dict(self.b)
        b[v] = (lo, hi)
        return Num(b, self.facts, self.neqs, self.sub)

    # ---------------------------------------------------------------- queries
    def ge0(self, e):
        """True / False / None for e >= 0"""
        e = self.nrm(e)
        if type(e) is not Lin:
            return e >= 0
        lo, hi = self.interval(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        c = self.cache.get(e)
        if c is not None:
            return c if c != "N" else None
        r = None
        if self._proves(e):
            r = True
        elif self._proves(Lin(-e.c - 1, tuple((v, -k) for v, k in e.t))):
            r = False
        self.cache[e] = r if r is not None else "N"
        return r

    def _has_neq(self, e):
        if type(e) is not Lin:
            return e != 0
        return e in self.neqs or Lin(-e.c, tuple((v, -k) for v, k in e.t)) in self.neqs

    def _proves(self, e, depth=0):
        """e >= 0 entailed?"""
        e = norm_ineq(e)
        if type(e) is not Lin:
            return e >= 0
        for f in self.facts:
            if f.t == e.t and f.c <= e.c:
                return True
        if depth == 0 and self.neqs:
            e1 = Lin(e.c + 1, e.t)
            if self._has_neq(e1) and (self.interval(e1)[0] or -1) >= 0:
                return True
            if self._has_neq(e1) and self._proves(e1, 1):
                return True
        return self._fm(Lin(-e.c - 1, tuple((v, -k) for v, k in e.t)))

    def _component(self, syms):
        syms = set(syms)
        rel = []
        rest = list(self.facts)
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for f in rest:
                fs = [v for v, _ in f.t]
                if any(v in syms for v in fs):
                    rel.append(f)
                    syms.update(fs)
                    ch = True
                else:
                    nr.append(f)
            rest = nr
        return syms, rel

    def _fm(self, g):
        """is {facts, bounds, g >= 0} empty?"""
        syms, rel = self._component([v for v, _ in g.t])
        cons = set(rel)
        cons.add(g)
        for v in syms:
            l, h = self.b.get(v, (None, None))
            if l is not None:
                cons.add(Lin(-l, ((v, 1),)))
            if h is not None:
                cons.add(Lin(h, ((v, -1),)))
        return infeasible(cons)

    def eq0(self, e):
        e = self.nrm(e)
        if type(e) is not Lin:
            return e == 0
        lo, hi = self.interval(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if self.neqs and self._has_neq(e):
            return False
        if not self.facts:
            if lo is not None and lo == 0 and hi == 0:
                return True
            return None
        key = ("=", e)
        c = self.cache.get(key)
        if c is not None:
            return c if c != "N" else None
        r = None
        if self._proves(Lin(e.c - 1, e.t)) or self._proves(Lin(-e.c - 1, tuple((v, -k) for v, k in e.t))):
            r = False
        elif self._proves(e) and self._proves(Lin(-e.c, tuple((v, -k) for v, k in e.t))):
            r = True
        self.cache[key] = r if r is not None else "N"
        return r

    # ---------------------------------------------------------------- refinement
    def assume_ge0(self, e):
        """add e >= 0; returns None when it contradicts"""
        e = norm_ineq(self.nrm(e))
        r = self.ge0(e)
        if r is True:
            return self
        if r is False:
            return None
        if len(e.t) == 1 and e.t[0][1] in (1, -1):
            v, k = e.t[0]
            lo, hi = self.b.get(v, (None, None))
            if k == 1:
                lo = -e.c if lo is None else max(lo, -e.c)
            else:
                hi = e.c if hi is None else min(hi, e.c)
            if lo is not None and lo == hi:
                return self._subst(v, lo)
            b = dict(self.b)
            b[v] = (lo, hi)
            n = Num(b, self.facts, self.neqs, self.sub)
            return n._tighten()
        # equality by two inequalities
        ne = Lin(-e.c, tuple((v, -k) for v, k in e.t))
        if self.ge0(ne) is True:
            return self.assume_eq0(e)
        n = Num(self.b, tuple(f for f in self.facts if not (f.t == e.t and f.c >= e.c)) + (e,), self.neqs, self.sub)
        return n._tighten()

    def _tighten(self):
        # disequalities against tight bounds
        b = None
        ch = True
        while ch:
            ch = False
            for q in self.neqs:
                if len(q.t) == 1:
                    v, k = q.t[0]
                    if abs(k) == 1:
                        val = -q.c * k
                        lo, hi = (b or self.b).get(v, (None, None))
                        nlo, nhi = lo, hi
                        if lo is not None and lo == val:
                            nlo = lo + 1
                        if hi is not None and hi == val:
                            nhi = hi - 1
                        if nlo != lo or nhi != hi:
                            if nlo is not None and nhi is not None and nlo > nhi:
                                return None
                            if b is None:
                                b = dict(self.b)
                            b[v] = (nlo, nhi)
                            ch = True
        facts = self.facts
        if facts:
            # disequalities against facts
            fd = None
            for q in self.neqs:
                if len(q.t) > 1:
                    if fd is None:
                        fd = {f.t: f for f in facts}
                    for g in (q, neg(q)):
                        f = fd.get(g.t)
                        if f is not None and f.c == g.c:
                            h = Lin(f.c - 1, f.t)
                            facts = tuple(h if x is f else x for x in facts)
                            fd[g.t] = h
        if b is None:
            if facts is not self.facts:
                return Num(self.b, facts, self.neqs, self.sub)
            return self
        n = Num(b, facts, self.neqs, self.sub)
        for v, (lo, hi) in b.items():
            if lo is not None and lo == hi:
                return n._subst(v, lo)
        return n

    def assume_eq0(self, e):
        e = self.nrm(e)
        if type(e) is not Lin:
            return self if e == 0 else None
        r = self.eq0(e)
        if r is False:
            return None
        # pick the newest symbol with a unit coefficient
        for v, k in reversed(e.t):
            if k in (1, -1):
                d = dict(e.t)
                del d[v]
                return self._subst(v, scale(mk(e.c, d), -k))
        # no unit coefficient: two inequalities
        if r is True:
            return self
        e2 = Lin(-e.c, tuple((v, -k) for v, k in e.t))
        n = self
        for x in (e, e2):
            x = norm_ineq(x)
            if n.ge0(x) is False:
                return None
            n = Num(n.b, n.facts + (x,), n.neqs, n.sub)
        return n

    def _subst(self, v, r):
        sub_ = dict(self.sub)
        one = {v: r}

        def s(e):
            for x, k in e.t:
                if x == v:
                    d = dict(e.t)
                    del d[v]
                    return add(mk(e.c, d), scale(r, k))
            return e

        for x, y in list(sub_.items()):
            if type(y) is Lin:
                sub_[x] = s(y)
        sub_[v] = r
        b = dict(self.b)
        lo, hi = b.pop(v, (None, None))
        facts = []
        for f in self.facts:
            f2 = s(f)
            f2 = norm_ineq(f2)
            if type(f2) is not Lin:
                if f2 < 0:
                    return None
                continue
            facts.append(f2)
        neqs = []
        for q in self.neqs:
            q2 = s(q)
            if type(q2) is not Lin:
                if q2 == 0:
                    return None
                continue
            neqs.append(q2)
        n = Num(b, (), tuple(dict.fromkeys(neqs)), sub_)
        n.facts = ()
        for f in facts:
            n = n.assume_ge0(f)
            if n is None:
                return None
        if lo is not None:
            n = n.assume_ge0(sub(r, lo))
            if n is None:
                return None
        if hi is not None:
            n = n.assume_ge0(sub(hi, r))
            if n is None:
                return None
        return n

    def assume_ne0(self, e):
        e = self.nrm(e)
        r = self.eq0(e)
        if r is True:
            return None
        if r is False:
            return self
        n = Num(self.b, self.facts, self.neqs + (e,), self.sub)
        n = n._tighten()
        if n is None:
            return None
        # e >= 0 known: strengthen
        if n.ge0(e) is True:
            return n.assume_ge0(sub(e, 1))
        if n.ge0(neg(e)) is True:
            return n.assume_ge0(sub(neg(e), 1))
        return n


def infeasible(cons, cap=240):
    """capped Fourier-Motzkin over the integers; True = surely empty"""
    work = {}
    def put(e):
        e = norm_ineq(e)
        if type(e) is not Lin:
            return e >= 0
        o = work.get(e.t)
        if o is None or e.c < o:
            work[e.t] = e.c
        return True
    for e in cons:
        if not put(e):
            return True
    steps = 0
    while work:
        occ = {}
        for t in work:
            for v, k in t:
                p = occ.setdefault(v, [0, 0])
                p[k < 0] += 1
        v = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x))
        pos, ng = [], []
        rest = {}
        for t, c in work.items():
            k = 0
            for x, kk in t:
                if x == v:
                    k = kk
                    break
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                ng.append((-k, c, t))
            else:
                rest[t] = c
        work = rest
        for kp, cp, tp in pos:
            for kn, cn, tn in ng:
                d = {}
                for x, k in tp:
                    d[x] = k * kn
                for x, k in tn:
                    d[x] = d.get(x, 0) + k * kp
                e = mk(cp * kn + cn * kp, d)
                steps += 1
                if not put(e):
                    return True
        if len(work) > cap or steps > 4000:
            return False
    return False


def project(num, keep):
    """eliminate symbols not in keep from facts (best effort); returns list of facts over keep"""
    cons = {}
    def put(e):
        e = norm_ineq(e)
        if type(e) is not Lin:
            return
        o = cons.get(e.t)
        if o is None or e.c < o:
            cons[e.t] = e.c
    dead = set()
    for f in num.facts:
        put(f)
        for v, _ in f.t:
            if v not in keep:
                dead.add(v)
    for v in dead:
        l, h = num.b.get(v, (None, None))
        if l is not None:
            put(Lin(-l, ((v, 1),)))
        if h is not None:
            put(Lin(h, ((v, -1),)))
    for v in sorted(dead):
        pos, ng, rest = [], [], {}
        for t, c in cons.items():
            k = dict(t).get(v, 0)
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                ng.append((-k, c, t))
            else:
                rest[t] = c
        cons = rest
        if len(pos) * len(ng) > 40:
            continue
        for kp, cp, tp in pos:
            for kn, cn, tn in ng:
                d = {}
                for x, k in tp:
                    d[x] = k * kn
                for x, k in tn:
                    d[x] = d.get(x, 0) + k * kp
                put(mk(cp * kn + cn * kp, d))
    out = []
    for t, c in cons.items():
        e = Lin(c, t)
        lo, _ = num.interval(e)
        if lo is not None and lo >= 0:
            continue
        out.append(e)
    return out
