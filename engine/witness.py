"""Type-level witnesses: small client programs that the type checker must accept or must reject.

Nothing is run: every witness is only type- and borrow-checked against /repo's current source.  A rejection counts only
when the error is on the line the witness marks and has one of the error codes that line is about; a witness that fails
for another reason (a changed signature, say) is undecided, not a pass."""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, tempfile

import extract

V = extract.V
MARK = "/*@@*/"
BORROW = {"E0499", "E0502", "E0505", "E0506", "E0716", "E0597", "E0515", "E0521", "E0503", "E0382", "E0594", "E0596", "E0509", "E0507"}
BOUND = {"E0277", "E0599", "E0369", "E0282"}
UNSAFE = {"E0133"}
PRIVATE = {"E0603", "E0616", "E0423", "E0451", "E0624", "E0063"}
MISSING = {"E0599", "E0596", "E0594", "E0608", "E0614", "E0308", "E0277"}
LIFE = {None, "E0521", "E0597", "E0310", "E0309", "E0495", "E0621", "E0515", "E0716"} | BORROW


class W:
    """one witness: body of a function; kind "accept" or a set of error codes"""

    def __init__(self, name, body, codes=None, group=None, must=False, sig="()", generics="", where=""):
        self.name, self.body, self.codes, self.group = name, body, codes, group
        # must: an accepted program is itself part of the property
        self.must, self.sig, self.generics, self.where = must, sig, generics, where

    def text(self, i):
        return "#[allow(non_snake_case)] fn w%d%s%s %s {\n%s\n}\n" % (i, self.generics, self.sig, self.where, self.body)


def deps():
    """type-check /repo and return the rustc arguments that link against it"""
    tgt = os.path.join(extract.BUILD, "witness")
    for n in ("goggles", "witness"):
        shutil.rmtree(os.path.join(tgt, "debug", "build", n), ignore_errors=True)
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", n + "-*")):
            shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=os.path.join(V, "witness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ext = {}
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    ext[m["target"]["name"].replace("-", "_")] = f
                elif f.endswith(".so"):
                    ext[f] = f
    if r.returncode or "goggles" not in ext:
        raise RuntimeError("/repo does not compile\n" + r.stderr[-3000:])
    a = []
    for n in ("goggles", "rayon", "atomic_refcell"):
        a += ["--extern", "%s=%s" % (n, ext[n])]
    for d in sorted(set(os.path.dirname(f) for f in ext.values())):
        a += ["-L", "dependency=" + d]
    return a


def compile_(prelude, ws, args, d):
    """-> list of (line, code, message) per witness index, and errors outside every witness"""
    src, spans, line = prelude, [], prelude.count("\n") + 1
    for i, w in enumerate(ws):
        t = w.text(i)
        n = t.count("\n")
        spans.append((line, line + n - 1, t.split("\n")))
        src += t
        line += n
    p = os.path.join(d, "w%d.rs" % abs(hash((src,))))
    open(p, "w").write(src)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-Awarnings",
                        "-o", p + ".rmeta"] + args + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, outside = [[] for _ in ws], []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            outside.append(l)
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        code = (m.get("code") or {}).get("code")
        hit = False
        for s in m["spans"]:
            if not s["is_primary"]:
                continue
            ln = s["line_start"]
            for k, (a, b, t) in enumerate(spans):
                if a <= ln <= b:
                    out[k].append((MARK in t[ln - a] or any(MARK in x for x in t[ln - a:s["line_end"] - a + 1]), code, m["message"]))
                    hit = True
        if not hit:
            outside.append(m["message"])
    return out, outside, r.returncode


def judge(w, errs, outside, rc, alone):
    """-> None (holds), ("bad", why), ("undecided", why) or "again" (decide it alone)"""
    if w.codes is None:
        if not errs and not (alone and rc):
            return None
        return ("bad" if w.must else "undecided", "; ".join("%s %s" % (e[1], e[2]) for e in errs[:2]) or "; ".join(outside[:2]))
    def right(e):
        return e[0] and e[1] in w.codes and (e[1] or "lifetime may not live long enough" in e[2])
    good = [e for e in errs if right(e)]
    other = [e for e in errs if not right(e)]
    if good and not [e for e in other if not e[0]]:
        return None
    if errs:
        return ("undecided", "; ".join("%s %s" % (e[1], e[2]) for e in errs[:2]))
    if not alone:
        return "again"
    if rc:
        return ("undecided", "; ".join(outside[:2]))
    return ("bad", "the program is accepted")


def run(pid, spec):
    prelude, ws = WITNESSES[pid]()
    try:
        args = deps()
    except RuntimeError as e:
        return [], [], [str(e)]
    d = tempfile.mkdtemp(prefix="witness")
    res = {}
    try:
        groups = {}
        for w in ws:
            groups.setdefault(w.group or ("accept" if w.codes is None else "reject"), []).append(w)
        # large groups are cut up so that all cores are used
        jobs = []
        for g in groups.values():
            for i in range(0, len(g), 40):
                jobs.append(g[i:i + 40])
        with cf.ThreadPoolExecutor(8) as ex:
            again = []
            for ws_, (out, outside, rc) in zip(jobs, ex.map(lambda g: compile_(prelude, g, args, d), jobs)):
                for w, e in zip(ws_, out):
                    j = judge(w, e, outside, rc, False)
                    if j == "again" or (w.codes is None and (j or rc and outside)) or (j and j[0] == "undecided"):
                        again.append(w)
                    else:
                        res[w.name] = j
            for w, (out, outside, rc) in zip(again, ex.map(lambda w: compile_(prelude, [w], args, d), again)):
                res[w.name] = judge(w, out[0], outside, rc, True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    viol, errs, held = [], [], []
    for w in ws:
        held.append(w.name)
        j = res[w.name]
        if j is None:
            pass
        elif j[0] == "bad":
            viol.append(dict(root="witness " + w.name, kind="witness", stack=[], trace=[x for x in w.body.split("\n")],
                             msg=("the type checker accepts a program that breaks the property" if w.codes is not None else
                                  "the type checker rejects a program the property requires to be accepted: " + j[1])))
        else:
            errs.append("witness %s: %s" % (w.name, j[1]))
    return held, viol, errs


WITNESSES = {}


def keep(x):
    return "keep(&%s);" % x


# ---------------------------------------------------------------------------------------------------------------- C06
PRE06 = """#![allow(dead_code, unused, deprecated)]
use goggles::*;
use goggles::{masked::*, join::*, tracked::*, storage::*, world::*, world_common::*, par_join::{ParJoinExt, JoinParIter as JoinParIter2}, hibitset::BitSet};
use rayon::iter::ParallelIterator;
use std::ops::{Deref, DerefMut};
#[derive(Default)] pub struct T(pub i64);
#[derive(Default, Clone)] pub struct D(pub i64);
#[derive(Default, Clone)] pub struct F(pub i64);
impl Component for D { type Storage = DenseVecStorage<D>; }
impl Component for F { type Storage = Flagged<HashMapStorage<F>>; }
pub type MV = MaskedStorage<VecStorage<T>>;
pub type MD = MaskedStorage<DenseVecStorage<T>>;
pub type MF = MaskedStorage<Flagged<HashMapStorage<T>>>;
/// a storage that can be duplicated itself
#[derive(Default, Clone, Copy)] pub struct Cs;
impl RawStorage for Cs {
    type Item = T;
    unsafe fn get(&self, _: Index) -> &T { loop {} }
    unsafe fn get_mut(&self, _: Index) -> &mut T { loop {} }
    unsafe fn insert(&mut self, _: Index, _: T) {}
    unsafe fn remove(&mut self, _: Index) -> T { loop {} }
}
impl DenseStorage for Cs {
    fn as_slice(&self) -> &[T] { loop {} }
    fn as_mut_slice(&mut self) -> &mut [T] { loop {} }
}
impl TrackedStorage for Cs {
    fn set_track_modified(&mut self, _: bool) {}
    fn tracking_modified(&self) -> bool { loop {} }
    fn mark_modified(&self, _: Index) {}
    fn modified_indexes(&self) -> &ModifiedBitSet { loop {} }
    fn clear_modified(&mut self) {}
}
pub type MC = MaskedStorage<Cs>;
fn keep<X: ?Sized>(_: &X) {}
fn need_clone<X: Clone>() {}
fn need_copy<X: Copy>() {}
fn bits() -> BitSet { loop {} }
"""


def c06():
    out = []
    # what can be done with an accessor `s` ($n: what to call the results)
    M_EXCL = {
        "get_mut": "let mut $n = s.get_mut(1).unwrap();",
        "get_or_insert_with": "let mut $n = s.get_or_insert_with(1, || T(0));",
        "get_guard": "let mut $n = s.get_guard(1).unwrap();",
        "get_guard_get_mut": "let mut $n_ = s.get_guard(1).unwrap(); let mut $n = $n_.get_mut();",
        "join": "let mut $n = (&mut *s).join();",
        "join_item": "let mut $n = (&mut *s).join().next().unwrap();",
        "join_unconstrained_item": "let mut $n = (&mut *s).join_unconstrained().next().unwrap();",
        "join_tuple_item": "let mut $n = (&mut *s, bits()).join().next().unwrap().0;",
        "join_tuple3_item": "let mut $n = (bits(), &mut *s, bits()).join().next().unwrap().1;",
        "maybe_item": "let mut $n = ((&mut *s).maybe(), bits()).join().next().unwrap().0;",
        "maybe": "let mut $n = (&mut *s).maybe();",
        "into_join": "let mut $n = (&mut *s).into_join();",
        "open": "let mut $n = Join::open(&mut *s).1;",
        "par_join": "let mut $n = (&mut *s).par_join();",
        "par_join_items": "let mut $n: Vec<&mut T> = (&mut *s).par_join().collect();",
        "guard": "let mut $n = s.guard();",
        "guard_item": "let mut $n = s.guard().join().next().unwrap();",
        "guard_item_get_mut": "let mut $n_ = s.guard().join().next().unwrap(); let mut $n = $n_.get_mut();",
        "guard_tuple_item": "let mut $n = (s.guard(), bits()).join().next().unwrap().0;",
        "guard_open": "let mut $n = Join::open(s.guard()).1;",
        "guard_par_items": "let mut $n: Vec<_> = s.guard().par_join().collect();",
    }
    M_SHARED = {
        "get": "let mut $n = s.get(1).unwrap();",
        "shared_join": "let mut $n = (&*s).join();",
        "shared_join_item": "let mut $n = (&*s).join().next().unwrap();",
        "shared_maybe_item": "let mut $n = ((&*s).maybe(), bits()).join().next().unwrap().0;",
        "shared_par_items": "let mut $n: Vec<&T> = (&*s).par_join().collect();",
        "raw_storage": "let mut $n = s.raw_storage();",
    }
    M_STRUCT = {
        "insert": "let mut $n = s.insert(1, T(0));",
        "remove": "let mut $n = s.remove(1);",
        "replace": "let mut $n = std::mem::take(&mut *s);",
    }
    DENSE_E = {"as_mut_slice": "let mut $n = s.as_mut_slice();", "as_mut_slice_item": "let mut $n = &mut s.as_mut_slice()[0];"}
    DENSE_S = {"as_slice": "let mut $n = s.as_slice();"}
    FLAG_E = {"modified_mut": "let mut $n = s.modified_mut();",
              "modified_mut_item": "let mut $n = s.modified_mut().join().next().unwrap().unwrap();",
              "modified_mut_open": "let mut $n = Join::open(s.modified_mut()).1;",
              "modified_mut_par": "let mut $n: Vec<_> = s.modified_mut().par_join().collect();"}
    FLAG_S = {"modified": "let mut $n = s.modified();", "modified_item": "let mut $n = s.modified().join().next().unwrap();"}

    def access(d, ty, fields):
        """the same operations through a component accessor of a world"""
        o = {}
        for k, v in d.items():
            if k in ("open", "raw_storage", "replace"):
                continue
            v = v.replace("(1)", "(e)").replace("(1, || T(0))", "(e, || %s(0)).unwrap()" % ty).replace("(1, T(0))", "(e, %s(0)).unwrap()" % ty)
            o[k] = v.replace("&mut T>", "&mut %s>" % ty).replace("<&T>", "<&%s>" % ty)
        return o

    objs = {
        "vec": ("(s: &mut MV)", M_EXCL, M_SHARED, M_STRUCT),
        "dense": ("(s: &mut MD)", dict(M_EXCL, **DENSE_E), dict(M_SHARED, **DENSE_S), M_STRUCT),
        "flagged": ("(s: &mut MF)", dict(M_EXCL, **FLAG_E), dict(M_SHARED, **FLAG_S), M_STRUCT),
        "clonable": ("(s: &mut MC)", dict(M_EXCL, **dict(DENSE_E, **FLAG_E)), dict(M_SHARED, **dict(DENSE_S, **FLAG_S)), M_STRUCT),
    }
    for nm, ty, xe, xs in (("D", "D", DENSE_E, DENSE_S), ("F", "F", FLAG_E, FLAG_S)):
        ex = access(dict(M_EXCL, **xe), ty, None)
        ex["storage_mut"] = "let mut $n = s.storage_mut();"
        ex["storage_mut_get_mut"] = "let mut $n = s.storage_mut().get_mut(1);"
        ex["get_or_default"] = "let mut $n = s.get_or_default(e).unwrap();"
        sh = access(dict(M_SHARED, **xs), ty, None)
        sh["storage"] = "let mut $n = s.storage();"
        st = access(M_STRUCT, ty, None)
        objs["write_" + nm] = ("(s: &mut WriteComponent<'_, %s>, e: Entity)" % ty, ex, sh, st)
        objs["access_" + nm] = ("(s: &mut ComponentAccess<'_, %s, &mut ComponentStorage<%s>>, e: Entity)" % (ty, ty), ex, sh, st)
    for on, (sig, ex, sh, st) in objs.items():
        every = dict(ex, **sh)
        every.update(st)
        for p, v in every.items():
            out.append(W("%s %s" % (on, p), v.replace("$n", "x") + keep("x"), sig=sig))
            # results never outlive the accessor they come from
            if p not in st and "$n_" not in v:
                own = sig[1:-1].split(",")[0].split(":", 1)[1].strip()
                own = own.replace("&mut ", "", 1)
                if on in ("vec", "dense", "flagged", "clonable"):
                    body = "let mut y_; { let mut s_ = <%s>::default(); let s = &mut s_;%s\n%s y_ = x; } keep(&y_);" % (
                        own, MARK, v.replace("$n", "x"))
                    out.append(W("%s %s outlives the storage" % (on, p), body, codes=LIFE, group="life"))
        for p, v in every.items():
            for q, u in every.items():
                if p in st or (p not in ex and q not in ex and q not in st):
                    continue
                body = "%s\n%s %s\n%s %s" % (v.replace("$n", "x"), u.replace("$n", "y"), MARK, keep("x"), keep("y"))
                out.append(W("%s %s while %s is held" % (on, q, p), body, codes=BORROW, sig=sig, group="pairs-" + on))

    def rej(name, body, codes, sig="()", generics="", group=None, twin=None):
        out.append(W(name, body, codes=codes, sig=sig, generics=generics, group=group))
        if twin is not None:
            out.append(W(name + " (accepted form)", twin, sig=sig, generics=generics))

    # one guard hands out one reference at a time, none of which outlives it
    for nm, s in (("vec", "VecStorage<T>"), ("dense", "DenseVecStorage<T>"), ("flagged", "Flagged<HashMapStorage<T>>")):
        g = "(mut g: GuardedElement<'_, %s>)" % s
        rej("guard %s get_mut twice" % nm, "let a = g.get_mut();\nlet b = g.get_mut(); " + MARK + "\nkeep(a); keep(b);", BORROW, g, twin="keep(g.get_mut()); keep(g.get_mut());")
        rej("guard %s get while get_mut is held" % nm, "let a = g.get_mut();\nlet b = g.get(); " + MARK + "\nkeep(a); keep(b);", BORROW, g, twin="keep(g.get());")
        rej("guard %s get_mut while get is held" % nm, "let a = g.get();\nlet b = g.get_mut(); " + MARK + "\nkeep(a); keep(b);", BORROW, g)
        rej("guard %s reference outlives the guard" % nm, "let a = g.get_mut();\ndrop(g); " + MARK + "\nkeep(a);", BORROW, g)
        rej("guard %s shared reference outlives the guard" % nm, "let a = g.get();\ndrop(g); " + MARK + "\nkeep(a);", BORROW, g)
        rej("guard %s get_mut for the storage's lifetime" % nm, "g.get_mut() " + MARK, LIFE, "<'a, 'b>(g: &'b mut GuardedElement<'a, %s>) -> &'a mut T" % s)
        rej("guard %s get for the storage's lifetime" % nm, "g.get() " + MARK, LIFE, "<'a, 'b>(g: &'b GuardedElement<'a, %s>) -> &'a T" % s)
        rej("guard %s get_mut through a shared reference" % nm, "g.get_mut() " + MARK, BORROW, "<'a, 'b>(g: &'b GuardedElement<'a, %s>) -> &'b mut T" % s)
    # a longer lifetime than the borrow's
    for nm, s in (("vec", "MV"), ("dense", "MD"), ("flagged", "MF")):
        for f, ret, e in (("get_mut", "Option<&'a mut T>", "s.get_mut(1)"), ("get_guard", "Option<GuardedElement<'a, S>>", "s.get_guard(1)"), ("guard", "GuardedJoin<'a, S>", "s.guard()"),
                          ("get_or_insert_with", "&'a mut T", "s.get_or_insert_with(1, || T(0))")):
            raw = {"MV": "VecStorage<T>", "MD": "DenseVecStorage<T>", "MF": "Flagged<HashMapStorage<T>>"}[s]
            rej("masked %s %s for a longer lifetime" % (nm, f), e + " " + MARK, LIFE, "<'a, 'b>(s: &'b mut &'a mut %s) -> %s" % (s, ret.replace("S>", raw + ">")))
        rej("masked %s get for a longer lifetime" % nm, "s.get(1) " + MARK, LIFE, "<'a, 'b>(s: &'b &'a mut %s) -> Option<&'a T>" % s)
        for e in ("s.get_mut(1)", "(&mut *s).join().next()", "s.get_guard(1)", "s.guard()", "s.get_or_insert_with(1, || T(0))", "s.insert(1, T(0))", "s.remove(1)"):
            rej("masked %s %s through a shared reference" % (nm, e.replace("(&mut *s)", "&mut s")), "keep(&%s); %s" % (e, MARK), BORROW, "(s: &%s)" % s)
        rej("masked %s shared get is not mutable" % nm, "s.get(1) " + MARK, MISSING, "(s: &mut %s) -> Option<&mut T>" % s, twin="s.get_mut(1)")
        rej("masked %s shared join is not mutable" % nm, "(&*s).join().next() " + MARK, MISSING, "(s: &mut %s) -> Option<&mut T>" % s, twin="(&mut *s).join().next()")
        rej("masked %s shared maybe join is not mutable" % nm, "((&*s).maybe(), bits()).join().next().unwrap().0 " + MARK, MISSING, "(s: &mut %s) -> Option<&mut T>" % s,
            twin="((&mut *s).maybe(), bits()).join().next().unwrap().0")
    rej("modified join is not mutable", "s.modified().join().next().unwrap() " + MARK, MISSING, "(s: &mut MF) -> Option<&mut T>", twin="s.modified_mut().join().next().unwrap()")
    rej("shared slice is not mutable", "s.as_slice() " + MARK, MISSING, "(s: &mut MD) -> &mut [T]", twin="s.as_mut_slice()")
    for nm, c in (("write", "WriteComponent<'a, D>"), ("access", "ComponentAccess<'a, D, &'a mut ComponentStorage<D>>")):
        for e, ret in (("w.get_mut(e)", "Option<&'a mut D>"), ("w.get_guard(e)", "Option<GuardedElement<'a, DenseVecStorage<D>>>"), ("w.guard()", "GuardedJoin<'a, DenseVecStorage<D>>"),
                       ("(&mut *w).join().next()", "Option<&'a mut D>"), ("w.storage_mut()", "&'a mut ComponentStorage<D>"), ("w.as_mut_slice()", "&'a mut [D]"),
                       ("w.get_or_default(e).ok()", "Option<&'a mut D>")):
            rej("%s %s for the world's lifetime" % (nm, e.replace("(&mut *w)", "&mut w")), e + " " + MARK, LIFE, "<'a, 'b>(w: &'b mut %s, e: Entity) -> %s" % (c, ret),
                twin=None)
        for e, ret in (("w.get(e)", "Option<&'a D>"), ("(&*w).join().next()", "Option<&'a D>"), ("w.storage()", "&'a ComponentStorage<D>"), ("w.as_slice()", "&'a [D]")):
            rej("%s %s for the world's lifetime" % (nm, e.replace("(&*w)", "&w")), e + " " + MARK, LIFE, "<'a, 'b>(w: &'b %s, e: Entity) -> %s" % (c, ret))
        for e in ("w.get_mut(e)", "w.get_guard(e)", "w.guard()", "w.storage_mut()", "w.as_mut_slice()", "w.get_or_default(e)", "w.insert(e, D(0))", "w.remove(e)"):
            rej("%s %s through a shared reference" % (nm, e), "keep(&%s); %s" % (e, MARK), BORROW, "<'a>(w: &%s, e: Entity)" % c)
        rej("%s shared get is not mutable" % nm, "w.get(e) " + MARK, MISSING, "<'a, 'b>(w: &'b mut %s, e: Entity) -> Option<&'b mut D>" % c, twin="w.get_mut(e)")
        rej("%s shared join is not mutable" % nm, "(&*w).join().next() " + MARK, MISSING, "<'a, 'b>(w: &'b mut %s, e: Entity) -> Option<&'b mut D>" % c, twin="(&mut *w).join().next()")
        rej("%s shared storage is not mutable" % nm, "w.storage() " + MARK, MISSING, "<'a, 'b>(w: &'b mut %s, e: Entity) -> &'b mut ComponentStorage<D>" % c, twin="w.storage_mut()")
    # a read accessor hands out nothing mutable
    r = "<'a>(r: &mut ReadComponent<'a, D>, e: Entity)"
    for e in ("r.get_mut(e)", "r.get_guard(e)", "r.guard()", "r.storage_mut()", "r.as_mut_slice()", "r.insert(e, D(0))", "r.remove(e)", "r.get_or_default(e)", "IntoJoin::into_join(&mut *r)", "r.storage().get_mut(1)", "r.get_or_insert_with(e, || D(0))"):
        rej("read accessor: " + e, "keep(&%s); %s" % (e, MARK), MISSING, r)
    out.append(W("read accessor", "keep(&r.get(e)); keep(&r.storage()); keep(&r.as_slice()); keep(&(&*r).join().next());", sig=r))
    rf = "<'a>(r: &mut ReadComponent<'a, F>, e: Entity)"
    for e in ("r.modified_mut()", "r.set_track_modified(true)", "r.clear_modified()"):
        rej("read accessor: " + e, "keep(&%s); %s" % (e, MARK), MISSING, rf)
    for e, ret in (("r.get(e)", "Option<&'a D>"), ("(&*r).join().next()", "Option<&'a D>"), ("r.storage()", "&'a ComponentStorage<D>"), ("r.as_slice()", "&'a [D]")):
        rej("read accessor %s outlives its borrow" % e.replace("(&*r)", "&r"), e + " " + MARK, LIFE, "<'a, 'b>(r: &'b ReadComponent<'a, D>, e: Entity) -> " + ret)
    # resources
    for nm, t in (("Read", "Read<'a, T>"), ("ReadResource", "ReadResource<'a, T>")):
        rej(nm + " is not mutable", "&mut **r " + MARK, MISSING, "<'a, 'b>(r: &'b mut %s) -> &'b mut T" % t)
        rej(nm + " outlives its borrow", "&**r " + MARK, LIFE, "<'a, 'b>(r: &'b %s) -> &'a T" % t)
        out.append(W(nm, "&**r", sig="<'a, 'b>(r: &'b %s) -> &'b T" % t))
    for nm, t in (("Write", "Write<'a, T>"), ("WriteResource", "WriteResource<'a, T>")):
        rej(nm + " through a shared reference", "&mut **r " + MARK, BORROW, "<'a, 'b>(r: &'b %s) -> &'b mut T" % t)
        rej(nm + " outlives its borrow", "&mut **r " + MARK, LIFE, "<'a, 'b>(r: &'b mut %s) -> &'a mut T" % t)
        rej(nm + " shared outlives its borrow", "&**r " + MARK, LIFE, "<'a, 'b>(r: &'b %s) -> &'a T" % t)
        rej(nm + " twice", "let a: &mut T = &mut **r;\nlet b: &mut T = &mut **r; " + MARK + "\nkeep(a); keep(b);", BORROW, "<'a, 'b>(r: &'b mut %s)" % t)
        out.append(W(nm, "&mut **r", sig="<'a, 'b>(r: &'b mut %s) -> &'b mut T" % t))
    # nothing that stands for exclusive access can be duplicated
    S = "VecStorage<T>"
    F_ = "Flagged<VecStorage<T>>"
    for t in ("GuardedElement<'static, %s>" % S, "GuardedElement<'static, %s>" % F_, "GuardedJoin<'static, %s>" % S, "ModifiedJoinMut<'static, %s>" % F_,
              "JoinIter<&'static mut MV>", "JoinIter<GuardedJoin<'static, %s>>" % S, "JoinIter<ModifiedJoinMut<'static, %s>>" % F_,
              "JoinIter<JoinTuple<(&'static mut MV, BitSet)>>", "JoinIter<MaybeJoin<&'static mut MV>>", "JoinIter<JoinTuple<(BitSet, GuardedJoin<'static, %s>)>>" % S,
              "MaybeJoin<&'static mut MV>", "MaybeJoin<GuardedJoin<'static, %s>>" % S, "JoinTuple<(&'static mut MV, BitSet)>", "JoinTuple<(&'static mut MV,)>",
              "JoinParIter<&'static mut MV>", "JoinParIter<GuardedJoin<'static, %s>>" % S, "JoinParIter2<&'static mut MV>", "JoinParIter2<GuardedJoin<'static, %s>>" % S,
              "JoinParIter2<ModifiedJoinMut<'static, %s>>" % F_, "JoinParIter2<JoinTuple<(&'static mut MV, BitSet)>>",
              "WriteComponent<'static, D>", "ComponentAccess<'static, D, &'static mut ComponentStorage<D>>", "Write<'static, T>", "WriteResource<'static, T>"):
        for t, k in ((u, k) for u in sorted({t, t.replace(S, "Cs").replace(F_, "Cs").replace("MV", "MC").replace("Flagged<Cs>", "Cs")}) for k in ("clone", "copy")):
            rej("%s is not %s" % (t.replace("'static ", "").replace("'static, ", ""), k), "need_%s::<%s>(); %s" % (k, t, MARK), BOUND, group="bounds")
    out.append(W("need_clone", "need_clone::<u8>(); need_copy::<u8>();"))
    # what relies on a promise of the caller is not callable from safe code
    rej("raw_storage_mut from safe code", "keep(s.raw_storage_mut()); " + MARK, UNSAFE, "(s: &mut MV)", twin="keep(unsafe { s.raw_storage_mut() });")
    for nm, t, mk in (("&storage", "&'static MV", "<&MV as Join>::get(&a, 1)"), ("&mut storage", "&'static mut MV", "<&mut MV as Join>::get(&a, 1)"),
                      ("guarded", "GuardedJoin<'static, %s>" % S, "GuardedJoin::get(&a, 1)"), ("modified", "ModifiedJoin<'static, %s>" % F_, "ModifiedJoin::get(&a, 1)"),
                      ("modified_mut", "ModifiedJoinMut<'static, %s>" % F_, "ModifiedJoinMut::get(&a, 1)"),
                      ("maybe", "MaybeJoin<&'static mut MV>", "MaybeJoin::<&mut MV>::get(&a, 1)"), ("tuple", "JoinTuple<(&'static mut MV, BitSet)>", "JoinTuple::<(&mut MV, BitSet)>::get(&a, 1)")):
        rej("Join::get of %s from safe code" % nm, "let a = Join::open(j).1;\nkeep(&%s); %s" % (mk, MARK), UNSAFE, "(j: %s)" % t, twin="let a = Join::open(j).1; keep(&unsafe { %s });" % mk)
    rej("Join::get from generic safe code", "J::get(a, 1) " + MARK, UNSAFE, "<J: Join>(a: &J::Access) -> J::Item", twin="unsafe { J::get(a, 1) }")
    for s in ("VecStorage<T>", "DenseVecStorage<T>", "HashMapStorage<T>", "Flagged<VecStorage<T>>"):
        for e in ("s.get(1)", "s.get_mut(1)", "s.insert(1, T(0))", "s.remove(1)"):
            rej("RawStorage %s of %s from safe code" % (e, s), "keep(&%s); %s" % (e, MARK), UNSAFE, "(s: &mut %s)" % s, twin="keep(&unsafe { %s });" % e)
    for e in ("s.get(1)", "s.get_mut(1)", "s.insert(1, v)", "s.remove(1)"):
        rej("RawStorage %s from generic safe code" % e, "keep(&%s); %s" % (e, MARK), UNSAFE, "<S: RawStorage>(s: &mut S, v: S::Item)", twin="keep(&unsafe { %s });" % e)
    # the raw storage and the mask are only reachable for reading
    rej("mask is not mutable", "s.mask() " + MARK, MISSING, "(s: &mut MV) -> &mut BitSet", twin=None)
    for e in ("add(1)", "remove(1)", "clear()"):
        rej("mask %s" % e, "keep(&s.mask().%s); %s" % (e, MARK), MISSING, "(s: &mut MV)")
    rej("raw storage is not mutable", "s.raw_storage() " + MARK, MISSING, "(s: &mut MD) -> &mut DenseVecStorage<T>", twin="unsafe { s.raw_storage_mut() }")
    rej("raw storage slice is not mutable", "s.raw_storage().as_mut_slice() " + MARK, BORROW, "(s: &mut MD) -> &mut [T]")
    for nm, s, raw in (("vec", "MV", "VecStorage<T>"), ("dense", "MD", "DenseVecStorage<T>"), ("flagged", "MF", "Flagged<HashMapStorage<T>>")):
        rej("masked %s derefs to its storage" % nm, "s " + MARK, MISSING, "(s: &mut %s) -> &mut %s" % (s, raw), twin="unsafe { s.raw_storage_mut() }")
        rej("masked %s derefs to its mask" % nm, "s " + MARK, MISSING, "(s: &mut %s) -> &mut BitSet" % s)
        for t in ("AsMut", "BorrowMut"):
            path = {"AsMut": "AsMut::<%s>::as_mut(s)", "BorrowMut": "std::borrow::BorrowMut::<%s>::borrow_mut(s)"}[t]
            rej("masked %s %s to its storage" % (nm, t), (path % raw) + " " + MARK, MISSING, "(s: &mut %s) -> &mut %s" % (s, raw))
        rej("masked %s built from parts" % nm, "MaskedStorage { mask: bits(), storage: r }; " + MARK, PRIVATE | {"E0560"}, "(r: %s)" % raw)
        rej("masked %s from a raw storage" % nm, "<%s>::from(r) %s" % (s, MARK), MISSING, "(r: %s) -> %s" % (raw, s))
    rej("guards built from parts", "GuardedElement { storage: r, index: 1, marker: std::marker::PhantomData } " + MARK, PRIVATE | {"E0560"}, "<'a>(r: &'a VecStorage<T>) -> GuardedElement<'a, VecStorage<T>>")
    for f in ("storage", "index", "marker"):
        rej("guard field " + f, "keep(&g.%s); %s" % (f, MARK), PRIVATE | {"E0609", "E0615"}, "(g: GuardedElement<'_, VecStorage<T>>)")
    for f in ("storage", "mask"):
        rej("masked field " + f, "keep(&mut s.%s); %s" % (f, MARK), PRIVATE | {"E0609", "E0615"}, "(s: &mut MV)")
    for t in ("JoinIter<&mut MV>", "JoinParIter2<&mut MV>", "GuardedJoin<'_, VecStorage<T>>", "ModifiedJoinMut<'_, Flagged<VecStorage<T>>>", "JoinTuple<(&mut MV, BitSet)>", "VecStorage<T>", "HashMapStorage<T>"):
        rej("field of " + t, "keep(&j.0); " + MARK, PRIVATE | {"E0609", "E0615"}, "(j: %s)" % t)
    # a world is only reorganised while nothing is borrowed from it
    held = {
        "get_component_mut": "let mut x = w.get_component_mut::<D>();",
        "get_component_mut storage": "let mut x_ = w.get_component_mut::<D>(); let x = x_.storage_mut();",
        "get_resource_mut": "let x = w.get_resource_mut::<T>();",
    }
    shared = {
        "write_component": "let mut x = w.write_component::<D>();",
        "read_component": "let mut x = w.read_component::<D>();",
        "fetch": "let mut x: (WriteComponent<D>, ReadComponent<F>) = w.fetch();",
        "write_resource": "let mut x = w.write_resource::<T>();",
        "read_resource": "let mut x = w.read_resource::<T>();",
        "entities": "let x = w.entities();",
    }
    excl = ["w.get_component_mut::<D>()", "w.get_resource_mut::<T>()", "w.merge()", "w.delete_entity(e)", "w.create_entity()", "w.insert_component::<D>()", "w.remove_component::<D>()",
            "w.insert_resource(T(0))", "w.remove_resource::<T>()"]
    look = ["w.read_component::<D>()", "w.write_component::<D>()", "w.fetch::<WriteComponent<D>>()", "w.read_resource::<T>()", "w.write_resource::<T>()"]
    for k, v in dict(held, **shared).items():
        out.append(W("world " + k, v + keep("x"), sig="(w: &mut World, e: Entity)"))
        for q in excl + (look if k in held else []):
            rej("world %s while %s is held" % (q, k), "%s\nlet y = %s; %s\n%s %s" % (v, q, MARK, keep("x"), keep("y")), BORROW, "(w: &mut World, e: Entity)", group="world")
    for q in excl:
        rej("world %s through a shared reference" % q, "keep(&%s); %s" % (q, MARK), BORROW, "(w: &World, e: Entity)", group="world")
        out.append(W("world " + q, "keep(&%s);" % q, sig="(w: &mut World, e: Entity)"))
    for q in look:
        out.append(W("world " + q, "keep(&%s);" % q, sig="(w: &World, e: Entity)"))
    rej("world accessor outlives the world", "let x; {\nlet w = World::new();\nx = w.write_component::<D>(); " + MARK + "\n} keep(&x);", LIFE)
    # resource sets and dynamic component sets
    for nm, t, ops, oth in (
            ("ResourceSet", "ResourceSet", ["s.get_mut::<T>()"], ["s.borrow::<T>()", "s.borrow_mut::<T>()", "s.fetch::<Write<T>>()", "s.insert(T(0))", "s.remove::<T>()", "s.get_mut::<T>()"]),
            ("AnyComponentSet", "AnyComponentSet", ["s.get_mut::<D>()"], ["s.get::<D>()", "s.get_mut::<D>()", "s.insert(D(0))", "s.remove::<D>()", "std::mem::take(s)"]),
            ("AnyCloneComponentSet", "AnyCloneComponentSet", ["s.get_mut::<D>()"], ["s.get::<D>()", "s.get_mut::<D>()", "s.insert(D(0))", "std::mem::take(s)"]),
            ("ResourceSet borrowed", "ResourceSet", ["s.borrow::<T>()", "s.borrow_mut::<T>()", "s.fetch::<Read<T>>()"], ["s.insert(T(0))", "s.remove::<T>()", "s.get_mut::<T>()"]),
            ("AnyComponentSet borrowed", "AnyComponentSet", ["s.get::<D>()"], ["s.get_mut::<D>()", "s.insert(D(0))", "s.remove::<D>()"]),
            ("AnyCloneComponentSet borrowed", "AnyCloneComponentSet", ["s.get::<D>()"], ["s.get_mut::<D>()", "s.insert(D(0))"]),
            ("MakeSync", "MakeSync<T>", ["s.get_mut()"], ["s.get()", "s.get_mut()"])):
        sig = "(s: &mut %s)" % t
        for p in ops:
            out.append(W("%s %s" % (nm, p), "keep(&%s);" % p, sig=sig))
            for q in oth:
                rej("%s %s while %s is held" % (nm, q, p), "let x = %s;\nlet y = %s; %s\n%s %s" % (p, q, MARK, keep("x"), keep("y")), BORROW, sig, group="sets")
        for q in oth:
            out.append(W("%s: %s" % (nm, q), "keep(&%s);" % q, sig=sig))
    for q, t in (("s.get_mut::<T>()", "ResourceSet"), ("s.insert(T(0))", "ResourceSet"), ("s.remove::<T>()", "ResourceSet"), ("s.get_mut::<D>()", "AnyComponentSet"), ("s.get_mut::<D>()", "AnyCloneComponentSet"), ("s.get_mut()", "MakeSync<T>")):
        rej("%s of %s through a shared reference" % (q, t), "keep(&%s); %s" % (q, MARK), BORROW, "(s: &%s)" % t)
    return PRE06, out


WITNESSES["C06"] = c06


# ---------------------------------------------------------------------------------------------------------------- C28
PRE28 = """#![allow(dead_code, unused, deprecated)]
use goggles::*;
use goggles::{masked::*, join::*, tracked::*, storage::*, world::*, world_common::*, resources::*, system::{self, ParList, SeqList}, par_join::{ParJoinExt, JoinParIter as JoinParIter2}, hibitset::{BitSet, BitSetLike}};
use rayon::iter::ParallelIterator;
use std::{cell::{Cell, RefCell}, marker::PhantomData, rc::Rc, sync::MutexGuard};
#[derive(Default, Clone)] pub struct Both(pub i64);
/// Send, not Sync
#[derive(Default, Clone)] pub struct SendOnly(pub Cell<i64>);
/// Sync, not Send
#[derive(Default, Clone)] pub struct SyncOnly(pub PhantomData<MutexGuard<'static, i64>>);
#[derive(Default, Clone)] pub struct Neither(pub Rc<i64>);
#[derive(Default, Clone)] pub struct V<M>(pub M);
#[derive(Default, Clone)] pub struct D<M>(pub M);
#[derive(Default, Clone)] pub struct H<M>(pub M);
#[derive(Default, Clone)] pub struct F<M>(pub M);
impl<M> Component for V<M> { type Storage = VecStorage<V<M>>; }
impl<M> Component for D<M> { type Storage = DenseVecStorage<D<M>>; }
impl<M> Component for H<M> { type Storage = HashMapStorage<H<M>>; }
impl<M> Component for F<M> { type Storage = Flagged<VecStorage<F<M>>>; }
fn send<X: Send + ?Sized>() {}
fn sync<X: Sync + ?Sized>() {}
fn keep<X: ?Sized>(_: &X) {}
fn bits() -> BitSet { loop {} }
fn made<X>() -> X { loop {} }
pub struct Sys<P, R, E, M>(PhantomData<fn() -> (P, R, E)>, M);
impl<A, P: Pool, R: Resources, E: system::Error, M> System<A> for Sys<P, R, E, M> {
    type Resources = R; type Pool = P; type Error = E;
    fn check_resources(&self) -> Result<R, ResourceConflict> { loop {} }
    fn run(&mut self, _: &P, _: A) -> Result<(), E> { loop {} }
}
pub struct Err_<M>(M);
impl<M> system::Error for Err_<M> { fn combine(self, _: Self) -> Self { self } }
pub struct Pool_<M>(M);
impl<M> Pool for Pool_<M> { fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { (a(), b()) } }
fn system<A, S: System<A>>() {}
pub type Rs = RwResources<u32>;
pub type Ok_ = Sys<SeqPool, Rs, Err_<Both>, Both>;
pub struct Jn<I, A, K>(PhantomData<(I, A)>, K);
unsafe impl<I, A, K: Send> Send for Jn<I, A, K> {}
unsafe impl<I, A, K: Sync> Sync for Jn<I, A, K> {}
pub struct Mask<M>(M);
impl<M> BitSetLike for Mask<M> {
    fn layer3(&self) -> usize { 0 } fn layer2(&self, _: usize) -> usize { 0 } fn layer1(&self, _: usize) -> usize { 0 } fn layer0(&self, _: usize) -> usize { 0 }
    fn contains(&self, _: u32) -> bool { false }
}
impl<M> BitSetConstrained for Mask<M> { fn is_constrained(&self) -> bool { true } }
impl<I, A, K> Join for Jn<I, A, Mask<K>> { type Item = I; type Access = A; type Mask = Mask<K>; fn open(self) -> (Mask<K>, A) { loop {} } unsafe fn get(_: &A, _: Index) -> I { loop {} } }
"""

KINDS = {"Both": (True, True), "SendOnly": (True, False), "SyncOnly": (False, True), "Neither": (False, False)}


def c28():
    out = []
    done = set()

    def rule(name, expr, ok, sig="()", generics="", must=False):
        """expr($M) may be accepted only when ok(send, sync)"""
        for m, (sd, sy) in KINDS.items():
            n = "%s [%s]" % (name.replace("$M", m), m)
            assert n not in done, n
            done.add(n)
            e, s = expr.replace("$M", m), sig.replace("$M", m)
            if not ok(sd, sy):
                out.append(W(n, e + " " + MARK, codes=BOUND | {"E0271"}, sig=s, generics=generics, group="bounds"))
            elif m == "Both" or must:
                out.append(W(n, e, sig=s, generics=generics, must=must))

    SEND = lambda sd, sy: sd
    SYNC = lambda sd, sy: sy
    BOTH = lambda sd, sy: sd and sy
    ANY = lambda sd, sy: True
    comps = {"V": "VecStorage<V<$M>>", "D": "DenseVecStorage<D<$M>>", "H": "HashMapStorage<H<$M>>", "F": "Flagged<VecStorage<F<$M>>>"}
    # what each type lets one do: owned or exclusive access moves the data, shared access shares it
    for c, st in comps.items():
        C = "%s<$M>" % c
        ms = "MaskedStorage<%s>" % st
        for nm, t in ((st, st), (ms, ms), ("ComponentAccess<%s, &mut>" % C, "ComponentAccess<'static, %s, &'static mut ComponentStorage<%s>>" % (C, C)),
                      ("WriteComponent<%s>" % C, "WriteComponent<'static, %s>" % C), ("GuardedElement<%s>" % st, "GuardedElement<'static, %s>" % st)):
            rule("Send for " + nm, "send::<%s>();" % t, SEND)
            rule("Sync for " + nm, "sync::<%s>();" % t, SYNC)
        for nm, t in (("ReadComponent<%s>" % C, "ReadComponent<'static, %s>" % C), ("&" + ms, "&'static " + ms), ("MaybeJoin<&%s>" % ms, "MaybeJoin<&'static %s>" % ms)):
            rule("Send for " + nm, "send::<%s>();" % t, SYNC)
            rule("Sync for " + nm, "sync::<%s>();" % t, SYNC)
        for j, need in (("&'static " + ms, SYNC), ("&'static mut " + ms, SEND), ("GuardedJoin<'static, %s>" % st, SEND)) + (
                (("ModifiedJoin<'static, %s>" % st, SYNC), ("ModifiedJoinMut<'static, %s>" % st, SEND)) if c == "F" else ()):
            sh = j.replace("'static, ", "").replace("'static ", "")
            for nm, t in ((sh, j), ("JoinIter<%s>" % sh, "JoinIter<%s>" % j), ("MaybeJoin<%s> as a Join" % sh, "MaybeJoin<%s>" % j),
                          ("JoinIter<MaybeJoin<%s>>" % sh, "JoinIter<MaybeJoin<%s>>" % j), ("JoinTuple<(%s, BitSet)>" % sh, "JoinTuple<(%s, BitSet)>" % j),
                          ("JoinIter<JoinTuple<(BitSet, %s)>>" % sh, "JoinIter<JoinTuple<(BitSet, %s)>>" % j), ("JoinParIter<%s>" % sh, "JoinParIter2<%s>" % j)):
                if "Send for " + nm.replace("$M", "Both") + " [Both]" in done:
                    continue
                rule("Send for " + nm, "send::<%s>();" % t, need)
            ok = SYNC if need is SYNC else SEND
            for nm, e in ((sh, "j"), ("(%s, bits)" % sh, "(j, bits())"), ("(bits, bits, %s)" % sh, "(bits(), bits(), j)"), ("(%s maybe, bits)" % sh, "(j.maybe(), bits())")):
                rule("parallel join over " + nm, "%s.par_join().for_each(|_| ());" % e, ok, "(j: %s)" % j)
                rule("unconstrained parallel join over " + nm, "%s.par_join_unconstrained().for_each(|_| ());" % e, ok, "(j: %s)" % j)
                rule("parallel iteration over " + nm, "JoinParIter2::new_unconstrained(%s.into_join()).for_each(|_| ());" % e, ok, "(j: %s)" % j)
        # the world
        rule("insert_component " + C, "w.insert_component::<%s>();" % C, SEND, "(w: &mut World)", must=True)
        rule("read_component " + C, "keep(&w.read_component::<%s>());" % C, BOTH, "(w: &World)")
        rule("fetch ReadComponent " + C, "keep(&w.fetch::<ReadComponent<%s>>());" % C, BOTH, "(w: &World)")
        rule("system data ReadComponent " + C, "keep(&w.fetch::<(ReadComponent<%s>, Entities)>());" % C, BOTH, "(w: &World)")
        for nm, e, sig in (("write_component", "let mut x = w.write_component::<%s>(); keep(&x.get_mut(e)); keep(&(&mut x).join().next()); keep(&x.get_guard(e)); keep(&x.remove(e));", "(w: &World, e: Entity)"),
                           ("fetch WriteComponent", "let mut x = w.fetch::<WriteComponent<%s>>(); keep(&x.get_mut(e));", "(w: &World, e: Entity)"),
                           ("get_component_mut", "let mut x = w.get_component_mut::<%s>(); keep(&x.get_mut(e)); keep(&(&mut x).join().next());", "(w: &mut World, e: Entity)"),
                           ("remove_component", "keep(&w.remove_component::<%s>());", "(w: &mut World)"),
                           ("contains_component", "keep(&w.contains_component::<%s>());", "(w: &World)")):
            C1 = C.replace("$M", "SendOnly")
            out.append(W("sendable data: %s %s" % (nm, C1), e % C1, must=True, sig=sig))
    # resources
    rule("ResourceSet::insert", "s.insert(x);", SEND, "(s: &mut ResourceSet, x: $M)", must=True)
    rule("ResourceSet::borrow", "keep(&s.borrow::<$M>());", BOTH, "(s: &ResourceSet)")
    rule("ResourceSet::fetch Read", "keep(&s.fetch::<Read<$M>>());", BOTH, "(s: &ResourceSet)")
    rule("Read::fetch", "keep(&<Read<$M> as FetchResources<ResourceSet>>::fetch(s));", BOTH, "(s: &ResourceSet)")
    rule("World::insert_resource", "s.insert_resource(x);", SEND, "(s: &mut World, x: $M)", must=True)
    rule("World::read_resource", "keep(&s.read_resource::<$M>());", BOTH, "(s: &World)")
    rule("World::fetch ReadResource", "keep(&s.fetch::<ReadResource<$M>>());", BOTH, "(s: &World)")
    for nm, e, sig in (("ResourceSet::borrow_mut", "keep(&mut *s.borrow_mut::<SendOnly>());", "(s: &ResourceSet)"), ("ResourceSet::get_mut", "keep(s.get_mut::<SendOnly>());", "(s: &mut ResourceSet)"),
                       ("ResourceSet::remove", "keep(&s.remove::<SendOnly>());", "(s: &mut ResourceSet)"), ("Write", "keep(&mut *s.fetch::<Write<SendOnly>>());", "(s: &ResourceSet)"),
                       ("World::write_resource", "keep(&mut *s.write_resource::<SendOnly>());", "(s: &World)"), ("World::get_resource_mut", "keep(s.get_resource_mut::<SendOnly>());", "(s: &mut World)"),
                       ("World::remove_resource", "keep(&s.remove_resource::<SendOnly>());", "(s: &mut World)"), ("WriteResource", "keep(&mut *s.fetch::<WriteResource<SendOnly>>());", "(s: &World)"),
                       ("MakeSync", "keep(x.get_mut()); keep(&x.into_inner());", "(mut x: MakeSync<SendOnly>)"),
                       ("shareable containers", "sync::<World>(); send::<World>(); sync::<ResourceSet>(); send::<ResourceSet>(); sync::<MakeSync<SendOnly>>(); send::<MakeSync<SendOnly>>();", "()"),
                       ("sent accessors", "send::<Write<SendOnly>>(); send::<WriteResource<SendOnly>>(); send::<WriteComponent<V<SendOnly>>>(); send::<MaskedStorage<VecStorage<SendOnly>>>();", "()"),
                       ("write system data from another thread", "rayon::join(|| { let mut x = w.fetch::<WriteComponent<V<SendOnly>>>(); for v in (&mut x).join() { v.0.0.set(1); } }, || { keep(&mut *w.fetch::<WriteResource<SendOnly>>()); });", "(w: &World)")):
        out.append(W("sendable data: " + nm, e, must=True, sig=sig))
    for nm in ("Read", "ReadResource"):
        rule("Send for " + nm, "send::<%s<'static, $M>>();" % nm, SYNC)
        rule("Sync for " + nm, "sync::<%s<'static, $M>>();" % nm, SYNC)
    for nm in ("Write", "WriteResource"):
        rule("Send for " + nm, "send::<%s<'static, $M>>();" % nm, SEND)
        rule("Sync for " + nm, "sync::<%s<'static, $M>>();" % nm, SYNC)
    rule("Send for MakeSync", "send::<MakeSync<$M>>();", SEND)
    rule("Sync for MakeSync", "sync::<MakeSync<$M>>();", ANY, must=True)
    rule("MakeSync::get", "keep(x.get());", SYNC, "(x: &MakeSync<$M>)")
    # a wrapper that is shareable whatever it holds gives no shared access in any other way
    for nm, e in (("deref", "let r: &$M = &**x;"), ("as_ref", "let r: &$M = AsRef::<$M>::as_ref(x);"), ("borrow", "let r: &$M = std::borrow::Borrow::<$M>::borrow(x);"), ("clone", "let r: MakeSync<$M> = Clone::clone(x);"),
                  ("debug", "keep(&format!(\"{:?}\", x));"), ("field", "keep(&x.0);")):
        for m, (sd, sy) in KINDS.items():
            if not sy:
                out.append(W("MakeSync %s [%s]" % (nm, m), e.replace("$M", m) + " " + MARK, codes=BOUND | MISSING | PRIVATE | {"E0614", "E0308"}, sig="(x: &MakeSync<%s>)" % m, group="bounds2"))
    # dynamic component sets are Send and Sync themselves
    for nm, sig in (("AnyComponentSet", "(s: &mut AnyComponentSet, x: V<$M>)"), ("AnyCloneComponentSet", "(s: &mut AnyCloneComponentSet, x: V<$M>)")):
        rule(nm + "::insert", "s.insert(x);", BOTH, sig)
        rule(nm + "::get", "keep(&s.get::<V<$M>>());", BOTH, sig)
    # the pools
    for p in ("RayonPool", "SeqPool"):
        rule(p + "::join of a closure that owns", "p.join(move || keep(&x), || ());", SEND, "(p: &%s, x: $M)" % p)
        rule(p + "::join of a second closure that owns", "p.join(|| (), move || keep(&x));", SEND, "(p: &%s, x: $M)" % p)
        rule(p + "::join of a closure that borrows", "let r = &x; p.join(move || keep(r), || ());", SYNC, "(p: &%s, x: $M)" % p)
        rule(p + "::join of a closure that returns", "p.join(|| made::<$M>(), || ());", SEND, "(p: &%s)" % p)
        rule(p + "::join of a second closure that returns", "p.join(|| (), || made::<$M>());", SEND, "(p: &%s)" % p)
    # the system combinators: whatever may move to another thread must be sendable
    for nm, t in (("Par head", "Par<Sys<SeqPool, Rs, Err_<Both>, $M>, Ok_>"), ("Par tail", "Par<Ok_, Sys<SeqPool, Rs, Err_<Both>, $M>>"), ("Par inside Par", "Par<Ok_, Par<Ok_, Sys<SeqPool, Rs, Err_<Both>, $M>>>"),
                  ("Par error", "Par<Sys<SeqPool, Rs, Err_<$M>, Both>, Sys<SeqPool, Rs, Err_<$M>, Both>>"), ("ParList", "ParList<Sys<SeqPool, Rs, Err_<Both>, $M>>"), ("ParList error", "ParList<Sys<SeqPool, Rs, Err_<$M>, Both>>"),
                  ("Seq inside Par", "Par<Seq<Ok_, Sys<SeqPool, Rs, Err_<Both>, $M>>, Ok_>"), ("SeqList inside Par", "Par<SeqList<Sys<SeqPool, Rs, Err_<Both>, $M>>, Ok_>")):
        rule(nm, "system::<(), %s>();" % t, SEND)
    for nm, t in (("Par pool", "Par<Sys<Pool_<$M>, Rs, Err_<Both>, Both>, Sys<Pool_<$M>, Rs, Err_<Both>, Both>>"), ("ParList pool", "ParList<Sys<Pool_<$M>, Rs, Err_<Both>, Both>>")):
        rule(nm, "system::<(), %s>();" % t, SYNC)
    for nm, t in (("Par arguments", "Par<Ok_, Ok_>"), ("ParList arguments", "ParList<Ok_>")):
        rule(nm, "system::<&'static $M, %s>();" % t, SYNC)
    rule("parallelize", "keep(&parallelize::<(), _>(vec![x]));", SEND, "(x: Sys<SeqPool, Rs, Err_<Both>, $M>)")
    for nm in ("Par", "Seq"):
        rule("Send for " + nm, "send::<%s<$M, Both>>(); " % nm, SEND)
        rule("Send for the second of " + nm, "send::<%s<Both, $M>>(); " % nm, SEND)
        rule("Sync for " + nm, "sync::<%s<Both, $M>>(); " % nm, ANY)
    for nm in ("ParList", "SeqList"):
        rule("Send for " + nm, "send::<%s<$M>>(); " % nm, SEND)
        rule("Sync for " + nm, "sync::<%s<$M>>(); " % nm, SYNC)
    # parallel joins over joins of any kind
    for f in ("j.par_join()", "j.par_join_unconstrained()", "JoinParIter2::new_unconstrained(j)"):
        rule("%s: items" % f, f + ".for_each(|_| ());", SEND, "(j: Jn<$M, (), Mask<Both>>)")
        rule("%s: access" % f, f + ".for_each(|_| ());", SYNC, "(j: Jn<(), $M, Mask<Both>>)")
        rule("%s: mask" % f, f + ".for_each(|_| ());", SYNC, "(j: Jn<(), (), Mask<$M>>)")
        rule("%s: tuple items" % f, f.replace("j", "(j, bits()).into_join()", 1).replace("(j)", "((j, bits()).into_join())").replace("JoinParIter2", "JoinParIter2") + ".for_each(|_| ());" if f[0] == "j" else
             "JoinParIter2::new_unconstrained((j, bits()).into_join()).for_each(|_| ());", SEND, "(j: Jn<$M, (), Mask<Both>>)")
        rule("%s: tuple access" % f, ("(bits(), j).into_join()" + f[1:] if f[0] == "j" else "JoinParIter2::new_unconstrained((bits(), j).into_join())") + ".for_each(|_| ());", SYNC, "(j: Jn<(), $M, Mask<Both>>)")
    return PRE28, out


WITNESSES["C28"] = c28
