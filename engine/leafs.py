"""Models of library functions below the analysed code (containers, bit sets, atomics, panics, prims)."""
from num import Lin, add, sub, sym
from core import U, Q, UNIT, Unsupported, Panic, Dead, Halt, FB, HEAPD, HEAPB

EXACT = {}
PREFIX = []
TYPES = []
REDIR = []
ABS = ("-",)
MAXIX = 1 << 24


def leaf(*keys):
    def d(h):
        for k in keys:
            if k.endswith("*"):
                PREFIX.append((k[:-1], h))
            else:
                EXACT[k] = h
        return h
    return d


def types(*ts):
    TYPES.extend(ts)


def redirect(*rs):
    REDIR.extend(rs)


def construct(E, fn, a, d):
    """a tuple struct or enum variant used as a function"""
    t = E.types[d]
    n = fn.key.split("::")[-2]
    for i, v in enumerate(t["vs"]):
        if v[0] == n or len(t["vs"]) == 1:
            return ("A", d, i, tuple(a))
    raise Unsupported("constructor " + fn.key)


class Leafs:
    def lookup(self, fn):
        h = EXACT.get(fn.key)
        if h is not None:
            return h
        best = None
        for p, h in PREFIX:
            if fn.key.startswith(p) and (best is None or len(p) > len(best[0])):
                best = (p, h)
        if best is None and fn.key.endswith("::{{constructor}}"):
            return construct
        return best[1] if best else False

    def drop_items(self, E, fn, v, loc, path, ty, meta):
        return drop_items(E, fn, v, loc, path, ty, meta)

    def export(self):
        out = ["# generated from leafs.py"]
        for k in EXACT:
            out.append(k)
        for p, _ in PREFIX:
            out.append(p + "*")
        for t in TYPES:
            out.append("type:" + t)
        out.extend(REDIR)
        return "\n".join(out) + "\n"


# ------------------------------------------------------------------ helpers
def none(ty):
    return ("A", ty, 0, ())


def some(ty, x):
    return ("A", ty, 1, (x,))


def other(E):
    if "o" not in E.st.flags:
        E.st.flags = E.st.flags + ("o",)


def resolve(E, x):
    """split on x being each tracked key; returns the key number or -1"""
    for i, t in enumerate(E.st.tracked):
        if E.eq0(sub(x, t)):
            return i
    other(E)
    return -1


def cell(E, p):
    """pointer -> (loc, path)"""
    p = E.to_ptr(p)
    if type(p) is tuple and p[0] == "P":
        return p[1], p[2]
    if p is U:
        E.violation("ub", "use of an uninitialised reference")
        raise Halt()
    raise Unsupported("not a pointer: %r" % (p,))


def deref(E, p):
    l, pa = cell(E, p)
    return E.get(l, pa)


def unwrap_tag(E, l, pa, tag):
    v = E.get(l, pa)
    n = 0
    while type(v) is tuple and v[0] == "A" and tag != "A":
        w = E.p.wrapper_field(v[1])
        if w is None:
            break
        pa = pa + (w[0],)
        v = v[3][w[0]]
        n += 1
    return pa, v


def slc(E, p):
    """slice/array/Vec reference -> (loc, path, start, len)"""
    p = E.to_ptr(p)
    if not (type(p) is tuple and p[0] == "P"):
        raise Unsupported("slice reference %r" % (p,))
    m = p[3]
    if m is not None and m[0] == "s":
        return p[1], p[2], m[1], m[2]
    if m is not None and m[0] == "one":
        return p[1], p[2], m, m[2]
    pa, v = unwrap_tag(E, p[1], p[2], "V")
    if v[0] != "V":
        raise Unsupported("slice of %r" % (v[:2],))
    return p[1], pa, 0, v[2]


def elem(E, s, i):
    l, pa, st, ln = s
    if type(st) is tuple:
        return ("P", l, pa, None)
    return ("P", l, pa + (("e", add(st, i)),), None)


def vec(E, p):
    l, pa = cell(E, p)
    pa, v = unwrap_tag(E, l, pa, "V")
    if v is U:
        E.violation("ub", "use of an uninitialised or moved-out vector")
        raise Halt()
    if v[0] != "V":
        raise Unsupported("not a vector: %r" % (v[:2],))
    return l, pa, v


# ------------------------------------------------------------------ prims
@leaf("probe::prim::nondet")
def _(E, fn, a, d):
    return bool(E.choose(2))


@leaf("probe::prim::any_u32")
def _(E, fn, a, d):
    return E.fresh(0, (1 << 32) - 1)


@leaf("probe::prim::any_index")
def _(E, fn, a, d):
    return E.fresh(0, MAXIX - 1)


@leaf("probe::prim::any_usize", "probe::prim::any_i64")
def _(E, fn, a, d):
    lo, hi = a
    if type(lo) is int and type(hi) is int and hi - lo < 40:
        return lo + E.choose(hi - lo + 1)
    x = E.fresh(None, None)
    E.assume_ge0(sub(x, lo))
    E.assume_ge0(sub(hi, x))
    return x


@leaf("probe::prim::assume")
def _(E, fn, a, d):
    if a[0] is Q:
        return UNIT
    if not a[0]:
        raise Dead()
    return UNIT


@leaf("probe::prim::check")
def _(E, fn, a, d):
    msg = a[1][1] if type(a[1]) is tuple and a[1][0] == "S" else "?"
    if E.foreign(msg):
        return UNIT
    E.stats["checks"] += 1
    E.checks_seen[msg] = E.checks_seen.get(msg, 0) + 1
    if a[0] is Q:
        raise Unsupported("undetermined check: " + msg)
    if not a[0]:
        E.violation("check", msg)
        raise Halt()
    return UNIT


@leaf("probe::prim::fail")
def _(E, fn, a, d):
    if E.foreign(a[0][1]):
        raise Dead()
    E.violation("check", a[0][1])
    raise Halt()


@leaf("probe::prim::reach")
def _(E, fn, a, d):
    m = a[0][1]
    E.checks_seen["reach:" + m] = E.checks_seen.get("reach:" + m, 0) + 1
    return UNIT


@leaf("probe::prim::track")
def _(E, fn, a, d):
    E.st.tracked = E.st.tracked + (a[0],)
    return UNIT


@leaf("probe::prim::tracked")
def _(E, fn, a, d):
    for i, t in enumerate(E.st.tracked):
        if E.eq0(sub(a[0], t)):
            return True
    return False


@leaf("probe::prim::is_key")
def _(E, fn, a, d):
    return E.eq0(sub(a[0], E.st.tracked[a[1]]))


@leaf("probe::prim::try_call")
def _(E, fn, a, d):
    from core import Frame
    E.st.frames.append(Frame(fn, {}, 0, 0, None, "c"))
    f = a[0]
    E.call(f[1], (a[1],), None, None)
    E.pushed = True
    return None


@leaf("probe::prim::share")
def _(E, fn, a, d):
    # from here on, before any atomic step, another thread may do up to a[2] operations (runs of a[0] on a[1])
    g = [x for x in E.st.ghost if x[0] != -2]
    g.append((-2, ("A", -1, 0, (a[0], E.to_ptr(a[1]), a[2], len(E.st.frames) - 1))))
    g.sort(key=lambda x: x[0])
    E.st.ghost = tuple(g)
    if "S" not in E.st.flags:
        E.st.flags = E.st.flags + ("S",)
    return UNIT


@leaf("probe::prim::unshare")
def _(E, fn, a, d):
    E.st.ghost = tuple(x for x in E.st.ghost if x[0] != -2)
    E.st.flags = tuple(x for x in E.st.flags if x != "S")
    return UNIT


@leaf("probe::prim::user_panic")
def _(E, fn, a, d):
    raise Panic("user code panics", True)


@leaf("probe::prim::stop")
def _(E, fn, a, d):
    raise Dead()


@leaf("probe::prim::begin")
def _(E, fn, a, d):
    E.st.flags = tuple(x for x in E.st.flags if x != "o")
    return UNIT


@leaf("probe::prim::gget")
def _(E, fn, a, d):
    for i, v in E.st.ghost:
        if i == a[0]:
            return v
    return 0


@leaf("probe::prim::gset")
def _(E, fn, a, d):
    g = [x for x in E.st.ghost if x[0] != a[0]]
    g.append((a[0], a[1]))
    g.sort(key=lambda x: x[0])
    E.st.ghost = tuple(g)
    return UNIT


@leaf("probe::prim::any_bitset", "probe::prim::any_atomic_bitset")
def _(E, fn, a, d):
    return ("B", 2, ())


@leaf("probe::prim::havoc")
def _(E, fn, a, d):
    return E.havoc(d)


@leaf("probe::prim::same")
def _(E, fn, a, d):
    x, y = E.to_ptr(a[0]), E.to_ptr(a[1])
    return same_place(E, x, y)


def same_place(E, x, y):
    if x[0] != "P" or y[0] != "P" or x[1] != y[1]:
        return False
    px, py = norm_path(E, x), norm_path(E, y)
    if len(px) != len(py):
        return False
    for s, t in zip(px, py):
        if type(s) is int or type(t) is int:
            if s != t:
                return False
        elif s[0] == "e":
            if not E.eq0(sub(s[1], t[1])):
                return False
        elif not E.val_eq(s[1], t[1]):
            return False
    return True


def norm_path(E, p):
    """strip trailing wrapper steps"""
    v = E.getbase(p[1])
    path = p[2]
    # follow while the value is a single-field wrapper so that equal places get equal paths
    v = E.get(p[1], path)
    path = list(path)
    while type(v) is tuple and v and v[0] == "A" and v[1] != -1:
        w = E.p.wrapper_field(v[1])
        if w is None:
            break
        path.append(w[0])
        v = v[3][w[0]]
    return path


# ------------------------------------------------------------------ panics, formatting
@leaf("core::panicking::*", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed*",
      "std::panicking::*", "core::slice::index::slice_*", "core::str::*", "alloc::raw_vec::capacity_overflow",
      "alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "core::cell::panic_*")
def _panic(E, fn, a, d):
    if "nounwind" in fn.key or "panic_cannot_unwind" in fn.key or "in_cleanup" in fn.key:
        raise Dead()
    raise Panic(fn.key.split("::")[-1])


@leaf("std::panicking::panic_count::count_is_zero", "std::thread::panicking", "std::panicking::panicking")
def _(E, fn, a, d):
    return E.unwinding() != fn.key.endswith("zero")


@leaf("std::panic::resume_unwind")
def _(E, fn, a, d):
    raise Panic("resumed panic")


@leaf("drop:none")
def _(E, fn, a, d):
    return UNIT


@leaf("*const::is_null", "*mut::is_null")
def _(E, fn, a, d):
    p = E.to_ptr(a[0])
    if type(p) is tuple and p[0] in ("P", "S"):
        return False
    if type(p) is int:
        return p == 0
    return bool(E.choose(2))


@leaf("core::ptr::non_null::NonNull::new")
def _(E, fn, a, d):
    p = E.to_ptr(a[0])
    if type(p) is tuple and p[0] == "P":
        return some(d, E.wrap(p, E.types[d]["vs"][1][2][0]))
    if type(p) is int:
        return none(d)
    raise Unsupported("NonNull::new of an unknown pointer")


@leaf("core::fmt::*", "alloc::fmt::*", "<core::fmt::*")
def _(E, fn, a, d):
    return E.havoc_or_q(d)


@leaf("core::any::type_name", "core::intrinsics::type_name", "intrinsic:type_name")
def _(E, fn, a, d):
    return ("S", "type")


# ------------------------------------------------------------------ mem / ptr / intrinsics
def tcell(E, p, ty):
    """pointer to a T -> (loc, path) of the T itself"""
    l, pa = cell(E, p)
    return l, E.peel(l, pa, ty)


@leaf("core::mem::swap")
def _(E, fn, a, d):
    l1, p1 = tcell(E, a[0], fn.args[0])
    l2, p2 = tcell(E, a[1], fn.args[0])
    x, y = E.get(l1, p1), E.get(l2, p2)
    E.put(l1, p1, y)
    E.put(l2, p2, x)
    return UNIT


@leaf("core::mem::replace")
def _(E, fn, a, d):
    l, p = tcell(E, a[0], fn.args[0])
    x = E.get(l, p)
    E.put(l, p, a[1])
    return x


@leaf("core::mem::forget")
def _(E, fn, a, d):
    return UNIT


@leaf("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile", "*const::read", "*mut::read",
      "core::intrinsics::read_via_copy", "intrinsic:read_via_copy")
def _(E, fn, a, d):
    l, p = tcell(E, a[0], fn.args[0])
    return E.get(l, p)


@leaf("core::ptr::write", "*mut::write", "core::ptr::write_unaligned", "intrinsic:write_via_move")
def _(E, fn, a, d):
    l, p = tcell(E, a[0], fn.args[0])
    E.put(l, p, a[1])
    return UNIT


@leaf("core::ptr::replace", "*mut::replace")
def _(E, fn, a, d):
    l, p = tcell(E, a[0], fn.args[0])
    x = E.get(l, p)
    E.put(l, p, a[1])
    return x


@leaf("core::ptr::swap", "*mut::swap", "intrinsic:typed_swap_nonoverlapping")
def _(E, fn, a, d):
    l1, p1 = tcell(E, a[0], fn.args[0])
    l2, p2 = tcell(E, a[1], fn.args[0])
    x, y = E.get(l1, p1), E.get(l2, p2)
    E.put(l1, p1, y)
    E.put(l2, p2, x)
    return UNIT


@leaf("core::ptr::drop_in_place", "*mut::drop_in_place")
def _(E, fn, a, d):
    p = E.to_ptr(a[0])
    if E.drop_at(p[1], p[2], fn.args[0], p[3]):
        E.pushed = True
        return None
    return UNIT


@leaf("intrinsic:assert_*", "intrinsic:cold_path", "intrinsic:likely", "intrinsic:unlikely", "core::hint::*",
      "core::ub_checks::*", "intrinsic:assume")
def _(E, fn, a, d):
    if fn.key == "intrinsic:assume" and a[0] is False:
        raise Dead()
    return UNIT if not fn.key.endswith("likely") else a[0]


@leaf("intrinsic:ub_checks", "intrinsic:overflow_checks", "intrinsic:contract_checks", "core::ub_checks::check_language_ub")
def _(E, fn, a, d):
    return fn.key == "intrinsic:overflow_checks"


@leaf("intrinsic:size_of", "core::mem::size_of", "intrinsic:size_of_val", "intrinsic:min_align_of", "intrinsic:align_of",
      "core::mem::align_of", "intrinsic:align_of_val", "core::mem::size_of_val")
def _(E, fn, a, d):
    if "size" in fn.key:
        if E.p.is_zst(fn.args[0]):
            return 0
        t = E.types[fn.args[0]]
        return E.fresh(1 if t["k"] in ("int", "ref", "ptr", "closure", "bool") else 0, 1 << 31)
    return E.fresh(1, 1 << 31)


@leaf("intrinsic:needs_drop", "core::mem::needs_drop")
def _(E, fn, a, d):
    return E.types[fn.args[0]]["drop"] >= 0


@leaf("intrinsic:transmute", "core::intrinsics::transmute", "core::mem::transmute")
def _(E, fn, a, d):
    return E.transmute(a[0], fn.args[0], fn.args[1])


@leaf("intrinsic:discriminant_value", "core::mem::discriminant")
def _(E, fn, a, d):
    v = deref(E, a[0])
    r = E.p.discr(v[1], v[2]) if v[0] == "A" else 0
    return r


@leaf("intrinsic:type_id", "core::any::TypeId::of")
def _(E, fn, a, d):
    return ("T", fn.args[0])


@leaf("<core::any::TypeId as core::cmp::PartialEq>::eq")
def _(E, fn, a, d):
    return deref(E, a[0]) == deref(E, a[1])


@leaf("<core::any::TypeId as core::cmp::PartialEq>::ne")
def _(E, fn, a, d):
    return deref(E, a[0]) != deref(E, a[1])


@leaf("<core::any::TypeId as core::clone::Clone>::clone")
def _(E, fn, a, d):
    return deref(E, a[0])


types("core::any::TypeId")


@leaf("<str as core::cmp::PartialEq>::eq", "core::str::traits::<str as core::cmp::PartialEq>::eq")
def _(E, fn, a, d):
    x, y = a
    x = deref(E, x) if type(x) is tuple and x[0] == "P" else x
    y = deref(E, y) if type(y) is tuple and y[0] == "P" else y
    if type(x) is tuple and type(y) is tuple and x[0] == "S" == y[0]:
        return x == y
    return bool(E.choose(2))


@leaf("intrinsic:unreachable", "core::hint::unreachable_unchecked")
def _(E, fn, a, d):
    raise Dead()


@leaf("intrinsic:black_box", "core::hint::black_box")
def _(E, fn, a, d):
    return a[0]


@leaf("intrinsic:wrapping_add", "intrinsic:wrapping_sub", "intrinsic:wrapping_mul", "intrinsic:unchecked_add",
      "intrinsic:unchecked_sub", "intrinsic:unchecked_mul", "intrinsic:exact_div", "intrinsic:unchecked_div",
      "intrinsic:unchecked_rem", "intrinsic:unchecked_shl", "intrinsic:unchecked_shr")
def _(E, fn, a, d):
    n = fn.key.split("_")[-1].capitalize()
    return E.binop(n, a[0], a[1], fn.args[0])


@leaf("intrinsic:saturating_sub")
def _(E, fn, a, d):
    e = sub(a[0], a[1])
    lo, hi = E.p.int_range(fn.args[0])
    if not E.ge0(sub(e, lo)):
        return lo
    if not E.ge0(sub(hi, e)):
        return hi
    return e


@leaf("intrinsic:saturating_add")
def _(E, fn, a, d):
    e = add(a[0], a[1])
    lo, hi = E.p.int_range(fn.args[0])
    if not E.ge0(sub(e, lo)):
        return lo
    if not E.ge0(sub(hi, e)):
        return hi
    return e


@leaf("intrinsic:add_with_overflow", "intrinsic:sub_with_overflow", "intrinsic:mul_with_overflow")
def _(E, fn, a, d):
    n = fn.key[10:13].capitalize() + "WithOverflow"
    r = E.binop(n, a[0], a[1], fn.args[0])
    return ("A", d, 0, r[3])


@leaf("intrinsic:cttz", "intrinsic:ctlz", "intrinsic:ctpop", "intrinsic:cttz_nonzero", "intrinsic:ctlz_nonzero")
def _(E, fn, a, d):
    lo, hi = E.p.int_range(fn.args[0])
    bits = (hi - lo + 1).bit_length() - 1
    x = a[0]
    if type(x) is Lin and E.eq0(x):
        x = 0
    if type(x) is int:
        x &= (1 << bits) - 1
        if "ctpop" in fn.key:
            return bin(x).count("1")
        if "ctlz" in fn.key:
            return bits - x.bit_length()
        return bits if x == 0 else (x & -x).bit_length() - 1
    if "ctpop" in fn.key:
        return E.fresh(1, bits)
    return E.fresh(0, bits - 1)


@leaf("intrinsic:integer_min", "intrinsic:integer_max")
def _(E, fn, a, d):
    x, y = a
    if x is Q or y is Q:
        return E.havoc(d)
    if E.ge0(sub(x, y)):
        x, y = y, x
    return x if fn.key.endswith("min") else y


@leaf("intrinsic:is_val_statically_known")
def _(E, fn, a, d):
    return False


@leaf("intrinsic:select_unpredictable", "core::hint::select_unpredictable")
def _(E, fn, a, d):
    if a[0] is Q:
        return a[1] if E.choose(2) else a[2]
    return a[1] if a[0] else a[2]


@leaf("intrinsic:rotate_left", "intrinsic:rotate_right", "intrinsic:bswap", "intrinsic:bitreverse")
def _(E, fn, a, d):
    lo, hi = E.p.int_range(fn.args[0])
    bits = (hi - lo + 1).bit_length() - 1
    if "rotate" in fn.key and all(type(x) is int for x in a) and lo == 0:
        n = a[1] % bits
        if fn.key.endswith("right"):
            n = (bits - n) % bits
        return ((a[0] << n) | (a[0] >> (bits - n))) & hi
    return E.havoc(d)


@leaf("intrinsic:disjoint_bitor")
def _(E, fn, a, d):
    return E.binop("BitOr", a[0], a[1], fn.args[0])


@leaf("intrinsic:copy", "intrinsic:copy_nonoverlapping", "core::ptr::copy", "core::ptr::copy_nonoverlapping")
def _(E, fn, a, d):
    E.copy_elems(a[0], a[1], a[2])
    return UNIT


@leaf("intrinsic:three_way_compare", "core::cmp::Ord::cmp", "<?int? as core::cmp::Ord>::cmp")
def _(E, fn, a, d):
    x, y = a
    if type(x) is tuple:
        x, y = deref(E, x), deref(E, y)
    if x is Q or y is Q:
        return ("A", d, E.choose(3), ())
    if type(x) is bool:
        x, y = int(x), int(y)
    if E.eq0(sub(x, y)):
        return ("A", d, 1, ())
    if E.ge0(sub(x, y)):
        return ("A", d, 2, ())
    return ("A", d, 0, ())


for _t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
    EXACT["<%s as core::cmp::Ord>::cmp" % _t] = EXACT["intrinsic:three_way_compare"]


@leaf("intrinsic:const_eval_select", "core::intrinsics::const_eval_select")
def _(E, fn, a, d):
    # (args tuple, const fn, runtime fn)
    f = a[2]
    args = a[0][3] if type(a[0]) is tuple and a[0][0] == "A" else ()
    t = E.types[fn.args[2]]
    if t["k"] == "fndef":
        r = E.call(t["f"], tuple(args), None, d)
        if r is None:
            E.pushed = True
        return r
    raise Unsupported("const_eval_select")


@leaf("intrinsic:arith_offset", "intrinsic:offset", "intrinsic:ptr_offset_from_unsigned", "intrinsic:ptr_offset_from",
      "*const::add", "*mut::add", "*const::offset", "*mut::offset", "core::ptr::non_null::NonNull::add")
def _(E, fn, a, d):
    if "offset_from" in fn.key:
        raise Unsupported(fn.key)
    p = E.to_ptr(a[0])
    r = E.ptr_offset(p, a[1])
    return E.retype(a[0], d) if r is p else (E.wrap(r, d) if E.types[d]["k"] == "adt" else r)


@leaf("core::slice::raw::from_ref", "core::slice::raw::from_mut", "core::slice::from_ref", "core::slice::from_mut")
def _(E, fn, a, d):
    p = E.to_ptr(a[0])
    if p[2] and type(p[2][-1]) is tuple and p[2][-1][0] == "e":
        return ("P", p[1], p[2][:-1], ("s", p[2][-1][1], 1))
    return ("P", p[1], p[2], ("one", 0, 1))


@leaf("core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut", "core::slice::raw::from_raw_parts",
      "core::slice::raw::from_raw_parts_mut")
def _(E, fn, a, d):
    return E.slice_from_raw(E.to_ptr(a[0]), a[1])


@leaf("intrinsic:caller_location")
def _(E, fn, a, d):
    return Q


@leaf("intrinsic:compare_bytes", "intrinsic:raw_eq")
def _(E, fn, a, d):
    if fn.key.endswith("raw_eq"):
        x, y = deref(E, a[0]), deref(E, a[1])
        if x[0] == "V" and y[0] == "V" and x[2] == y[2] and len(x[3]) == len(y[3]) == x[2]:
            return all(E.val_eq(E.get(cell(E, a[0])[0], cell(E, a[0])[1] + (("e", i),)),
                                E.get(cell(E, a[1])[0], cell(E, a[1])[1] + (("e", i),))) for i in range(x[2]))
        if type(x) in (int, bool, Lin):
            return E.val_eq(x, y)
    else:
        p, q, n = E.to_ptr(a[0]), E.to_ptr(a[1]), a[2]
        if type(n) is int and n < 64:
            w = None
            if p[0] == "P" and q[0] == "P" and p[2] and q[2] and p[2][-1][0] == "e" == q[2][-1][0]:
                v = E.get(p[1], p[2][:-1])
                if v[0] == "V" and v[1] >= 0 and E.types[v[1]]["k"] == "int":
                    lo, hi = E.p.int_range(v[1])
                    w = (hi - lo + 1).bit_length() // 8
            if w:
                for i in range(n // w):
                    x, y = E.ptr_offset(p, i), E.ptr_offset(q, i)
                    if not E.val_eq(E.get(x[1], x[2]), E.get(y[1], y[2])):
                        return 1 - 2 * E.choose(2)
                return 0
    return E.havoc(d)


# ------------------------------------------------------------------ Box
types("alloc::boxed::Box")


@leaf("alloc::boxed::Box::new", "alloc::boxed::box_new", "intrinsic:box_new")
def _(E, fn, a, d):
    return ("P", E.alloc(a[0]), (), None)


@leaf("alloc::boxed::Box::into_raw", "alloc::boxed::Box::from_raw", "alloc::boxed::Box::leak",
      "alloc::boxed::Box::into_inner", "alloc::boxed::Box::from_raw_in", "alloc::boxed::Box::into_raw_with_allocator")
def _(E, fn, a, d):
    if fn.key.endswith("into_inner"):
        return deref(E, a[0])
    if fn.key.endswith("with_allocator"):
        return ("A", d, 0, (E.to_ptr(a[0]), E.p.zst_value(E.types[d]["ts"][1])))
    return E.to_ptr(a[0])


@leaf("<alloc::boxed::Box as core::ops::deref::Deref>::deref", "<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut",
      "<alloc::boxed::Box as core::convert::AsRef>::as_ref", "<alloc::boxed::Box as core::convert::AsMut>::as_mut",
      "<alloc::boxed::Box as core::borrow::Borrow>::borrow", "<alloc::boxed::Box as core::borrow::BorrowMut>::borrow_mut")
def _(E, fn, a, d):
    return E.to_ptr(deref(E, a[0]))


# ------------------------------------------------------------------ bit sets
types("hibitset::BitSet", "hibitset::atomic::AtomicBitSet", "hibitset::iter::BitIter")


def bset(E, p):
    l, pa = cell(E, p)
    pa, v = unwrap_tag(E, l, pa, "B")
    if v is U:
        E.violation("ub", "use of an uninitialised or moved-out bit set")
        raise Halt()
    if v[0] != "B":
        raise Unsupported("not a bit set: %r" % (v[:2],))
    return l, pa, v


def bfind(E, v, x):
    for i, (k, b) in enumerate(v[2]):
        r = E.st.num.eq0(sub(k, x))
        if r:
            return i
    for i, (k, b) in enumerate(v[2]):
        if E.eq0(sub(k, x)):
            return i
    return -1


def bget(E, l, pa, v, x):
    """membership, recording the answer"""
    i = bfind(E, v, x)
    if i >= 0:
        return v[2][i][1]
    if v[1] == 2:
        b = bool(E.choose(2))
        if l is not None:
            E.put(l, pa, ("B", 2, v[2] + ((x, b),)))
        return b
    return bool(v[1])


def bput(E, l, pa, v, x, b):
    i = bfind(E, v, x)
    if i >= 0:
        E.put(l, pa, ("B", v[1], v[2][:i] + ((v[2][i][0], b),) + v[2][i + 1:]))
    else:
        E.put(l, pa, ("B", v[1], v[2] + ((x, b),)))


@leaf("hibitset::BitSet::new", "<hibitset::BitSet as core::default::Default>::default", "hibitset::BitSet::with_capacity",
      "hibitset::atomic::AtomicBitSet::new", "<hibitset::atomic::AtomicBitSet as core::default::Default>::default")
def _(E, fn, a, d):
    return ("B", 0, ())


def in_range(E, x):
    return E.ge0(sub(MAXIX - 1, x))


@leaf("hibitset::BitSet::contains", "<hibitset::BitSet as hibitset::BitSetLike>::contains")
def _(E, fn, a, d):
    l, pa, v = bset(E, a[0])
    if not in_range(E, a[1]):
        return False
    resolve(E, a[1])
    return bget(E, l, pa, v, a[1])


@leaf("hibitset::atomic::AtomicBitSet::contains", "<hibitset::atomic::AtomicBitSet as hibitset::BitSetLike>::contains")
def _(E, fn, a, d):
    l, pa, v = bset(E, a[0])
    if not in_range(E, a[1]):
        raise Panic("AtomicBitSet::contains: index out of bounds")
    resolve(E, a[1])
    return bget(E, l, pa, v, a[1])


@leaf("hibitset::BitSet::add", "hibitset::atomic::AtomicBitSet::add", "hibitset::atomic::AtomicBitSet::add_atomic")
def _(E, fn, a, d):
    l, pa, v = bset(E, a[0])
    if not in_range(E, a[1]):
        raise Panic(fn.key + ": index out of bounds")
    resolve(E, a[1])
    b = bget(E, l, pa, v, a[1])
    l, pa, v = bset(E, a[0])
    bput(E, l, pa, v, a[1], True)
    return b


@leaf("hibitset::BitSet::remove", "hibitset::atomic::AtomicBitSet::remove")
def _(E, fn, a, d):
    l, pa, v = bset(E, a[0])
    if not in_range(E, a[1]):
        if "atomic" in fn.key:
            raise Panic(fn.key + ": index out of bounds")
        return False
    resolve(E, a[1])
    b = bget(E, l, pa, v, a[1])
    l, pa, v = bset(E, a[0])
    bput(E, l, pa, v, a[1], False)
    return b


@leaf("hibitset::BitSet::clear", "hibitset::atomic::AtomicBitSet::clear")
def _(E, fn, a, d):
    l, pa, v = bset(E, a[0])
    E.put(l, pa, ("B", 0, ()))
    return UNIT


@leaf("<hibitset::BitSet as core::clone::Clone>::clone")
def _(E, fn, a, d):
    return bset(E, a[0])[2]


@leaf("hibitset::BitSetLike::is_empty", "<hibitset::BitSet as hibitset::BitSetLike>::is_empty",
      "<hibitset::atomic::AtomicBitSet as hibitset::BitSetLike>::is_empty")
def _(E, fn, a, d):
    for t in E.st.tracked:
        if member(E, a[0], t):
            return False
    if maybe_other(E, a[0]) == 0:
        return True
    return bool(E.choose(2))


def member(E, s, x):
    """x in the (possibly composite) set value / reference s"""
    if type(s) is tuple and s:
        if s[0] == "P":
            v = E.get(s[1], s[2])
            if type(v) is tuple and v[0] == "B":
                return bget(E, s[1], s[2], v, x)
            return member(E, v, x)
        if s[0] == "B":
            return bget(E, None, None, s, x)
        if s[0] == "A":
            p = E.p.adt_path(s[1]) if s[1] >= 0 else None
            if p is None:
                raise Unsupported("membership in %r" % (s[:2],))
            n = p.split("::")[-1]
            f = s[3]
            if n == "BitSetAnd":
                return member(E, f[0], x) and member(E, f[1], x)
            if n == "BitSetOr":
                return member(E, f[0], x) or member(E, f[1], x)
            if n == "BitSetNot":
                return not member(E, f[0], x)
            if n == "BitSetXor":
                return member(E, f[0], x) != member(E, f[1], x)
            if n == "BitSetAll":
                return True
    raise Unsupported("membership in %r" % (s[:2],))


def maybe_other(E, s):
    """can an untracked index be a member: 0 never, 1 always, 2 unknown"""
    if s[0] == "P":
        return maybe_other(E, E.get(s[1], s[2]))
    if s[0] == "B":
        d = s[1]
        for k, b in s[2]:
            if all(E.st.num.eq0(sub(k, t)) is not True for t in E.st.tracked) and b != d:
                d = 2
        return d
    if s[0] == "A":
        n = E.p.adt_path(s[1]).split("::")[-1]
        f = s[3]
        if n == "BitSetAll":
            return 1
        a = maybe_other(E, f[0])
        if n == "BitSetNot":
            return (1, 0, 2)[a]
        b = maybe_other(E, f[1])
        if n == "BitSetAnd":
            return 0 if 0 in (a, b) else (1 if a == b == 1 else 2)
        if n == "BitSetOr":
            return 1 if 1 in (a, b) else (0 if a == b == 0 else 2)
        return 2
    raise Unsupported("membership")


for _s in ("hibitset::ops::BitSetAnd", "hibitset::ops::BitSetOr", "hibitset::ops::BitSetNot", "hibitset::ops::BitSetXor",
           "hibitset::ops::BitSetAll", "&", "&mut", "dyn", "?"):
    @leaf("<%s as hibitset::BitSetLike>::contains" % _s)
    def _contains(E, fn, a, d):
        resolve(E, a[1])
        return member(E, a[0], a[1])
EXACT["hibitset::BitSetLike::contains"] = _contains


@leaf("hibitset::BitSetLike::iter", "<& as core::iter::traits::collect::IntoIterator>::into_iter!bit")
def _(E, fn, a, d):
    return ("I", "bit", (), (a[0],))


@leaf("<hibitset::iter::BitIter as core::iter::traits::iterator::Iterator>::next")
def _(E, fn, a, d):
    l, pa = cell(E, a[0])
    pa, v = unwrap_tag(E, l, pa, "I")
    if v is U:
        E.violation("ub", "use of a moved-out iterator")
        raise Halt()
    r = bit_next(E, v)
    if r is None:
        return none(d)
    done, x = r
    if done is not None:
        E.put(l, pa, ("I", "bit", done, v[3]))
    return some(d, x)


def bit_next(E, v):
    s = v[3][0]
    done = v[2]
    left = []
    for i, t in enumerate(E.st.tracked):
        if i not in done and member(E, s, t):
            left.append(i)
    opts = [("k", i) for i in left]
    if maybe_other(E, s) != 0 and not E.opts.get("noother"):
        opts.append(("o",))
    if not left:
        opts.append(("n",))
    c = opts[E.choose(len(opts)) if len(opts) > 1 else 0]
    if c[0] == "k":
        i = c[1]
        return tuple(sorted(done + (i,))), E.st.tracked[i]
    if c[0] == "n":
        return None
    x = E.fresh(0, MAXIX - 1)
    for t in E.st.tracked:
        E.assume_ne0(sub(x, t))
    other(E)
    if not member(E, s, x):
        raise Dead()
    return None_done, x


None_done = None


@leaf("<hibitset::iter::BitIter as core::clone::Clone>::clone")
def _(E, fn, a, d):
    return deref(E, a[0])


types("hibitset::iter::parallel::__none")


@leaf("hibitset::iter::parallel::BitProducer::split",
      "<hibitset::iter::parallel::BitProducer as rayon::iter::plumbing::UnindexedProducer>::split")
def _(E, fn, a, d):
    raise Unsupported("BitProducer::split")


def drop_items(E, fn, v, loc, path, ty, meta):
    if type(v) is not tuple or v is U:
        return []
    t = E.types[ty]
    k = t["k"]
    if k == "adt" and t.get("path") == "alloc::boxed::Box":
        p = E.to_ptr(v)
        return [(p[1], p[2], t["args"][0], p[3])]
    if v[0] == "V":
        ety = t["args"][0] if k == "adt" else t["to"]
        if E.types[ety]["drop"] < 0:
            return []
        if meta is not None and meta[0] == "s":
            raise Unsupported("drop of a subslice")
        return [(loc, path + (("e", i),), ety, None) for i, _ in v[3]]
    if v[0] == "M":
        vty = v[2]
        if E.types[vty]["drop"] < 0:
            return []
        return [(loc, path + (("k", kk),), vty, None) for kk, x in v[3] if x != ABS]
    if v[0] == "I":
        return iter_drop(E, v, loc, path)
    return []


def iter_drop(E, v, loc, path):
    h = ITERDROP.get(v[1])
    return h(E, v, loc, path) if h else []


ITERDROP = {}


@leaf("hibitset::BitSetLike::get_from_layer", "<hibitset::BitSet as hibitset::BitSetLike>::layer*",
      "<hibitset::BitSet as hibitset::BitSetLike>::get_from_layer", "<hibitset::atomic::AtomicBitSet as hibitset::BitSetLike>::layer*",
      "<hibitset::atomic::AtomicBitSet as hibitset::BitSetLike>::get_from_layer")
def _(E, fn, a, d):
    # words of the hierarchy: any value
    return E.fresh_ty(d)


for _s in ("BitSetAnd", "BitSetOr", "BitSetNot", "BitSetXor", "BitSetAll"):
    PREFIX.append(("<hibitset::ops::%s as hibitset::BitSetLike>::layer" % _s, EXACT["hibitset::BitSetLike::get_from_layer"]))
PREFIX.append(("<& as hibitset::BitSetLike>::layer", EXACT["hibitset::BitSetLike::get_from_layer"]))


import stdm  # noqa: E402,F401


@leaf("alloc::boxed::Box::new_uninit")
def _(E, fn, a, d):
    return ("P", E.alloc(U), (), None)


@leaf("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(E, fn, a, d):
    p = E.to_ptr(a[0])
    v = E.get(p[1], p[2])
    while type(v) is tuple and v[0] == "A":
        v = v[3][-1]
    return v


@leaf("<alloc::boxed::Box as core::ops::drop::Drop>::drop")
def _(E, fn, a, d):
    """frees the memory of a box whose contents were moved out or dropped already"""
    p = E.to_ptr(deref(E, a[0]))
    if type(p) is tuple and p[0] == "P" and p[2] == ():
        E.setbase(p[1], U)
    return UNIT


@leaf("alloc::alloc::{{extern}}::__rust_dealloc", "alloc::alloc::dealloc")
def _(E, fn, a, d):
    return UNIT
