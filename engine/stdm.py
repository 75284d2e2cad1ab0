"""Models of std containers: Vec, slices, arrays, HashMap/HashSet, atomics, iterators over them."""
from num import Lin, add, sub, sym
from core import U, Q, UNIT, Unsupported, Panic, Dead, Halt, FB, HEAPD, HEAPB
import leafs as L
from canon import simple_int
from leafs import leaf, types, redirect, none, some, cell, deref, unwrap_tag, slc, elem, vec, other, ABS, EXACT, PREFIX

MAXLEN = (1 << 63) - 1

types("alloc::vec::Vec", "core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter",
      "alloc::vec::drain::Drain", "core::array::iter::IntoIter",
      "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
      "std::collections::hash::map::Iter", "std::collections::hash::map::IterMut", "std::collections::hash::map::IntoIter",
      "std::collections::hash::map::Keys", "std::collections::hash::map::Values", "std::collections::hash::map::ValuesMut",
      "std::collections::hash::map::IntoKeys", "std::collections::hash::map::IntoValues", "std::collections::hash::map::Drain",
      "std::collections::hash::map::OccupiedEntry", "std::collections::hash::map::VacantEntry",
      "std::collections::hash::set::Iter", "std::collections::hash::set::IntoIter", "std::collections::hash::set::Drain",
      "std::collections::hash::set::Intersection", "std::collections::hash::set::Union",
      "std::collections::hash::set::Difference", "std::collections::hash::set::SymmetricDifference",
      "alloc::string::String")


# ------------------------------------------------------------------ Vec
def ety_of(E, fn):
    return fn.args[0]


def newvec(ety):
    return ("V", ety, 0, (), ())


def lt(E, a, b):
    return E.ge0(sub(sub(b, a), 1))


def le(E, a, b):
    return E.ge0(sub(b, a))


def setv(E, l, pa, v, ln=None, elems=None, rest=None):
    E.put(l, pa, ("V", v[1], v[2] if ln is None else ln, v[3] if elems is None else elems, v[4] if rest is None else rest))


def take_elem(E, l, pa, idx):
    """value of element idx, removed from the explicit list"""
    x = E.get(l, pa + (("e", idx),))
    v = E.get(l, pa)
    j = E.find_elem(v, idx)
    if j >= 0:
        setv(E, l, pa, v, elems=v[3][:j] + v[3][j + 1:])
    return x


def keyfork(E, v, idx):
    """a vector that may be indexed by tracked keys: decide whether the new position is one"""
    if (type(idx) is Lin or E.opts.get("keyconst")) and not simple_int(E, v[1]):
        for t in E.st.tracked:
            if (type(idx) is Lin or type(t) is Lin) and E.eq0(sub(idx, t)):
                return


def vpush(E, l, pa, v, x):
    n = v[2]
    keyfork(E, v, n)
    if type(n) is Lin:
        E.assume_ge0(sub(MAXLEN - 1, n))
    E.put(l, pa, ("V", v[1], add(n, 1), v[3] + ((n, x),), v[4]))


@leaf("alloc::vec::Vec::new", "<alloc::vec::Vec as core::default::Default>::default", "alloc::vec::Vec::with_capacity",
      "alloc::vec::Vec::new_in", "alloc::vec::Vec::with_capacity_in")
def _(E, fn, a, d):
    return newvec(E.types[d]["args"][0])


@leaf("alloc::vec::Vec::len")
def _(E, fn, a, d):
    return vec(E, a[0])[2][2]


@leaf("alloc::vec::Vec::is_empty")
def _(E, fn, a, d):
    return E.eq0(vec(E, a[0])[2][2])


@leaf("alloc::vec::Vec::capacity")
def _(E, fn, a, d):
    n = vec(E, a[0])[2][2]
    x = E.fresh(0, MAXLEN)
    E.assume_ge0(sub(x, n))
    return x


@leaf("<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend_reserve", "alloc::vec::Vec::try_reserve__none", "alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::vec::Vec::shrink_to_fit", "alloc::vec::Vec::shrink_to")
def _(E, fn, a, d):
    vec(E, a[0])
    return UNIT


@leaf("alloc::vec::Vec::push", "alloc::vec::Vec::push_mut", "<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend_one",
      "<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend_one_unchecked")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    vpush(E, l, pa, v, a[1])
    if fn.key.endswith("_mut"):
        return ("P", l, pa + (("e", v[2]),), None)
    return UNIT


@leaf("alloc::vec::Vec::pop")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    if E.eq0(v[2]):
        return none(d)
    n = sub(v[2], 1)
    x = take_elem(E, l, pa, n)
    v = E.get(l, pa)
    setv(E, l, pa, v, ln=n)
    return some(d, x)


@leaf("alloc::vec::Vec::swap_remove")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    i = a[1]
    if not lt(E, i, v[2]):
        raise Panic("swap_remove index out of bounds")
    n = sub(v[2], 1)
    last = take_elem(E, l, pa, n)
    if E.eq0(sub(i, n)):
        x = last
    else:
        x = E.get(l, pa + (("e", i),))
        E.put(l, pa + (("e", i),), last)
    setv(E, l, pa, E.get(l, pa), ln=n)
    return x


@leaf("alloc::vec::Vec::remove")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    i = a[1]
    if not lt(E, i, v[2]):
        raise Panic("removal index out of bounds")
    x = take_elem(E, l, pa, i)
    v = E.get(l, pa)
    out = []
    for p, y in v[3]:
        out.append((sub(p, 1), y) if lt(E, i, p) else (p, y))
    setv(E, l, pa, v, ln=sub(v[2], 1), elems=tuple(out))
    return x


@leaf("alloc::vec::Vec::insert")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    i = a[1]
    if not le(E, i, v[2]):
        raise Panic("insertion index out of bounds")
    out = []
    for p, y in v[3]:
        out.append((add(p, 1), y) if le(E, i, p) else (p, y))
    setv(E, l, pa, v, ln=add(v[2], 1), elems=tuple(out) + ((i, a[2]),))
    return UNIT


def drop_list(E, fn, items):
    from core import Frame
    if items:
        E.st.frames.append(Frame(fn, {}, 0, 0, None, "d", (tuple(items), 0)))
        E.pushed = True
        return None
    return UNIT


@leaf("alloc::vec::Vec::truncate", "alloc::vec::Vec::clear")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    n = a[1] if len(a) > 1 else 0
    if le(E, v[2], n):
        return UNIT
    keep, gone = [], []
    for p, x in v[3]:
        (keep if lt(E, p, n) else gone).append((p, x))
    rest = v[4] if n != 0 else ()
    items = []
    if E.types[v[1]]["drop"] >= 0:
        for p, x in gone:
            items.append((E.alloc(x), (), v[1], None))
    setv(E, l, pa, v, ln=n, elems=tuple(keep), rest=rest)
    return drop_list(E, fn, items)


@leaf("alloc::vec::Vec::set_len")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    n = a[1]
    if le(E, n, v[2]):
        # shrinking forgets the tail
        keep = [(p, x) for p, x in v[3] if lt(E, p, n)]
        setv(E, l, pa, v, ln=n, elems=tuple(keep), rest=v[4] if n != 0 else ())
        return UNIT
    # the new cells are uninitialised
    rest = v[4]
    if not (type(v[2]) is int and v[2] == 0 and not rest):
        old_all_explicit = type(v[2]) is int and len(v[3]) == v[2]
        if old_all_explicit and not rest:
            pass
        else:
            rest = E.tjoin(rest, U)
    setv(E, l, pa, v, ln=n, rest=rest)
    return UNIT


def vec_ptr(E, l, pa, v):
    return ("P", l, pa, ("s", 0, v[2]))


@leaf("<alloc::vec::Vec as core::ops::deref::Deref>::deref", "<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut",
      "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "<alloc::vec::Vec as core::convert::AsRef>::as_ref",
      "<alloc::vec::Vec as core::convert::AsMut>::as_mut", "<alloc::vec::Vec as core::borrow::Borrow>::borrow",
      "<alloc::vec::Vec as core::borrow::BorrowMut>::borrow_mut", "alloc::vec::Vec::leak", "alloc::vec::Vec::into_boxed_slice",
      "alloc::slice::[]::into_vec")
def _(E, fn, a, d):
    if fn.key.endswith(("into_boxed_slice", "leak")):
        l, pa = E.alloc(a[0]), ()
        return vec_ptr(E, l, pa, a[0])
    if fn.key.endswith("into_vec"):
        p = E.to_ptr(a[0])
        return E.get(p[1], p[2])
    l, pa, v = vec(E, a[0])
    return vec_ptr(E, l, pa, v)


@leaf("alloc::vec::Vec::as_ptr", "alloc::vec::Vec::as_mut_ptr", "[]::as_ptr", "[]::as_mut_ptr", "core::slice::[]::as_ptr",
      "core::slice::[]::as_mut_ptr")
def _(E, fn, a, d):
    s = slc(E, a[0])
    return elem(E, s, 0)


@leaf("alloc::vec::Vec::append")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    l2, pa2, w = vec(E, a[1])
    n = v[2]
    rest = v[4]
    for r in w[4]:
        rest = E.tjoin(rest, r)
    E.put(l, pa, ("V", v[1], add(n, w[2]), v[3] + tuple((add(n, p), x) for p, x in w[3]), rest))
    E.put(l2, pa2, newvec(w[1]))
    return UNIT


@leaf("alloc::vec::Vec::split_off")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    n = a[1]
    if not le(E, n, v[2]):
        raise Panic("split_off index out of bounds")
    keep, gone = [], []
    for p, x in v[3]:
        if lt(E, p, n):
            keep.append((p, x))
        else:
            gone.append((sub(p, n), x))
    setv(E, l, pa, v, ln=n, elems=tuple(keep))
    return ("V", v[1], sub(v[2], n), tuple(gone), v[4])


# ------------------------------------------------------------------ slices
def srange(E, s, ix, ity, panic):
    """index value -> ("e", i) | ("r", start, len) | None when out of bounds"""
    t = E.types[ity]
    ln = s[3]
    if t["k"] == "int":
        if lt(E, ix, ln):
            return ("e", ix)
        return None
    n = t["path"].split("::")[-1]
    f = ix[3] if type(ix) is tuple else ()
    if n == "RangeFull":
        return ("r", 0, ln)
    if n == "Range":
        lo, hi = f[0], f[1]
    elif n == "RangeFrom":
        lo, hi = f[0], ln
    elif n == "RangeTo":
        lo, hi = 0, f[0]
    elif n == "RangeInclusive":
        lo, hi = f[0], add(f[1], 1)
    elif n == "RangeToInclusive":
        lo, hi = 0, add(f[0], 1)
    else:
        raise Unsupported("slice index " + n)
    if not le(E, lo, hi) or not le(E, hi, ln):
        return None
    return ("r", lo, sub(hi, lo))


def smake(E, s, r):
    if r[0] == "e":
        return elem(E, s, r[1])
    l, pa, st, ln = s
    if type(st) is tuple:
        raise Unsupported("subslice of one")
    return ("P", l, pa, ("s", add(st, r[1]), r[2]))


def ixty(E, fn, a):
    # the generic argument that is the index type
    for g in fn.args[::-1]:
        t = E.types[g]
        if t["k"] == "int" or t.get("path", "").startswith("core::ops::range"):
            return g
    raise Unsupported("slice index type")


@leaf("core::slice::[]::get", "core::slice::[]::get_mut", "[]::get", "[]::get_mut")
def _(E, fn, a, d):
    s = slc(E, a[0])
    r = srange(E, s, a[1], fn.args[1], False)
    if r is None:
        return none(d)
    return some(d, smake(E, s, r))


@leaf("core::slice::[]::get_unchecked", "core::slice::[]::get_unchecked_mut", "[]::get_unchecked", "[]::get_unchecked_mut")
def _(E, fn, a, d):
    s = slc(E, a[0])
    r = srange(E, s, a[1], fn.args[1], False)
    if r is None:
        E.violation("ub", "unchecked access outside the bounds of the buffer")
        raise Halt()
    return smake(E, s, r)


@leaf("<alloc::vec::Vec as core::ops::index::Index>::index", "<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut",
      "<[] as core::ops::index::Index>::index", "<[] as core::ops::index::IndexMut>::index_mut",
      "<[;] as core::ops::index::Index>::index", "<[;] as core::ops::index::IndexMut>::index_mut")
def _(E, fn, a, d):
    s = slc(E, a[0])
    r = srange(E, s, a[1], ixty(E, fn, a), True)
    if r is None:
        raise Panic("index out of bounds")
    return smake(E, s, r)


@leaf("core::slice::[]::len", "[]::len")
def _(E, fn, a, d):
    return slc(E, a[0])[3]


@leaf("core::slice::[]::is_empty", "[]::is_empty")
def _(E, fn, a, d):
    return E.eq0(slc(E, a[0])[3])


@leaf("[]::first", "[]::first_mut", "[]::last", "[]::last_mut")
def _(E, fn, a, d):
    s = slc(E, a[0])
    if E.eq0(s[3]):
        return none(d)
    return some(d, elem(E, s, 0 if "first" in fn.key else sub(s[3], 1)))


@leaf("[]::split_first", "[]::split_first_mut", "[]::split_last", "[]::split_last_mut")
def _(E, fn, a, d):
    s = slc(E, a[0])
    if E.eq0(s[3]):
        return none(d)
    tt = E.types[d]["vs"][1][2][0]
    if "first" in fn.key:
        return some(d, ("A", tt, 0, (elem(E, s, 0), smake(E, s, ("r", 1, sub(s[3], 1))))))
    return some(d, ("A", tt, 0, (elem(E, s, sub(s[3], 1)), smake(E, s, ("r", 0, sub(s[3], 1))))))


@leaf("[]::split_at", "[]::split_at_mut", "[]::split_at_unchecked", "[]::split_at_mut_unchecked")
def _(E, fn, a, d):
    s = slc(E, a[0])
    if not le(E, a[1], s[3]):
        raise Panic("mid > len")
    return ("A", d, 0, (smake(E, s, ("r", 0, a[1])), smake(E, s, ("r", a[1], sub(s[3], a[1])))))


@leaf("[]::swap")
def _(E, fn, a, d):
    s = slc(E, a[0])
    if not lt(E, a[1], s[3]) or not lt(E, a[2], s[3]):
        raise Panic("index out of bounds")
    p, q = elem(E, s, a[1]), elem(E, s, a[2])
    x, y = E.get(p[1], p[2]), E.get(q[1], q[2])
    E.put(p[1], p[2], y)
    E.put(q[1], q[2], x)
    return UNIT


# iterators: ("I", "sl", kind, (container pointer, cur, end))
def sl_iter(E, s, kind):
    l, pa, st, ln = s
    if type(st) is tuple:
        return ("I", "sl", "one", (("P", l, pa, None), 0, ln))
    return ("I", "sl", kind, (("P", l, pa, None), st, add(st, ln)))


@leaf("[]::iter", "[]::iter_mut", "<& as core::iter::traits::collect::IntoIterator>::into_iter!sl",
      "<[] as core::iter::traits::collect::IntoIterator>::into_iter")
def _(E, fn, a, d):
    return sl_iter(E, slc(E, a[0]), "&")


def into_iter_ref(E, fn, a, d):
    """impl IntoIterator for &C / &mut C of library containers, told apart by the iterator type"""
    t = E.types[d]
    p = t.get("path", "")
    if p.startswith(("core::slice::iter", "alloc::collections::vec_deque")):
        return sl_iter(E, slc(E, a[0]), "&")
    if "hash::map::" in p or "hash::set::" in p or "btree::" in p:
        return map_iter(E, a[0], p, d)
    if p.startswith("hibitset"):
        return ("I", "bit", (), (a[0],))
    raise Unsupported("into_iter to " + p)


EXACT["<& as core::iter::traits::collect::IntoIterator>::into_iter"] = into_iter_ref
EXACT["<&mut as core::iter::traits::collect::IntoIterator>::into_iter"] = into_iter_ref
EXACT.pop("<& as core::iter::traits::collect::IntoIterator>::into_iter!sl", None)
EXACT.pop("<& as core::iter::traits::collect::IntoIterator>::into_iter!bit", None)


@leaf("<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
      "<[;] as core::iter::traits::collect::IntoIterator>::into_iter")
def _(E, fn, a, d):
    v = a[0]
    if v is U:
        E.violation("ub", "use of a moved-out vector")
        raise Halt()
    if v[0] == "V" and (v[1] < 0):
        v = ("V", E.types[d]["args"][0],) + v[2:]
    if v[0] != "V":
        raise Unsupported("into_iter of %r" % (v[0],))
    return ("I", "into", v[1], (("P", E.alloc(v), (), None), 0, v[2]))


@leaf("alloc::vec::Vec::drain")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    r = srange(E, (l, pa, 0, v[2]), a[1], ixty(E, fn, a), True)
    if r is None:
        raise Panic("drain range out of bounds")
    if not (r[1] == 0 and E.eq0(sub(r[2], v[2]))):
        # the range moves out, the rest closes up (as it will once the iterator is dropped)
        lo, n = r[1], r[2]
        hi = add(lo, n)
        keep, gone = [], []
        for p, x in v[3]:
            if lt(E, p, lo):
                keep.append((p, x))
            elif lt(E, p, hi):
                gone.append((sub(p, lo), x))
            else:
                keep.append((sub(p, n), x))
        E.put(l, pa, ("V", v[1], sub(v[2], n), tuple(keep), v[4]))
        w = ("V", v[1], n, tuple(gone), v[4])
        return ("I", "into", v[1], (("P", E.alloc(w), (), None), 0, n))
    E.put(l, pa, newvec(v[1]))
    return ("I", "into", v[1], (("P", E.alloc(v), (), None), 0, v[2]))


def iter_cell(E, p):
    l, pa = cell(E, p)
    pa, v = unwrap_tag(E, l, pa, "I")
    if v is U:
        E.violation("ub", "use of a moved-out iterator")
        raise Halt()
    if v[0] != "I":
        raise Unsupported("not an iterator: %r" % (v[:2],))
    return l, pa, v


def seq_next(E, fn, a, d, back=False):
    l, pa, v = iter_cell(E, a[0])
    p, cur, end = v[3]
    if le(E, end, cur):
        return none(d)
    if back:
        i = sub(end, 1)
        E.put(l, pa, ("I", v[1], v[2], (p, cur, i)))
    else:
        i = cur
        E.put(l, pa, ("I", v[1], v[2], (p, add(cur, 1), end)))
    if v[2] == "one":
        return some(d, p)
    if v[1] == "sl":
        c = E.get(p[1], p[2])
        return some(d, ("P", p[1], p[2] + (("e", i),), None))
    return some(d, take_elem(E, p[1], p[2], i))


for _t in ("core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter", "alloc::vec::drain::Drain",
           "core::array::iter::IntoIter"):
    EXACT["<%s as core::iter::traits::iterator::Iterator>::next" % _t] = lambda E, fn, a, d: seq_next(E, fn, a, d)
    EXACT["<%s as core::iter::traits::double_ended::DoubleEndedIterator>::next_back" % _t] = \
        lambda E, fn, a, d: seq_next(E, fn, a, d, True)

    @leaf("<%s as core::iter::traits::exact_size::ExactSizeIterator>::len" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2]
        return sub(v[3][2], v[3][1])

    @leaf("<%s as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2]
        p, cur, end = v[3]
        if v[2] == "one":
            return p
        q = ("P", p[1], p[2] + (("e", add(cur, a[1])),), None)
        return q if v[1] == "sl" else E.get(q[1], q[2])

    @leaf("<%s as core::iter::traits::iterator::Iterator>::count" % _t)
    def _(E, fn, a, d):
        v = E.peel_val(a[0])
        return sub(v[3][2], v[3][1])

    @leaf("<%s as core::iter::traits::iterator::Iterator>::size_hint" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2]
        n = sub(v[3][2], v[3][1])
        return ("A", d, 0, (n, some(E.types[d]["ts"][1], n)))

    @leaf("<%s as core::clone::Clone>::clone" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2]
        if v[1] != "sl":
            raise Unsupported("clone of an owning iterator")
        return v


@leaf("core::slice::iter::Iter::as_slice", "core::slice::iter::IterMut::into_slice", "core::slice::iter::IterMut::as_slice")
def _(E, fn, a, d):
    v = E.peel_val(a[0]) if fn.key.endswith("into_slice") else iter_cell(E, a[0])[2]
    p, cur, end = v[3]
    return ("P", p[1], p[2], ("s", cur, sub(end, cur)))


def into_drop(E, v, l, pa):
    p, cur, end = v[3]
    if E.types[v[2]]["drop"] < 0:
        return []
    c = E.get(p[1], p[2])
    return [(p[1], p[2] + (("e", i),), v[2], None) for i, x in c[3]]


L.ITERDROP["into"] = into_drop

# stubs written in Rust (probe/src/stubs.rs): everything that calls user code
redirect("alloc::vec::Vec::resize_with => vec_resize_with 0 2",
         "alloc::vec::Vec::resize => vec_resize 0",
         "alloc::vec::Vec::retain => vec_retain 0 2",
         "alloc::vec::Vec::retain_mut => vec_retain_mut 0 2",
         "alloc::vec::Vec::extend_from_slice => vec_extend_slice 0",
         "<alloc::vec::Vec as core::clone::Clone>::clone => vec_clone 0",
         "alloc::vec::from_elem => vec_from_elem 0", "[]::to_vec => slice_to_vec 0", "<[] as core::cmp::PartialEq>::eq => slice_eq 0 1",
         "std::collections::hash::map::Entry::or_insert => entry_or_insert 0 1",
         "std::collections::hash::map::Entry::or_insert_with => entry_or_insert_with 0 1 3",
         "std::collections::hash::map::Entry::or_default => entry_or_default 0 1",
         "std::collections::hash::map::Entry::and_modify => entry_and_modify 0 1 3",
         "<& as core::ops::arith::Sub>::sub => set_sub 0 1", "<& as core::ops::bit::BitAnd>::bitand => set_and 0 1",
         "<& as core::ops::bit::BitOr>::bitor => set_or 0 1", "<& as core::ops::bit::BitXor>::bitxor => set_xor 0 1",
         "[]::sort => slice_sort 0", "[]::sort_unstable => slice_sort 0",
         "[]::sort_by => slice_sort_by 0 1", "[]::sort_unstable_by => slice_sort_by 0 1",
         "[]::sort_by_key => slice_sort_by_key 0 1 2", "[]::sort_unstable_by_key => slice_sort_by_key 0 1 2",
         "[]::sort_by_cached_key => slice_sort_by_key 0 1 2",
         "[]::reverse => slice_reverse 0", "[]::rotate_left => slice_rotate_left 0", "[]::rotate_right => slice_rotate_right 0",
         "[]::copy_from_slice => slice_copy 0", "[]::clone_from_slice => slice_clone_from 0",
         "alloc::vec::Vec::dedup => vec_dedup 0", "alloc::vec::Vec::dedup_by_key => vec_dedup_by_key 0 2 3",
         "alloc::vec::Vec::dedup_by => vec_dedup_by 0 2",
         "std::panic::catch_unwind => std_catch_unwind 0 1",
         "<std::collections::hash::map::HashMap as core::cmp::PartialEq>::eq => map_eq 0 1 2",
         "[]::fill => slice_fill 0",
         "[]::contains => slice_contains 0",
         "<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend => vec_extend 2 0",
         "<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter => vec_from_iter 0 1",
         "core::iter::traits::iterator::Iterator::fold => it_fold 0 1 2",
         "core::iter::traits::iterator::Iterator::for_each => it_for_each 0 1",
         "core::iter::traits::iterator::Iterator::any => it_any 0 1",
         "core::iter::traits::iterator::Iterator::all => it_all 0 1",
         "core::iter::traits::iterator::Iterator::find => it_find 0 1",
         "core::iter::traits::iterator::Iterator::find_map => it_find_map 0 1 2",
         "core::iter::traits::iterator::Iterator::position => it_position 0 1",
         "core::iter::traits::iterator::Iterator::count => it_count 0",
         "core::iter::traits::iterator::Iterator::last => it_last 0",
         "core::iter::traits::iterator::Iterator::try_fold => it_try_fold 0 1 2 3",
         "core::iter::traits::iterator::Iterator::nth => it_nth 0",
         "<std::collections::hash::set::HashSet as core::iter::traits::collect::FromIterator>::from_iter => set_from_iter 0 1 2",
         "<std::collections::hash::map::HashMap as core::iter::traits::collect::FromIterator>::from_iter => map_from_iter 0 1 2 3",
         "<std::collections::hash::set::HashSet as core::clone::Clone>::clone => set_clone 0 1",
         "<std::collections::hash::map::HashMap as core::clone::Clone>::clone => map_clone 0 1 2",
         "std::collections::hash::map::HashMap::retain => map_retain 0 1 2 4",
         "std::collections::hash::set::HashSet::retain => set_retain 0 1 3",
         "rayon_core::join::join => rayon_join 0 1 2 3",
         "rayon::iter::plumbing::bridge_unindexed => bridge 0 1")


# ------------------------------------------------------------------ HashMap / HashSet
# ("M", key type, value type, ((key, value | ABS)...), (default, rest)); default 0: other keys absent, 2: unknown
def mp(E, p):
    l, pa = cell(E, p)
    pa, v = unwrap_tag(E, l, pa, "M")
    if v is U:
        E.violation("ub", "use of a moved-out map")
        raise Halt()
    if v[0] != "M":
        raise Unsupported("not a map: %r" % (v[:2],))
    return l, pa, v


def mval(E, x):
    """the key a borrowed key stands for"""
    p = E.to_ptr(x) if type(x) is tuple else x
    if type(p) is tuple and p[0] == "P":
        return E.get(p[1], p[2])
    return p


def mnew(E, d):
    t = E.types[d]
    a = t["args"]
    if t["path"].endswith("HashSet"):
        return ("M", a[0], -1, (), (0, ()))
    return ("M", a[0], a[1], (), (0, ()))


def intkey(E, v):
    return v[1] >= 0 and E.types[v[1]]["k"] == "int"


def mfind(E, l, pa, v, k):
    """index of the entry for k (present or ABS), materialising it; -1 when the map has no such key at all"""
    if intkey(E, v):
        L.resolve(E, k)
    i = E.map_find(v, k)
    if i >= 0:
        return v, i
    if v[4][0] == 0:
        return v, -1
    pres = v[4][0] == 1 or bool(E.choose(2))
    if pres:
        x = UNIT if v[2] < 0 else E.materialise(v[4][1], v[2])
    else:
        x = ABS
    v = ("M", v[1], v[2], v[3] + ((k, x),), v[4])
    E.put(l, pa, v)
    return v, len(v[3]) - 1


def mhas(E, l, pa, v, k):
    v, i = mfind(E, l, pa, v, k)
    return i >= 0 and v[3][i][1] != ABS


def mput(E, l, pa, v, k, x):
    """set entry; returns old value or None"""
    v, i = mfind(E, l, pa, v, k)
    if i >= 0:
        old = v[3][i][1]
        E.put(l, pa, ("M", v[1], v[2], v[3][:i] + ((v[3][i][0], x),) + v[3][i + 1:], v[4]))
        return None if old == ABS else old
    E.put(l, pa, ("M", v[1], v[2], v[3] + ((k, x),), v[4]))
    return None


def mdel(E, l, pa, v, k):
    v, i = mfind(E, l, pa, v, k)
    if i < 0:
        return None
    old = v[3][i][1]
    if v[4][0] == 0 and not intkey(E, v):
        E.put(l, pa, ("M", v[1], v[2], v[3][:i] + v[3][i + 1:], v[4]))
    else:
        E.put(l, pa, ("M", v[1], v[2], v[3][:i] + ((v[3][i][0], ABS),) + v[3][i + 1:], v[4]))
    return None if old == ABS else old


HM = "std::collections::hash::map::HashMap"
HS = "std::collections::hash::set::HashSet"


@leaf(HM + "::new", HM + "::with_capacity", HM + "::with_hasher", HM + "::with_capacity_and_hasher",
      "<%s as core::default::Default>::default" % HM, HS + "::new", HS + "::with_capacity", HS + "::with_hasher",
      HS + "::with_capacity_and_hasher", "<%s as core::default::Default>::default" % HS)
def _(E, fn, a, d):
    return mnew(E, d)


@leaf(HM + "::reserve", HS + "::reserve", HM + "::shrink_to_fit", HS + "::shrink_to_fit")
def _(E, fn, a, d):
    return UNIT


@leaf(HM + "::insert")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    old = mput(E, l, pa, v, a[1], a[2])
    return none(d) if old is None else some(d, old)


@leaf(HS + "::insert", HS + "::replace")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    old = mput(E, l, pa, v, a[1], UNIT)
    if fn.key.endswith("replace"):
        return none(d) if old is None else some(d, a[1])
    return old is None


@leaf(HM + "::remove")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    old = mdel(E, l, pa, v, mval(E, a[1]))
    return none(d) if old is None else some(d, old)


@leaf(HM + "::remove_entry")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    k = mval(E, a[1])
    old = mdel(E, l, pa, v, k)
    return none(d) if old is None else some(d, ("A", E.types[d]["vs"][1][2][0], 0, (k, old)))


@leaf(HS + "::remove", HS + "::take")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    k = mval(E, a[1])
    old = mdel(E, l, pa, v, k)
    if fn.key.endswith("take"):
        return none(d) if old is None else some(d, k)
    return old is not None


@leaf(HM + "::contains_key", HS + "::contains")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    return mhas(E, l, pa, v, mval(E, a[1]))


@leaf(HM + "::get", HM + "::get_mut", HS + "::get")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    k = mval(E, a[1])
    if not mhas(E, l, pa, v, k):
        return none(d)
    if fn.key.startswith(HS):
        return some(d, a[1])
    return some(d, ("P", l, pa + (("k", k),), None))


@leaf(HM + "::get_key_value")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    k = mval(E, a[1])
    if not mhas(E, l, pa, v, k):
        return none(d)
    return some(d, ("A", E.types[d]["vs"][1][2][0], 0, (a[1], ("P", l, pa + (("k", k),), None))))


@leaf("<%s as core::ops::index::Index>::index" % HM)
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    k = mval(E, a[1])
    if not mhas(E, l, pa, v, k):
        raise Panic("no entry found for key")
    return ("P", l, pa + (("k", k),), None)


def closed(E, l, pa, v):
    """make every tracked key explicit; returns the map"""
    if v[4][0] != 0 and intkey(E, v):
        for t in E.st.tracked:
            v, _ = mfind(E, l, pa, v, t)
    return v


@leaf(HM + "::len", HS + "::len")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    n = sum(1 for _, x in v[3] if x != ABS)
    if v[4][0] == 0:
        return n
    x = E.fresh(0, MAXLEN)
    E.assume_ge0(sub(x, n))
    return x


@leaf(HM + "::is_empty", HS + "::is_empty")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    v = closed(E, l, pa, v)
    if any(x != ABS for _, x in v[3]):
        return False
    if v[4][0] == 0:
        return True
    return bool(E.choose(2))


@leaf(HM + "::clear", HS + "::clear")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    items = []
    if v[2] >= 0 and E.types[v[2]]["drop"] >= 0:
        items = [(E.alloc(x), (), v[2], None) for k, x in v[3] if x != ABS]
    E.put(l, pa, ("M", v[1], v[2], (), (0, ())))
    return drop_list(E, fn, items)


# iterators: ("I", "mi", (kind, others may follow), (map pointer, remaining keys...))
KIND = {"map::Iter": "kv", "map::IterMut": "kv", "map::IntoIter": "KV", "map::Keys": "k", "map::Values": "v", "map::ValuesMut": "v",
        "map::IntoKeys": "K", "map::IntoValues": "VV", "map::Drain": "KV", "set::Iter": "k", "set::IntoIter": "K", "set::Drain": "K"}


def map_iter(E, p, path, d):
    kind = KIND["::".join(path.split("::")[-2:])]
    l, pa, v = mp(E, p)
    v = closed(E, l, pa, v)
    if v[4][0] != 0:
        other(E)
    return ("I", "mi", (kind, 1 if v[4][0] != 0 else 0, v[1], v[2]),
            (("P", l, pa, None),) + tuple(k for k, x in v[3] if x != ABS))


@leaf(HM + "::iter", HM + "::iter_mut", HM + "::keys", HM + "::values", HM + "::values_mut", HS + "::iter")
def _(E, fn, a, d):
    return map_iter(E, a[0], E.types[d]["path"], d)


@leaf(HM + "::into_keys", HM + "::into_values", HM + "::drain", HS + "::drain",
      "<%s as core::iter::traits::collect::IntoIterator>::into_iter" % HM,
      "<%s as core::iter::traits::collect::IntoIterator>::into_iter" % HS)
def _(E, fn, a, d):
    if fn.key.endswith("drain"):
        l, pa, v = mp(E, a[0])
        v = closed(E, l, pa, v)
        E.put(l, pa, ("M", v[1], v[2], (), (0, ())))
    else:
        v = E.peel_val(a[0])
    c = E.alloc(v)
    return map_iter(E, ("P", c, (), None), E.types[d]["path"], d)


def mi_next(E, fn, a, d):
    l, pa, v = iter_cell(E, a[0])
    kind, oth, kty, vty = v[2]
    p = v[3][0]
    keys = v[3][1:]
    opts = list(range(len(keys)))
    if oth:
        opts.append(-1)
    if not keys:
        opts.append(-2)
    c = opts[E.choose(len(opts)) if len(opts) > 1 else 0]
    if c == -2:
        return none(d)
    ity = E.types[d]["vs"][1][2][0]
    m = E.get(p[1], p[2])
    if c == -1:
        k = E.havoc(kty)
        if type(k) in (int, Lin):
            for t in E.st.tracked:
                E.assume_ne0(sub(k, t))
        other(E)
        x = UNIT if vty < 0 else E.materialise(m[4][1], vty)
        vp = ("P", E.alloc(x), (), None)
    else:
        k = keys[c]
        E.put(l, pa, ("I", "mi", v[2], (p,) + keys[:c] + keys[c + 1:]))
        vp = ("P", p[1], p[2] + (("k", k),), None)
        x = None
    if kind in ("k", "kv"):
        kp = ("P", E.alloc(k), (), None)
        if kind == "k":
            return some(d, kp)
        return some(d, ("A", ity, 0, (kp, vp)))
    if kind == "v":
        return some(d, vp)
    if x is None:
        x = E.get(vp[1], vp[2])
        mm = E.get(p[1], p[2])
        i = E.map_find(mm, k)
        E.put(p[1], p[2], ("M", mm[1], mm[2], mm[3][:i] + mm[3][i + 1:], mm[4]))
    if kind == "K":
        return some(d, k)
    if kind == "VV":
        return some(d, x)
    return some(d, ("A", ity, 0, (k, x)))


for _t in KIND:
    EXACT["<std::collections::hash::%s as core::iter::traits::iterator::Iterator>::next" % _t] = mi_next

    @leaf("<std::collections::hash::%s as core::iter::traits::iterator::Iterator>::size_hint" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2]
        return ("A", d, 0, (len(v[3]) - 1 if not v[2][1] else E.fresh(0, MAXLEN), none(E.types[d]["ts"][1])))

    @leaf("<std::collections::hash::%s as core::clone::Clone>::clone" % _t)
    def _(E, fn, a, d):
        return iter_cell(E, a[0])[2]

    @leaf("<std::collections::hash::%s as core::iter::traits::exact_size::ExactSizeIterator>::len" % _t,
          "<std::collections::hash::%s as core::iter::traits::iterator::Iterator>::count" % _t)
    def _(E, fn, a, d):
        v = iter_cell(E, a[0])[2] if fn.key.endswith("len") else E.peel_val(a[0])
        return len(v[3]) - 1 if not v[2][1] else E.fresh(0, MAXLEN)


def mi_drop(E, v, l, pa):
    kind, oth, kty, vty = v[2]
    if kind not in ("KV", "VV", "K") or vty < 0 or E.types[vty]["drop"] < 0:
        return []
    p = v[3][0]
    return [(p[1], p[2] + (("k", k),), vty, None) for k in v[3][1:]]


L.ITERDROP["mi"] = mi_drop


# set algebra: all candidate members of either side, each yielded when it belongs
def set_op(E, fn, a, d):
    op = fn.key.split("::")[-1]
    la, pa, va = mp(E, a[0])
    va = closed(E, la, pa, va)
    lb, pb, vb = mp(E, a[1])
    vb = closed(E, lb, pb, vb)
    A = [k for k, x in va[3] if x != ABS]
    B = [k for k, x in vb[3] if x != ABS]
    inb = [mhas(E, lb, pb, E.get(lb, pb), k) for k in A]
    ina = [mhas(E, la, pa, E.get(la, pa), k) for k in B]
    if op == "intersection":
        r = [k for k, b in zip(A, inb) if b]
    elif op == "union":
        r = A + [k for k, b in zip(B, ina) if not b]
    elif op == "difference":
        r = [k for k, b in zip(A, inb) if not b]
    elif op == "symmetric_difference":
        r = [k for k, b in zip(A, inb) if not b] + [k for k, b in zip(B, ina) if not b]
    oa, ob = va[4][0] != 0, vb[4][0] != 0
    oth = {"intersection": oa and ob, "union": oa or ob, "difference": oa, "symmetric_difference": oa or ob}[op]
    if oth:
        other(E)
    return r, oth, va, ("P", la, pa, None)


@leaf(HS + "::intersection", HS + "::union", HS + "::difference", HS + "::symmetric_difference")
def _(E, fn, a, d):
    r, oth, va, p = set_op(E, fn, a, d)
    return ("I", "mi", ("k", 1 if oth else 0, va[1], -1), (p,) + tuple(r))


for _t in ("Intersection", "Union", "Difference", "SymmetricDifference"):
    EXACT["<std::collections::hash::set::%s as core::iter::traits::iterator::Iterator>::next" % _t] = mi_next
    EXACT["<std::collections::hash::set::%s as core::clone::Clone>::clone" % _t] = \
        lambda E, fn, a, d: iter_cell(E, a[0])[2]


@leaf(HS + "::is_disjoint", HS + "::is_subset", HS + "::is_superset")
def _(E, fn, a, d):
    op = fn.key.split("::")[-1]

    class F:
        key = "x::intersection" if op == "is_disjoint" else "x::difference"
    if op == "is_superset":
        a = (a[1], a[0])
    r, oth, va, p = set_op(E, F, a, d)
    if r:
        return False
    if oth:
        return bool(E.choose(2))
    return True


@leaf("<%s as core::iter::traits::collect::Extend>::extend" % HS, "<%s as core::iter::traits::collect::Extend>::extend" % HM)
def _(E, fn, a, d):
    raise Unsupported("extend")


redirect("<%s as core::iter::traits::collect::Extend>::extend => set_extend 0 1 3" % HS,
         "<%s as core::iter::traits::collect::Extend>::extend => map_extend 0 1 2 4" % HM)


@leaf("<%s as core::cmp::PartialEq>::eq" % HS)
def _(E, fn, a, d):
    class F:
        key = "x::symmetric_difference"
    r, oth, va, p = set_op(E, F, a, d)
    if r:
        return False
    return bool(E.choose(2)) if oth else True


# entries
@leaf(HM + "::entry")
def _(E, fn, a, d):
    l, pa, v = mp(E, a[0])
    h = mhas(E, l, pa, v, a[1])
    e = ("I", "entry", h, (("P", l, pa, None), a[1]))
    vs = [x[0] for x in E.types[d]["vs"]]
    return ("A", d, vs.index("Occupied" if h else "Vacant"), (e,))


def entry(E, x):
    v = E.peel_val(x)
    if type(v) is tuple and v[0] == "P":
        v = iter_cell(E, v)[2]
    p, k = v[3]
    return p[1], p[2], k


OE = "std::collections::hash::map::OccupiedEntry"
VE = "std::collections::hash::map::VacantEntry"


@leaf(OE + "::get", OE + "::get_mut", OE + "::into_mut")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    return ("P", l, pa + (("k", k),), None)


@leaf(OE + "::insert")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    return mput(E, l, pa, E.get(l, pa), k, a[1])


@leaf(OE + "::remove")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    return mdel(E, l, pa, E.get(l, pa), k)


@leaf(OE + "::remove_entry")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    return ("A", d, 0, (k, mdel(E, l, pa, E.get(l, pa), k)))


@leaf(OE + "::key", VE + "::key")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    return ("P", E.alloc(k), (), None)


@leaf(VE + "::insert")
def _(E, fn, a, d):
    l, pa, k = entry(E, a[0])
    mput(E, l, pa, E.get(l, pa), k, a[1])
    return ("P", l, pa + (("k", k),), None)


@leaf(VE + "::into_key")
def _(E, fn, a, d):
    return entry(E, a[0])[2]


# ------------------------------------------------------------------ atomics
def acell(E, p, ty):
    l, pa = cell(E, p)
    v = E.get(l, pa)
    n = 0
    while type(v) is tuple and v and v[0] == "A":
        w = E.p.wrapper_field(v[1])
        if w is None:
            break
        pa = pa + (w[0],)
        v = v[3][w[0]]
        n += 1
    if v is U:
        E.violation("ub", "use of an uninitialised atomic")
        raise Halt()
    return l, pa, v


@leaf("intrinsic:atomic_load")
def _(E, fn, a, d):
    return acell(E, a[0], d)[2]


@leaf("intrinsic:atomic_store")
def _(E, fn, a, d):
    l, pa, v = acell(E, a[0], None)
    E.put(l, pa, a[1])
    return UNIT


def armw(f):
    def h(E, fn, a, d):
        l, pa, v = acell(E, a[0], None)
        E.put(l, pa, f(E, v, a[1], fn.args[0]))
        return v
    return h


EXACT["intrinsic:atomic_xchg"] = armw(lambda E, v, x, t: x)
EXACT["intrinsic:atomic_xadd"] = armw(lambda E, v, x, t: E.binop("Add", v, x, t))
EXACT["intrinsic:atomic_xsub"] = armw(lambda E, v, x, t: E.binop("Sub", v, x, t))
EXACT["intrinsic:atomic_and"] = armw(lambda E, v, x, t: E.binop("BitAnd", v, x, t))
EXACT["intrinsic:atomic_or"] = armw(lambda E, v, x, t: E.binop("BitOr", v, x, t))
EXACT["intrinsic:atomic_xor"] = armw(lambda E, v, x, t: E.binop("BitXor", v, x, t))
EXACT["intrinsic:atomic_umax"] = armw(lambda E, v, x, t: x if E.ge0(sub(x, v)) else v)
EXACT["intrinsic:atomic_umin"] = armw(lambda E, v, x, t: v if E.ge0(sub(x, v)) else x)
EXACT["intrinsic:atomic_max"] = EXACT["intrinsic:atomic_umax"]
EXACT["intrinsic:atomic_min"] = EXACT["intrinsic:atomic_umin"]


@leaf("intrinsic:atomic_fence", "intrinsic:atomic_singlethreadfence")
def _(E, fn, a, d):
    return UNIT


@leaf("intrinsic:atomic_cxchg", "intrinsic:atomic_cxchgweak")
def _(E, fn, a, d):
    l, pa, v = acell(E, a[0], None)
    if E.val_eq(v, a[1]):
        if fn.key.endswith("weak") and not E.opts.get("strong") and E.choose(2):
            return ("A", d, 0, (v, False))
        E.put(l, pa, a[2])
        return ("A", d, 0, (v, True))
    return ("A", d, 0, (v, False))


# ------------------------------------------------------------------ parallel bit producers
BP = "hibitset::iter::parallel::BitProducer"


@leaf(BP + "::split", "<%s as rayon::iter::plumbing::UnindexedProducer>::split" % BP)
def bp_split(E, fn, a, d):
    # BitProducer(BitIter, u8): any partition of what is left
    v = a[0]
    it = v[3][0]
    while it[0] == "A":
        it = it[3][0]
    if not E.choose(2):
        return ("A", d, 0, (v, none(E.types[d]["ts"][1])))
    done = it[2]
    s = it[3][0]
    left = [i for i, t in enumerate(E.st.tracked) if i not in done and L.member(E, s, t)]
    da, db = set(done), set(done)
    for i in left:
        (da if E.choose(2) else db).add(i)

    def mk(dn):
        return replace_iter(v, ("I", "bit", tuple(sorted(dn)), it[3]))
    return ("A", d, 0, (mk(da), some(E.types[d]["ts"][1], mk(db))))


def replace_iter(v, new):
    if v[0] == "I":
        return new
    if v[0] == "A":
        out, done = [], False
        for x in v[3]:
            if not done and type(x) is tuple and find_iter(x) is not None:
                out.append(replace_iter(x, new))
                done = True
            else:
                out.append(x)
        return ("A", v[1], v[2], tuple(out))
    return v


def find_iter(v):
    if type(v) is tuple and v:
        if v[0] == "I" and v[1] == "bit":
            return v
        if v[0] == "A":
            for x in v[3]:
                r = find_iter(x)
                if r is not None:
                    return r
    return None


@leaf("probe::prim::piece_has")
def _(E, fn, a, d):
    v = find_iter(deref(E, a[0]))
    if v is None:
        raise Unsupported("piece_has: no bit iterator inside")
    return 0 not in v[2] and L.member(E, v[3][0], E.st.tracked[0])


# ------------------------------------------------------------------ strings, misc
@leaf("alloc::string::String::new", "<alloc::string::String as core::default::Default>::default", "alloc::string::String::from*",
      "<alloc::string::String as core::convert::From>::from", "alloc::fmt::format", "<str as alloc::string::ToString>::to_string",
      "<? as alloc::string::ToString>::to_string", "alloc::str::*", "<str as alloc::borrow::ToOwned>::to_owned",
      "<alloc::string::String as core::clone::Clone>::clone")
def _(E, fn, a, d):
    return Q


# ------------------------------------------------------------------ growing a vector by many equal values
@leaf("probe::stubs::next_key_position")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    n = a[1]
    if simple_int(E, v[1]):
        return n
    for t in E.st.tracked:
        if any(E.st.num.eq0(sub(p, t)) for p, _ in v[3]):
            continue
        if le(E, v[2], t) and lt(E, t, n):
            return t
    return n


@leaf("probe::stubs::at_most_one")
def _(E, fn, a, d):
    # the iterator yields at most one item
    return E.types[fn.args[0]].get("path", "").startswith(("core::iter::sources::once::Once", "core::option::"))


@leaf("probe::stubs::copies")
def _(E, fn, a, d):
    t = E.types[fn.args[0]]
    if t.get("path") != "core::iter::adapters::take::Take":
        return False
    t = E.types[t["args"][0]]
    return t.get("path") == "core::iter::sources::repeat::Repeat" and E.types[t["args"][0]]["drop"] < 0


@leaf("probe::stubs::count_of")
def _(E, fn, a, d):
    return E.get(a[0][1], a[0][2])[3][1]


@leaf("probe::stubs::copy")
def _(E, fn, a, d):
    return E.get(a[0][1], a[0][2])


@leaf("probe::stubs::put_at")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    setv(E, l, pa, v, elems=v[3] + ((a[1], a[2]),))
    return UNIT


@leaf("probe::stubs::fill_to")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    n = a[1]
    k = sub(n, v[2])
    if type(k) is int and type(v[2]) is int and k <= 4:
        have = [p for p, _ in v[3]]
        el = v[3]
        for i in range(v[2], n):
            if not any(E.st.num.eq0(sub(p, i)) for p in have):
                el = el + ((i, a[2]),)
        setv(E, l, pa, v, ln=n, elems=el)
    else:
        setv(E, l, pa, v, ln=n, rest=E.tjoin(v[4], E.templ(a[2])))
    return UNIT


# ------------------------------------------------------------------ BTreeMap/BTreeSet: the same maps, any order
BM = "alloc::collections::btree::map::BTreeMap"
BS = "alloc::collections::btree::set::BTreeSet"
SUB = [(HM, BM), (HS, BS), ("std::collections::hash::map::OccupiedEntry", "alloc::collections::btree::map::entry::OccupiedEntry"),
       ("std::collections::hash::map::VacantEntry", "alloc::collections::btree::map::entry::VacantEntry"),
       ("std::collections::hash::map::", "alloc::collections::btree::map::"),
       ("std::collections::hash::set::", "alloc::collections::btree::set::")]
for _k in list(EXACT):
    if "std::collections::hash::" in _k:
        n = _k
        for x, y in SUB:
            n = n.replace(x, y)
        EXACT.setdefault(n, EXACT[_k])
for _t in list(L.TYPES):
    if _t.startswith("std::collections::hash::"):
        n = _t
        for x, y in SUB:
            n = n.replace(x, y)
        types(n)
redirect("<%s as core::iter::traits::collect::FromIterator>::from_iter => bset_from_iter 0 1" % BS,
         "<%s as core::iter::traits::collect::FromIterator>::from_iter => bmap_from_iter 0 1 2" % BM,
         "<%s as core::iter::traits::collect::Extend>::extend => bset_extend 0 2" % BS,
         "<%s as core::iter::traits::collect::Extend>::extend => bmap_extend 0 1 3" % BM,
         "alloc::collections::btree::map::entry::Entry::or_insert => bentry_or_insert 0 1",
         "alloc::collections::btree::map::entry::Entry::or_insert_with => bentry_or_insert_with 0 1 3",
         "alloc::collections::btree::map::entry::Entry::or_default => bentry_or_default 0 1")

# ------------------------------------------------------------------ VecDeque: a vector
VD = "alloc::collections::vec_deque::VecDeque"
types(VD, "alloc::collections::vec_deque::iter::Iter", "alloc::collections::vec_deque::iter_mut::IterMut",
      "alloc::collections::vec_deque::into_iter::IntoIter", "alloc::collections::vec_deque::drain::Drain")
VN = "alloc::vec::Vec"
for _m, _n in (("new", "new"), ("with_capacity", "new"), ("len", "len"), ("is_empty", "is_empty"), ("capacity", "capacity"),
               ("reserve", "reserve"), ("shrink_to_fit", "reserve"), ("push_back", "push"), ("pop_back", "pop"),
               ("truncate", "truncate"), ("clear", "clear"), ("append", "append"), ("split_off", "split_off"), ("drain", "drain")):
    EXACT[VD + "::" + _m] = EXACT[VN + "::" + _n]
EXACT["<%s as core::default::Default>::default" % VD] = EXACT[VN + "::new"]
for _m in ("get", "get_mut", "swap"):
    EXACT[VD + "::" + _m] = EXACT["[]::" + _m]
for _a, _b in (("front", "first"), ("back", "last"), ("front_mut", "first_mut"), ("back_mut", "last_mut")):
    @leaf(VD + "::" + _a)
    def _(E, fn, a, d):
        s = slc(E, a[0])
        if E.eq0(s[3]):
            return none(d)
        return some(d, elem(E, s, 0 if "front" in fn.key else sub(s[3], 1)))
EXACT["<%s as core::ops::index::Index>::index" % VD] = EXACT["<alloc::vec::Vec as core::ops::index::Index>::index"]
EXACT["<%s as core::ops::index::IndexMut>::index_mut" % VD] = EXACT["<alloc::vec::Vec as core::ops::index::Index>::index"]
EXACT[VD + "::iter"] = EXACT[VD + "::iter_mut"] = EXACT["[]::iter"]
EXACT["<%s as core::iter::traits::collect::IntoIterator>::into_iter" % VD] = \
    EXACT["<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter"]
for _t in ("iter::Iter", "iter_mut::IterMut", "into_iter::IntoIter", "drain::Drain"):
    EXACT["<alloc::collections::vec_deque::%s as core::iter::traits::iterator::Iterator>::next" % _t] = \
        lambda E, fn, a, d: seq_next(E, fn, a, d)
    EXACT["<alloc::collections::vec_deque::%s as core::iter::traits::double_ended::DoubleEndedIterator>::next_back" % _t] = \
        lambda E, fn, a, d: seq_next(E, fn, a, d, True)


@leaf(VD + "::push_front")
def _(E, fn, a, d):
    return EXACT[VN + "::insert"](E, fn, (a[0], 0, a[1]), d)


@leaf(VD + "::pop_front")
def _(E, fn, a, d):
    l, pa, v = vec(E, a[0])
    if E.eq0(v[2]):
        return none(d)
    return some(d, EXACT[VN + "::remove"](E, fn, (a[0], 0), d))


redirect("<%s as core::iter::traits::collect::Extend>::extend => deque_extend 2 0" % VD,
         "<%s as core::iter::traits::collect::FromIterator>::from_iter => deque_from_iter 0 1" % VD,
         VD + "::retain => deque_retain 0 2")
