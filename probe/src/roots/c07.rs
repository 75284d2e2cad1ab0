use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::*;
use goggles::{Entity, IntoJoin, IntoJoinExt, Join, MaskedStorage};
use std::mem;

/// a storage in any state; the value at the tracked index, if any, is `id`
fn st(k: u32, id: i64) -> MaskedStorage<Contract> {
    let mut m: MaskedStorage<Contract> = MaskedStorage::default();
    if nondet() { m.insert(k, Tok { id }); }
    // any number of other values
    while nondet() {
        let i = any_index();
        assume(i != k);
        m.insert(i, Tok { id: 0 });
    }
    m
}

fn key() -> u32 {
    let k = any_index();
    track(k);
    k
}

pub fn t_single() {
    let k = key();
    let mut a = st(k, 1);
    let ina = a.contains(k);
    match any_usize(0, 3) {
        0 => {
            let mut n = 0;
            for x in (&a).join() { if x.id == 1 { n += 1; } }
            check(n == ina as i32, "a shared join of one storage");
        }
        1 => {
            let mut n = 0;
            for x in (&mut a).join() { if x.id == 1 { n += 1; } }
            check(n == ina as i32, "a mutable join of one storage");
        }
        2 => {
            let mut n = 0;
            for x in a.guard().join() { if x.get().id == 1 { n += 1; } }
            check(n == ina as i32, "a guarded join of one storage");
        }
        _ => {
            let mut n = 0;
            for (x,) in (&a,).join() { if x.id == 1 { n += 1; } }
            check(n == ina as i32, "a join of a one-element tuple");
        }
    }
    check(a.contains(k) == ina, "a join changes what is stored");
    mem::forget(a);
}

pub fn t_pair() {
    let k = key();
    let mut a = st(k, 1);
    let mut b = st(k, 2);
    let both = a.contains(k) && b.contains(k);
    let mut n = 0;
    if nondet() {
        for (x, y) in (&a, &mut b).join() {
            check((x.id == 1) == (y.id == 2), "a join pairs elements of different indexes");
            if x.id == 1 { n += 1; }
        }
    } else {
        for (mut y, x) in (b.guard(), &a).join() {
            check((x.id == 1) == (y.get_mut().id == 2), "a join pairs elements of different indexes");
            if x.id == 1 { n += 1; }
        }
    }
    check(n == both as i32, "a join of two storages yields an index not exactly once");
    mem::forget(a);
    mem::forget(b);
}

pub fn t_unconstrained() {
    let k = key();
    let mut a = st(k, 1);
    let mut b = st(k, 2);
    let both = a.contains(k) && b.contains(k);
    let mut n = 0;
    for (i, x, y) in (&BitSetAll, &a, &mut b).join_unconstrained() {
        check((x.id == 1) == (i == k) && (y.id == 2) == (i == k), "a join pairs elements of different indexes");
        if i == k { n += 1; }
    }
    check(n == both as i32, "an unconstrained join yields an index not exactly once");
    mem::forget(a);
    mem::forget(b);
}

pub fn t_maybe() {
    let k = key();
    let mut a = st(k, 1);
    let mut b = st(k, 2);
    let bs = any_bitset();
    let ina = a.contains(k);
    let inb = b.contains(k);
    let mut n = 0;
    if nondet() {
        for (x, y, i) in (&a, (&mut b).maybe(), &BitSetAll).join() {
            check((x.id == 1) == (i == k), "a join pairs elements of different indexes");
            match y {
                Some(y) => check((y.id == 2) == (i == k), "an optional element of another index"),
                None => {}
            }
            let y = y_is_some(0);
            if i == k { n += 1; }
        }
    } else if nondet() {
        for (i, y) in (&bs, (&b).maybe()).join() {
            if i == k {
                n += 1;
                check(y.is_some() == inb, "an optional element is present exactly when its index is");
            }
            if let Some(y) = y { check((y.id == 2) == (i == k), "an optional element of another index"); }
        }
        check(n == bs.contains(k) as i32, "an optional joinable restricts the result");
        n = ina as i32;
    } else {
        for (x, y) in (&a, ((&b).maybe(), (&a).maybe())).join() {
            if x.id == 1 {
                n += 1;
                check(y.0.is_some() == inb, "an optional element is present exactly when its index is");
                check(y.1.is_some(), "an optional element is present exactly when its index is");
            }
        }
    }
    check(n == ina as i32, "an optional joinable restricts the result");
    mem::forget(a);
    mem::forget(b);
}

fn y_is_some(_: u32) -> bool { true }

pub fn t_nested() {
    let k = key();
    let mut a = st(k, 1);
    let mut b = st(k, 2);
    let c = st(k, 3);
    let bs = any_bitset();
    let all = a.contains(k) && b.contains(k) && c.contains(k) && bs.contains(k);
    let mut n = 0;
    for ((x, (y, i)), z) in ((&a, (&mut b, &bs)), &c).join() {
        check((x.id == 1) == (i == k) && (y.id == 2) == (i == k) && (z.id == 3) == (i == k), "a nested join mixes indexes");
        if i == k { n += 1; }
    }
    check(n == all as i32, "a nested join yields an index not exactly once");
    mem::forget((a, b, c));
}

/// one position (or none) lacks the followed index
macro_rules! arity {
    ($name:ident, $n:expr, $($v:ident $p:expr),*) => {
        pub fn $name() {
            let k = key();
            let miss = any_usize(0, $n);
            let i = any_index();
            assume(i != k);
            let other = if nondet() { Some(i) } else { None };
            $( let $v = st1(k, $p, miss, other); )*
            let mut n = 0;
            for ($($v,)*) in ($(&$v,)*).join() {
                let hot = $($v.id != 0 ||)* false;
                $( check($v.id == if hot { 1000 + $p } else { 0 }, "a tuple position holds another joinable's element"); )*
                if hot { n += 1; }
            }
            check(n == (miss == $n) as i32, "a tuple join yields an index not exactly once");
            $( mem::forget($v); )*
        }
    };
}
fn st1(k: u32, p: i64, miss: usize, other: Option<u32>) -> MaskedStorage<Contract> {
    let mut m: MaskedStorage<Contract> = MaskedStorage::default();
    if miss != p as usize { m.insert(k, Tok { id: 1000 + p }); }
    if let Some(i) = other { m.insert(i, Tok { id: 0 }); }
    m
}
arity!(t_arity01, 1, v00 0);
arity!(t_arity02, 2, v00 0, v01 1);
arity!(t_arity03, 3, v00 0, v01 1, v02 2);
arity!(t_arity04, 4, v00 0, v01 1, v02 2, v03 3);
arity!(t_arity05, 5, v00 0, v01 1, v02 2, v03 3, v04 4);
arity!(t_arity06, 6, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5);
arity!(t_arity07, 7, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6);
arity!(t_arity08, 8, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7);
arity!(t_arity09, 9, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8);
arity!(t_arity10, 10, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9);
arity!(t_arity11, 11, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10);
arity!(t_arity12, 12, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11);
arity!(t_arity13, 13, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12);
arity!(t_arity14, 14, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13);
arity!(t_arity15, 15, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14);
arity!(t_arity16, 16, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15);
arity!(t_arity17, 17, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16);
arity!(t_arity18, 18, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17);
arity!(t_arity19, 19, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18);
arity!(t_arity20, 20, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19);
arity!(t_arity21, 21, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20);
arity!(t_arity22, 22, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20, v21 21);
arity!(t_arity23, 23, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20, v21 21, v22 22);
arity!(t_arity24, 24, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20, v21 21, v22 22, v23 23);
arity!(t_arity25, 25, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20, v21 21, v22 22, v23 23, v24 24);
arity!(t_arity26, 26, v00 0, v01 1, v02 2, v03 3, v04 4, v05 5, v06 6, v07 7, v08 8, v09 9, v10 10, v11 11, v12 12, v13 13, v14 14, v15 15, v16 16, v17 17, v18 18, v19 19, v20 20, v21 21, v22 22, v23 23, v24 24, v25 25);

/// every bit set is a joinable whose element is the index
fn set<J: IntoJoin<Item = u32>>(j: J, k: u32, want: bool) {
    let mut n = 0;
    let cap = any_bitset();
    let inn = cap.contains(k);
    for (a, i) in (j, &cap).join_unconstrained() {
        check(a == i, "a bit set yields another index");
        if a == k { n += 1; }
    }
    check(n == (want && inn) as i32, "a bit set yields an index not exactly once");
}

pub fn t_sets() {
    let k = key();
    let a = any_bitset();
    let b = any_bitset();
    let c = any_atomic_bitset();
    let (ia, ib, ic) = (a.contains(k), b.contains(k), c.contains(k));
    match any_usize(0, 14) {
        0 => set(&a, k, ia),
        1 => set(a, k, ia),
        2 => set(&c, k, ic),
        3 => set(c, k, ic),
        4 => set(BitSetAll, k, true),
        5 => set(&BitSetAll, k, true),
        6 => set(BitSetNot(a), k, !ia),
        7 => set(&BitSetNot(&a), k, !ia),
        8 => set(BitSetAnd(a, b), k, ia && ib),
        9 => set(&BitSetAnd(&a, &c), k, ia && ic),
        10 => set(BitSetOr(a, b), k, ia || ib),
        11 => set(&BitSetOr(&a, &c), k, ia || ic),
        12 => set(BitSetXor(a, b), k, ia != ib),
        13 => { let d: &dyn BitSetLike = &a; set(d, k, ia) }
        _ => set(BitSetAnd(BitSetNot(BitSetOr(&a, &b)), &c), k, !(ia || ib) && ic),
    }
}
