//! Rust models of library functions that call user code; the driver redirects calls to them.
use std::collections::{btree_map, hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::{BuildHasher, Hash};
use std::ops::Try;
use crate::prim::*;
use goggles::rayon::iter::plumbing::*;
use std::mem;

pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    if n <= v.len() {
        v.truncate(n);
    } else if mem::size_of::<F>() == 0 {
        // the closure carries no state: one value for each followed position, one for all others
        // (at most three are followed; no loop, so that no states are merged half way)
        let i = next_key_position(v, n);
        if i < n {
            let x = f();
            put_at(v, i, x);
            let i = next_key_position(v, n);
            if i < n {
                let x = f();
                put_at(v, i, x);
                let i = next_key_position(v, n);
                if i < n {
                    let x = f();
                    put_at(v, i, x);
                }
            }
        }
        let x = f();
        fill_to(v, n, x);
    } else {
        while v.len() < n {
            v.push(f());
        }
    }
}
/// the followed position in [len, n) that has no value yet, or n
#[inline(never)] fn next_key_position<T>(_v: &mut Vec<T>, _n: usize) -> usize { loop {} }
/// place an element beyond the current length
#[inline(never)] fn put_at<T>(_v: &mut Vec<T>, _i: usize, _x: T) { loop {} }
/// grow to length n with values like x
#[inline(never)] fn fill_to<T>(_v: &mut Vec<T>, _n: usize, _x: T) { loop {} }
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
    if n <= v.len() {
        v.truncate(n);
    } else {
        while v.len() < n {
            v.push(x.clone());
        }
    }
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) {
            i += 1;
        } else {
            drop(v.remove(i));
        }
    }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            drop(v.remove(i));
        }
    }
}
pub fn vec_extend_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    for x in s {
        v.push(x.clone());
    }
}
pub fn vec_clone<T: Clone>(s: &Vec<T>) -> Vec<T> {
    let mut v = Vec::new();
    for x in s {
        v.push(x.clone());
    }
    v
}
pub fn slice_to_vec<T: Clone>(s: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    for x in s {
        v.push(x.clone());
    }
    v
}
pub fn slice_fill<T: Clone>(s: &mut [T], t: T) {
    for x in s {
        *x = t.clone();
    }
}
pub fn slice_contains<T: PartialEq>(s: &[T], t: &T) -> bool {
    for x in s {
        if x == t {
            return true;
        }
    }
    false
}
/// is it `repeat(x).take(n)` with an x that needs no drop?
#[inline(never)] fn copies<I>() -> bool { loop {} }
/// the n of `repeat(x).take(n)`
#[inline(never)] fn count_of<I>(_it: &I) -> usize { loop {} }
#[inline(never)] fn copy<T>(_x: &T) -> T { loop {} }
/// does the type say that the iterator yields at most one item?
#[inline(never)] fn at_most_one<I>() -> bool { loop {} }
pub fn vec_extend<I: IntoIterator<Item = T>, T>(v: &mut Vec<T>, it: I) {
    if at_most_one::<I>() {
        if let Some(x) = it.into_iter().next() {
            v.push(x);
        }
        return;
    }
    if copies::<I>() {
        // one value for each followed position, one for all others, as in vec_resize
        let n = v.len() + count_of(&it);
        if let Some(x) = it.into_iter().next() {
            let i = next_key_position(v, n);
            if i < n {
                put_at(v, i, copy(&x));
                let i = next_key_position(v, n);
                if i < n {
                    put_at(v, i, copy(&x));
                    let i = next_key_position(v, n);
                    if i < n {
                        put_at(v, i, copy(&x));
                    }
                }
            }
            fill_to(v, n, x);
        }
        return;
    }
    for x in it {
        v.push(x);
    }
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn set_from_iter<T: Eq + Hash, S: BuildHasher + Default, I: IntoIterator<Item = T>>(it: I) -> HashSet<T, S> {
    let mut v = HashSet::default();
    for x in it {
        v.insert(x);
    }
    v
}
pub fn set_extend<T: Eq + Hash, S: BuildHasher, I: IntoIterator<Item = T>>(v: &mut HashSet<T, S>, it: I) {
    for x in it {
        v.insert(x);
    }
}
pub fn set_clone<T: Clone + Eq + Hash, S: BuildHasher + Default>(s: &HashSet<T, S>) -> HashSet<T, S> {
    let mut v = HashSet::default();
    for x in s {
        v.insert(x.clone());
    }
    v
}
pub fn set_retain<T: Eq + Hash + Clone, S: BuildHasher + Default, F: FnMut(&T) -> bool>(v: &mut HashSet<T, S>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.insert(x);
        }
    }
}
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
    let mut v = HashMap::default();
    for (k, x) in it {
        v.insert(k, x);
    }
    v
}
pub fn map_extend<K: Eq + Hash, V, S: BuildHasher, I: IntoIterator<Item = (K, V)>>(v: &mut HashMap<K, V, S>, it: I) {
    for (k, x) in it {
        v.insert(k, x);
    }
}
pub fn map_clone<K: Clone + Eq + Hash, V: Clone, S: BuildHasher + Default>(s: &HashMap<K, V, S>) -> HashMap<K, V, S> {
    let mut v = HashMap::default();
    for (k, x) in s {
        v.insert(k.clone(), x.clone());
    }
    v
}
pub fn map_retain<K: Eq + Hash, V, S: BuildHasher + Default, F: FnMut(&K, &mut V) -> bool>(v: &mut HashMap<K, V, S>, mut f: F) {
    let old = std::mem::take(v);
    for (k, mut x) in old {
        if f(&k, &mut x) {
            v.insert(k, x);
        }
    }
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    b
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
    None
}
pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x)?;
    }
    R::from_output(b)
}
pub fn it_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn deque_extend<I: IntoIterator<Item = T>, T>(v: &mut VecDeque<T>, it: I) {
    for x in it {
        v.push_back(x);
    }
}
pub fn deque_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> VecDeque<T> {
    let mut v = VecDeque::new();
    for x in it {
        v.push_back(x);
    }
    v
}
pub fn deque_retain<T, F: FnMut(&T) -> bool>(v: &mut VecDeque<T>, mut f: F) {
    let mut n = v.len();
    while n > 0 {
        n -= 1;
        if let Some(x) = v.pop_front() {
            if f(&x) {
                v.push_back(x);
            }
        }
    }
}
pub fn bset_from_iter<T: Ord, I: IntoIterator<Item = T>>(it: I) -> BTreeSet<T> {
    let mut v = BTreeSet::new();
    for x in it {
        v.insert(x);
    }
    v
}
pub fn bmap_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
    let mut v = BTreeMap::new();
    for (k, x) in it {
        v.insert(k, x);
    }
    v
}
pub fn bset_extend<T: Ord, I: IntoIterator<Item = T>>(v: &mut BTreeSet<T>, it: I) {
    for x in it {
        v.insert(x);
    }
}
pub fn bmap_extend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(v: &mut BTreeMap<K, V>, it: I) {
    for (k, x) in it {
        v.insert(k, x);
    }
}
pub fn bentry_or_insert<'a, K: Ord, V>(e: btree_map::Entry<'a, K, V>, x: V) -> &'a mut V {
    match e {
        btree_map::Entry::Occupied(o) => o.into_mut(),
        btree_map::Entry::Vacant(v) => v.insert(x),
    }
}
pub fn bentry_or_insert_with<'a, K: Ord, V, F: FnOnce() -> V>(e: btree_map::Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        btree_map::Entry::Occupied(o) => o.into_mut(),
        btree_map::Entry::Vacant(v) => v.insert(f()),
    }
}
pub fn bentry_or_default<'a, K: Ord, V: Default>(e: btree_map::Entry<'a, K, V>) -> &'a mut V {
    match e {
        btree_map::Entry::Occupied(o) => o.into_mut(),
        btree_map::Entry::Vacant(v) => v.insert(V::default()),
    }
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    vec_resize(&mut v, n, x);
    v
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn entry_or_insert<'a, K, V>(e: Entry<'a, K, V>, x: V) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(x),
    }
}
pub fn entry_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(f()),
    }
}
pub fn entry_or_default<'a, K, V: Default>(e: Entry<'a, K, V>) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(V::default()),
    }
}
pub fn entry_and_modify<'a, K, V, F: FnOnce(&mut V)>(e: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> {
    match e {
        Entry::Occupied(mut o) => {
            f(o.get_mut());
            Entry::Occupied(o)
        }
        Entry::Vacant(v) => Entry::Vacant(v),
    }
}
pub fn set_sub<T: Eq + Hash + Clone, S: BuildHasher + Default>(a: &HashSet<T, S>, b: &HashSet<T, S>) -> HashSet<T, S> {
    set_from_iter(a.difference(b).cloned())
}
pub fn set_and<T: Eq + Hash + Clone, S: BuildHasher + Default>(a: &HashSet<T, S>, b: &HashSet<T, S>) -> HashSet<T, S> {
    set_from_iter(a.intersection(b).cloned())
}
pub fn set_or<T: Eq + Hash + Clone, S: BuildHasher + Default>(a: &HashSet<T, S>, b: &HashSet<T, S>) -> HashSet<T, S> {
    set_from_iter(a.union(b).cloned())
}
pub fn set_xor<T: Eq + Hash + Clone, S: BuildHasher + Default>(a: &HashSet<T, S>, b: &HashSet<T, S>) -> HashSet<T, S> {
    set_from_iter(a.symmetric_difference(b).cloned())
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == std::cmp::Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn slice_sort<T: Ord>(s: &mut [T]) {
    slice_sort_by(s, |a, b| a.cmp(b))
}
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    slice_sort_by(s, |a, b| f(a).cmp(&f(b)))
}
pub fn slice_reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i < n / 2 {
        s.swap(i, n - 1 - i);
        i += 1;
    }
}
pub fn slice_rotate_left<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("mid > len");
    }
    for _ in 0..k {
        let mut i = 1;
        while i < s.len() {
            s.swap(i - 1, i);
            i += 1;
        }
    }
}
pub fn slice_rotate_right<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("k > len");
    }
    let n = s.len() - k;
    slice_rotate_left(s, n)
}
pub fn slice_copy<T: Copy>(s: &mut [T], t: &[T]) {
    if s.len() != t.len() {
        panic!("source slice length does not match destination slice length");
    }
    let mut i = 0;
    while i < s.len() {
        s[i] = t[i];
        i += 1;
    }
}
pub fn slice_clone_from<T: Clone>(s: &mut [T], t: &[T]) {
    if s.len() != t.len() {
        panic!("source slice length does not match destination slice length");
    }
    let mut i = 0;
    while i < s.len() {
        s[i] = t[i].clone();
        i += 1;
    }
}
pub fn vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let same = {
            let (a, b) = v.split_at_mut(i);
            f(&mut b[0], &mut a[i - 1])
        };
        if same {
            drop(v.remove(i));
        } else {
            i += 1;
        }
    }
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    vec_dedup_by(v, |a, b| a == b)
}
pub fn vec_dedup_by_key<T, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    vec_dedup_by(v, |a, b| f(a) == f(b))
}
pub fn map_eq<K: Eq + Hash, V: PartialEq, S: BuildHasher>(a: &HashMap<K, V, S>, b: &HashMap<K, V, S>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (k, v) in a {
        match b.get(k) {
            Some(w) if *v == *w => {}
            _ => return false,
        }
    }
    true
}
pub fn std_catch_unwind<F: FnOnce() -> R, R>(f: F) -> std::thread::Result<R> {
    let mut r = None;
    if crate::prim::catch(|| r = Some(f())) {
        Err(Box::new(()))
    } else {
        match r {
            Some(x) => Ok(x),
            None => crate::prim::stop(),
        }
    }
}
/// rayon::join: in some order, both exactly once
pub fn rayon_join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) {
    if crate::prim::nondet() {
        let x = a();
        let y = b();
        (x, y)
    } else {
        let y = b();
        let x = a();
        (x, y)
    }
}
/// stands for rayon's driver: any tree of splits.  Ghost 2: how often the tracked index was consumed,
/// 3: how often it should be, 4: driven.
pub fn bridge<P: UnindexedProducer, C: UnindexedConsumer<P::Item>>(p: P, c: C) -> C::Result {
    let mut p = p;
    gset(4, gget(4) + 1);
    check(piece_has(&p) as i64 == gget(3), "the work handed out is not the mask of the join");
    // follow any path down any tree of splits
    loop {
        if nondet() { break; }
        let had = piece_has(&p);
        match p.split() {
            (a, Some(b)) => {
                check((piece_has(&a) && piece_has(&b)) == false, "an index is in both halves of a split");
                check((piece_has(&a) || piece_has(&b)) == had, "an index is lost or invented by a split");
                if nondet() { mem::forget(b); p = a; } else { mem::forget(a); p = b; }
            }
            (a, None) => {
                check(piece_has(&a) == had, "an index is lost by a split");
                p = a;
            }
        }
    }
    let want = piece_has(&p) as i64;
    gset(2, 0);
    let r = p.fold_with(c.into_folder()).complete();
    check(gget(2) == want, "a piece consumes an index it does not own, or not exactly once");
    r
}
