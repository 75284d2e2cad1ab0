use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::*;
use goggles::rayon::iter::plumbing::*;
use goggles::rayon::iter::ParallelIterator;
use goggles::{Index, IntoJoin, IntoJoinExt, MaskedStorage, ParJoinExt};
use std::mem;

/// counts what is consumed in the ghost registers, through `f`
pub struct Cons<F>(pub F);
pub struct Fold<F>(F);
pub struct Red;
impl<F: Fn(T) + Copy + Send, T> Consumer<T> for Cons<F> {
    type Folder = Fold<F>;
    type Reducer = Red;
    type Result = ();
    fn split_at(self, _: usize) -> (Self, Self, Red) { (Cons(self.0), Cons(self.0), Red) }
    fn into_folder(self) -> Fold<F> { Fold(self.0) }
    fn full(&self) -> bool { false }
}
impl<F: Fn(T) + Copy + Send, T> UnindexedConsumer<T> for Cons<F> {
    fn split_off_left(&self) -> Self { Cons(self.0) }
    fn to_reducer(&self) -> Red { Red }
}
impl<F: Fn(T) + Copy + Send, T> Folder<T> for Fold<F> {
    type Result = ();
    fn consume(self, t: T) -> Self { (self.0)(t); self }
    fn consume_iter<I: IntoIterator<Item = T>>(self, iter: I) -> Self {
        for t in iter { (self.0)(t); }
        self
    }
    fn complete(self) {}
    fn full(&self) -> bool { false }
}
impl Reducer<()> for Red {
    fn reduce(self, _: (), _: ()) {}
}

fn one(id: i64, hit: i64) {
    if id == hit { gset(2, gget(2) + 1); }
}

pub fn t_shared() {
    let k = any_index();
    track(k);
    let mut a: MaskedStorage<goggles::VecStorage<Tok>> = Default::default();
    let bs = any_bitset();
    let i = bs.contains(k);
    gset(3, i as i64);
    (&bs).par_join().drive_unindexed(Cons(|i: u32| { if tracked(i) { one(1, 1) } }));
    check(gget(4) == 1, "the join was driven");
    mem::forget(a);
}

pub fn t_tuple() {
    let k = any_index();
    track(k);
    let a = any_bitset();
    let b = any_bitset();
    gset(3, (a.contains(k) && b.contains(k)) as i64);
    (&a, &b, (&a).maybe()).par_join().drive_unindexed(Cons(|(i, j, o): (u32, u32, Option<u32>)| {
        check(i == j, "a parallel join pairs elements of different indexes");
        check(o == Some(i), "a parallel join gives another optional element than the sequential one");
        if tracked(i) { one(1, 1) }
    }));
    check(gget(4) == 1, "the join was driven");
}

pub fn t_unconstrained() {
    let k = any_index();
    track(k);
    let a = any_bitset();
    gset(3, !a.contains(k) as i64);
    BitSetNot(&a).par_join_unconstrained().drive_unindexed(Cons(|i: u32| if tracked(i) { one(1, 1) }));
    check(gget(4) == 1, "the join was driven");
}

/// elements of a storage
pub fn t_elements() {
    let k = any_index();
    track(k);
    let mut a = Sh(MaskedStorage::default());
    if nondet() { a.0.insert(k, Tok { id: 1 }); }
    while nondet() { let i = any_index(); assume(i != k); a.0.insert(i, Tok { id: 0 }); }
    gset(3, a.0.contains(k) as i64);
    if nondet() {
        (&a.0, &BitSetAll).par_join().drive_unindexed(Cons(|(x, i): (&Tok, u32)| {
            check((x.id == 1) == tracked(i), "a parallel join gives an element of another index");
            if tracked(i) { one(1, 1) }
        }));
    } else {
        (&mut a.0, &BitSetAll).par_join().drive_unindexed(Cons(|(x, i): (&mut Tok, u32)| {
            check((x.id == 1) == tracked(i), "a parallel join gives an element of another index");
            if tracked(i) { one(1, 1) }
        }));
    }
    check(gget(4) == 1, "the join was driven");
    mem::forget(a);
}
struct Sh(MaskedStorage<SyncContract>);

/// the contract storage, shareable
#[derive(Default)]
pub struct SyncContract(Contract);
unsafe impl Sync for SyncContract {}
unsafe impl Send for SyncContract {}
impl goggles::RawStorage for SyncContract {
    type Item = Tok;
    unsafe fn get(&self, i: Index) -> &Tok { self.0.get(i) }
    unsafe fn get_mut(&self, i: Index) -> &mut Tok { self.0.get_mut(i) }
    unsafe fn insert(&mut self, i: Index, t: Tok) { self.0.insert(i, t) }
    unsafe fn remove(&mut self, i: Index) -> Tok { self.0.remove(i) }
}

