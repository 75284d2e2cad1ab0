//! Opaque user-side parts: component values, raw storages, systems, resources, pools.
use crate::prim::*;
use goggles::{storage::RawStorage, Index};
use std::cell::{Cell, UnsafeCell};
use std::mem::{self, MaybeUninit};

/// Raw storage that only checks its contract at the tracked key.
pub struct Contract<V: Val = Tok> {
    pub present: Cell<bool>,
    slot: UnsafeCell<MaybeUninit<V>>,
    other: UnsafeCell<V>,
}

/// The kinds of component values: with a destructor, plain data, and without any data.
pub trait Val: Sized {
    /// the value remembers its id
    const KEEPS: bool;
    fn make(id: i64) -> Self;
    fn id(&self) -> i64;
    fn set(&mut self, id: i64);
}
impl Val for Tok {
    const KEEPS: bool = true;
    fn make(id: i64) -> Self { Tok { id } }
    fn id(&self) -> i64 { self.id }
    fn set(&mut self, id: i64) { self.id = id }
}
#[derive(Clone, Copy)]
pub struct Plain(i64);
impl Val for Plain {
    const KEEPS: bool = true;
    fn make(id: i64) -> Self { Plain(id) }
    fn id(&self) -> i64 { self.0 }
    fn set(&mut self, id: i64) { self.0 = id }
}
#[derive(Clone, Copy)]
pub struct Unit;
impl Val for Unit {
    const KEEPS: bool = false;
    fn make(_: i64) -> Self { Unit }
    fn id(&self) -> i64 { 0 }
    fn set(&mut self, _: i64) {}
}
/// is `t` the value with this id, as far as it can be told
pub fn is<V: Val>(t: &V, id: i64) -> bool {
    !V::KEEPS || t.id() == id
}

/// A component value; `id` names the value, 0 for values nobody follows.
pub struct Tok {
    pub id: i64,
}

/// ghost registers: 0: destructors may panic; 1: state of the followed value (the one whose id is HOT):
/// 0 not made yet, 1 alive, 2 destroyed, 3 handed back
pub const HOT: i64 = -1;

/// the id of a default value
pub const NEW: i64 = 7;
impl Default for Tok {
    fn default() -> Self {
        Tok { id: NEW }
    }
}
unsafe impl<V: Val> Sync for Contract<V> {}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.id == HOT {
            check(gget(1) == 1, "a value is destroyed twice, or after it was handed back");
            gset(1, 2);
        }
        if gget(0) != 0 && nondet() {
            user_panic();
        }
    }
}

impl<V: Val> Default for Contract<V> {
    fn default() -> Self {
        Contract { present: Cell::new(false), slot: UnsafeCell::new(MaybeUninit::uninit()), other: UnsafeCell::new(V::make(0)) }
    }
}

impl<V: Val> Drop for Contract<V> {
    fn drop(&mut self) {
        // the filler value is not a component
        self.other.get_mut().set(0);
    }
}

impl<V: Val> RawStorage for Contract<V> {
    type Item = V;
    unsafe fn get(&self, index: Index) -> &V {
        if tracked(index) {
            check(self.present.get(), "the raw storage is read at an index that holds no value");
            assume(self.present.get());
            (*self.slot.get()).assume_init_ref()
        } else {
            &*self.other.get()
        }
    }
    unsafe fn get_mut(&self, index: Index) -> &mut V {
        if tracked(index) {
            check(self.present.get(), "the raw storage is mutably accessed at an index that holds no value");
            assume(self.present.get());
            (*self.slot.get()).assume_init_mut()
        } else {
            (*self.other.get()).set(0);
            &mut *self.other.get()
        }
    }
    unsafe fn insert(&mut self, index: Index, value: V) {
        if tracked(index) {
            check(!self.present.get(), "the raw storage is inserted into at an index that already holds a value");
            assume(!self.present.get());
            self.present.set(true);
            *self.slot.get() = MaybeUninit::new(value);
        } else {
            mem::forget(value);
        }
    }
    unsafe fn remove(&mut self, index: Index) -> V {
        if tracked(index) {
            check(self.present.get(), "a value is removed from the raw storage at an index that holds none");
            assume(self.present.get());
            self.present.set(false);
            (*self.slot.get()).assume_init_read()
        } else {
            V::make(0)
        }
    }
}

/// `f` must not panic
pub fn nopanic<F: FnOnce()>(f: F, msg: &'static str) {
    let p = catch(f);
    check(!p, msg);
}
/// `f` must panic
pub fn panics<F: FnOnce()>(f: F, msg: &'static str) {
    let p = catch(f);
    check(p, msg);
}
