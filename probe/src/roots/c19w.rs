//! Types that are resources and components
use goggles::{Component, Index, RawStorage};
use std::cell::UnsafeCell;

#[derive(Clone)]
pub struct A {
    pub id: i64,
}
#[derive(Clone)]
pub struct B {
    pub id: i64,
}
/// a type that is a resource and also a component
impl Component for A {
    type Storage = One<A>;
}
impl Component for B {
    type Storage = One<B>;
}
/// holds only the component of index 0
pub struct One<T>(UnsafeCell<Option<T>>);
impl<T> Default for One<T> {
    fn default() -> Self {
        One(UnsafeCell::new(None))
    }
}
unsafe impl<T: Sync> Sync for One<T> {}
impl<T> RawStorage for One<T> {
    type Item = T;
    unsafe fn get(&self, _: Index) -> &T {
        (*self.0.get()).as_ref().unwrap()
    }
    unsafe fn get_mut(&self, _: Index) -> &mut T {
        (*self.0.get()).as_mut().unwrap()
    }
    unsafe fn insert(&mut self, _: Index, v: T) {
        *self.0.get_mut() = Some(v);
    }
    unsafe fn remove(&mut self, _: Index) -> T {
        self.0.get_mut().take().unwrap()
    }
}
