//! Resource borrows (C19)
use super::c19w::*;
use crate::prim::*;
use atomic_refcell::{AtomicRef, AtomicRefMut};
use goggles::world_common::ComponentStorage;
use goggles::{Read, ReadComponent, ReadResource, ResourceSet, World, Write, WriteComponent, WriteResource};
use std::mem;

fn id() -> i64 {
    any_i64(1, 1 << 40)
}

/// inserting and removing
fn change(s: &mut ResourceSet, a: &mut i64, b: &mut i64) {
    match any_usize(0, 7) {
        0 => {
            let i = id();
            let r = s.insert(A { id: i });
            check(r.map_or(0, |x| x.id) == *a, "C19: insert does not return the previous resource");
            *a = i;
        }
        1 => {
            let i = id();
            let r = s.insert(B { id: i });
            check(r.map_or(0, |x| x.id) == *b, "C19: insert does not return the previous resource");
            *b = i;
        }
        2 => {
            let r = s.remove::<A>();
            check(r.map_or(0, |x| x.id) == *a, "C19: remove does not return the resource");
            *a = 0;
        }
        3 => {
            let r = s.remove::<B>();
            check(r.map_or(0, |x| x.id) == *b, "C19: remove does not return the resource");
            *b = 0;
        }
        4 => check(s.contains::<A>() == (*a != 0), "C19: contains is wrong"),
        5 => check(s.contains::<B>() == (*b != 0), "C19: contains is wrong"),
        6 => {
            let i = id();
            let p = catch(|| {
                let r = s.get_mut::<A>();
                check(r.id == *a, "C19: what is accessed is not what was inserted last");
                r.id = i;
            });
            check(p == (*a == 0), "C19: get_mut panics exactly when the resource is missing");
            if !p { *a = i; }
        }
        _ => {
            let p = catch(|| {
                check(s.get_mut::<B>().id == *b, "C19: what is accessed is not what was inserted last");
            });
            check(p == (*b == 0), "C19: get_mut panics exactly when the resource is missing");
        }
    }
}

pub fn t_history() {
    let mut s = if nondet() { ResourceSet::new() } else { ResourceSet::default() };
    let (mut a, mut b) = (0, 0);
    loop {
        begin();
        if nondet() { break; }
        change(&mut s, &mut a, &mut b);
    }
}

/// how one thing is borrowed
trait Side<S> {
    type R<'a> where S: 'a;
    type W<'a> where S: 'a;
    fn read(s: &S) -> Self::R<'_>;
    fn write(s: &S) -> Self::W<'_>;
    fn rid(r: &Self::R<'_>) -> i64;
    fn wid(w: &Self::W<'_>) -> i64;
    fn set(w: &mut Self::W<'_>, i: i64);
}

struct Own<T>(T);
struct Fetch<T>(T);
struct Res<T>(T);
struct FetchRes<T>(T);
struct Comp<T>(T);
struct FetchComp<T>(T);

macro_rules! side {
    ($S:ty, $K:ty, $R:ident, $W:ident, $T:ty, |$s:ident| $r:expr, $w:expr, |$v:ident| $id:expr) => {
        impl Side<$S> for $K {
            type R<'a> = $R<'a, $T>;
            type W<'a> = $W<'a, $T>;
            fn read($s: &$S) -> $R<'_, $T> {
                $r
            }
            fn write($s: &$S) -> $W<'_, $T> {
                $w
            }
            fn rid($v: &Self::R<'_>) -> i64 {
                $id
            }
            fn wid($v: &Self::W<'_>) -> i64 {
                $id
            }
            fn set($v: &mut Self::W<'_>, i: i64) {
                $id = i;
            }
        }
    };
}
macro_rules! sides {
    ($T:ty) => {
        side!(ResourceSet, Own<$T>, AtomicRef, AtomicRefMut, $T, |s| s.borrow(), s.borrow_mut(), |v| v.id);
        side!(ResourceSet, Fetch<$T>, Read, Write, $T, |s| s.fetch(), s.fetch(), |v| v.id);
        side!(World, Res<$T>, ReadResource, WriteResource, $T, |s| s.read_resource(), s.write_resource(), |v| v.id);
        side!(World, FetchRes<$T>, ReadResource, WriteResource, $T, |s| s.fetch(), s.fetch(), |v| v.id);
    };
}
macro_rules! comps {
    ($T:ty, $K:ty, |$s:ident| $r:expr, $w:expr) => {
        impl Side<World> for $K {
            type R<'a> = ReadComponent<'a, $T>;
            type W<'a> = WriteComponent<'a, $T>;
            fn read($s: &World) -> ReadComponent<'_, $T> {
                $r
            }
            fn write($s: &World) -> WriteComponent<'_, $T> {
                $w
            }
            fn rid(v: &Self::R<'_>) -> i64 {
                v.storage().get(0).map_or(0, |x| x.id)
            }
            fn wid(v: &Self::W<'_>) -> i64 {
                v.storage().get(0).map_or(0, |x| x.id)
            }
            fn set(v: &mut Self::W<'_>, i: i64) {
                if let Some(x) = v.storage_mut().get_mut(0) {
                    x.id = i;
                }
            }
        }
    };
}
sides!(A);
sides!(B);
comps!(A, Comp<A>, |s| s.read_component(), s.write_component());
comps!(B, Comp<B>, |s| s.read_component(), s.write_component());
comps!(A, FetchComp<A>, |s| s.fetch(), s.fetch());
comps!(B, FetchComp<B>, |s| s.fetch(), s.fetch());

/// a resource that is itself a storage of components of type A
type StoreOfA = ComponentStorage<A>;
struct Store;
impl Side<World> for Store {
    type R<'a> = ReadResource<'a, StoreOfA>;
    type W<'a> = WriteResource<'a, StoreOfA>;
    fn read(s: &World) -> Self::R<'_> {
        s.read_resource()
    }
    fn write(s: &World) -> Self::W<'_> {
        s.fetch()
    }
    fn rid(v: &Self::R<'_>) -> i64 {
        v.get(0).map_or(0, |x| x.id)
    }
    fn wid(v: &Self::W<'_>) -> i64 {
        v.get(0).map_or(0, |x| x.id)
    }
    fn set(v: &mut Self::W<'_>, i: i64) {
        if let Some(x) = v.get_mut(0) {
            x.id = i;
        }
    }
}
fn store(id: i64) -> StoreOfA {
    let mut s = StoreOfA::default();
    s.insert(0, A { id });
    s
}

/// every history of borrows and releases of two things; 0: the thing does not exist
fn borrows<S, P: Side<S>, Q: Side<S>>(s: &S, a: &mut i64, b: &mut i64) {
    let mut r: Option<P::R<'_>> = None;
    let mut q: Option<P::R<'_>> = None;
    let mut w: Option<P::W<'_>> = None;
    let mut y: Option<Q::R<'_>> = None;
    let mut z: Option<Q::W<'_>> = None;
    // a refused immutable borrow is counted in the cell until the mutable borrow is released
    let mut fails = 0;
    let mut zfailed = false;
    loop {
        begin();
        if nondet() { break; }
        match any_usize(0, 9) {
            0 => {
                if r.is_none() && fails < 2 {
                    fails += w.is_some() as u8;
                    let p = catch(|| r = Some(P::read(s)));
                    check(p == (*a == 0 || w.is_some()), "C19: an immutable borrow is refused exactly while a mutable one exists");
                }
            }
            1 => {
                if q.is_none() && fails < 2 {
                    fails += w.is_some() as u8;
                    let p = catch(|| q = Some(P::read(s)));
                    check(p == (*a == 0 || w.is_some()), "C19: an immutable borrow is refused exactly while a mutable one exists");
                }
            }
            2 => {
                if w.is_none() {
                    let p = catch(|| w = Some(P::write(s)));
                    check(p == (*a == 0 || r.is_some() || q.is_some()), "C19: a mutable borrow is refused exactly while another one exists");
                } else {
                    let p = catch(|| drop(P::write(s)));
                    check(p, "C19: a mutable borrow is granted while another one exists");
                }
            }
            3 => {
                if y.is_none() && !(zfailed && z.is_some()) {
                    zfailed = z.is_some();
                    let p = catch(|| y = Some(Q::read(s)));
                    check(p == (*b == 0 || z.is_some()), "C19: an immutable borrow is refused exactly while a mutable one exists");
                }
            }
            4 => {
                if z.is_none() {
                    let p = catch(|| z = Some(Q::write(s)));
                    check(p == (*b == 0 || y.is_some()), "C19: a mutable borrow is refused exactly while another one exists");
                }
            }
            5 => r = None,
            6 => q = None,
            7 => {
                w = None;
                fails = 0;
            }
            8 => {
                y = None;
                z = None;
            }
            _ => {
                if let Some(w) = &mut w {
                    check(P::wid(w) == *a, "C19: what is borrowed is not what was inserted last");
                    *a = id();
                    P::set(w, *a);
                }
                if let Some(z) = &mut z {
                    check(Q::wid(z) == *b, "C19: what is borrowed is not what was inserted last");
                    *b = id();
                    Q::set(z, *b);
                }
            }
        }
        if let Some(r) = &r {
            check(P::rid(r) == *a, "C19: what is borrowed is not what was inserted last");
        }
        if let Some(q) = &q {
            check(P::rid(q) == *a, "C19: what is borrowed is not what was inserted last");
        }
        if let Some(y) = &y {
            check(Q::rid(y) == *b, "C19: what is borrowed is not what was inserted last");
        }
    }
}

fn set_client<P: Side<ResourceSet>, Q: Side<ResourceSet>>() {
    let mut s = ResourceSet::new();
    let mut a = 0;
    let mut b = 0;
    if nondet() {
        a = id();
        s.insert(A { id: a });
    }
    if nondet() {
        b = id();
        s.insert(B { id: b });
    }
    borrows::<_, P, Q>(&s, &mut a, &mut b);
    // everything is available again
    if a != 0 {
        check(P::wid(&P::write(&s)) == a, "C19: what is borrowed is not what was inserted last");
    }
    check(s.remove::<B>().map_or(0, |x| x.id) == b, "C19: remove does not return the resource");
    begin();
}
pub fn t_set() {
    set_client::<Own<A>, Own<B>>();
}
pub fn t_set_fetch() {
    set_client::<Fetch<A>, Fetch<B>>();
}

/// a world in which A is (perhaps) a resource and a component and B too
fn world() -> (World, i64, i64, i64, i64) {
    track(0);
    let (mut ar, mut ac) = (0, 0);
    let mut w = World::new();
    if nondet() {
        ar = id();
        w.insert_resource(A { id: ar });
    }
    let br = id();
    w.insert_resource(B { id: br });
    if nondet() {
        ac = id();
        w.insert_component::<A>();
        w.get_component_mut::<A>().storage_mut().insert(0, A { id: ac });
    }
    let bc = id();
    w.insert_component::<B>();
    w.get_component_mut::<B>().storage_mut().insert(0, B { id: bc });
    (w, ar, br, ac, bc)
}
macro_rules! world_client {
    ($name:ident, $P:ident<$A:ident>, $Q:ident<$B:ident>, $a:tt, $b:tt) => {
        pub fn $name() {
            let w = world();
            let (mut a, mut b) = (w.$a, w.$b);
            borrows::<_, $P<$A>, $Q<$B>>(&w.0, &mut a, &mut b);
            mem::forget(w);
            begin();
        }
    };
}
world_client!(t_world_res_res, Res<A>, FetchRes<B>, 1, 2);
world_client!(t_world_res_comp, FetchRes<A>, Comp<A>, 1, 3);
world_client!(t_world_comp_res, Comp<A>, Res<A>, 3, 1);
/// a component against a resource that has the type of the component's storage
pub fn t_world_comp_store() {
    let mut w = world();
    let mut b = 0;
    if nondet() {
        b = id();
        check(w.0.insert_resource(store(b)).is_none(), "C19: insert does not return the previous resource");
    }
    let mut a = w.3;
    borrows::<_, Comp<A>, Store>(&w.0, &mut a, &mut b);
    mem::forget(w);
    begin();
}
world_client!(t_world_comp_comp, FetchComp<A>, FetchComp<B>, 3, 4);

/// resources that have the type of a component's storage, and the component, come and go
pub fn t_world_store_history() {
    track(0);
    let mut w = World::new();
    let (mut a, mut c) = (0, 0);
    loop {
        begin();
        if nondet() { break; }
        match any_usize(0, 5) {
            0 => {
                let i = id();
                let r = w.insert_resource(store(i));
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == a, "C19: insert does not return the previous resource");
                a = i;
            }
            1 => {
                let r = w.remove_resource::<StoreOfA>();
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == a, "C19: remove does not return the resource");
                a = 0;
            }
            2 => {
                check(w.contains_resource::<StoreOfA>() == (a != 0), "C19: contains is wrong");
                check(w.contains_component::<A>() == (c != 0), "C19: contains is wrong");
            }
            3 => {
                let p = catch(|| {
                    let r = w.get_resource_mut::<StoreOfA>();
                    check(r.get(0).map_or(-1, |x| x.id) == a, "C19: what is accessed is not what was inserted last");
                });
                check(p == (a == 0), "C19: get_mut panics exactly when the resource is missing");
            }
            4 => {
                let i = id();
                let r = w.insert_component::<A>();
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == c, "C19: insert does not return the previous storage");
                w.get_component_mut::<A>().storage_mut().insert(0, A { id: i });
                c = i;
            }
            _ => {
                let r = w.remove_component::<A>();
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == c, "C19: remove does not return the storage");
                c = 0;
            }
        }
    }
    mem::forget(w);
}

/// resources and components come and go
pub fn t_world_history() {
    track(0);
    let mut w = if nondet() { World::new() } else { World::default() };
    let (mut a, mut c) = (0, 0);
    loop {
        begin();
        if nondet() { break; }
        match any_usize(0, 7) {
            0 => {
                let i = id();
                let r = w.insert_resource(A { id: i });
                check(r.map_or(0, |x| x.id) == a, "C19: insert does not return the previous resource");
                a = i;
            }
            1 => {
                check(w.remove_resource::<A>().map_or(0, |x| x.id) == a, "C19: remove does not return the resource");
                a = 0;
            }
            2 => check(w.contains_resource::<A>() == (a != 0), "C19: contains is wrong"),
            3 => {
                let i = id();
                let p = catch(|| {
                    let r = w.get_resource_mut::<A>();
                    check(r.id == a, "C19: what is accessed is not what was inserted last");
                    r.id = i;
                });
                check(p == (a == 0), "C19: get_mut panics exactly when the resource is missing");
                if !p { a = i; }
            }
            4 => {
                let i = id();
                let r = w.insert_component::<A>();
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == c, "C19: insert does not return the previous storage");
                w.get_component_mut::<A>().storage_mut().insert(0, A { id: i });
                c = i;
            }
            5 => {
                let r = w.remove_component::<A>();
                check(r.map_or(0, |s| s.get(0).map_or(-1, |x| x.id)) == c, "C19: remove does not return the storage");
                c = 0;
            }
            6 => check(w.contains_component::<A>() == (c != 0), "C19: contains is wrong"),
            _ => {
                let i = id();
                let p = catch(|| {
                    let mut r = w.get_component_mut::<A>();
                    check(r.storage().get(0).map_or(-1, |x| x.id) == c, "C19: what is accessed is not what was inserted last");
                    r.storage_mut().insert(0, A { id: i });
                });
                check(p == (c == 0), "C19: get_component_mut panics exactly when the storage is missing");
                if !p { c = i; }
            }
        }
    }
    mem::forget(w);
}
