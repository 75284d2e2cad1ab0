//! Declarations of fetchables (C20)
use super::c19w::*;
use crate::prim::*;
use goggles::world_common::ComponentStorage;
use goggles::resource_set::ResourceId as SetId;
use goggles::{
    Entities, FetchNone, FetchResources, Read, ReadComponent, ReadResource, ResourceSet, Resources, RwResources, World,
    WorldResourceId, WorldResources, Write, WriteComponent, WriteResource,
};
use std::hash::Hash;
use std::mem;

/// 0: not declared, 1: read, 2: write
fn declared<K: Hash + Eq>(r: &RwResources<K>, k: &K) -> u32 {
    if r.writes().any(|x| x == k) {
        2
    } else if r.reads().any(|x| x == k) {
        1
    } else {
        0
    }
}

/// what is borrowed now: 0: nothing, 1: immutably, 2: mutably
fn borrowed<R: FnOnce(), W: FnOnce()>(read: R, write: W) -> u32 {
    if !catch(write) {
        0
    } else if !catch(read) {
        1
    } else {
        2
    }
}

type StoreOfA = ComponentStorage<A>;
fn world() -> World {
    let mut w = World::new();
    w.insert_resource(A { id: 1 });
    w.insert_resource(B { id: 2 });
    w.insert_resource(StoreOfA::default());
    w.insert_component::<A>();
    w.insert_component::<B>();
    w
}
fn set() -> ResourceSet {
    let mut s = ResourceSet::new();
    s.insert(A { id: 1 });
    s.insert(B { id: 2 });
    s
}

const BORROW: &str = "C20: what is declared differs from what is borrowed";
const EXTRA: &str = "C20: something is declared that is not borrowed";

fn in_world<'a, F: FetchResources<'a, World, Resources = WorldResources>>(w: &'a World, allocator: u32) {
    let r = match F::check_resources() {
        Ok(r) => r,
        Err(_) => fail("C20: a single fetchable reports a conflict"),
    };
    let ra = declared(&r, &WorldResourceId::resource::<A>());
    let rb = declared(&r, &WorldResourceId::resource::<B>());
    let ca = declared(&r, &WorldResourceId::component::<A>());
    let cb = declared(&r, &WorldResourceId::component::<B>());
    let sa = declared(&r, &WorldResourceId::resource::<StoreOfA>());
    let en = declared(&r, &WorldResourceId::Entities);
    let n = (ra > 0) as usize + (rb > 0) as usize + (ca > 0) as usize + (cb > 0) as usize + (sa > 0) as usize + (en > 0) as usize;
    check(r.reads().count() + r.writes().count() == n, EXTRA);
    check(en == allocator, "C20: the use of the entity allocator is declared exactly by what holds it");
    let f: F = w.fetch();
    match any_usize(0, 4) {
        4 => check(sa == borrowed(|| drop(w.read_resource::<StoreOfA>()), || drop(w.write_resource::<StoreOfA>())), BORROW),
        0 => check(ra == borrowed(|| drop(w.read_resource::<A>()), || drop(w.write_resource::<A>())), BORROW),
        1 => check(rb == borrowed(|| drop(w.read_resource::<B>()), || drop(w.write_resource::<B>())), BORROW),
        2 => check(ca == borrowed(|| drop(w.read_component::<A>()), || drop(w.write_component::<A>())), BORROW),
        _ => check(cb == borrowed(|| drop(w.read_component::<B>()), || drop(w.write_component::<B>())), BORROW),
    }
    drop(f);
}

/// each fetchable of a world
pub fn t_world() {
    let w = world();
    match any_usize(0, 11) {
        9 => in_world::<ReadResource<StoreOfA>>(&w, 0),
        10 => in_world::<WriteResource<StoreOfA>>(&w, 0),
        0 => in_world::<ReadResource<A>>(&w, 0),
        1 => in_world::<WriteResource<A>>(&w, 0),
        2 => in_world::<ReadComponent<A>>(&w, 1),
        3 => in_world::<WriteComponent<A>>(&w, 1),
        4 => in_world::<ReadResource<B>>(&w, 0),
        5 => in_world::<WriteResource<B>>(&w, 0),
        6 => in_world::<ReadComponent<B>>(&w, 1),
        7 => in_world::<WriteComponent<B>>(&w, 1),
        8 => in_world::<Entities>(&w, 1),
        _ => in_world::<FetchNone<World, WorldResources>>(&w, 0),
    }
    mem::forget(w);
}

fn in_set<'a, F: FetchResources<'a, ResourceSet, Resources = RwResources<SetId>>>(s: &'a ResourceSet) {
    let r = match F::check_resources() {
        Ok(r) => r,
        Err(_) => fail("C20: a single fetchable reports a conflict"),
    };
    let a = declared(&r, &SetId::of::<A>());
    let b = declared(&r, &SetId::of::<B>());
    check(r.reads().count() + r.writes().count() == (a > 0) as usize + (b > 0) as usize, EXTRA);
    let f: F = s.fetch();
    if nondet() {
        check(a == borrowed(|| drop(s.borrow::<A>()), || drop(s.borrow_mut::<A>())), BORROW);
    } else {
        check(b == borrowed(|| drop(s.borrow::<B>()), || drop(s.borrow_mut::<B>())), BORROW);
    }
    drop(f);
}

/// each fetchable of a resource set
pub fn t_set() {
    let s = set();
    match any_usize(0, 4) {
        0 => in_set::<Read<A>>(&s),
        1 => in_set::<Write<A>>(&s),
        2 => in_set::<Read<B>>(&s),
        3 => in_set::<Write<B>>(&s),
        _ => in_set::<FetchNone<ResourceSet, RwResources<SetId>>>(&s),
    }
    mem::forget(s);
}

/// identifiers are distinct for distinct types and kinds
pub fn t_ids() {
    const MSG: &str = "C20: identifiers of different things are equal";
    let (ra, rb) = (WorldResourceId::resource::<A>(), WorldResourceId::resource::<B>());
    let (ca, cb) = (WorldResourceId::component::<A>(), WorldResourceId::component::<B>());
    let e = WorldResourceId::Entities;
    let s = WorldResourceId::resource::<ComponentStorage<A>>();
    check(s != ra && s != rb && s != ca && s != cb && s != e, MSG);
    check(ra != rb && ra != ca && ra != cb && rb != ca && rb != cb && ca != cb, MSG);
    check(e != ra && e != rb && e != ca && e != cb, MSG);
    check(SetId::of::<A>() != SetId::of::<B>(), MSG);
    const SAME: &str = "C20: identifiers of the same thing differ";
    check(ra == WorldResourceId::resource::<A>() && ca == WorldResourceId::component::<A>() && e == WorldResourceId::Entities, SAME);
    check(SetId::of::<A>() == SetId::of::<A>(), SAME);
}

fn together<'a, F, G>(w: &'a World)
where
    F: FetchResources<'a, World, Resources = WorldResources>,
    G: FetchResources<'a, World, Resources = WorldResources>,
{
    if let (Ok(r), Ok(q)) = (F::check_resources(), G::check_resources()) {
        if !r.conflicts_with(&q) {
            let f: F = w.fetch();
            let p = catch(|| drop(w.fetch::<G>()));
            check(!p, "C20: two fetchables that do not conflict cannot be fetched together");
            drop(f);
        }
    }
}
fn with_any<'a, F: FetchResources<'a, World, Resources = WorldResources>>(w: &'a World) {
    match any_usize(0, 10) {
        8 => together::<F, ReadResource<StoreOfA>>(w),
        9 => together::<F, WriteResource<StoreOfA>>(w),
        0 => together::<F, ReadResource<A>>(w),
        1 => together::<F, WriteResource<A>>(w),
        2 => together::<F, ReadComponent<A>>(w),
        3 => together::<F, WriteComponent<A>>(w),
        4 => together::<F, ReadResource<B>>(w),
        5 => together::<F, WriteResource<B>>(w),
        6 => together::<F, ReadComponent<B>>(w),
        7 => together::<F, WriteComponent<B>>(w),
        _ => together::<F, Entities>(w),
    }
}
/// pairs of fetchables
pub fn t_pairs() {
    let w = world();
    match any_usize(0, 6) {
        4 => with_any::<ReadResource<StoreOfA>>(&w),
        5 => with_any::<WriteResource<StoreOfA>>(&w),
        0 => with_any::<ReadResource<A>>(&w),
        1 => with_any::<WriteResource<A>>(&w),
        2 => with_any::<ReadComponent<A>>(&w),
        3 => with_any::<WriteComponent<A>>(&w),
        _ => with_any::<Entities>(&w),
    }
    mem::forget(w);
}
pub fn t_set_pairs() {
    let s = set();
    fn both<'a, F, G>(s: &'a ResourceSet)
    where
        F: FetchResources<'a, ResourceSet, Resources = RwResources<SetId>>,
        G: FetchResources<'a, ResourceSet, Resources = RwResources<SetId>>,
    {
        if let (Ok(r), Ok(q)) = (F::check_resources(), G::check_resources()) {
            if !r.conflicts_with(&q) {
                let f: F = s.fetch();
                let p = catch(|| drop(s.fetch::<G>()));
                check(!p, "C20: two fetchables that do not conflict cannot be fetched together");
                drop(f);
            }
        }
    }
    match any_usize(0, 7) {
        0 => both::<Read<A>, Read<A>>(&s),
        1 => both::<Read<A>, Write<A>>(&s),
        2 => both::<Read<A>, Read<B>>(&s),
        3 => both::<Read<A>, Write<B>>(&s),
        4 => both::<Write<A>, Read<A>>(&s),
        5 => both::<Write<A>, Write<A>>(&s),
        6 => both::<Write<A>, Read<B>>(&s),
        _ => both::<Write<A>, Write<B>>(&s),
    }
    mem::forget(s);
}
