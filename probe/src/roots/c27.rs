//! Dynamic component sets (C27)
use super::c19w::{A, B};
use crate::prim::*;
use goggles::{AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entity, World};
use std::mem;

/// a third component type, with one of the crate's own storages
#[derive(Clone)]
pub struct D {
    pub id: i64,
    pub more: (u8, u64),
}
impl Component for D {
    type Storage = DenseVecStorage<D>;
}

/// which component of each type there should be
#[derive(Clone, Copy)]
struct Gh {
    a: Option<i64>,
    b: Option<i64>,
    d: Option<i64>,
}
const NONE: Gh = Gh { a: None, b: None, d: None };

fn same_a(x: Option<A>, y: Option<i64>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => x.id == y,
        (None, None) => true,
        _ => false,
    }
}
fn same_b(x: Option<B>, y: Option<i64>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => x.id == y,
        (None, None) => true,
        _ => false,
    }
}
fn same_d(x: Option<D>, y: Option<i64>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => x.id == y,
        (None, None) => true,
        _ => false,
    }
}
fn over(t: &mut Gh, s: &Gh) -> bool {
    let mut r = false;
    if s.a.is_some() {
        r |= t.a.is_some();
        t.a = s.a;
    }
    if s.b.is_some() {
        r |= t.b.is_some();
        t.b = s.b;
    }
    if s.d.is_some() {
        r |= t.d.is_some();
        t.d = s.d;
    }
    r
}

macro_rules! holds {
    ($f:ident, $set:ty) => {
        fn $f(s: &$set, g: &Gh) {
            check(s.contains::<A>() == g.a.is_some(), "C27: contains disagrees with what was inserted");
            check(s.contains::<B>() == g.b.is_some(), "C27: contains disagrees with what was inserted");
            check(s.contains::<D>() == g.d.is_some(), "C27: contains disagrees with what was inserted");
            check(s.get::<A>().map(|x| x.id) == g.a, "C27: the set holds another component than the one inserted last");
            check(s.get::<B>().map(|x| x.id) == g.b, "C27: the set holds another component than the one inserted last");
            check(s.get::<D>().map(|x| x.id) == g.d, "C27: the set holds another component than the one inserted last");
        }
    };
}
holds!(holds, AnyComponentSet);
holds!(cholds, AnyCloneComponentSet);

fn len(s: &AnyComponentSet, g: &Gh) {
    let n = g.a.is_some() as usize + g.b.is_some() as usize + g.d.is_some() as usize;
    check(s.len() == n, "C27: the set holds more than one component per type");
}

macro_rules! fresh {
    ($f:ident, $set:ty) => {
        /// any content
        fn $f(base: i64) -> ($set, Gh) {
            let mut s = if nondet() { <$set>::new() } else { <$set>::default() };
            let mut g = NONE;
            if nondet() {
                s.insert(A { id: base });
                g.a = Some(base);
            }
            if nondet() {
                s.insert(B { id: base + 1 });
                g.b = Some(base + 1);
            }
            if nondet() {
                s.insert(D { id: base + 2, more: (1, 2) });
                g.d = Some(base + 2);
            }
            (s, g)
        }
    };
}
fresh!(fresh, AnyComponentSet);
fresh!(cfresh, AnyCloneComponentSet);

macro_rules! edit {
    ($f:ident, $set:ty, $ok:ident) => {
        fn $f(s: &mut $set, g: &mut Gh, n: i64) {
            match any_usize(0, 5) {
                0 => {
                    check(same_a(s.insert(A { id: n }), g.a), "C27: inserting does not return the previous component");
                    g.a = Some(n);
                }
                1 => {
                    check(same_b(s.insert(B { id: n }), g.b), "C27: inserting does not return the previous component");
                    g.b = Some(n);
                }
                2 => {
                    let r = s.insert(D { id: n, more: (0, 0) });
                    check(same_d(r, g.d), "C27: inserting does not return the previous component");
                    g.d = Some(n);
                }
                3 => {
                    let r = s.get_mut::<A>();
                    check(r.is_some() == g.a.is_some(), "C27: the set holds another component than the one inserted last");
                    if let Some(r) = r {
                        check(Some(r.id) == g.a, "C27: the set holds another component than the one inserted last");
                        r.id = n;
                        g.a = Some(n);
                    }
                }
                4 => {
                    let r = s.get_mut::<B>();
                    check(r.is_some() == g.b.is_some(), "C27: the set holds another component than the one inserted last");
                    if let Some(r) = r {
                        r.id = n;
                        g.b = Some(n);
                    }
                }
                _ => {
                    let r = s.get_mut::<D>();
                    check(r.is_some() == g.d.is_some(), "C27: the set holds another component than the one inserted last");
                    if let Some(r) = r {
                        r.id = n;
                        g.d = Some(n);
                    }
                }
            }
            $ok(s, g);
        }
    };
}
edit!(edit, AnyComponentSet, holds);
edit!(cedit, AnyCloneComponentSet, cholds);

fn take(s: &mut AnyComponentSet, g: &mut Gh) {
    match any_usize(0, 2) {
        0 => {
            check(same_a(s.remove::<A>(), g.a), "C27: removing does not return the component");
            g.a = None;
        }
        1 => {
            check(same_b(s.remove::<B>(), g.b), "C27: removing does not return the component");
            g.b = None;
        }
        _ => {
            check(same_d(s.remove::<D>(), g.d), "C27: removing does not return the component");
            g.d = None;
        }
    }
    holds(s, g);
}

/// any content, then any operations
pub fn t_set() {
    let (mut s, mut g) = fresh(10);
    holds(&s, &g);
    len(&s, &g);
    for i in 0..3 {
        if nondet() {
            edit(&mut s, &mut g, 20 + i);
        } else {
            take(&mut s, &mut g);
        }
        len(&s, &g);
    }
}
pub fn t_clone_set() {
    let (mut s, mut g) = cfresh(10);
    cholds(&s, &g);
    for i in 0..3 {
        cedit(&mut s, &mut g, 20 + i);
    }
}

pub fn t_merge() {
    let (mut s, mut g) = fresh(10);
    let (t, h) = fresh(30);
    let r = s.merge(t);
    check(r == over(&mut g, &h), "C27: merging does not report exactly whether a component was replaced");
    holds(&s, &g);
    len(&s, &g);
    edit(&mut s, &mut g, 40);
    take(&mut s, &mut g);
    len(&s, &g);
}
pub fn t_clone_merge() {
    let (mut s, mut g) = cfresh(10);
    let (t, h) = cfresh(30);
    let r = s.merge(t);
    check(r == over(&mut g, &h), "C27: merging does not report exactly whether a component was replaced");
    cholds(&s, &g);
    cedit(&mut s, &mut g, 40);
}
pub fn t_clone_into_set() {
    let (mut s, mut g) = fresh(10);
    let (mut t, mut h) = cfresh(30);
    let r = t.clone_into_set(&mut s);
    check(r == over(&mut g, &h), "C27: cloning into a set does not report exactly whether a component was replaced");
    holds(&s, &g);
    len(&s, &g);
    cholds(&t, &h);
    // the clones are independent
    cedit(&mut t, &mut h, 40);
    holds(&s, &g);
}

/// a world with any components on the entity followed, dead or alive
fn world(g: &mut Gh) -> (World, Entity) {
    let mut w = World::new();
    w.insert_component::<A>();
    w.insert_component::<D>();
    w.insert_component::<B>();
    let e = if nondet() { w.create_entity() } else { w.entities().create() };
    let dead = any_usize(0, 2);
    match dead {
        0 => {}
        1 => drop(w.delete_entity(e)),
        _ => {
            drop(w.delete_entity(e));
            drop(w.create_entity());
        }
    }
    // what a storage holds at an index does not depend on which entity has it now
    if nondet() {
        w.get_component_mut::<A>().storage_mut().insert(e.index(), A { id: 50 });
        g.a = Some(50);
    }
    if nondet() {
        w.get_component_mut::<B>().storage_mut().insert(e.index(), B { id: 51 });
        g.b = Some(51);
    }
    if nondet() {
        w.get_component_mut::<D>().storage_mut().insert(e.index(), D { id: 52, more: (3, 4) });
        g.d = Some(52);
    }
    (w, e)
}
fn wholds(w: &World, k: u32, g: &Gh) {
    check(w.read_component::<A>().storage().get(k).map(|x| x.id) == g.a, "C27: the world holds other components than those inserted");
    check(w.read_component::<B>().storage().get(k).map(|x| x.id) == g.b, "C27: the world holds other components than those inserted");
    check(w.read_component::<D>().storage().get(k).map(|x| x.id) == g.d, "C27: the world holds other components than those inserted");
}
fn into(w: &World, k: u32, alive: bool, r: Result<bool, goggles::WrongGeneration>, g: &mut Gh, h: &Gh) {
    if alive {
        let o = over(g, h);
        check(r.is_ok(), "C27: inserting for a live entity is refused");
        check(!matches!(r, Ok(x) if x != o), "C27: inserting into a world does not report exactly whether a component was replaced");
    } else {
        // with nothing to insert nothing is refused
        let empty = h.a.is_none() && h.b.is_none() && h.d.is_none();
        check(r.is_err() || (empty && matches!(r, Ok(false))), "C27: inserting for a dead entity is not refused");
    }
    wholds(w, k, g);
    check(w.entities().entity(k).is_some() || !alive, "C27: inserting changes liveness");
}
pub fn t_world() {
    track(0);
    let mut g = NONE;
    let (mut w, e) = world(&mut g);
    let (s, h) = fresh(30);
    begin();
    let alive = w.entities().is_alive(e);
    let r = s.insert_into_world(&mut w, e);
    into(&w, e.index(), alive, r, &mut g, &h);
    mem::forget(w);
}
pub fn t_clone_world() {
    track(0);
    let mut g = NONE;
    let (mut w, e) = world(&mut g);
    let (s, h) = cfresh(30);
    begin();
    let alive = w.entities().is_alive(e);
    let r = s.insert_into_world(&mut w, e);
    into(&w, e.index(), alive, r, &mut g, &h);
    cholds(&s, &h);
    mem::forget(w);
}
