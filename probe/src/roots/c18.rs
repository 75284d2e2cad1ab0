//! Purging the components of killed entities (C18)
use super::c19w::{A, B};
use crate::prim::*;
use goggles::{Entity, World};
use std::mem;

/// any handle safe code can have: whatever world made it
fn handle() -> Entity {
    let e: Entity = havoc();
    assume(e.generation() as i64 >= 1 && e.generation() as i64 <= i32::MAX as i64);
    e
}

/// what the storages hold at the followed index
#[derive(Clone, Copy)]
struct Gh {
    k: u32,
    registered: bool,
    a: bool,
    b: bool,
}

fn has_a(w: &World, g: &Gh) -> bool {
    w.read_component::<A>().storage().contains(g.k)
}
fn has_b(w: &World, g: &Gh) -> bool {
    w.read_component::<B>().storage().contains(g.k)
}

fn settled(w: &World, g: &mut Gh, killed: bool) {
    if killed {
        check(!g.registered || !has_a(w, g), "C18: a killed entity keeps a component");
        check(!has_b(w, g), "C18: a killed entity keeps a component");
        g.a = false;
        g.b = false;
    }
    check(!g.registered || has_a(w, g) == g.a, "C18: a component of an entity that was not killed is touched");
    check(has_b(w, g) == g.b, "C18: a component of an entity that was not killed is touched");
    check(w.contains_component::<A>() == g.registered, "C18: a storage is registered or unregistered by something else");
}

fn register(w: &mut World, g: &mut Gh) {
    let old = w.insert_component::<A>();
    check(old.is_some() == g.registered, "C18: registering does not return the previous storage");
    if let Some(old) = old {
        check(old.contains(g.k) == g.a, "C18: registering does not return the previous storage");
    }
    g.registered = true;
    g.a = false;
}

fn fill(w: &mut World, g: &mut Gh) {
    if g.registered && nondet() {
        w.get_component_mut::<A>().storage_mut().insert(g.k, A { id: 0 });
        g.a = true;
    }
    if nondet() {
        w.get_component_mut::<B>().storage_mut().insert(g.k, B { id: 0 });
        g.b = true;
    }
}

fn alive(w: &World, k: u32) -> Option<Entity> {
    w.entities().entity(k)
}

fn step(w: &mut World, g: &mut Gh) {
    match any_usize(0, 7) {
        0 => drop(w.create_entity()),
        1 => drop(w.entities().create()),
        2 => {
            let h = handle();
            let live = w.entities().is_alive(h);
            let r = w.delete_entity(h).is_ok();
            if is_key(h.index(), 0) {
                check(r == live, "C18: deleting succeeds exactly for live handles");
                settled(w, g, live);
            }
        }
        3 => drop(w.entities().delete(handle())),
        4 => {
            let before = alive(w, g.k);
            w.merge();
            let killed = before.is_some() && alive(w, g.k).is_none();
            settled(w, g, killed);
        }
        5 => register(w, g),
        6 => {
            let old = w.remove_component::<A>();
            check(old.is_some() == g.registered, "C18: unregistering does not return the storage");
            if let Some(old) = old {
                check(old.contains(g.k) == g.a, "C18: unregistering does not return the storage");
            }
            g.registered = false;
            g.a = false;
        }
        _ => fill(w, g),
    }
    settled(w, g, false);
}

fn client(k: u32, n: u32, late: bool) {
    track(k);
    let mut w = if nondet() { World::new() } else { World::default() };
    let mut g = Gh { k, registered: false, a: false, b: false };
    w.insert_component::<B>();
    if !late {
        register(&mut w, &mut g);
    }
    if k == 1 {
        w.create_entity();
    }
    drop(if nondet() { w.create_entity() } else { w.entities().create() });
    if late {
        register(&mut w, &mut g);
    }
    fill(&mut w, &mut g);
    for _ in 0..n {
        begin();
        step(&mut w, &mut g);
    }
    begin();
    mem::forget(w);
}
pub fn t_early() {
    client(0, 4, false);
}
pub fn t_late() {
    client(0, 3, true);
}
pub fn t_second() {
    client(1, 3, false);
}
