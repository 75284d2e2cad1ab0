//! Component access through entity handles (C17)
use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::{BitSetAll, BitSetLike};
use goggles::world::ComponentAccess;
use goggles::{Component, Entity, Flagged, IntoJoinExt, MaskedStorage, World};
use std::mem;
use std::ops::{Deref, DerefMut};

impl Component for Tok {
    type Storage = Flagged<Contract>;
}
type St = MaskedStorage<Flagged<Contract>>;

/// any handle safe code can have: whatever world made it
fn handle() -> Entity {
    let e: Entity = havoc();
    assume(e.generation() as i64 >= 1 && e.generation() as i64 <= i32::MAX as i64);
    e
}
fn id() -> i64 {
    any_i64(1, 1 << 40)
}

/// a world with up to three entity operations behind it
fn history() -> World {
    let mut w = World::new();
    for _ in 0..3 {
        match any_usize(0, 5) {
            0 => drop(w.create_entity()),
            1 => drop(w.entities().create()),
            2 => drop(w.delete_entity(handle())),
            3 => drop(w.entities().delete(handle())),
            4 => w.merge(),
            _ => break,
        }
    }
    w
}

#[derive(Clone, Copy)]
struct Gh {
    /// the component at the followed index, 0: none
    val: i64,
    on: bool,
    flag: bool,
}

const READ: &str = "C17: a live handle does not read its own component";
const DEAD: &str = "C17: a dead handle has an effect";

fn reads<R: Deref<Target = St>>(c: &ComponentAccess<'_, Tok, R>, live: bool, h: Entity, g: &mut Gh) {
    let mine = is_key(h.index(), 0);
    match any_usize(0, 4) {
        0 => {
            let r = c.contains(h);
            check(live || !r, DEAD);
            if live && mine { check(r == (g.val != 0), READ); }
        }
        1 => {
            let r = c.get(h).map_or(0, |t| t.id + 1);
            check(live || r == 0, DEAD);
            if live && mine { check(r == if g.val != 0 { g.val + 1 } else { 0 }, READ); }
        }
        2 => {
            let r = c.mark_modified(h).is_ok();
            check(r == live, "C17: marking succeeds exactly for live handles");
            if live && mine { g.flag = true; }
        }
        3 => {
            check(c.tracking_modified() == g.on, "C17: the accessor reports another tracking mode");
            check(c.storage().tracking_modified() == g.on, "C17: the accessor reports another tracking mode");
        }
        _ => {
            for (t, e) in (c, c.mask()).join() {
                if is_key(e, 0) { check(t.id == g.val, READ); }
            }
            for (t, e) in (c.modified(), &BitSetAll).join() {
                if is_key(e, 0) { check(g.flag && t.map_or(0, |t| t.id) == g.val, READ); }
            }
        }
    }
}

fn writes<R: DerefMut<Target = St>>(c: &mut ComponentAccess<'_, Tok, R>, live: bool, h: Entity, g: &mut Gh, lo: usize, hi: usize) {
    let mine = is_key(h.index(), 0);
    match any_usize(lo, hi) {
        0 => {
            let i = id();
            let r = c.insert(h, Tok { id: i });
            match r {
                Ok(old) => {
                    check(live, DEAD);
                    if mine {
                        check(old.map_or(0, |t| t.id) == g.val, "C17: insert does not return the previous component");
                        g.val = i;
                        g.flag |= g.on;
                    }
                }
                Err(_) => check(!live, "C17: a live handle is refused"),
            }
        }
        1 => {
            match c.remove(h) {
                Ok(old) => {
                    check(live, DEAD);
                    if mine {
                        check(old.map_or(0, |t| t.id) == g.val, "C17: remove does not return the component");
                        g.flag |= g.on && g.val != 0;
                        g.val = 0;
                    }
                }
                Err(_) => check(!live, "C17: a live handle is refused"),
            }
        }
        2 => {
            match c.get_mut(h) {
                Some(t) => {
                    check(live, DEAD);
                    if mine {
                        check(t.id == g.val && g.val != 0, READ);
                        g.val = id();
                        t.id = g.val;
                        g.flag |= g.on;
                    }
                }
                None => check(!live || !mine || g.val == 0, READ),
            }
        }
        3 => {
            match c.get_guard(h) {
                Some(mut t) => {
                    check(live, DEAD);
                    if mine {
                        check(t.get().id == g.val && g.val != 0, READ);
                        g.val = id();
                        t.get_mut().id = g.val;
                        g.flag |= g.on;
                    }
                }
                None => check(!live || !mine || g.val == 0, READ),
            }
        }
        4 => {
            let i = id();
            let mut called = false;
            let r = c.get_or_insert_with(h, || {
                called = true;
                Tok { id: i }
            });
            match r {
                Ok(t) => {
                    check(live, DEAD);
                    if mine {
                        g.flag |= g.on;
                        check(called == (g.val == 0), "C17: the closure is called exactly when there is no component");
                        if g.val == 0 { g.val = i; }
                        check(t.id == g.val, READ);
                    }
                }
                Err(_) => {
                    check(!live, "C17: a live handle is refused");
                    check(!called, "C17: the closure is called for a dead handle");
                }
            }
        }
        5 => {
            let before = g.val;
            let r = c.get_or_default(h);
            match r {
                Ok(t) => {
                    check(live, DEAD);
                    if mine {
                        g.flag |= g.on;
                        if before == 0 { g.val = NEW; }
                        check(t.id == g.val, READ);
                    }
                }
                Err(_) => check(!live, "C17: a live handle is refused"),
            }
        }
        6 => {
            g.on = nondet();
            c.set_track_modified(g.on);
        }
        7 => {
            c.clear_modified();
            g.flag = false;
        }
        _ => {
            // behind the accessor: a component without a live entity
            let i = any_index();
            let v = id();
            drop(c.storage_mut().insert(i, Tok { id: v }));
            if is_key(i, 0) {
                g.val = v;
                g.flag |= g.on;
            }
        }
    }
}

/// any state of the storage at the followed index, and something at other indexes
fn stored(w: &mut World, k: u32) -> Gh {
    drop(w.insert_component::<Tok>());
    let mut g = Gh { val: 0, on: nondet(), flag: nondet() };
    let mut c = w.get_component_mut::<Tok>();
    let s = c.storage_mut();
    let i = any_index();
    if !is_key(i, 0) {
        drop(s.insert(i, Tok { id: 0 }));
        s.mark_modified(i);
    }
    if nondet() {
        g.val = id();
        s.insert(k, Tok { id: g.val });
    }
    if g.flag {
        s.mark_modified(k);
    }
    s.set_track_modified(g.on);
    g
}

fn client(op: impl FnOnce(&mut World, bool, Entity, &mut Gh)) {
    let k = 0;
    track(k);
    let mut w = history();
    let mut g = stored(&mut w, k);
    begin();
    let h = handle();
    let live = w.entities().is_alive(h);
    op(&mut w, live, h, &mut g);
    let c = w.read_component::<Tok>();
    let s = c.storage();
    check(s.get(k).map_or(0, |t| t.id) == g.val, "C17: an accessor changes what it must not, or not what it must");
    check(s.modified_indexes().contains(k) == g.flag, "C17: an accessor flags what it must not, or not what it must");
    check(s.tracking_modified() == g.on, "C17: an accessor switches tracking");
    drop(c);
    begin();
    mem::forget(w);
}

pub fn t_read() {
    client(|w, live, h, g| reads(&w.read_component::<Tok>(), live, h, g));
}
pub fn t_write_read() {
    client(|w, live, h, g| reads(&w.write_component::<Tok>(), live, h, g));
}
pub fn t_write1() {
    client(|w, live, h, g| writes(&mut w.write_component::<Tok>(), live, h, g, 0, 2));
}
pub fn t_write2() {
    client(|w, live, h, g| writes(&mut w.write_component::<Tok>(), live, h, g, 3, 8));
}
pub fn t_mut_read() {
    client(|w, live, h, g| reads(&w.get_component_mut::<Tok>(), live, h, g));
}
pub fn t_mut1() {
    client(|w, live, h, g| writes(&mut w.get_component_mut::<Tok>(), live, h, g, 0, 2));
}
pub fn t_mut2() {
    client(|w, live, h, g| writes(&mut w.get_component_mut::<Tok>(), live, h, g, 3, 8));
}
