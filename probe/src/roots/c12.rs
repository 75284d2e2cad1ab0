//! Entity allocator (C12, C13, C14, C16)
use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::BitSetLike;
use goggles::{entity::Allocator, Entity, IntoJoinExt};

/// what is known about the followed index
#[derive(Clone, Copy)]
struct Gh {
    alive: bool,
    gen: i64,
    max: i64,
    pend: bool,
}

fn gen(e: Entity) -> i64 {
    e.generation() as i64
}
/// any handle safe code can have: whatever allocator made it
fn handle() -> Entity {
    let e: Entity = havoc();
    assume(gen(e) >= 1 && gen(e) <= i32::MAX as i64);
    e
}

fn queries(a: &Allocator, k: u32, g: Gh) {
    match a.entity(k) {
        Some(e) => {
            check(g.alive, "C13: lookup finds an entity that is not alive");
            check(e.index() == k, "C13: lookup returns an entity of another index");
            check(gen(e) == g.gen, "C13: lookup returns another generation than the live one");
        }
        None => check(!g.alive, "C13: lookup does not find a live entity"),
    }
    if k < 1 << 24 {
        check(a.live_bitset().contains(k) == g.alive, "C13: the live set disagrees about an index");
    }
    let h = handle();
    if is_key(h.index(), 0) {
        check(a.is_alive(h) == (g.alive && gen(h) == g.gen), "C13: is_alive is wrong about a handle");
    }
}

fn created(e: Entity, k: u32, g: &mut Gh, spent: bool) {
    check(e.generation() != 0, "C12: a generation is zero");
    check(e.index() < 1 << 24, "C16: an index no bit set can hold is allocated");
    if is_key(e.index(), 0) {
        check(!spent || !g.alive && gen(e) > g.max, "C16: allocation wraps around to a value already used");
        check(!g.alive, "C12: two live entities share an index");
        check(gen(e) > g.max, "C12: an entity is created twice");
        *g = Gh { alive: true, gen: gen(e), max: gen(e), pend: false };
    }
}

fn op(a: &mut Allocator, k: u32, g: &mut Gh, n: usize) {
    match n {
        0 | 1 => {
            let spent = a.max_entity_count() >= 1 << 24 || g.max >= i32::MAX as i64;
            let p = catch(|| {
                let e = if n == 0 { a.allocate() } else { a.allocate_atomic() };
                created(e, k, g, spent);
            });
            if p {
                let same = match a.entity(k) { Some(e) => g.alive && gen(e) == g.gen, None => !g.alive };
                check(same, "C16: an allocation that fails changes an existing entity");
            }
            check(!p || spent, "C16: allocation panics although nothing has run out");
        }
        2 => {
            let h = handle();
            let r = a.kill(h).is_ok();
            if is_key(h.index(), 0) {
                check(r == (g.alive && gen(h) == g.gen), "C13: kill succeeds exactly for live handles");
                if r {
                    g.alive = false;
                    g.pend = false;
                }
            }
        }
        3 => {
            let h = handle();
            let r = a.kill_atomic(h).is_ok();
            if is_key(h.index(), 0) {
                check(r == (g.alive && gen(h) == g.gen), "C13: kill_atomic succeeds exactly for live handles");
                if r {
                    g.pend = true;
                }
            }
        }
        _ => {
            let mut v = Vec::new();
            if nondet() {
                v.push(handle());
            }
            a.merge_atomic(&mut v);
            let mut n = 0;
            for e in v {
                if is_key(e.index(), 0) {
                    check(g.pend, "C14: a merge reports an entity whose deletion was not requested");
                    check(gen(e) == g.gen, "C14: a merge reports another generation than the killed one");
                    check(n == 0, "C14: a merge reports a killed entity twice");
                    n = 1;
                }
            }
            check((n == 1) == g.pend, "C14: a merge does not report an entity it kills");
            if g.pend {
                g.alive = false;
                g.pend = false;
            }
        }
    }
}

/// one arbitrary index, allocatable or not, among arbitrary others
pub fn t_any() {
    let k = any_u32();
    track(k);
    let mut a = Allocator::new();
    let mut g = Gh { alive: false, gen: 0, max: 0, pend: false };
    loop {
        queries(&a, k, g);
        begin();
        if nondet() { break; }
        let n = any_usize(0, 4);
        op(&mut a, k, &mut g, n);
        begin();
    }
}

/// joining the allocator
pub fn t_join() {
    let k = any_index();
    track(k);
    let mut a = Allocator::new();
    let mut g = Gh { alive: false, gen: 0, max: 0, pend: false };
    loop {
        if nondet() { break; }
        let n = any_usize(0, 4);
        op(&mut a, k, &mut g, n);
        begin();
    }
    let mut seen = false;
    for e in a.join() {
        if is_key(e.index(), 0) {
            check(!seen, "C13: a join over the allocator yields an entity twice");
            seen = true;
            check(g.alive, "C13: a join over the allocator yields a dead entity");
            check(gen(e) == g.gen, "C13: a join over the allocator yields another generation");
        }
    }
    check(seen == g.alive, "C13: a join over the allocator misses a live entity");
}

/// the count of indexes: what is created, at an arbitrary index, moves it exactly as far as needed
pub fn t_count() {
    let k = any_u32();
    track(k);
    let mut a = Allocator::new();
    check(a.max_entity_count() == 0, "C29: a new allocator counts an entity");
    let mut seen = false;
    loop {
        let m = a.max_entity_count();
        check(!seen || k < m, "C29: the entity count does not cover an index created");
        if a.entity(k).is_some() {
            check(k < m, "C29: the entity count does not cover a live entity");
        }
        begin();
        if nondet() { break; }
        let n = any_usize(0, 4);
        if n < 2 {
            let mut new = None;
            catch(|| new = Some(if n == 0 { a.allocate() } else { a.allocate_atomic() }));
            let c = a.max_entity_count();
            match new {
                Some(e) => {
                    check(c == m || e.index() == m, "C29: the entity count grows although no new index is used");
                    check(c == m || c == m + 1, "C29: the entity count moves by more than the index created");
                    if is_key(e.index(), 0) {
                        seen = true;
                    }
                }
                None => check(c == m, "C29: a failed allocation changes the entity count"),
            }
        } else {
            match n {
                2 => { let _ = a.kill(handle()); }
                3 => { let _ = a.kill_atomic(handle()); }
                _ => a.merge_atomic(&mut Vec::new()),
            }
            check(a.max_entity_count() == m, "C29: the entity count changes without an allocation");
        }
        begin();
    }
}

/// the same count through a world
pub fn t_count_world() {
    use goggles::World;
    let mut w = World::new();
    check(w.entities().max_entity_count() == 0, "C29: a new world counts an entity");
    let a = if nondet() { w.create_entity() } else { w.entities().create() };
    check(w.entities().max_entity_count() == a.index() + 1, "C29: a world's entity count does not follow a creation");
    let b = if nondet() { w.create_entity() } else { w.entities().create() };
    check(w.entities().max_entity_count() == b.index() + 1, "C29: a world's entity count does not follow a creation");
    if nondet() {
        let _ = w.entities().delete(b);
    }
    if nondet() {
        w.merge();
    }
    if nondet() {
        let _ = w.delete_entity(b);
    }
    check(w.entities().max_entity_count() == b.index() + 1, "C29: a world's entity count changes without a creation");
}
