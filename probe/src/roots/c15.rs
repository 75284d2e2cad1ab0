//! Threads sharing an allocator or a tracked storage (C15)
use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::BitSetLike;
use goggles::{entity::Allocator, tracked::Flagged, Entity, MaskedStorage, RawStorage};

/// what is known about the followed index
#[derive(Clone, Copy)]
struct Gh {
    alive: bool,
    gen: i64,
    max: i64,
    pend: bool,
}

fn gen(e: Entity) -> i64 {
    e.generation() as i64
}
fn handle() -> Entity {
    let e: Entity = havoc();
    assume(gen(e) >= 1 && gen(e) <= i32::MAX as i64);
    e
}

fn created(e: Entity, g: &mut Gh, shared: bool) {
    if is_key(e.index(), 0) {
        check(!shared || !g.alive, "C15: two threads are given the same index");
        check(!shared || gen(e) > g.max, "C15: two threads are given the same entity");
        *g = Gh { alive: true, gen: gen(e), max: gen(e), pend: false };
    }
}
fn reported(v: Vec<Entity>, g: &mut Gh, shared: bool) {
    let mut n = 0;
    for e in v {
        if is_key(e.index(), 0) {
            check(!shared || g.pend && gen(e) == g.gen, "C15: a merge reports an entity whose deletion no thread requested");
            n = 1;
        }
    }
    check(!shared || (n == 1) == g.pend, "C15: a deletion request is lost");
    if g.pend {
        g.alive = false;
        g.pend = false;
    }
}

/// an operation by the only thread that has the allocator
fn alone(a: &mut Allocator, g: &mut Gh, n: usize, shared: bool) {
    match n {
        0 => { catch(|| { created(a.allocate(), g, shared); }); }
        1 => { catch(|| { created(a.allocate_atomic(), g, shared); }); }
        2 => {
            let h = handle();
            let r = a.kill(h).is_ok();
            if r && is_key(h.index(), 0) {
                g.alive = false;
                g.pend = false;
            }
        }
        3 => {
            let h = handle();
            if a.kill_atomic(h).is_ok() && is_key(h.index(), 0) {
                g.pend = true;
            }
        }
        _ => {
            let mut v = Vec::new();
            a.merge_atomic(&mut v);
            reported(v, g, shared);
        }
    }
}

/// an operation by one of the threads that share the allocator; the entities given to `kill_atomic` are those some thread
/// has been given (n = 1: the followed one, n = 2: any)
fn among(a: &Allocator, g: *mut Gh, n: usize) {
    if n == 0 {
        catch(|| created(a.allocate_atomic(), unsafe { &mut *g }, true));
    } else {
        let h = handle();
        let key = is_key(h.index(), 0);
        if n == 1 { assume(key); }
        if key {
            let g = unsafe { &*g };
            assume(g.alive && gen(h) == g.gen);
        }
        let r = a.kill_atomic(h).is_ok();
        if key {
            check(r, "C15: a live entity is refused");
            unsafe { (*g).pend = true; }
        }
    }
}

fn history(mine: usize, theirs: usize) {
    let k = any_u32();
    track(k);
    let mut a = Allocator::new();
    let mut g = Gh { alive: false, gen: 0, max: 0, pend: false };
    loop {
        begin();
        if nondet() { break; }
        let n = any_usize(0, 4);
        alone(&mut a, &mut g, n, false);
        begin();
    }
    begin();
    let mut hit = false;
    let p: *mut bool = &mut hit;
    let gp: *mut Gh = &mut g;
    let ap: *const Allocator = &a;
    shared(
        1,
        || among(unsafe { &*ap }, gp, mine),
        || {
            unsafe { *p = true; }
            among(unsafe { &*ap }, gp, theirs);
        },
    );
    assume(hit);
    begin();
    settle();
    check(a.live_bitset().contains(k) == g.alive || k >= 1 << 24, "C15: an entity a thread was given is not alive");
    let n = if mine + theirs == 4 { 2 } else { any_usize(0, 2) };
    alone(&mut a, &mut g, if n == 2 { 4 } else { n }, true);
}

/// one arbitrary index: any history, then two threads sharing the allocator, then another operation
pub fn t_alloc_alloc() { history(0, 0) }
pub fn t_alloc_kill() { history(0, 1) }
pub fn t_kill_alloc() { history(1, 0) }
pub fn t_kill_kill() { history(2, 2) }

type M = MaskedStorage<Flagged<Contract>>;

/// a mark made while threads share a tracked storage is there afterwards
pub fn t_mark() {
    let k = any_index();
    track(k);
    let mut m: M = Default::default();
    if nondet() {
        m.insert(any_index(), Tok { id: 0 });
    }
    let on = nondet();
    m.set_track_modified(on);
    if nondet() {
        m.clear_modified();
    }
    let mut flag = m.modified_indexes().contains(k);
    loop {
        begin();
        check(m.modified_indexes().contains(k) == flag, "C15: a modification mark is lost");
        if nondet() { break; }
        let fp: *mut bool = &mut flag;
        let mp: *const M = &m;
        let op = || {
            let m = unsafe { &*mp };
            let i = any_index();
            let key = is_key(i, 0);
            match any_usize(0, 2) {
                1 => if m.contains(i) {
                    let _ = unsafe { m.raw_storage().get_mut(i) };
                    if key && on { unsafe { *fp = true; } }
                },
                0 => { m.mark_modified(i); if key { unsafe { *fp = true; } } }
                _ => { if let Some(g) = m.get(i) { let _ = g; } }
            }
        };
        shared(2, op, op);
        begin();
    }
    std::mem::forget(m);
}
