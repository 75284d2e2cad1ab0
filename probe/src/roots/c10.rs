use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::*;
use goggles::{tracked::Flagged, IntoJoinExt, MaskedStorage};
use std::mem;

type M = MaskedStorage<Flagged<Contract>>;

/// C10
pub fn t_flags() {
    let k = any_index();
    track(k);
    let mut m: M = Default::default();
    check(!m.tracking_modified(), "tracking is off at first");
    check(!m.modified_indexes().contains(k), "nothing is flagged at first");
    let mut on = false;
    let mut flag = false;
    let mut held = false;
    loop {
        begin();
        check(m.tracking_modified() == on, "the tracking mode is what was set last");
        check(m.modified_indexes().contains(k) == flag, "an index is flagged exactly when it was changed while tracking, or marked, since the last clear");
        if nondet() { break; }
        let i = any_index();
        match any_usize(0, 16) {
            0 => { mem::forget(m.insert(i, Tok { id: 0 })); if tracked(i) { flag |= on; held = true; } }
            1 => { mem::forget(m.remove(i)); if tracked(i) { flag |= on && held; held = false; } }
            2 => { m.get_or_insert_with(i, || Tok { id: 0 }); if tracked(i) { flag |= on; held = true; } }
            3 => { let _ = m.get_mut(i); if tracked(i) { flag |= on && held; } }
            4 => { let _ = m.get(i); }
            5 => { if let Some(g) = m.get_guard(i) { let _ = g.get(); } }
            6 => {
                if let Some(mut g) = m.get_guard(i) { let _ = g.get_mut(); }
                if tracked(i) { flag |= on && held; }
            }
            7 => {
                if let Some(g) = m.get_guard(i) { g.mark_modified(); }
                if tracked(i) { flag |= held; }
            }
            8 => { m.mark_modified(i); if tracked(i) { flag = true; } }
            9 => { on = nondet(); m.set_track_modified(on); }
            10 => { m.clear_modified(); flag = false; }
            11 => { for _ in (&m).join() {} }
            12 => { for (_, i) in (&mut m, &BitSetAll).join() { if tracked(i) { flag |= on; } } }
            13 => {
                for (mut g, i) in (m.guard(), &BitSetAll).join() {
                    let _ = g.get();
                    if nondet() { let _ = g.get_mut(); if tracked(i) { flag |= on; } }
                    if nondet() { g.mark_modified(); if tracked(i) { flag = true; } }
                }
            }
            14 => { for _ in m.modified().join() {} }
            15 => { for _ in m.modified_mut().join() {} }
            _ => { let _ = m.contains(i); let _ = m.mask().contains(i); let _ = m.raw_storage(); }
        }
    }
    mem::forget(m);
}

/// C11
pub fn t_modified() {
    let k = any_index();
    track(k);
    let mut m: M = Default::default();
    let mut held = false;
    loop {
        begin();
        if nondet() { break; }
        let i = any_index();
        match any_usize(0, 4) {
            0 => { mem::forget(m.insert(i, Tok { id: if is_key(i, 0) { 1 } else { 0 } })); if tracked(i) { held = true; } }
            1 => { mem::forget(m.remove(i)); if tracked(i) { held = false; } }
            2 => m.mark_modified(i),
            3 => m.set_track_modified(nondet()),
            _ => m.clear_modified(),
        }
    }
    begin();
    let flag = m.modified_indexes().contains(k);
    let mut n = 0;
    if nondet() {
        for (x, i) in (m.modified(), &BitSetAll).join() {
            if tracked(i) {
                n += 1;
                check(x.is_some() == held, "a modified entry is the element exactly when it is still present");
            }
            if let Some(x) = x { check((x.id == 1) == tracked(i), "a modified entry is another index's element"); }
        }
        check(m.modified_indexes().contains(k) == flag, "reading the modified elements flags or clears one");
    } else {
        for (i, x) in (&BitSetAll, m.modified_mut()).join() {
            if tracked(i) {
                n += 1;
                check(x.is_some() == held, "a modified entry is the element exactly when it is still present");
            }
            if let Some(x) = x { check((x.id == 1) == tracked(i), "a modified entry is another index's element"); }
        }
    }
    check(n == flag as i32, "a modified join yields exactly the flagged indexes, each once");
    check(m.contains(k) == held, "a modified join changes what is stored");
    mem::forget(m);
}
