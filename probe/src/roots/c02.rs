use crate::parts::*;
use crate::prim::*;
use goggles::{IntoJoinExt, MaskedStorage, RawStorage};
use std::mem;

fn map<V: Val, S: RawStorage<Item = V> + Default>() {
    let k = any_index();
    track(k);
    let mut m: MaskedStorage<S> = MaskedStorage::default();
    // the value the map holds at k
    let mut cur: Option<i64> = None;
    loop {
        begin();
        match m.get(k) {
            Some(t) => check(cur.is_some_and(|c| is(t, c)), "get returns another value than the one stored last"),
            None => check(cur.is_none(), "get finds nothing although a value is stored"),
        }
        check(m.contains(k) == cur.is_some(), "contains disagrees with the stored value");
        if nondet() { break; }
        let i = any_index();
        let v = any_i64(1, 1 << 40);
        match any_usize(0, 7) {
            0 => {
                let r = m.insert(i, V::make(v));
                if tracked(i) {
                    match r {
                        Some(t) => { check(cur.is_some_and(|c| is(&t, c)), "insert returns another value than the previous one"); mem::forget(t) }
                        None => check(cur.is_none(), "insert loses the previous value"),
                    }
                    cur = Some(v);
                }
            }
            1 => {
                let r = m.remove(i);
                if tracked(i) {
                    match r {
                        Some(t) => { check(cur.is_some_and(|c| is(&t, c)), "remove returns another value than the stored one"); mem::forget(t) }
                        None => check(cur.is_none(), "remove returns nothing although a value was stored"),
                    }
                    cur = None;
                }
            }
            2 => {
                let mut called = false;
                let t = m.get_or_insert_with(i, || { called = true; V::make(v) });
                let ok = cur.is_none() && is(t, v) || cur.is_some_and(|c| is(t, c));
                if tracked(i) {
                    check(called == cur.is_none(), "the closure is called exactly when the index is absent");
                    if cur.is_none() { cur = Some(v); }
                    check(ok, "get_or_insert_with returns another value than the stored one");
                }
            }
            3 => {
                let r = m.get_mut(i);
                if tracked(i) { check(r.is_some() == cur.is_some(), "get_mut disagrees on presence"); }
                if let Some(t) = r {
                    if tracked(i) {
                        check(cur.is_some_and(|c| is(t, c)), "get_mut returns another value than the one stored last");
                        t.set(v);
                        cur = Some(v);
                    }
                }
            }
            4 => {
                let r = m.get_guard(i);
                if tracked(i) { check(r.is_some() == cur.is_some(), "get_guard disagrees on presence"); }
                if let Some(mut g) = r {
                    if tracked(i) {
                        check(cur.is_some_and(|c| is(g.get(), c)), "a guard reads another value than the one stored last");
                        check(cur.is_some_and(|c| is(g.get_mut(), c)), "a guard accesses another value than the one stored last");
                        g.get_mut().set(v);
                        cur = Some(v);
                    }
                }
            }
            5 => { let _ = m.get(i); }
            6 => { let _ = m.contains(i); }
            _ => { let _ = m.mask().contains(i); }
        }
    }
    mem::forget(m);
}

pub fn t_map() {
    map::<Tok, Contract>()
}
pub fn t_map_plain() {
    map::<Plain, Contract<Plain>>()
}
pub fn t_map_unit() {
    map::<Unit, Contract<Unit>>()
}
