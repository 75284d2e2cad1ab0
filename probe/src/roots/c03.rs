use crate::parts::*;
use crate::prim::*;
use goggles::{tracked::Flagged, DenseVecStorage, HashMapStorage, MaskedStorage, RawStorage, VecStorage};
use std::mem;

fn take(r: Option<Tok>) {
    if let Some(t) = r {
        if t.id == HOT {
            check(gget(1) == 1, "a value is handed back after it was destroyed or handed back");
            gset(1, 3);
            mem::forget(t);
        } else if nondet() {
            mem::forget(t);
        }
    }
}

fn once<S: RawStorage<Item = Tok> + Default>() {
    let k = any_index();
    track(k);
    gset(1, 0);
    let mut m: MaskedStorage<S> = MaskedStorage::default();
    loop {
        begin();
        if nondet() { break; }
        let i = any_index();
        let mk = || {
            if gget(1) == 0 && nondet() {
                gset(1, 1);
                Tok { id: HOT }
            } else {
                Tok { id: 0 }
            }
        };
        match any_usize(0, 2) {
            0 => {
                let hot = is_key(i, 0);
                let r = m.insert(i, if hot { mk() } else { Tok { id: 0 } });
                take(r);
            }
            1 => take(m.remove(i)),
            _ => {
                let hot = is_key(i, 0);
                let _ = m.get_or_insert_with(i, || if hot { mk() } else { Tok { id: 0 } });
            }
        }
    }
    // from here on destructors may panic
    gset(0, 1);
    catch(|| drop(m));
    check(gget(1) != 1, "a stored value is never destroyed");
}

pub fn t_once() {
    once::<Contract>()
}
pub fn t_once_tracked() {
    once::<Flagged<Contract>>()
}
pub fn t_once_map() {
    once::<HashMapStorage<Tok>>()
}
/// raw storages with buffers of their own: two indexes in any order, destructors may panic at the end
fn once_two<S: RawStorage<Item = Tok> + Default>() {
    let k = [any_index(), any_index()];
    assume(k[0] != k[1]);
    track(k[0]);
    track(k[1]);
    gset(1, 0);
    let mut m: MaskedStorage<S> = MaskedStorage::default();
    loop {
        begin();
        if nondet() { break; }
        let n = any_usize(0, 1);
        let hot = n == 0;
        let mk = || {
            if hot && gget(1) == 0 {
                gset(1, 1);
                Tok { id: HOT }
            } else {
                Tok { id: 0 }
            }
        };
        match any_usize(0, 2) {
            0 => take(m.insert(k[n], mk())),
            1 => take(m.remove(k[n])),
            _ => { let _ = m.get_or_insert_with(k[n], mk); }
        }
    }
    gset(0, 1);
    catch(|| drop(m));
    check(gget(1) != 1, "a stored value is never destroyed");
}
pub fn t_two_vec() {
    once_two::<VecStorage<Tok>>()
}
pub fn t_two_dense() {
    once_two::<DenseVecStorage<Tok>>()
}

/// values without data, but with a destructor: their number, at a single index
pub struct Bell;
impl Drop for Bell {
    fn drop(&mut self) {
        gset(1, gget(1) - 1);
        check(gget(1) >= 0, "a value without data is destroyed twice");
    }
}
fn bell() -> Bell {
    gset(1, gget(1) + 1);
    Bell
}
fn number<S: RawStorage<Item = Bell> + Default>() {
    let k = any_index();
    track(k);
    gset(1, 0);
    let mut m: MaskedStorage<S> = MaskedStorage::default();
    loop {
        begin();
        check(gget(1) == m.contains(k) as i64, "the number of values without data alive is not the number stored");
        if nondet() { break; }
        match any_usize(0, 2) {
            0 => { m.insert(k, bell()); }
            1 => { m.remove(k); }
            _ => { let _ = m.get_or_insert_with(k, bell); }
        }
    }
    drop(m);
    check(gget(1) == 0, "a value without data is never destroyed");
}
pub fn t_unit_vec() {
    number::<VecStorage<Bell>>()
}
pub fn t_unit_dense() {
    number::<DenseVecStorage<Bell>>()
}
pub fn t_unit_map() {
    number::<HashMapStorage<Bell>>()
}
pub fn t_unit_tracked() {
    number::<Flagged<VecStorage<Bell>>>()
}
