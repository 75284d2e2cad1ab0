use crate::parts::*;
use crate::prim::*;
use goggles::{DenseStorage, DenseVecStorage, HashMapStorage, MaskedStorage, RawStorage, VecStorage};
use std::mem;

/// three arbitrary, distinct indexes in any order
fn universe() -> [u32; 3] {
    let k = [any_index(), any_index(), any_index()];
    assume(k[0] != k[1] && k[0] != k[2] && k[1] != k[2]);
    track(k[0]);
    track(k[1]);
    track(k[2]);
    k
}

fn raw<V: Val, S: RawStorage<Item = V> + Default>() {
    let k = universe();
    let mut s = S::default();
    let mut occ = [false; 3];
    let mut id = [0i64; 3];
    loop {
        begin();
        if nondet() { break; }
        let n = any_usize(0, 2);
        let i = k[n];
        if occ[n] {
            match any_usize(0, 2) {
                0 => check(is(unsafe { s.get(i) }, id[n]), "get returns another value than the one inserted last"),
                1 => {
                    let t = unsafe { s.get_mut(i) };
                    check(is(t, id[n]), "get_mut returns another value than the one inserted last");
                    let v = any_i64(1, 1 << 40);
                    t.set(v);
                    id[n] = v;
                }
                _ => {
                    let t = unsafe { s.remove(i) };
                    check(is(&t, id[n]), "remove returns another value than the one inserted last");
                    mem::forget(t);
                    occ[n] = false;
                    id[n] = 0;
                }
            }
        } else {
            let v = any_i64(1, 1 << 40);
            unsafe { s.insert(i, V::make(v)) };
            occ[n] = true;
            id[n] = v;
        }
    }
    mem::forget(s);
}

pub fn t_vec() {
    raw::<Tok, VecStorage<Tok>>()
}
pub fn t_vec_plain() {
    raw::<Plain, VecStorage<Plain>>()
}
pub fn t_vec_unit() {
    raw::<Unit, VecStorage<Unit>>()
}
pub fn t_dense() {
    raw::<Tok, DenseVecStorage<Tok>>()
}
pub fn t_dense_plain() {
    raw::<Plain, DenseVecStorage<Plain>>()
}
pub fn t_dense_unit() {
    raw::<Unit, DenseVecStorage<Unit>>()
}
pub fn t_hash() {
    raw::<Tok, HashMapStorage<Tok>>()
}
pub fn t_hash_plain() {
    raw::<Plain, HashMapStorage<Plain>>()
}
pub fn t_hash_unit() {
    raw::<Unit, HashMapStorage<Unit>>()
}

/// C05
pub fn t_slice() {
    let k = universe();
    let mut m: MaskedStorage<DenseVecStorage<Tok>> = Default::default();
    let mut occ = [false; 3];
    loop {
        begin();
        let want = occ[0] as usize + occ[1] as usize + occ[2] as usize;
        check(m.as_slice().len() == want, "the slice has another length than the number of values");
        check(m.as_mut_slice().len() == want, "the mutable slice has another length than the number of values");
        let mut n = 0;
        while n < 3 {
            if n < want {
                let a = m.as_slice()[n].id;
                check(a >= 1 && a <= 3 && occ[a as usize - 1], "the slice contains something that is not stored");
                let b = m.as_mut_slice()[n].id;
                check(a == b, "the two slice views differ");
                let mut j = 0;
                while j < n {
                    check(m.as_slice()[j].id != a, "the slice contains a value twice");
                    j += 1;
                }
            }
            n += 1;
        }
        if nondet() { break; }
        let n = any_usize(0, 2);
        match any_usize(0, 2) {
            0 => { if let Some(t) = m.insert(k[n], Tok { id: n as i64 + 1 }) { mem::forget(t); } occ[n] = true; }
            1 => { if let Some(t) = m.remove(k[n]) { mem::forget(t); } occ[n] = false; }
            _ => { m.get_or_insert_with(k[n], || Tok { id: n as i64 + 1 }); occ[n] = true; }
        }
    }
    mem::forget(m);
}
