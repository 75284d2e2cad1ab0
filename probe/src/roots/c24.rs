//! System combinators: what they run (C24)
use crate::sys::*;
use goggles::system::{Par, ParList, Seq, SeqList};
use goggles::{par, seq, SeqPool, System};

fn s(id: usize) -> Sys {
    Sys { id }
}
type Dyn = Box<dyn System<i64, Resources = Res, Pool = Pl, Error = Er> + Send>;
fn b(id: usize) -> Dyn {
    Box::new(Sys { id })
}
fn go<S: System<i64, Resources = Res, Pool = Pl, Error = Er>>(s: &mut S) -> Result<(), Er> {
    s.run(&Pl { id: 77 }, ARG)
}
fn list(n: usize) -> Vec<Sys> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(s(i));
        i += 1;
    }
    v
}

fn vec_of<T, const K: usize>(a: [T; K]) -> Vec<T> {
    let mut v = Vec::new();
    for x in a {
        v.push(x);
    }
    v
}

pub fn t_par2() {
    let mut c = Par::new(s(0), s(1));
    let x = go(&mut c);
    ran(x, 2, &[]);
    crate::prim::begin();
}

pub fn t_par3() {
    let mut c = Par::new(s(0), s(1)).with(s(2));
    let x = go(&mut c);
    ran(x, 3, &[]);
    crate::prim::begin();
}

pub fn t_par4() {
    let mut c = Par::new(s(0), s(1)).with(s(2)).with(s(3));
    let x = go(&mut c);
    ran(x, 4, &[]);
    crate::prim::begin();
}

pub fn t_parm() {
    let mut c = par!(s(0), s(1), s(2));
    let x = go(&mut c);
    ran(x, 3, &[]);
    crate::prim::begin();
}

pub fn t_seq2() {
    let mut c = Seq::new(s(0), s(1));
    let x = go(&mut c);
    ran(x, 2, &[(0, 1)]);
    crate::prim::begin();
}

pub fn t_seq3() {
    let mut c = Seq::new(s(0), s(1)).with(s(2));
    let x = go(&mut c);
    ran(x, 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_seq4() {
    let mut c = Seq::new(s(0), s(1)).with(s(2)).with(s(3));
    let x = go(&mut c);
    ran(x, 4, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
    crate::prim::begin();
}

pub fn t_seqm() {
    let mut c = seq!(s(0), s(1), s(2));
    let x = go(&mut c);
    ran(x, 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_box() {
    let mut c = Par::new(b(0), Box::new(Seq::new(s(1), b(2))));
    let x = go(&mut c);
    ran(x, 3, &[(1, 2)]);
    crate::prim::begin();
}

pub fn t_mix1() {
    let mut c = Seq::new(Par::new(s(0), s(1)), Par::new(s(2), s(3)));
    let x = go(&mut c);
    ran(x, 4, &[(0, 2), (1, 2), (0, 3), (1, 3)]);
    crate::prim::begin();
}

pub fn t_mix2() {
    let mut c = Par::new(Seq::new(s(0), s(1)), Seq::new(s(2), s(3)));
    let x = go(&mut c);
    ran(x, 4, &[(0, 1), (2, 3)]);
    crate::prim::begin();
}

pub fn t_mix3() {
    let mut c = Par::new(ParList(vec_of([s(0), s(1)])), SeqList(vec_of([s(2), s(3)])));
    let x = go(&mut c);
    ran(x, 4, &[(2, 3)]);
    crate::prim::begin();
}

pub fn t_sl_pl() {
    let mut c = SeqList(vec_of([ParList(vec_of([s(0), s(1)])), ParList(vec_of([s(2), s(3)]))]));
    let x = go(&mut c);
    ran(x, 4, &[(0, 2), (1, 2), (0, 3), (1, 3)]);
    crate::prim::begin();
}

pub fn t_pl_sl() {
    let mut c = ParList(vec_of([SeqList(vec_of([s(0), s(1)])), SeqList(vec_of([s(2), s(3)]))]));
    let x = go(&mut c);
    ran(x, 4, &[(0, 1), (2, 3)]);
    crate::prim::begin();
}

pub fn t_pl_box() {
    let mut c = ParList(vec_of([b(0), b(1), b(2)]));
    let x = go(&mut c);
    ran(x, 3, &[]);
    crate::prim::begin();
}

pub fn t_sl_box() {
    let mut c = SeqList(vec_of([b(0), b(1), b(2)]));
    let x = go(&mut c);
    ran(x, 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_pl0() {
    let mut c = ParList(list(0));
    let x = go(&mut c);
    ran(x, 0, &[]);
    crate::prim::begin();
}

pub fn t_sl0() {
    let mut c = SeqList(list(0));
    let x = go(&mut c);
    ran(x, 0, &[]);
    crate::prim::begin();
}

pub fn t_pl1() {
    let mut c = ParList(list(1));
    let x = go(&mut c);
    ran(x, 1, &[]);
    crate::prim::begin();
}

pub fn t_sl1() {
    let mut c = SeqList(list(1));
    let x = go(&mut c);
    ran(x, 1, &[]);
    crate::prim::begin();
}

pub fn t_pl2() {
    let mut c = ParList(list(2));
    let x = go(&mut c);
    ran(x, 2, &[]);
    crate::prim::begin();
}

pub fn t_sl2() {
    let mut c = SeqList(list(2));
    let x = go(&mut c);
    ran(x, 2, &[(0, 1)]);
    crate::prim::begin();
}

pub fn t_pl3() {
    let mut c = ParList(list(3));
    let x = go(&mut c);
    ran(x, 3, &[]);
    crate::prim::begin();
}

pub fn t_sl3() {
    let mut c = SeqList(list(3));
    let x = go(&mut c);
    ran(x, 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_pl4() {
    let mut c = ParList(list(4));
    let x = go(&mut c);
    ran(x, 4, &[]);
    crate::prim::begin();
}

pub fn t_sl4() {
    let mut c = SeqList(list(4));
    let x = go(&mut c);
    ran(x, 4, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
    crate::prim::begin();
}

pub fn t_pl5() {
    let mut c = ParList(list(5));
    let x = go(&mut c);
    ran(x, 5, &[]);
    crate::prim::begin();
}

pub fn t_sl5() {
    let mut c = SeqList(list(5));
    let x = go(&mut c);
    ran(x, 5, &[(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)]);
    crate::prim::begin();
}

/// a sequential list of any length
pub fn t_sl_any() {
    use crate::prim::*;
    let p = any_u32();
    track(p);
    let mut v = Vec::new();
    loop {
        if nondet() { break; }
        let hot = v.len() == p as usize;
        v.push(Fol { hot });
    }
    assume(v.len() > p as usize);
    let mut c = SeqList(v);
    let r = c.run(&Pl { id: 77 }, ARG);
    match r {
        Ok(()) => {
            check(gget(72) == 0, "C24: an error is lost");
            check(gget(70) == 1, "C24: a system is not run");
        }
        Err(e) => {
            check(gget(72) == 1, "C24: an error is reported although no member failed");
            check(e.hot == (gget(71) == 1), "C24: the error returned is not the failing system's");
        }
    }
    begin();
}

/// longer parallel lists, with one followed member which may fail
pub fn t_pl_len() {
    use crate::prim::*;
    let n = any_usize(6, 17);
    let p = any_usize(0, 16);
    assume(p < n);
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(Lone { hot: i == p });
        i += 1;
    }
    let r = ParList(v).run(&SeqPool, ARG);
    check(gget(70) == 1, "C24: a system is not run");
    check(gget(74) == n as i64, "C24: a system is not run, or run twice");
    check(r.is_err() == (gget(71) == 1), "C24: an error is reported exactly when a member failed");
    begin();
}
