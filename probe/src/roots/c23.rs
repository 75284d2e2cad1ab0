//! System combinators: what they report (C23)
use crate::sys::*;
use goggles::system::{Par, ParList, Seq, SeqList};
use goggles::{par, seq, System};

fn s(id: usize) -> Sys {
    Sys { id }
}
type Dyn = Box<dyn System<i64, Resources = Res, Pool = Pl, Error = Er> + Send>;
fn b(id: usize) -> Dyn {
    Box::new(Sys { id })
}
fn cr<S: System<i64, Resources = Res>>(s: &S) -> Result<Res, goggles::resources::ResourceConflict> {
    s.check_resources()
}
fn list(n: usize) -> Vec<Sys> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(s(i));
        i += 1;
    }
    v
}

fn vec_of<T, const K: usize>(a: [T; K]) -> Vec<T> {
    let mut v = Vec::new();
    for x in a {
        v.push(x);
    }
    v
}

pub fn t_par2() {
    report(cr(&Par::new(s(0), s(1))), 2, &[(0, 1)]);
    crate::prim::begin();
}

pub fn t_par3() {
    report(cr(&Par::new(s(0), s(1)).with(s(2))), 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_par4() {
    report(cr(&Par::new(s(0), s(1)).with(s(2)).with(s(3))), 4, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
    crate::prim::begin();
}

pub fn t_parm() {
    report(cr(&par!(s(0), s(1), s(2))), 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_seq2() {
    report(cr(&Seq::new(s(0), s(1))), 2, &[]);
    crate::prim::begin();
}

pub fn t_seq3() {
    report(cr(&Seq::new(s(0), s(1)).with(s(2))), 3, &[]);
    crate::prim::begin();
}

pub fn t_seq4() {
    report(cr(&Seq::new(s(0), s(1)).with(s(2)).with(s(3))), 4, &[]);
    crate::prim::begin();
}

pub fn t_seqm() {
    report(cr(&seq!(s(0), s(1), s(2))), 3, &[]);
    crate::prim::begin();
}

pub fn t_box() {
    report(cr(&Par::new(b(0), Box::new(Seq::new(s(1), b(2))))), 3, &[(0, 1), (0, 2)]);
    crate::prim::begin();
}

pub fn t_mix1() {
    report(cr(&Seq::new(Par::new(s(0), s(1)), Par::new(s(2), s(3)))), 4, &[(0, 1), (2, 3)]);
    crate::prim::begin();
}

pub fn t_mix2() {
    report(cr(&Par::new(Seq::new(s(0), s(1)), Seq::new(s(2), s(3)))), 4, &[(0, 2), (0, 3), (1, 2), (1, 3)]);
    crate::prim::begin();
}

pub fn t_mix3() {
    report(cr(&Par::new(ParList(vec_of([s(0), s(1)])), SeqList(vec_of([s(2), s(3)])))), 4, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)]);
    crate::prim::begin();
}

pub fn t_sl_pl() {
    report(cr(&SeqList(vec_of([ParList(vec_of([s(0), s(1)])), ParList(vec_of([s(2), s(3)]))]))), 4, &[(0, 1), (2, 3)]);
    crate::prim::begin();
}

pub fn t_pl_sl() {
    report(cr(&ParList(vec_of([SeqList(vec_of([s(0), s(1)])), SeqList(vec_of([s(2), s(3)]))]))), 4, &[(0, 2), (0, 3), (1, 2), (1, 3)]);
    crate::prim::begin();
}

pub fn t_pl_box() {
    report(cr(&ParList(vec_of([b(0), b(1), b(2)]))), 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_sl_box() {
    report(cr(&SeqList(vec_of([b(0), b(1), b(2)]))), 3, &[]);
    crate::prim::begin();
}

pub fn t_pl0() {
    report(cr(&ParList(list(0))), 0, &[]);
    crate::prim::begin();
}

pub fn t_sl0() {
    report(cr(&SeqList(list(0))), 0, &[]);
    crate::prim::begin();
}

pub fn t_pl1() {
    report(cr(&ParList(list(1))), 1, &[]);
    crate::prim::begin();
}

pub fn t_sl1() {
    report(cr(&SeqList(list(1))), 1, &[]);
    crate::prim::begin();
}

pub fn t_pl2() {
    report(cr(&ParList(list(2))), 2, &[(0, 1)]);
    crate::prim::begin();
}

pub fn t_sl2() {
    report(cr(&SeqList(list(2))), 2, &[]);
    crate::prim::begin();
}

pub fn t_pl3() {
    report(cr(&ParList(list(3))), 3, &[(0, 1), (0, 2), (1, 2)]);
    crate::prim::begin();
}

pub fn t_sl3() {
    report(cr(&SeqList(list(3))), 3, &[]);
    crate::prim::begin();
}

pub fn t_pl4() {
    report(cr(&ParList(list(4))), 4, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
    crate::prim::begin();
}

pub fn t_sl4() {
    report(cr(&SeqList(list(4))), 4, &[]);
    crate::prim::begin();
}

pub fn t_sl5() {
    report(cr(&SeqList(list(5))), 5, &[]);
    crate::prim::begin();
}

/// a list of any length with two followed members, which may conflict, or be in conflict with themselves
fn any_list() -> Vec<Pair> {
    use crate::prim::*;
    let p = any_u32();
    let q = any_u32();
    assume(p != q);
    track(p);
    track(q);
    let mut v = Vec::new();
    loop {
        if nondet() { break; }
        let n = v.len();
        v.push(Pair { which: if n == p as usize { 1 } else if n == q as usize { 2 } else { 0 } });
    }
    assume(v.len() > p as usize);
    assume(v.len() > q as usize);
    match any_usize(0, 3) {
        0 => gset(75, 1),
        1 => gset(76, 1),
        2 => gset(77, 1),
        _ => {}
    }
    v
}
fn any_report(r: Result<Two, goggles::resources::ResourceConflict>, par: bool) {
    use crate::prim::*;
    let bad = gget(75) == 1 && par || gget(76) == 1 || gget(77) == 1;
    match r {
        Err(_) => check(bad, "C23: a conflict is reported although no members conflict"),
        Ok(r) => {
            check(!bad, "C23: a conflict between members, or inside one, is not reported");
            check(r.a && r.b, "C23: the reported resources are not the union of the members'");
        }
    }
    begin();
}
pub fn t_pl_any() {
    any_report(ParList(any_list()).check_resources(), true);
}
pub fn t_sl_any() {
    any_report(SeqList(any_list()).check_resources(), false);
}
