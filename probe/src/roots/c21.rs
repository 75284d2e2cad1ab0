//! Tuples of fetchables (C21)
use crate::prim::*;
use crate::sys::*;
use goggles::FetchResources;

/// chooses at most one conflicting pair and at most one element with an internal conflict
fn choose(n: usize) {
    gset(12, -1);
    match any_usize(0, 2) {
        0 => gset(14, any_usize(0, n - 1) as i64),
        1 => {
            let p = any_usize(0, n - 1);
            let q = any_usize(0, n - 1);
            assume(p < q);
            gset(10, p as i64);
            gset(11, q as i64);
        }
        _ => gset(12, any_usize(0, n - 1) as i64),
    }
}

fn look(r: Result<Bits, goggles::resources::ResourceConflict>, n: usize) {
    let bad = gget(10) != gget(11) || gget(12) >= 0;
    match r {
        Err(_) => check(bad, "C21: a tuple without conflicts reports one"),
        Ok(r) => {
            check(!bad, "C21: a conflict of two elements, or inside one, is not reported");
            check(r.t, "C21: a tuple does not declare exactly the union of its elements' resources");
        }
    }
}

fn fetched(n: usize, all: bool) {
    check(gget(13) == n as i64, "C21: fetching a tuple does not fetch each element once");
    check(all, "C21: an element is fetched from another source");
}

pub fn t_a01() {
    choose(1);
    look(<(El<0>, ) as FetchResources<Src>>::check_resources(), 1);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, ) as FetchResources<Src>>::fetch(&s);
    fetched(1, t.0.src == s.id);
    begin();
}

pub fn t_a02() {
    choose(2);
    look(<(El<0>, El<1>, ) as FetchResources<Src>>::check_resources(), 2);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, ) as FetchResources<Src>>::fetch(&s);
    fetched(2, t.0.src == s.id && t.1.src == s.id);
    begin();
}

pub fn t_a03() {
    choose(3);
    look(<(El<0>, El<1>, El<2>, ) as FetchResources<Src>>::check_resources(), 3);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, ) as FetchResources<Src>>::fetch(&s);
    fetched(3, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id);
    begin();
}

pub fn t_a04() {
    choose(4);
    look(<(El<0>, El<1>, El<2>, El<3>, ) as FetchResources<Src>>::check_resources(), 4);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, ) as FetchResources<Src>>::fetch(&s);
    fetched(4, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id);
    begin();
}

pub fn t_a05() {
    choose(5);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, ) as FetchResources<Src>>::check_resources(), 5);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, ) as FetchResources<Src>>::fetch(&s);
    fetched(5, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id);
    begin();
}

pub fn t_a06() {
    choose(6);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, ) as FetchResources<Src>>::check_resources(), 6);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, ) as FetchResources<Src>>::fetch(&s);
    fetched(6, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id);
    begin();
}

pub fn t_a07() {
    choose(7);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, ) as FetchResources<Src>>::check_resources(), 7);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, ) as FetchResources<Src>>::fetch(&s);
    fetched(7, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id);
    begin();
}

pub fn t_a08() {
    choose(8);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, ) as FetchResources<Src>>::check_resources(), 8);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, ) as FetchResources<Src>>::fetch(&s);
    fetched(8, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id);
    begin();
}

pub fn t_a09() {
    choose(9);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, ) as FetchResources<Src>>::check_resources(), 9);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, ) as FetchResources<Src>>::fetch(&s);
    fetched(9, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id);
    begin();
}

pub fn t_a10() {
    choose(10);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, ) as FetchResources<Src>>::check_resources(), 10);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, ) as FetchResources<Src>>::fetch(&s);
    fetched(10, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id);
    begin();
}

pub fn t_a11() {
    choose(11);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, ) as FetchResources<Src>>::check_resources(), 11);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, ) as FetchResources<Src>>::fetch(&s);
    fetched(11, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id);
    begin();
}

pub fn t_a12() {
    choose(12);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, ) as FetchResources<Src>>::check_resources(), 12);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, ) as FetchResources<Src>>::fetch(&s);
    fetched(12, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id);
    begin();
}

pub fn t_a13() {
    choose(13);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, ) as FetchResources<Src>>::check_resources(), 13);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, ) as FetchResources<Src>>::fetch(&s);
    fetched(13, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id);
    begin();
}

pub fn t_a14() {
    choose(14);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, ) as FetchResources<Src>>::check_resources(), 14);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, ) as FetchResources<Src>>::fetch(&s);
    fetched(14, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id);
    begin();
}

pub fn t_a15() {
    choose(15);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, ) as FetchResources<Src>>::check_resources(), 15);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, ) as FetchResources<Src>>::fetch(&s);
    fetched(15, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id);
    begin();
}

pub fn t_a16() {
    choose(16);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, ) as FetchResources<Src>>::check_resources(), 16);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, ) as FetchResources<Src>>::fetch(&s);
    fetched(16, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id);
    begin();
}

pub fn t_a17() {
    choose(17);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, ) as FetchResources<Src>>::check_resources(), 17);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, ) as FetchResources<Src>>::fetch(&s);
    fetched(17, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id);
    begin();
}

pub fn t_a18() {
    choose(18);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, ) as FetchResources<Src>>::check_resources(), 18);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, ) as FetchResources<Src>>::fetch(&s);
    fetched(18, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id);
    begin();
}

pub fn t_a19() {
    choose(19);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, ) as FetchResources<Src>>::check_resources(), 19);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, ) as FetchResources<Src>>::fetch(&s);
    fetched(19, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id);
    begin();
}

pub fn t_a20() {
    choose(20);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, ) as FetchResources<Src>>::check_resources(), 20);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, ) as FetchResources<Src>>::fetch(&s);
    fetched(20, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id);
    begin();
}

pub fn t_a21() {
    choose(21);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, ) as FetchResources<Src>>::check_resources(), 21);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, ) as FetchResources<Src>>::fetch(&s);
    fetched(21, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id);
    begin();
}

pub fn t_a22() {
    choose(22);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, ) as FetchResources<Src>>::check_resources(), 22);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, ) as FetchResources<Src>>::fetch(&s);
    fetched(22, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id && t.21.src == s.id);
    begin();
}

pub fn t_a23() {
    choose(23);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, ) as FetchResources<Src>>::check_resources(), 23);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, ) as FetchResources<Src>>::fetch(&s);
    fetched(23, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id && t.21.src == s.id && t.22.src == s.id);
    begin();
}

pub fn t_a24() {
    choose(24);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, ) as FetchResources<Src>>::check_resources(), 24);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, ) as FetchResources<Src>>::fetch(&s);
    fetched(24, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id && t.21.src == s.id && t.22.src == s.id && t.23.src == s.id);
    begin();
}

pub fn t_a25() {
    choose(25);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, El<24>, ) as FetchResources<Src>>::check_resources(), 25);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, El<24>, ) as FetchResources<Src>>::fetch(&s);
    fetched(25, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id && t.21.src == s.id && t.22.src == s.id && t.23.src == s.id && t.24.src == s.id);
    begin();
}

pub fn t_a26() {
    choose(26);
    look(<(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, El<24>, El<25>, ) as FetchResources<Src>>::check_resources(), 26);
    let s = Src { id: any_i64(1, 1 << 40) };
    let t = <(El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>, El<12>, El<13>, El<14>, El<15>, El<16>, El<17>, El<18>, El<19>, El<20>, El<21>, El<22>, El<23>, El<24>, El<25>, ) as FetchResources<Src>>::fetch(&s);
    fetched(26, t.0.src == s.id && t.1.src == s.id && t.2.src == s.id && t.3.src == s.id && t.4.src == s.id && t.5.src == s.id && t.6.src == s.id && t.7.src == s.id && t.8.src == s.id && t.9.src == s.id && t.10.src == s.id && t.11.src == s.id && t.12.src == s.id && t.13.src == s.id && t.14.src == s.id && t.15.src == s.id && t.16.src == s.id && t.17.src == s.id && t.18.src == s.id && t.19.src == s.id && t.20.src == s.id && t.21.src == s.id && t.22.src == s.id && t.23.src == s.id && t.24.src == s.id && t.25.src == s.id);
    begin();
}

/// arbitrary conflicts
pub fn t_m2() {
    let r = <(Em<0>, Em<1>, ) as FetchResources<Src>>::check_resources();
    let mut bad = false;
    let mut i = 0;
    while i < 2 {
        if internal(i) { bad = true; }
        let mut j = 0;
        while j < i {
            if conf(j, i) { bad = true; }
            j += 1;
        }
        i += 1;
    }
    match r {
        Err(_) => check(bad, "C21: a tuple without conflicts reports one"),
        Ok(r) => {
            check(!bad, "C21: a conflict of two elements, or inside one, is not reported");
            let mut i = 0;
            while i < N {
                check(r.m[i] == (i < 2), "C21: a tuple does not declare exactly the union of its elements' resources");
                i += 1;
            }
        }
    }
    begin();
}

/// arbitrary conflicts
pub fn t_m3() {
    let r = <(Em<0>, Em<1>, Em<2>, ) as FetchResources<Src>>::check_resources();
    let mut bad = false;
    let mut i = 0;
    while i < 3 {
        if internal(i) { bad = true; }
        let mut j = 0;
        while j < i {
            if conf(j, i) { bad = true; }
            j += 1;
        }
        i += 1;
    }
    match r {
        Err(_) => check(bad, "C21: a tuple without conflicts reports one"),
        Ok(r) => {
            check(!bad, "C21: a conflict of two elements, or inside one, is not reported");
            let mut i = 0;
            while i < N {
                check(r.m[i] == (i < 3), "C21: a tuple does not declare exactly the union of its elements' resources");
                i += 1;
            }
        }
    }
    begin();
}

/// arbitrary conflicts
pub fn t_m4() {
    let r = <(Em<0>, Em<1>, Em<2>, Em<3>, ) as FetchResources<Src>>::check_resources();
    let mut bad = false;
    let mut i = 0;
    while i < 4 {
        if internal(i) { bad = true; }
        let mut j = 0;
        while j < i {
            if conf(j, i) { bad = true; }
            j += 1;
        }
        i += 1;
    }
    match r {
        Err(_) => check(bad, "C21: a tuple without conflicts reports one"),
        Ok(r) => {
            check(!bad, "C21: a conflict of two elements, or inside one, is not reported");
            let mut i = 0;
            while i < N {
                check(r.m[i] == (i < 4), "C21: a tuple does not declare exactly the union of its elements' resources");
                i += 1;
            }
        }
    }
    begin();
}
