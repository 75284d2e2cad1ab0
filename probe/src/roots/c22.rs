//! Read/write resource sets (C22)
use crate::prim::*;
use goggles::{Resources, RwResources};

type Set = RwResources<u32>;

/// what is known about one key in one set
#[derive(Clone, Copy)]
struct Gh {
    any: bool,
    write: bool,
}
const NO: Gh = Gh { any: false, write: false };

fn look(s: &Set, k: [u32; 2], g: [Gh; 2]) {
    let mut r = [0; 2];
    let mut w = [0; 2];
    for x in s.reads() {
        if *x == k[0] { r[0] += 1 } else if *x == k[1] { r[1] += 1 } else { fail("C22: a set reads a key nobody added") }
    }
    for x in s.writes() {
        if *x == k[0] { w[0] += 1 } else if *x == k[1] { w[1] += 1 } else { fail("C22: a set writes a key nobody added") }
    }
    let mut i = 0;
    while i < 2 {
        check(r[i] <= 1 && w[i] <= 1, "C22: a set lists a key twice");
        check((w[i] == 1) == g[i].write, "C22: the written keys are not those that were written");
        check((r[i] == 1 || w[i] == 1) == g[i].any, "C22: the keys of a set are not those that were added");
        check(!(r[i] == 1 && w[i] == 1), "C22: a write does not take precedence over a read of the same key");
        i += 1;
    }
}

fn op(s: &mut Set, o: &Set, k: [u32; 2], g: &mut [Gh; 2], h: [Gh; 2]) {
    let n = any_usize(0, 1);
    match any_usize(0, 7) {
        0 => {
            s.add_read(k[n]);
            g[n].any = true;
        }
        1 => {
            s.add_write(k[n]);
            g[n] = Gh { any: true, write: true };
        }
        2 => {
            s.add_reads(k.into_iter());
            g[0].any = true;
            g[1].any = true;
        }
        3 => {
            s.add_writes(k.into_iter());
            *g = [Gh { any: true, write: true }; 2];
        }
        4 => {
            *s = std::mem::take(s).read(k[n]);
            g[n].any = true;
        }
        5 => {
            *s = std::mem::take(s).write(k[n]);
            g[n] = Gh { any: true, write: true };
        }
        6 => {
            s.union(o);
            let mut i = 0;
            while i < 2 {
                let old = g[i];
                g[i].any = old.any || h[i].any;
                g[i].write = old.write || h[i].write;
                i += 1;
            }
        }
        _ => {
            let mut r = Vec::new();
            let mut w = Vec::new();
            *g = [NO; 2];
            let mut i = 0;
            while i < 2 {
                if nondet() {
                    r.push(k[i]);
                    g[i].any = true;
                }
                if nondet() {
                    w.push(k[i]);
                    g[i].any = true;
                    g[i].write = true;
                }
                i += 1;
            }
            *s = Set::from_iters(r, w);
        }
    }
}

fn conflict(g: [Gh; 2], h: [Gh; 2]) -> bool {
    g[0].write && h[0].any || h[0].write && g[0].any || g[1].write && h[1].any || h[1].write && g[1].any
}

fn universe() -> [u32; 2] {
    let k = [any_u32(), any_u32()];
    assume(k[0] != k[1]);
    track(k[0]);
    track(k[1]);
    k
}

/// any set over the keys
fn any_set(k: [u32; 2], g: &mut [Gh; 2]) -> Set {
    let mut a = Set::new();
    let mut u = Set::default();
    let mut i = 0;
    while i < 2 {
        match any_usize(0, 3) {
            0 => {}
            1 => {
                a.add_read(k[i]);
                g[i].any = true;
            }
            2 => {
                a.add_write(k[i]);
                g[i] = Gh { any: true, write: true };
            }
            _ => {
                a.add_read(k[i]);
                u.add_write(k[i]);
                g[i] = Gh { any: true, write: true };
            }
        }
        i += 1;
    }
    a.union(&u);
    a
}

/// any history of a set
pub fn t_history() {
    let k = universe();
    let mut a = Set::new();
    let mut g = [NO; 2];
    loop {
        look(&a, k, g);
        begin();
        if nondet() { break; }
        let mut h = [NO; 2];
        let b = any_set(k, &mut h);
        op(&mut a, &b, k, &mut g, h);
        begin();
    }
}

/// any two sets
pub fn t_conflict() {
    let k = universe();
    let mut g = [NO; 2];
    let mut h = [NO; 2];
    let a = any_set(k, &mut g);
    let b = any_set(k, &mut h);
    check(a.conflicts_with(&b) == conflict(g, h), "C22: two sets conflict exactly on a shared key with a writer");
    check(b.conflicts_with(&a) == conflict(g, h), "C22: the conflict relation is symmetric");
    let c = a.clone();
    look(&c, k, g);
    begin();
}

/// mapping keys, to distinct keys or to the same one
pub fn t_map() {
    let k = universe();
    let mut a = Set::new();
    let mut g = [NO; 2];
    let n = any_usize(0, 1);
    loop {
        if nondet() { break; }
        let b = Set::new();
        op(&mut a, &b, k, &mut g, [NO; 2]);
        begin();
    }
    if nondet() {
        let m = a.map(|x| if *x == k[0] { k[1] } else { k[0] });
        look(&m, k, [g[1], g[0]]);
    } else {
        let m = a.map(|_| k[n]);
        let u = Gh { any: g[0].any || g[1].any, write: g[0].write || g[1].write };
        look(&m, k, if n == 0 { [u, NO] } else { [NO, u] });
    }
    begin();
}
