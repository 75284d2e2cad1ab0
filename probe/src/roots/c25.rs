//! Automatic parallelisation (C25)
use crate::prim::*;
use crate::sys::*;
use goggles::{system::parallelize, System};

fn run(n: usize) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(Sys { id: i });
        i += 1;
    }
    let s = parallelize::<i64, Sys>(v);
    let mut group = [0; N];
    let mut size = [0; N + 1];
    let mut g = 0;
    for l in &s.0 {
        g += 1;
        for x in &l.0 {
            check(x.id < n, "C25: a system is invented");
            check(group[x.id] == 0, "C25: a system is scheduled twice");
            group[x.id] = g;
            size[g] += 1;
        }
    }
    let mut i = 0;
    let mut bad = false;
    while i < n {
        check(group[i] != 0, "C25: a system is not scheduled");
        if internal(i) {
            bad = true;
            check(size[group[i]] == 1, "C25: a system with an internal conflict is not alone in its group");
        }
        let mut j = 0;
        while j < i {
            if internal(i) || internal(j) {
                check(group[j] < group[i], "C25: a system is moved across one with an internal conflict");
            } else if group[j] >= group[i] {
                check(!conf(j, i) || group[j] != group[i], "C25: two conflicting systems are in the same group");
                check(!conf(j, i), "C25: a system is moved before one it conflicts with");
            }
            j += 1;
        }
        i += 1;
    }
    check(s.check_resources().is_err() == bad, "C25: the schedule does not report exactly the internal conflicts of its systems");
    begin();
}

pub fn t_n0() { run(0) }
pub fn t_n1() { run(1) }
pub fn t_n2() { run(2) }
pub fn t_n3() { run(3) }
pub fn t_n4() { run(4) }
pub fn t_n5() { run(5) }
pub fn t_n6() { run(6) }
