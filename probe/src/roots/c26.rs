//! Pools (C26)
use crate::prim::*;
use goggles::{Pool, RayonPool, SeqPool};

fn pool<P: Pool>(p: P) {
    let mut n = 0;
    let mut m = 0;
    let a = any_i64(1, 1 << 40);
    let b = any_i64(1, 1 << 40);
    assume(a != b);
    let (x, y) = p.join(|| { n += 1; a }, || { m += 1; b });
    check(n == 1, "C26: the first closure is not run exactly once");
    check(m == 1, "C26: the second closure is not run exactly once");
    check(x == a, "C26: the first result is not the first closure's");
    check(y == b, "C26: the second result is not the second closure's");
    begin();
}
pub fn t_seq() { pool(SeqPool::default()) }
pub fn t_rayon() { pool(RayonPool::default()) }

/// closures that own what they were given
struct D(i64);
impl Drop for D {
    fn drop(&mut self) {
        gset(self.0 as u32, gget(self.0 as u32) + 1);
    }
}
fn owned<P: Pool>(p: P) {
    let d = D(1);
    let e = D(2);
    let (x, y) = p.join(move || (d, 1u8), move || (e, "x"));
    check(gget(1) == 0 && gget(2) == 0, "C26: a result is destroyed by the pool");
    check(x.1 == 1 && x.0 .0 == 1, "C26: the first result is not the first closure's");
    check(y.0 .0 == 2, "C26: the second result is not the second closure's");
    drop((x, y));
    check(gget(1) == 1 && gget(2) == 1, "C26: a result is lost");
    begin();
}
pub fn t_seq_owned() { owned(SeqPool::default()) }
pub fn t_rayon_owned() { owned(RayonPool::default()) }
