//! Opaque resources, systems, errors and pools with an arbitrary conflict relation.
use crate::prim::*;
use goggles::{resources::ResourceConflict, FetchResources, Pool, Resources, System};

pub const N: usize = 6;
/// ghost registers: pair (i, j) at 20 + 6 i + j: 0 open, 1 no conflict, 2 conflict; (i, i): two uses of i;
/// 60 + i: internal conflict of i, same coding; 70 + i: runs of i; 80 + i: did i fail; 90 + i: when; 100: clock
fn open(r: u32) -> bool {
    if gget(r) == 0 {
        gset(r, if nondet() { 2 } else { 1 });
    }
    gget(r) == 2
}
pub fn conf(i: usize, j: usize) -> bool {
    open(20 + if i < j { 6 * i + j } else { 6 * j + i } as u32)
}
pub fn internal(i: usize) -> bool {
    open(60 + i as u32)
}

#[derive(Default)]
pub struct Res {
    pub m: [bool; N],
}

impl Resources for Res {
    fn union(&mut self, o: &Res) {
        let mut i = 0;
        while i < N {
            if o.m[i] { self.m[i] = true; }
            i += 1;
        }
    }
    fn conflicts_with(&self, o: &Res) -> bool {
        let mut i = 0;
        while i < N {
            if self.m[i] {
                let mut j = 0;
                while j < N {
                    if o.m[j] && conf(i, j) { return true; }
                    j += 1;
                }
            }
            i += 1;
        }
        false
    }
}

pub struct Er {
    pub m: [bool; N],
}
impl goggles::system::Error for Er {
    fn combine(mut self, o: Er) -> Er {
        let mut i = 0;
        while i < N {
            if o.m[i] { self.m[i] = true; }
            i += 1;
        }
        self
    }
}

/// runs both exactly once, in any order
pub struct Pl {
    pub id: i64,
}
impl Pool for Pl {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        check(self.id == 77, "C24: members run in another pool");
        if nondet() {
            let x = a();
            let y = b();
            (x, y)
        } else {
            let y = b();
            let x = a();
            (x, y)
        }
    }
}

pub struct Sys {
    pub id: usize,
}
pub const ARG: i64 = 4711;

impl System<i64> for Sys {
    type Resources = Res;
    type Pool = Pl;
    type Error = Er;
    fn check_resources(&self) -> Result<Res, ResourceConflict> {
        if internal(self.id) {
            Err(ResourceConflict::conflict_in::<Self>())
        } else {
            let mut m = [false; N];
            m[self.id] = true;
            Ok(Res { m })
        }
    }
    fn run(&mut self, pool: &Pl, args: i64) -> Result<(), Er> {
        check(pool.id == 77, "C24: a system is given another pool");
        check(args == ARG, "C24: a system is given other arguments");
        let i = self.id as u32;
        check(gget(70 + i) == 0, "C24: a system is run twice");
        gset(70 + i, 1);
        gset(100, gget(100) + 1);
        gset(90 + i, gget(100));
        if nondet() {
            gset(80 + i, 1);
            let mut m = [false; N];
            m[self.id] = true;
            Err(Er { m })
        } else {
            Ok(())
        }
    }
}

/// what a combinator must report; `par`: which members may run at the same time
pub fn report(r: Result<Res, ResourceConflict>, n: usize, par: &[(usize, usize)]) {
    let mut bad = false;
    let mut i = 0;
    while i < n {
        if internal(i) { bad = true; }
        i += 1;
    }
    let mut p = 0;
    while p < par.len() {
        if conf(par[p].0, par[p].1) { bad = true; }
        p += 1;
    }
    match r {
        Err(_) => check(bad, "C23: a conflict is reported although no members conflict"),
        Ok(r) => {
            check(!bad, "C23: a conflict between members, or inside one, is not reported");
            let mut i = 0;
            while i < N {
                check(r.m[i] == (i < n), "C23: the reported resources are not the union of the members'");
                i += 1;
            }
        }
    }
}

/// what a run must have done; `seq`: (a, b): b runs only after a succeeded
pub fn ran(r: Result<(), Er>, n: usize, seq: &[(usize, usize)]) {
    let mut failed = false;
    let mut i = 0;
    while i < n {
        let mut allowed = true;
        let mut p = 0;
        while p < seq.len() {
            let (a, b) = seq[p];
            if b == i {
                let a = a as u32;
                if gget(70 + a) == 0 || gget(80 + a) == 1 {
                    allowed = false;
                } else if gget(70 + i as u32) == 1 {
                    check(gget(90 + a) < gget(90 + i as u32), "C24: systems run out of order");
                }
            }
            p += 1;
        }
        check(gget(70 + i as u32) == 1 || !allowed, "C24: a system is not run");
        check(gget(70 + i as u32) == 0 || allowed, "C24: a system is run after one before it failed");
        if gget(80 + i as u32) == 1 { failed = true; }
        i += 1;
    }
    match r {
        Ok(()) => check(!failed, "C24: an error is lost"),
        Err(e) => {
            check(failed, "C24: an error is reported although no member failed");
            let mut i = 0;
            while i < N {
                check(e.m[i] == (i < n && gget(80 + i as u32) == 1), "C24: the error is not the combination of the failing members' errors");
                i += 1;
            }
        }
    }
}

/// elements of a tuple of fetchables, with one conflicting pair at most.  Ghost 10, 11: the pair (1 + position), 12: the
/// element with an internal conflict, 13: how many were fetched
pub struct Src {
    pub id: i64,
}
/// which of the followed elements are in the set: the conflicting pair and one arbitrary other (ghost 14)
#[derive(Default)]
pub struct Bits {
    pub p: bool,
    pub q: bool,
    pub t: bool,
}
impl Resources for Bits {
    fn union(&mut self, o: &Bits) {
        self.p |= o.p;
        self.q |= o.q;
        self.t |= o.t;
    }
    fn conflicts_with(&self, o: &Bits) -> bool {
        gget(10) != gget(11) && (self.p && o.q || self.q && o.p)
    }
}
pub struct El<const I: usize> {
    pub src: i64,
}
impl<'a, const I: usize> FetchResources<'a, Src> for El<I> {
    type Resources = Bits;
    fn check_resources() -> Result<Bits, ResourceConflict> {
        if gget(12) == I as i64 {
            Err(ResourceConflict::conflict_in::<Self>())
        } else {
            let i = I as i64;
            Ok(Bits { p: i == gget(10), q: i == gget(11), t: i == gget(14) })
        }
    }
    fn fetch(s: &'a Src) -> Self {
        gset(13, gget(13) + 1);
        El { src: s.id }
    }
}
/// the same with an arbitrary relation, for small arities
pub struct Em<const I: usize>;
impl<'a, const I: usize> FetchResources<'a, Src> for Em<I> {
    type Resources = Res;
    fn check_resources() -> Result<Res, ResourceConflict> {
        Sys { id: I }.check_resources()
    }
    fn fetch(_: &'a Src) -> Self {
        Em
    }
}

/// A system in a list of any length; `hot`: the one that is followed.  Ghost 70: runs of it, 71: did it fail,
/// 72: has a system before it in the list failed, 73: has one after it run
pub struct Fol {
    pub hot: bool,
}
#[derive(Default)]
pub struct One {
    pub hot: bool,
}
impl Resources for One {
    fn union(&mut self, o: &One) {
        self.hot |= o.hot;
    }
    fn conflicts_with(&self, _: &One) -> bool {
        false
    }
}
pub struct Ef {
    pub hot: bool,
}
impl goggles::system::Error for Ef {
    fn combine(self, o: Ef) -> Ef {
        Ef { hot: self.hot || o.hot }
    }
}
impl System<i64> for Fol {
    type Resources = One;
    type Pool = Pl;
    type Error = Ef;
    fn check_resources(&self) -> Result<One, ResourceConflict> {
        Ok(One { hot: self.hot })
    }
    fn run(&mut self, pool: &Pl, args: i64) -> Result<(), Ef> {
        check(pool.id == 77, "C24: a system is given another pool");
        check(args == ARG, "C24: a system is given other arguments");
        check(gget(72) == 0, "C24: a system is run after one before it failed");
        let fail = nondet();
        if self.hot {
            check(gget(70) == 0, "C24: a system is run twice");
            gset(70, 1);
            if fail { gset(71, 1); }
        }
        if fail {
            gset(72, 1);
            return Err(Ef { hot: self.hot });
        }
        Ok(())
    }
}

/// like `Fol`, but only the followed one may fail, whatever the order; ghost 74: all runs
pub struct Lone {
    pub hot: bool,
}
impl System<i64> for Lone {
    type Resources = Two;
    type Pool = goggles::SeqPool;
    type Error = Ef;
    fn check_resources(&self) -> Result<Two, ResourceConflict> {
        Ok(Two::default())
    }
    fn run(&mut self, _: &goggles::SeqPool, args: i64) -> Result<(), Ef> {
        gset(74, gget(74) + 1);
        if self.hot {
            check(gget(70) == 0, "C24: a system is run twice");
            gset(70, 1);
            if nondet() {
                gset(71, 1);
                return Err(Ef { hot: true });
            }
        }
        Ok(())
    }
}

/// One of two followed systems (1, 2), or another (0), in a list of any length.  Ghost 75: do the two conflict,
/// 76, 77: has each an internal conflict, 78: has any system one, 79: was 2 asked
#[derive(Default)]
pub struct Two {
    pub a: bool,
    pub b: bool,
}
impl Resources for Two {
    fn union(&mut self, o: &Two) {
        self.a |= o.a;
        self.b |= o.b;
    }
    fn conflicts_with(&self, o: &Two) -> bool {
        gget(75) == 1 && (self.a && o.b || self.b && o.a)
    }
}
pub struct Pair {
    pub which: u8,
}
impl System<i64> for Pair {
    type Resources = Two;
    type Pool = Pl;
    type Error = Ef;
    fn check_resources(&self) -> Result<Two, ResourceConflict> {
        let bad = match self.which {
            1 => gget(76) == 1,
            2 => gget(77) == 1,
            _ => false,
        };
        if bad {
            return Err(ResourceConflict::conflict_in::<Self>());
        }
        Ok(Two { a: self.which == 1, b: self.which == 2 })
    }
    fn run(&mut self, _: &Pl, _: i64) -> Result<(), Ef> {
        Ok(())
    }
}
