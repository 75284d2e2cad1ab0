use crate::parts::*;
use crate::prim::*;
use goggles::hibitset::*;
use goggles::join::{BitSetConstrained, JoinIter, MaybeJoin};
use goggles::par_join::JoinParIter;
use goggles::{Index, IntoJoin, IntoJoinExt, Join, ParJoinExt};

/// a bit set of a kind nobody knows, which may or may not be constrained
#[derive(Clone, Copy)]
pub struct Leaf(pub bool);
impl BitSetLike for Leaf {
    fn layer3(&self) -> usize { 0 }
    fn layer2(&self, _: usize) -> usize { 0 }
    fn layer1(&self, _: usize) -> usize { 0 }
    fn layer0(&self, _: usize) -> usize { 0 }
    fn contains(&self, _: Index) -> bool { nondet() }
}
impl BitSetConstrained for Leaf {
    fn is_constrained(&self) -> bool { self.0 }
}
pub struct Jn(pub Leaf);
impl Join for Jn {
    type Item = Index;
    type Access = ();
    type Mask = Leaf;
    fn open(self) -> (Leaf, ()) { (self.0, ()) }
    unsafe fn get(_: &(), i: Index) -> Index { i }
}

/// the documented rules, by structural induction over the kind of set: the operands are arbitrary
pub fn t_rules() {
    let a = Leaf(nondet());
    let b = Leaf(nondet());
    let (x, y) = (a.0, b.0);
    check(BitSet::new().is_constrained(), "a BitSet is constrained");
    check(AtomicBitSet::new().is_constrained(), "an AtomicBitSet is constrained");
    check(!BitSetAll.is_constrained(), "a BitSetAll is unconstrained");
    check((&a).is_constrained() == x, "a reference is constrained like what it refers to");
    check((&&a).is_constrained() == x, "a reference is constrained like what it refers to");
    check((&BitSetAll).is_constrained() == false, "a reference is constrained like what it refers to");
    check(BitSetNot(a).is_constrained() == !x, "a negation is constrained exactly when its operand is not");
    check(BitSetAnd(a, b).is_constrained() == (x || y), "an intersection is constrained when either operand is");
    check(BitSetOr(a, b).is_constrained() == (x && y), "a union is constrained when both operands are");
    check(BitSetXor(a, b).is_constrained() == (x && y), "a symmetric difference is constrained when both operands are");
}

pub fn t_join() {
    let (x, y, z) = (nondet(), nondet(), nondet());
    let (a, b, c) = (|| Jn(Leaf(x)), || Jn(Leaf(y)), || Jn(Leaf(z)));
    let bad = catch(|| { let _ = a().join(); });
    check(bad == !x, "a join panics exactly when its mask is unconstrained");
    let bad = catch(|| { let _ = (a(), b()).join(); });
    check(bad == !(x || y), "a tuple join panics exactly when no element is constrained");
    let bad = catch(|| { let _ = (a(), b(), c()).join(); });
    check(bad == !(x || y || z), "a tuple join panics exactly when no element is constrained");
    let bad = catch(|| { let _ = a().maybe().join(); });
    check(bad, "an optional join alone is unconstrained");
    let bad = catch(|| { let _ = (a().maybe(), b()).join(); });
    check(bad == !y, "an optional element constrains nothing");
    check(JoinIter::new(a()).is_ok() == x, "JoinIter::new rejects exactly the unconstrained masks");
    nopanic(|| { let _ = a().join_unconstrained(); }, "join_unconstrained never rejects");
    nopanic(|| { let _ = (a().maybe(), b()).join_unconstrained(); }, "join_unconstrained never rejects");
    nopanic(|| { let _ = JoinIter::new_unconstrained(a()); }, "join_unconstrained never rejects");
}

pub fn t_par() {
    let (x, y) = (nondet(), nondet());
    let (a, b) = (|| Jn(Leaf(x)), || Jn(Leaf(y)));
    let bad = catch(|| { let _ = a().par_join(); });
    check(bad == !x, "a parallel join panics exactly when its mask is unconstrained");
    let bad = catch(|| { let _ = (a(), b()).par_join(); });
    check(bad == !(x || y), "a parallel tuple join panics exactly when no element is constrained");
    let bad = catch(|| { let _ = (a().maybe(), b()).par_join(); });
    check(bad == !y, "an optional element constrains nothing");
    check(JoinParIter::new(a()).is_ok() == x, "JoinParIter::new rejects exactly the unconstrained masks");
    nopanic(|| { let _ = a().par_join_unconstrained(); }, "par_join_unconstrained never rejects");
    nopanic(|| { let _ = JoinParIter::new_unconstrained(a()); }, "par_join_unconstrained never rejects");
}

