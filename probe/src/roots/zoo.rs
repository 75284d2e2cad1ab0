//! Library features a change to the crate might start to use: each must be decided, and right.
use crate::prim::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum E { A = 1, B, C }
#[allow(non_snake_case)] fn K(i: u8) -> E { match i { 1 => E::A, 2 => E::B, _ => E::C } }
fn x() -> u32 { any_u32() }
macro_rules! zoo { ($($n:ident $b:block)*) => { $(pub fn $n() $b)* } }
zoo! {
t_minmax { let (a, b) = (x(), x()); let m = a.min(b); check(m <= a && m <= b && (m == a || m == b), "m"); let m = a.max(b); check(m >= a && m >= b, "M"); check(a.clamp(3, 9) <= 9, "c"); }
t_minmax2 { let (a, b) = (x() as usize, x() as usize); let m = std::cmp::min(a, b); check(m <= a && m <= b, "m"); let m = std::cmp::max(a, b); check(m >= a && m >= b, "M"); }
t_arith { let a = x(); check(a.checked_add(1).is_none() == (a == u32::MAX), "1"); check(a.checked_sub(1).is_none() == (a == 0), "2"); check(a.saturating_sub(1) <= a, "3"); check(a.wrapping_add(1).wrapping_sub(1) == a, "4"); let (_, o) = a.overflowing_add(1); check(o == (a == u32::MAX), "5"); check(a.saturating_add(1) >= a, "6"); check(a.abs_diff(a) == 0, "7"); check(!a.is_power_of_two() || a != 0, "8"); }
t_pow { let a = 5u32; check(a.next_power_of_two() == 8, "1"); check(2usize.pow(3) == 8, "2"); check(a.leading_zeros() == 29, "3"); check(40u32.trailing_zeros() == 3, "4"); check(a.count_ones() == 2, "5"); check(7u32.div_ceil(2) == 4, "6"); check(a.is_multiple_of(5), "7"); check(a.pow(2) == 25, "8"); check(a.rotate_left(1) == 10, "9"); check(7u32.rem_euclid(4) == 3, "10"); }
t_vec1 { let mut v = vec![1, 2, 3]; v.insert(1, 9); check(v.len() == 4 && v[1] == 9 && v[3] == 3, "1"); check(v.remove(0) == 1, "2"); check(v.swap_remove(0) == 9 && v[0] == 3, "3"); v.truncate(1); check(v.len() == 1, "4"); check(v.first() == Some(&3) && v.last() == Some(&3), "5"); v.clear(); check(v.is_empty(), "6"); check(v.pop().is_none(), "7"); }
t_vec2 { let mut v = vec![1, 2, 3, 4]; let d: Vec<i32> = v.drain(1..3).collect(); check(d.len() == 2 && d[0] == 2 && v.len() == 2 && v[1] == 4, "1"); v.append(&mut vec![5]); check(v[2] == 5, "2"); let t = v.split_off(1); check(v.len() == 1 && t.len() == 2, "3"); v.extend_from_slice(&t); check(v.len() == 3, "4"); v.retain(|x| *x != 4); check(v.len() == 2, "5"); v.reverse(); check(v[0] == 5, "6"); v.swap(0, 1); check(v[0] == 1, "7"); v.extend(t.iter().copied()); check(v.len() == 4, "8"); v.resize(6, 0); check(v.len() == 6, "9"); v.reserve(3); }
t_vec3 { let mut v = vec![3, 1, 2]; v.sort(); check(v[0] == 1 && v[2] == 3, "1"); v.sort_unstable_by(|a, b| b.cmp(a)); check(v[0] == 3, "2"); v.sort_by_key(|a| *a); check(v[0] == 1, "3"); v.dedup(); check(v.len() == 3, "4"); check(v.binary_search(&2) == Ok(1), "5"); check(v.contains(&3), "6"); check(v.iter().position(|x| *x == 2) == Some(1), "7"); }
t_slice { let mut v = [1, 2, 3, 4]; { let (a, b) = v.split_at_mut(2); a[0] = b[0]; } check(v[0] == 3, "1"); check(v.iter().rev().next() == Some(&4), "2"); check(v.chunks(2).count() == 2, "3"); check(v.windows(2).count() == 3, "4"); if let Some((f, r)) = v.split_first() { check(*f == 3 && r.len() == 3, "5"); } if let [a, .., b] = v { check(a == 3 && b == 4, "6"); } v.fill(7); check(v[3] == 7, "7"); let w = v.to_vec(); check(w.len() == 4 && w[1] == 7, "8"); check(v.get(9).is_none() && v.get(1..3).is_some(), "9"); check(v.starts_with(&[7]), "10"); }
t_slice2 { let mut v = [1, 2, 3, 4]; v.copy_within(0..2, 2); check(v[2] == 1, "1"); v.rotate_left(1); check(v[0] == 2, "2"); let w = [0; 4]; v.copy_from_slice(&w); check(v[0] == 0, "3"); v.clone_from_slice(&[4, 3, 2, 1]); check(v[0] == 4, "4"); if let Some(l) = v.last_mut() { *l = 9; } check(v[3] == 9, "5"); for c in v.chunks_exact(2) { check(c.len() == 2, "6"); } check(v.iter().max() == Some(&9), "7"); check(v.iter().min() == Some(&2), "8"); check(&v[..2] == &[4, 3], "9"); }
t_iter1 { let v = vec![1, 2, 3]; check(v.iter().map(|x| x + 1).sum::<i32>() == 9, "1"); check(v.iter().filter(|x| **x > 1).count() == 2, "2"); check(v.iter().any(|x| *x == 3) && !v.iter().all(|x| *x == 3), "3"); check(v.iter().fold(0, |a, x| a + x) == 6, "4"); check(v.iter().zip(v.iter()).all(|(a, b)| a == b), "5"); check(v.iter().enumerate().nth(1) == Some((1, &2)), "6"); check(v.iter().skip(1).take(1).next() == Some(&2), "7"); check(v.iter().chain(v.iter()).count() == 6, "8"); check(v.iter().copied().last() == Some(3), "9"); }
t_iter2 { let v = vec![1, 2, 3]; let w: Vec<i32> = v.iter().cloned().rev().collect(); check(w[0] == 3, "1"); let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|x| **x > 1); check(a.len() == 2 && b.len() == 1, "2"); check(v.iter().find(|x| **x == 2) == Some(&2), "3"); check(v.iter().find_map(|x| if *x == 2 { Some(5) } else { None }) == Some(5), "4"); check(v.iter().skip_while(|x| **x < 3).count() == 1, "5"); check(v.iter().take_while(|x| **x < 3).count() == 2, "6"); check(v.iter().step_by(2).count() == 2, "7"); let mut p = v.iter().peekable(); check(p.peek() == Some(&&1), "8"); check(v.iter().flat_map(|x| vec![*x; 2]).count() == 6, "9"); check(v.iter().filter_map(|x| if *x > 1 { Some(x) } else { None }).count() == 2, "10"); v.iter().for_each(|x| check(*x > 0, "11")); }
t_iter3 { let v = vec![1, 2, 3]; let r: Result<Vec<i32>, ()> = v.iter().map(|x| if *x == 2 { Err(()) } else { Ok(*x) }).collect(); check(r.is_err(), "1"); let r: Option<Vec<i32>> = v.iter().map(|x| Some(*x)).collect(); check(r.is_some(), "2"); let r = v.iter().try_fold(0, |a, x| if *x > 2 { None } else { Some(a + x) }); check(r.is_none(), "3"); let r: Result<(), i32> = v.iter().try_for_each(|x| if *x == 3 { Err(3) } else { Ok(()) }); check(r == Err(3), "4"); check(v.iter().scan(0, |s, x| { *s += x; Some(*s) }).last() == Some(6), "5"); let (a, b): (Vec<_>, Vec<_>) = v.iter().map(|x| (*x, *x)).unzip(); check(a.len() == 3 && b.len() == 3, "6"); check(v.iter().map(|x| *x).reduce(|a, b| a + b) == Some(6), "7"); check(v.iter().max_by_key(|x| **x) == Some(&3), "8"); let s = std::iter::successors(Some(1), |x| if *x < 4 { Some(x + 1) } else { None }); check(s.count() == 4, "9"); check(std::iter::repeat(1).take(3).count() == 3, "10"); let mut n = 0; let f = std::iter::from_fn(|| { n += 1; if n < 3 { Some(n) } else { None } }); check(f.count() == 2, "11"); check((0..5).rev().step_by(2).count() == 3, "12"); check((1..=3).sum::<i32>() == 6, "13"); check(v.iter().eq(v.iter()), "14"); check(v.iter().sum::<i32>() == 6 && v.iter().product::<i32>() == 6, "15"); }
t_opt { let a = if nondet() { Some(x()) } else { None }; let mut b = a; check(b.take() == a && b.is_none(), "1"); check(a.map(|x| x).is_some() == a.is_some(), "2"); b.replace(1); check(b == Some(1), "3"); check(*b.get_or_insert(4) == 1, "4"); check(b.insert(3) == &3, "5"); check(a.or(Some(1)).is_some(), "6"); check(a.and_then(|_| None::<u32>).is_none(), "7"); check(a.filter(|_| false).is_none(), "8"); check(a.xor(None) == a, "9"); check(a.zip(Some(1)).is_some() == a.is_some(), "10"); check(a.ok_or(()).is_ok() == a.is_some(), "11"); check(a.unwrap_or_default() == a.unwrap_or(0), "12"); check(a.map_or(true, |_| false) == a.is_none(), "13"); check(a.is_some_and(|_| true) == a.is_some(), "14"); if let Some(y) = b.as_mut() { *y = 1; } check(b.as_ref() == Some(&1), "15"); check(b.take_if(|x| *x == 1).is_some(), "16"); }
t_res { let a: Result<u32, u32> = if nondet() { Ok(x()) } else { Err(x()) }; check(a.map_err(|e| e).is_err() == a.is_err(), "1"); check(a.ok().is_some() == a.is_ok(), "2"); check(a.and(Ok::<u32, u32>(1)).is_ok() == a.is_ok(), "3"); check(a.or_else(|_| Ok::<u32, u32>(1)).is_ok(), "4"); check(a.unwrap_or_else(|e| e) == match a { Ok(x) => x, Err(x) => x }, "5"); check(a.as_ref().is_ok() == a.is_ok(), "6"); check(a.iter().count() == a.is_ok() as usize, "7"); let o = Some(a).transpose(); check(o.is_ok() == a.is_ok(), "8"); fn q(a: Result<u32, u32>) -> Result<u32, u32> { let b = a?; Ok(b) } check(q(a) == a, "9"); }
t_mem { let mut a = 1; let b = std::mem::replace(&mut a, 2); check(b == 1 && a == 2, "1"); let mut c = vec![1]; let d = std::mem::take(&mut c); check(c.is_empty() && d.len() == 1, "2"); let mut e = 5; std::mem::swap(&mut a, &mut e); check(a == 5 && e == 2, "3"); let m = std::mem::ManuallyDrop::new(4); check(*m == 4, "4"); let g = Cell::new(1); g.set(2); check(g.get() == 2 && g.replace(3) == 2 && g.take() == 3, "5"); let r = RefCell::new(1); *r.borrow_mut() += 1; check(*r.borrow() == 2, "6"); check(r.try_borrow_mut().is_ok(), "7"); }
t_map1 { let mut m = HashMap::new(); check(m.insert(K(1), 2).is_none(), "1"); check(m.get(&K(1)) == Some(&2), "2"); *m.entry(K(1)).or_insert(5) += 1; check(m[&K(1)] == 3, "3"); m.entry(K(2)).or_insert_with(|| 7); check(m.len() == 2, "4"); check(m.remove(&K(1)) == Some(3), "5"); check(m.contains_key(&K(2)) && !m.contains_key(&K(1)), "6"); check(m.values().count() == 1 && m.keys().next() == Some(&K(2)), "7"); for v in m.values_mut() { *v = 1; } for (k, v) in &mut m { *v += *k as i32; } check(m[&K(2)] == 3, "8"); m.retain(|_, v| *v != 3); check(m.is_empty(), "9"); m.extend([(K(1), 1)]); if let Some(v) = m.get_mut(&K(1)) { *v = 4; } check(m.get(&K(1)).copied() == Some(4), "10"); m.entry(K(1)).and_modify(|v| *v = 9).or_default(); check(m[&K(1)] == 9, "11"); check(m.remove_entry(&K(1)) == Some((K(1), 9)), "12"); m.clear(); check(m.drain().count() == 0, "13"); }
t_map2 { use std::collections::hash_map::Entry; let mut m: HashMap<E, u32> = HashMap::new(); match m.entry(K(1)) { Entry::Vacant(v) => { v.insert(2); } Entry::Occupied(_) => fail("1") } match m.entry(K(1)) { Entry::Occupied(mut o) => { check(*o.get() == 2, "2"); o.insert(3); check(*o.get_mut() == 3, "3"); check(o.remove() == 3, "4"); } Entry::Vacant(_) => fail("5") } let n: HashMap<E, u32> = [(K(1), 2), (K(3), 4)].into_iter().collect(); check(n.len() == 2 && n == n.clone(), "6"); let mut k: Vec<_> = n.into_iter().collect(); k.sort(); check(k[0] == (K(1), 2), "7"); }
t_set { let mut s = HashSet::new(); check(s.insert(K(1)) && !s.insert(K(1)), "1"); let t: HashSet<E> = [K(1), K(2)].into_iter().collect(); check(s.is_subset(&t) && t.is_superset(&s) && !s.is_disjoint(&t), "2"); check(s.union(&t).count() == 2 && s.intersection(&t).count() == 1 && t.difference(&s).count() == 1 && s.symmetric_difference(&t).count() == 1, "3"); check(s.remove(&K(1)) && !s.contains(&K(1)), "4"); s.extend(t.iter().cloned()); check(s == t, "5"); check((&s | &t).len() == 2 && (&s & &t).len() == 2 && (&s - &t).is_empty(), "6"); check(s.take(&K(1)) == Some(K(1)), "7"); check(s.get(&K(2)) == Some(&K(2)), "8"); s.retain(|x| *x != K(2)); check(s.is_empty() && s.iter().next().is_none(), "9"); check(t.iter().all(|x| *x as u8 > 0), "10"); }
t_btree { let mut m = BTreeMap::new(); m.insert(K(2), 1); m.insert(K(1), 5); check(m.get(&K(1)) == Some(&5) && m.len() == 2, "1"); check(m.iter().count() == 2, "2"); let mut s = BTreeSet::new(); s.insert(K(1)); check(s.contains(&K(1)), "3"); check(m.remove(&K(1)) == Some(5), "4"); *m.entry(K(2)).or_insert(0) += 1; check(m[&K(2)] == 2, "5"); }
t_deque { let mut d = VecDeque::new(); d.push_back(1); d.push_front(0); check(d.len() == 2 && d[0] == 0 && d.front() == Some(&0) && d.back() == Some(&1), "0"); check(d.pop_front() == Some(0) && d.pop_back() == Some(1) && d.is_empty(), "1"); d.extend([1, 2, 3]); check(d.iter().count() == 3, "2"); d.retain(|x| *x != 2); check(d.len() == 2 && d[1] == 3, "3"); for x in &d { check(*x != 2, "4"); } for x in d { check(x != 2, "5"); } }
t_boxrc { let b: Box<dyn Fn(u32) -> u32> = Box::new(|x| x); check(b(3) == 3, "1"); let r = Rc::new(Cell::new(1)); let q = r.clone(); q.set(2); check(r.get() == 2 && Rc::strong_count(&r) == 2, "2"); let a = Arc::new(5); check(*a.clone() == 5, "3"); let v: Box<[u32]> = vec![1, 2].into_boxed_slice(); check(v.len() == 2, "4"); let p = Box::into_raw(Box::new(4)); let p = unsafe { Box::from_raw(p) }; check(*p == 4, "5"); let l: &'static mut u32 = Box::leak(Box::new(1)); *l = 2; check(*l == 2, "6"); }
t_atomic { use std::sync::atomic::*; let a = AtomicUsize::new(1); check(a.fetch_add(1, Ordering::SeqCst) == 1, "1"); check(a.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| Some(x + 1)) == Ok(2), "2"); check(a.swap(7, Ordering::AcqRel) == 3, "3"); check(a.compare_exchange(7, 8, Ordering::SeqCst, Ordering::SeqCst) == Ok(7), "4"); check(a.into_inner() == 8, "5"); let b = AtomicBool::new(false); check(!b.fetch_or(true, Ordering::SeqCst) && b.load(Ordering::SeqCst), "6"); check(b.swap(false, Ordering::SeqCst), "7"); let mut c = AtomicU32::new(4); *c.get_mut() = 5; check(c.fetch_max(9, Ordering::Relaxed) == 5 && c.load(Ordering::Relaxed) == 9, "8"); check(c.fetch_sub(1, Ordering::Relaxed) == 9, "9"); fence(Ordering::SeqCst); }
t_ptr { let mut v = vec![1, 2, 3]; let p = v.as_mut_ptr(); unsafe { *p.add(1) = 9; check(*v.as_ptr().add(1) == 9, "1"); std::ptr::swap(p, p.add(2)); check(v[0] == 3, "2"); check(std::ptr::read(p) == 3, "3"); std::ptr::write(p, 5); std::ptr::copy(p, p.add(1), 1); check(v[1] == 5, "4"); std::ptr::copy_nonoverlapping(p, p.add(2), 1); check(v[2] == 5, "5"); check(v.get_unchecked(1) == &5, "6"); v.set_len(2); check(v.len() == 2, "7"); let q = std::ptr::NonNull::new(v.as_mut_ptr()).unwrap(); check(*q.as_ref() == 5, "8"); check(std::ptr::replace(q.as_ptr(), 1) == 5, "9"); let s = std::slice::from_raw_parts(v.as_ptr(), 2); check(s[0] == 1, "10"); check(std::ptr::eq(&v[0], v.as_ptr()), "11"); } }
t_uninit { use std::mem::MaybeUninit; let mut u = MaybeUninit::<Vec<u32>>::uninit(); u.write(vec![1]); unsafe { check(u.assume_init_ref().len() == 1, "1"); u.assume_init_mut().push(2); let v = u.assume_init(); check(v.len() == 2, "2"); } let mut a: [MaybeUninit<u32>; 2] = [MaybeUninit::uninit(), MaybeUninit::uninit()]; a[0] = MaybeUninit::new(3); unsafe { check(a[0].assume_init_read() == 3, "3"); a[0].as_mut_ptr().write(4); check(*a[0].as_ptr() == 4, "4"); } }
t_str { check("x" != "y", "2"); let s = String::from("ab"); let t = format!("{}{}", s, 1); let _ = t; let n: &str = "a"; check(n == "a", "1"); }
t_cmp { let a = (1, 2); check(a < (1, 3) && a == (1, 2) && a.max((0, 9)) == a, "1"); use std::cmp::{Ordering, Reverse}; check(1.cmp(&2) == Ordering::Less, "2"); check(Reverse(1) > Reverse(2), "3"); check(1.cmp(&2).then(Ordering::Equal).is_lt(), "4"); check(1.partial_cmp(&2) == Some(Ordering::Less), "5"); check(Some(1) > None, "6"); check(matches!(a, (1, _)), "7"); }
t_conv { let a: u64 = 5u32.into(); check(a == 5, "1"); check(u8::try_from(300u32).is_err() && u8::try_from(3u32) == Ok(3), "2"); check(usize::try_from(-1i32).is_err(), "3"); check(5u64 as u8 == 5 && 300u32 as u8 == 44 && -1i32 as u32 == u32::MAX, "4"); check(u32::from(true) == 1, "5"); check((-3i32).unsigned_abs() == 3 && (-3i32).abs() == 3 && (-3i32).signum() == -1, "6"); let n = std::num::NonZeroU32::new(4).unwrap(); check(n.get() == 4, "7"); check(std::num::NonZeroU32::new(0).is_none(), "8"); }
t_pin { let mut o = std::iter::once(1).chain(std::iter::empty()); check(o.next() == Some(1) && o.next().is_none(), "4"); for (i, x) in [5, 6].into_iter().enumerate() { check(x == 5 + i as i32, "5"); } }
t_bool { let b = nondet(); check(b.then(|| 1).is_some() == b, "1"); check(b.then_some(1).is_some() == b, "2"); check((b & true) == b && (b | false) == b && (b ^ true) != b, "3"); check(b as u8 <= 1, "4"); }
t_labeled { let mut n = 0; 'a: loop { for i in 0..5 { n += 1; if i == 3 { break 'a; } if i == 1 { continue; } } } check(n == 4, "1"); let v = loop { n -= 1; if n == 0 { break 7; } }; check(v == 7, "2"); let mut o = Some(3); while let Some(x) = o { o = if x > 0 { Some(x - 1) } else { None }; } let Some(y) = Some(1) else { fail("3") }; check(y == 1, "4"); }
t_dynamic { trait T { fn f(&self) -> u32; } impl T for u32 { fn f(&self) -> u32 { *self } } impl T for bool { fn f(&self) -> u32 { 9 } } let v: Vec<Box<dyn T>> = vec![Box::new(1u32), Box::new(true)]; check(v.iter().map(|x| x.f()).sum::<u32>() == 10, "1"); let a: Box<dyn std::any::Any> = Box::new(5u32); check(a.is::<u32>() && a.downcast_ref::<u32>() == Some(&5), "2"); check(*a.downcast::<u32>().unwrap() == 5, "3"); let f: fn(u32) -> u32 = |x| x + 1; check(f(1) == 2, "4"); }
t_panic { check(catch(|| { let v: Vec<u32> = Vec::new(); let _ = v[0]; }), "1"); check(catch(|| { None::<u32>.unwrap(); }), "2"); check(catch(|| { Err::<u32, u32>(1).expect("x"); }), "3"); check(catch(|| { assert_eq!(1, 2, "no"); }), "4"); check(catch(|| { unreachable!("a {}", 1); }), "5"); check(!catch(|| { debug_assert!(true); assert!(1 < 2, "x {}", 3); }), "6"); check(std::panic::catch_unwind(|| { panic!("x"); }).is_err(), "7"); check(std::panic::catch_unwind(|| 5).is_ok(), "8"); check(!std::thread::panicking(), "9"); }
}
