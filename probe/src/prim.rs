//! Primitives with a meaning only to the analyser.
#[inline(never)] pub fn nondet() -> bool { loop {} }
/// any value of the type
#[inline(never)] pub fn any_u32() -> u32 { loop {} }
/// any index a bit set can hold (< 2^24)
#[inline(never)] pub fn any_index() -> u32 { loop {} }
#[inline(never)] pub fn any_usize(lo: usize, hi: usize) -> usize { loop {} }
#[inline(never)] pub fn any_i64(lo: i64, hi: i64) -> i64 { loop {} }
#[inline(never)] pub fn assume(_b: bool) {}
/// an obligation: must be true in every abstract state
#[inline(never)] pub fn check(_b: bool, _msg: &'static str) {}
/// the property is violated when this is reachable
#[inline(never)] pub fn fail(_msg: &'static str) -> ! { loop {} }
/// make `k` a tracked key: containers stay exact at tracked keys and are summarised elsewhere
#[inline(never)] pub fn track(_k: u32) {}
/// is `k` (equal to) a tracked key; splits the state when it is open
#[inline(never)] pub fn tracked(_k: u32) -> bool { loop {} }
/// is `k` tracked key number `i`
#[inline(never)] pub fn is_key(_k: u32, _i: u32) -> bool { loop {} }
#[inline(never)] fn try_call<F>(_g: fn(F), _f: F) -> bool { loop {} }
fn call_it<F: FnOnce()>(f: F) { f() }
/// run `f`; true when it panicked
pub fn catch<F: FnOnce()>(f: F) -> bool { try_call::<F>(call_it::<F>, f) }
/// a panic raised by user code
#[inline(never)] pub fn user_panic() -> ! { loop {} }
/// end of an irrelevant path
#[inline(never)] pub fn stop() -> ! { loop {} }
/// start of a new client operation
#[inline(never)] pub fn begin() {}
/// ghost registers
#[inline(never)] pub fn gget(_i: u32) -> i64 { loop {} }
#[inline(never)] pub fn gset(_i: u32, _v: i64) {}
/// any set of indexes
#[inline(never)] pub fn any_bitset() -> goggles::hibitset::BitSet { loop {} }
#[inline(never)] pub fn any_atomic_bitset() -> goggles::hibitset::AtomicBitSet { loop {} }
/// an arbitrary value of a plain-data type
#[inline(never)] pub fn havoc<T>() -> T { loop {} }
/// two references are the same place
#[inline(never)] pub fn same<T: ?Sized>(_a: *const T, _b: *const T) -> bool { loop {} }
/// does the bit set iterator somewhere inside `p` still own the tracked key 0
#[inline(never)] pub fn piece_has<T>(_p: &T) -> bool { loop {} }
#[inline(never)] fn share<F>(_g: fn(*mut F), _f: *mut F, _n: usize) {}
#[inline(never)] fn unshare() {}
fn run_env<F: FnMut()>(f: *mut F) { unsafe { (*f)() } }
/// run `f` while other threads do up to `n` operations (each a run of `env`), before any of its atomic steps
pub fn shared<F: FnOnce(), G: FnMut()>(n: usize, f: F, mut env: G) {
    share::<G>(run_env::<G>, &mut env, n);
    f();
    unshare();
}
/// states that meet here are joined
pub fn settle() { loop { if nondet() { break; } } }
