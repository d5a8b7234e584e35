//! Contract of the sharing count, one operation at a time (how operations of several threads
//! interleave is outside of this: every operation is one atomic step on one word).
use super::super::*;
use crate::param::StrongCount;

fn held(n: usize) -> AtomicUsize { AtomicUsize::new(n) }
fn any_held() -> (usize, AtomicUsize) {
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= isize::MAX as usize);
    (n, held(n))
}
//@ props=C10,C12 tier=quick fn=cow::StrongCount::one,cow::StrongCount::count,cow::StrongCount::is_unique
#[kani::proof]
fn looks() {
    assert!(<AtomicUsize as StrongCount>::one().into_inner() == 1, "a new node is held once");
    let (n, c) = any_held();
    assert!(c.count() == n && c.is_unique() == (n == 1));
    assert!(c.into_inner() == n, "looking changes nothing");
    kani::cover!(n == 1, "unique");
    kani::cover!(n > 1, "shared");
}
//@ props=C10,C12 tier=quick fn=cow::StrongCount::increment
#[kani::proof]
fn taken() {
    let (n, c) = any_held();
    let _ = c.increment();
    assert!(c.count() == n + 1 && !c.is_unique(), "one holder more");
    kani::cover!(n > 1, "shared before");
}
//@ props=C10,C12 tier=quick fn=cow::StrongCount::increment
#[kani::proof] #[kani::should_panic]
fn too_many() {
    let n: usize = kani::any();
    kani::assume(n > isize::MAX as usize && n < usize::MAX);
    let c = held(n);
    kani::cover!(true, "reached");
    let _ = c.increment();
    kani::cover!(true, "never: more holders than can be counted");
    std::process::abort();
}
//@ props=C10,C12 tier=quick fn=cow::StrongCount::decrement
#[kani::proof]
fn given_back() {
    let (n, c) = any_held();
    let last = c.decrement();
    assert!(last == (n == 1), "true for the last holder only");
    assert!(c.into_inner() == n - 1, "one holder less");
    kani::cover!(last, "last");
    kani::cover!(!last, "others left");
}
//@ props=C12 tier=quick fn=cow::StrongCount::decrement,cow::StrongCount::is_unique
#[kani::proof]
fn not_counted() {
    // where sharing is off, the one holder always is the last
    let c = <() as StrongCount>::one();
    let _ = c.increment();
    assert!(c.count() == 1 && c.is_unique() && c.decrement());
    kani::cover!(true, "reached");
}
