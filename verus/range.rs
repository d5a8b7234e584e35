// The questions a range answers (src/range.rs), for every type with a lawful order and every kind of range.
//@ source src/range.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == Ordering::Less }
//@ include range.inc
fn main() {}
}
