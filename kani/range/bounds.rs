//! Contracts of the range vocabulary. `u8` stands for any totally ordered type: the functions are
//! generic, loop-free and only compare, and no more than six values take part in any of them, so a
//! type with 256 values realises every outcome of every comparison. Unbounded sides are given a
//! point beyond all values, which is how the documentation describes them.
use super::super::*;

/// A value, or the point before (`None`-side -1) or after (256) every value.
type Ext = i16;

#[derive(Copy, Clone)]
enum Lo { Inc(u8), Unb }
#[derive(Copy, Clone)]
enum Hi { Inc(u8), Exc(u8), Unb }

fn inside(lo: Lo, hi: Hi, v: Ext) -> bool {
    (match lo { Lo::Inc(x) => x as Ext <= v, Lo::Unb => true }) && (match hi { Hi::Inc(y) => v <= y as Ext, Hi::Exc(y) => v < y as Ext, Hi::Unb => true })
}
fn any_ext() -> Ext {
    let v: Ext = kani::any();
    kani::assume(v >= -1 && v <= 256);
    v
}
/// the least point a range with this lower bound could hold
fn low(lo: Lo) -> Ext { match lo { Lo::Inc(x) => x as Ext, Lo::Unb => -1 } }

/// The bounds a range reports are the ones its notation has, and everything decided from them
/// agrees with the set of points it denotes.
fn meaning<R: RangeBounds<u8>>(r: &R, lo: Lo, hi: Hi) {
    match (r.start_bound(), lo) {
        (StartBound::Included(x), Lo::Inc(y)) => assert!(*x == y, "start bound value"),
        (StartBound::Unbounded, Lo::Unb) => (),
        _ => assert!(false, "kind of start bound"),
    }
    match (r.end_bound(), hi) {
        (EndBound::Included(x), Hi::Inc(y)) => assert!(*x == y, "end bound value"),
        (EndBound::Excluded(x), Hi::Exc(y)) => assert!(*x == y, "end bound value"),
        (EndBound::Unbounded, Hi::Unb) => (),
        _ => assert!(false, "kind of end bound"),
    }
    let v: u8 = kani::any();
    assert!(r.contains(&v) == inside(lo, hi, v as Ext), "contains agrees with the notation");
    let empty = r.is_empty_naive();
    let e = any_ext();
    if inside(lo, hi, e) { assert!(!empty, "a range with a point is not empty"); }
    if !empty { assert!(inside(lo, hi, low(lo)), "a non-empty range has a point"); }
    let both = matches!(lo, Lo::Inc(_)) && !matches!(hi, Hi::Unb);
    assert!(r.starts_after_end() == (both && !inside(lo, hi, low(lo))), "reversed exactly when bounded on both sides and without a point");
    kani::cover!(empty || !both);
    kani::cover!(!empty);
}
fn overlap<R: RangeBounds<u8>, Q: RangeBounds<u8>>(r: &R, lo: Lo, hi: Hi, q: Q, lo2: Lo, hi2: Hi) {
    let got = r.overlaps_naive(q);
    let e = any_ext();
    if inside(lo, hi, e) && inside(lo2, hi2, e) { assert!(got, "ranges with a common point overlap"); }
    if got {
        let (a, b) = (low(lo), low(lo2));
        let m = if a > b { a } else { b };
        assert!(inside(lo, hi, m) && inside(lo2, hi2, m), "overlapping ranges have a common point");
    }
    kani::cover!(got);
}
fn lo() -> Lo { if kani::any() { Lo::Inc(kani::any()) } else { Lo::Unb } }
fn hi() -> Hi { match kani::any::<u8>() % 3 { 0 => Hi::Inc(kani::any()), 1 => Hi::Exc(kani::any()), _ => Hi::Unb } }
fn sb(l: Lo) -> StartBound<u8> { match l { Lo::Inc(x) => StartBound::Included(x), Lo::Unb => StartBound::Unbounded } }
fn eb(h: Hi) -> EndBound<u8> { match h { Hi::Inc(x) => EndBound::Included(x), Hi::Exc(x) => EndBound::Excluded(x), Hi::Unb => EndBound::Unbounded } }

//@ props=C16 m=- fn=range::RangeBounds::contains,range::RangeBounds::is_empty_naive,range::RangeBounds::starts_after_end,range::(StartBound,EndBound)::bounds,range::StartBound::as_ref,range::EndBound::as_ref
#[kani::proof] fn pair() { let (l, h) = (lo(), hi()); meaning(&(sb(l), eb(h)), l, h); }
//@ props=C16 m=- fn=range::(StartBound<&T>,EndBound<&T>)::bounds
#[kani::proof] fn pair_of_refs() {
    let (l, h) = (lo(), hi());
    let (s, e) = (sb(l), eb(h));
    meaning(&(s.as_ref(), e.as_ref()), l, h);
}
//@ props=C16 m=- fn=range::<&R>::bounds
#[kani::proof] fn by_ref() { let (l, h) = (lo(), hi()); meaning(&&(sb(l), eb(h)), l, h); }
//@ props=C16 m=- fn=range::StartBound::cloned,range::EndBound::cloned
#[kani::proof] fn cloned() {
    let (l, h) = (lo(), hi());
    meaning(&(sb(l).as_ref().cloned(), eb(h).as_ref().cloned()), l, h);
}
//@ props=C16 m=- fn=range::Range::bounds
#[kani::proof] fn half_open() { let (a, b): (u8, u8) = kani::any(); meaning(&(a..b), Lo::Inc(a), Hi::Exc(b)); meaning(&(&a..&b), Lo::Inc(a), Hi::Exc(b)); }
//@ props=C16 m=- fn=range::RangeInclusive::bounds
#[kani::proof] fn closed() { let (a, b): (u8, u8) = kani::any(); meaning(&(a..=b), Lo::Inc(a), Hi::Inc(b)); meaning(&(&a..=&b), Lo::Inc(a), Hi::Inc(b)); }
//@ props=C16 m=- fn=range::RangeFrom::bounds
#[kani::proof] fn from() { let a: u8 = kani::any(); meaning(&(a..), Lo::Inc(a), Hi::Unb); meaning(&(&a..), Lo::Inc(a), Hi::Unb); }
//@ props=C16 m=- fn=range::RangeTo::bounds
#[kani::proof] fn to() { let b: u8 = kani::any(); meaning(&(..b), Lo::Unb, Hi::Exc(b)); meaning(&(..&b), Lo::Unb, Hi::Exc(b)); }
//@ props=C16 m=- fn=range::RangeToInclusive::bounds
#[kani::proof] fn to_inclusive() { let b: u8 = kani::any(); meaning(&(..=b), Lo::Unb, Hi::Inc(b)); meaning(&(..=&b), Lo::Unb, Hi::Inc(b)); }
//@ props=C16 m=- fn=range::RangeFull::bounds
#[kani::proof] fn full() { meaning(&(..), Lo::Unb, Hi::Unb); }
//@ props=C16 m=- fn=range::RangeBounds::overlaps_naive
#[kani::proof] fn overlaps() {
    let (l, h, l2, h2) = (lo(), hi(), lo(), hi());
    overlap(&(sb(l), eb(h)), l, h, (sb(l2), eb(h2)), l2, h2);
}
//@ props=C16 m=- fn=range::RangeBounds::overlaps_naive
#[kani::proof] fn overlaps_mixed() {
    let (a, b, c, d): (u8, u8, u8, u8) = kani::any();
    overlap(&(a..b), Lo::Inc(a), Hi::Exc(b), c..=d, Lo::Inc(c), Hi::Inc(d));
    overlap(&(..=b), Lo::Unb, Hi::Inc(b), &(c..), Lo::Inc(c), Hi::Unb);
    overlap(&(a..=b), Lo::Inc(a), Hi::Inc(b), .., Lo::Unb, Hi::Unb);
    overlap(&(..b), Lo::Unb, Hi::Exc(b), c..d, Lo::Inc(c), Hi::Exc(d));
}
