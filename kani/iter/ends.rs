//! Contracts of an iterator's two ends: which ranges it accepts, and that the slices handed out from
//! the front and the back are those that overlap the range, each of them once.
use super::super::*;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;
use crate::NoCursor;

type S = U;
type P = NoFeatures;
type Bounds = (StartBound<H>, EndBound<H>);

fn any_bounds() -> Bounds {
    let s = if kani::any() { StartBound::Included(H::any()) } else { StartBound::Unbounded };
    let e = match kani::any::<u8>() % 3 {
        0 => EndBound::Included(H::any()),
        1 => EndBound::Excluded(H::any()),
        _ => EndBound::Unbounded,
    };
    (s, e)
}
/// What the documentation says may be asked for, for a tree of this size.
fn valid(b: Bounds, size: H) -> bool {
    let start_ok = match b.0 { StartBound::Included(i) => i < size, StartBound::Unbounded => true };
    let end_ok = match b.1 { EndBound::Included(i) => i < size, EndBound::Excluded(i) => i <= size, EndBound::Unbounded => true };
    let order = match b {
        (StartBound::Included(s), EndBound::Included(e)) => s <= e,
        (StartBound::Included(s), EndBound::Excluded(e)) => s < e,
        _ => true,
    };
    start_ok && end_ok && order
}
fn nothing_asked(b: Bounds, size: H) -> bool {
    match b.1 {
        EndBound::Included(_) => false,
        EndBound::Excluded(e) => b.0 == StartBound::Unbounded && e <= H::ZERO,
        EndBound::Unbounded => size <= H::ZERO,
    }
}

//@ props=C04,C14 tier=quick m=1 fn=Iter::new,range::starts_after_end,range::overlaps_naive,range::is_empty_naive
#[kani::proof]
#[kani::unwind(5)]
fn accepted() {
    let b = any_bounds();
    let size = H::any();
    kani::assume(valid(b, size));
    let root = any_leaf::<S, P, 1>(1, 1, 20);
    let it = Iter::<NoCursor, H, S, P, 1>::new(b, size, NoCursor, Some((node_handle(root, 0), &())));
    assert!(it.start == match b.0 { StartBound::Included(i) => i, _ => H::ZERO });
    match (it.end, b.1) {
        (IncludedOrExcludedBound::Included(i), EndBound::Included(j)) => assert!(i == j),
        (IncludedOrExcludedBound::Excluded(i), EndBound::Excluded(j)) => assert!(i == j),
        (IncludedOrExcludedBound::Excluded(i), EndBound::Unbounded) => assert!(i == size),
        _ => panic!("another kind of end"),
    }
    // empty exactly where the documentation says that it is
    assert!(it.state.is_none() == nothing_asked(b, size), "an iterator over nothing touches nothing");
    if let Some(s) = &it.state { assert!(s.fwd.is_none() && s.bkwd.is_none() && s.cursor.is_some() && handle_ptr(&s.root) == root) }
    kani::cover!(it.state.is_none());
    kani::cover!(it.state.is_some());
}
//@ props=C04,C14 tier=quick m=1 fn=Iter::new,range::starts_after_end,range::overlaps_naive
#[kani::proof]
#[kani::unwind(5)]
#[kani::should_panic]
fn refused() {
    let b = any_bounds();
    let size = H::any();
    kani::assume(!valid(b, size));
    kani::cover!(matches!(b, (StartBound::Included(_), EndBound::Unbounded)));
    kani::cover!(matches!(b, (StartBound::Unbounded, EndBound::Excluded(_))));
    kani::cover!(matches!(b, (StartBound::Included(_), EndBound::Excluded(_))));
    let root = any_leaf::<S, P, 1>(1, 1, 20);
    let it = Iter::<NoCursor, H, S, P, 1>::new(b, size, NoCursor, Some((node_handle(root, 0), &())));
    kani::cover!(true, "never: a range out of bounds was accepted");
    std::mem::forget(it);
}

/// One step of an iterator over a leaf that is the whole tree, in any range that is not refused:
/// what the front handed out last is `f`, what the back handed out last is `r`, if anything.
fn one<const M: usize, const N: usize>(len: u8, f: Option<u8>, r: Option<u8>, front: bool) {
    let root = any_leaf::<S, P, M>(len, len, 20);
    let v: View<N> = view(root);
    let b = any_bounds();
    kani::assume(valid(b, v.total) && !nothing_asked(b, v.total));
    let start = match b.0 { StartBound::Included(s) => s, _ => H::ZERO };
    let end = match b.1 {
        EndBound::Included(i) => IncludedOrExcludedBound::Included(i),
        EndBound::Excluded(i) => IncludedOrExcludedBound::Excluded(i),
        EndBound::Unbounded => IncludedOrExcludedBound::Excluded(v.total),
    };
    let (IncludedOrExcludedBound::Included(e) | IncludedOrExcludedBound::Excluded(e)) = end;
    // the slices that overlap the range
    let (mut lo, mut hi) = (N as u8, 0);
    for i in 0..N {
        if (i as u8) < len {
            let to = v.pos[i].cat(v.w[i]);
            // where a slice starts there is one index of that length
            for x in [start, e] {
                kani::assume(x.n() != v.pos[i].n() || x == v.pos[i]);
                kani::assume(x.n() != to.n() || x == to);
            }
            let from = match b.0 { StartBound::Included(s) => s < to, _ => true };
            let upto = match b.1 { EndBound::Included(e) => v.pos[i] <= e, EndBound::Excluded(e) => v.pos[i] < e, _ => true };
            if from && upto {
                if lo > i as u8 { lo = i as u8 }
                hi = i as u8 + 1;
            }
        }
    }
    let at = |i: u8| IterStack {
        stack: Vec::new(),
        root_height: 0,
        head: slice_handle(root, 0, i),
        end_pos: v.pos[i as usize].cat(v.w[i as usize]),
    };
    if let Some(f) = f { kani::assume(lo <= f && f < hi); lo = f + 1 }
    if let Some(r) = r { kani::assume(lo <= r && r < hi); hi = r }
    let mut it = Iter::<NoCursor, H, S, P, M> {
        start,
        end,
        state: Some(IterState { store: &(), root: node_handle(root, 0), cursor: Some(NoCursor), fwd: f.map(&at), bkwd: r.map(&at) }),
    };
    let got = if front { it.next() } else { it.next_back() };
    let i = if front { lo } else { hi.wrapping_sub(1) };
    match got {
        Some(e) => {
            assert!(lo < hi, "nothing beyond the range, and nothing twice");
            assert!(e.slice.idx == i && handle_ptr(&e.slice.node) == root, "the next slice from that end");
            let (p, w) = (v.pos[i as usize], v.w[i as usize]);
            assert!(e.range_start == p && e.range_end == p.cat(w), "its range");
            assert!(e.slice().word() == w && e.range() == (p..p.cat(w)) && e.size() == w);
            let s = it.state.as_ref().expect("goes on");
            let (moved, other, was) = if front { (&s.fwd, &s.bkwd, r) } else { (&s.bkwd, &s.fwd, f) };
            let m = moved.as_ref().unwrap();
            assert!(m.head.idx == i && m.end_pos == p.cat(w) && m.stack.len() == 0);
            assert!(other.as_ref().map(|o| o.head.idx) == was, "the other end stays");
        }
        None => {
            assert!(lo == hi, "every slice in the range is handed out");
            assert!(it.state.is_none());
        }
    }
    kani::cover!(true, "answered");
    std::mem::forget(it);
}
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_1_next() { one::<1, 2>(1, None, None, true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_1_back() { one::<1, 2>(1, None, None, false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_2_next() { one::<1, 2>(2, None, None, true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_2_back() { one::<1, 2>(2, None, None, false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_first_next() { one::<1, 2>(2, Some(0), None, true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_first_back() { one::<1, 2>(2, Some(0), None, false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_last_next() { one::<1, 2>(2, Some(1), None, true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_last_back() { one::<1, 2>(2, Some(1), None, false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn ended_last_next() { one::<1, 2>(2, None, Some(1), true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn ended_last_back() { one::<1, 2>(2, None, Some(1), false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn ended_first_next() { one::<1, 2>(2, None, Some(0), true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn ended_first_back() { one::<1, 2>(2, None, Some(0), false) }
//@ props=C04 tier=quick m=1 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn met_next() { one::<1, 2>(2, Some(0), Some(1), true) }
//@ props=C04 tier=quick m=1 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn met_back() { one::<1, 2>(2, Some(0), Some(1), false) }
//@ props=C04 tier=thorough m=2 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_4_next() { one::<2, 4>(4, None, None, true) }
//@ props=C04 tier=thorough m=2 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn fresh_4_back() { one::<2, 4>(4, None, None, false) }
//@ props=C04 tier=thorough m=2 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_4_next() { one::<2, 4>(4, Some(1), None, true) }
//@ props=C04 tier=thorough m=2 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn begun_4_back() { one::<2, 4>(4, Some(1), None, false) }
//@ props=C04 tier=thorough m=2 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn between_4_next() { one::<2, 4>(4, Some(0), Some(3), true) }
//@ props=C04 tier=thorough m=2 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn between_4_back() { one::<2, 4>(4, Some(0), Some(3), false) }
//@ props=C04 tier=thorough m=2 fn=Iter::next,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn met_4_next() { one::<2, 4>(4, Some(1), Some(2), true) }
//@ props=C04 tier=thorough m=2 fn=Iter::next_back,SliceEntry::range,SliceEntry::size,SliceEntry::slice
#[kani::proof] #[kani::unwind(7)] fn met_4_back() { one::<2, 4>(4, Some(1), Some(2), false) }

/// Without a tree there is nothing, and nothing but `..`, `..0` may be asked for.
//@ props=C04,C14 tier=quick m=1 fn=Iter::new,Iter::next,Iter::next_back
#[kani::proof]
#[kani::unwind(5)]
fn no_tree() {
    let b = any_bounds();
    kani::assume(valid(b, H::ZERO));
    let mut it = Iter::<NoCursor, H, S, P, 1>::new(b, H::ZERO, NoCursor, None);
    assert!(it.next().is_none() && it.next_back().is_none() && it.next().is_none());
    kani::cover!(true, "reached");
}
