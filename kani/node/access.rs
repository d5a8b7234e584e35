//! Contracts of what a node says about itself: positions, sizes, parents, holes.
use super::super::*;
use super::lib::*;
use crate::param::{AllowCow, AllowSliceRefs, NoFeatures};

fn positions<const M: usize, const N: usize>() {
    type P = NoFeatures;
    let height = any_height();
    let p = any_internal::<U, P, M>(1, 2 * M as u8, 20, |_| any_child(20));
    let v: View<N> = view_internal(p, true);
    let h = internal_handle::<borrow::Immut, U, P, M>(p, height);
    let i: u8 = kani::any();
    kani::assume(i <= v.len);
    let before = if i == 0 { H::ZERO } else { v.pos[i as usize - 1].cat(v.w[i as usize - 1]) };
    unsafe {
        assert!(h.child_pos(i) == before, "a child starts where the slice before it ends");
        assert!(h.child_size(i) == v.child(i as usize) && h.try_child_size(i) == Some(v.child(i as usize)), "size of a child");
        assert!(handle_ptr(&h.child(i)) == child_ptr(p, i as usize) && h.child(i).height() == height - 1, "child");
        assert!(handle_ptr(&h.into_child(i)) == child_ptr(p, i as usize) && h.into_child(i).height() == height - 1, "child");
        let (up, at) = h.into_child(i).into_parent().ok().unwrap();
        assert!(handle_ptr(&up) == p && up.height() == height && at == i, "up again");
    }
    assert!(h.leaf().try_key_pos(i) == if i < v.len { Some(v.pos[i as usize]) } else { None }, "position of a slice, if there is one");
    assert!(h.leaf().subtree_size() == v.total && h.leaf().len() == v.len && h.leaf().max_len() as usize == 2 * M);
    if i < v.len {
        let s = slice_handle::<borrow::Immut, U, P, M>(p, height, i);
        assert!(s.key_pos() == v.pos[i as usize], "position of a slice");
        assert!(s.slice_size() == v.w[i as usize], "size of a slice");
        assert!(s.into_ref().w == v.w[i as usize], "the slice itself");
    }
    kani::cover!(v.len as usize == 2 * M && i == v.len);
    kani::cover!(v.len as usize == 2 * M && i == 0);
}
//@ props=C02,C03,C15 tier=quick m=1 fn=tree::node::NodeHandle::child_pos,tree::node::NodeHandle::child_size,tree::node::NodeHandle::try_child_size,tree::node::NodeHandle::child,tree::node::NodeHandle::into_child,tree::node::NodeHandle::into_parent,tree::node::SliceHandle::slice_size,tree::node::SliceHandle::key_pos,tree::node::SliceHandle::into_ref,tree::node::Leaf::try_key_pos
#[kani::proof] #[kani::unwind(5)] fn positions_1() { positions::<1, 2>() }
//@ props=C02,C03,C15 tier=quick m=2 fn=tree::node::NodeHandle::child_pos,tree::node::NodeHandle::child_size,tree::node::NodeHandle::try_child_size,tree::node::NodeHandle::child,tree::node::NodeHandle::into_child,tree::node::NodeHandle::into_parent,tree::node::SliceHandle::slice_size,tree::node::SliceHandle::key_pos,tree::node::SliceHandle::into_ref,tree::node::Leaf::try_key_pos
#[kani::proof] #[kani::unwind(7)] fn positions_2() { positions::<2, 4>() }

fn leaf_positions<const M: usize, const N: usize>() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, M>(1, 2 * M as u8, 20);
    let v: View<N> = view(p);
    let i: u8 = kani::any();
    kani::assume(i < v.len);
    let s = slice_handle::<borrow::Immut, U, P, M>(p, 0, i);
    assert!(s.key_pos() == v.pos[i as usize] && s.slice_size() == v.w[i as usize] && s.into_ref().w == v.w[i as usize], "a slice of a leaf");
    let h = leaf_handle::<borrow::Immut, U, P, M>(p);
    assert!(unsafe { h.try_child_size(i) } == None && unsafe { h.leaf().key_pos(i) } == v.pos[i as usize]);
    assert!(h.into_parent().is_err(), "no parent");
    kani::cover!(v.len as usize == 2 * M && i == v.len - 1);
}
//@ props=C02,C03,C15 tier=quick m=2 fn=tree::node::SliceHandle::slice_size,tree::node::SliceHandle::key_pos,tree::node::SliceHandle::into_ref,tree::node::Leaf::key_pos
#[kani::proof] #[kani::unwind(6)] fn leaf_positions_2() { leaf_positions::<2, 4>() }
//@ props=C02,C03,C15 tier=quick m=3 fn=tree::node::SliceHandle::slice_size,tree::node::SliceHandle::key_pos,tree::node::SliceHandle::into_ref,tree::node::Leaf::key_pos
#[kani::proof] #[kani::unwind(8)] fn leaf_positions_3() { leaf_positions::<3, 6>() }

/// What a reference reports as its range: every position on the way to the root, on the correct
/// side. Two levels up; the loop does the same thing on every level.
//@ props=C08,C15 tier=quick m=1 fn=tree::node::SliceHandle::range
#[kani::proof] #[kani::unwind(5)]
fn range_of_reference_1() {
    type P = AllowSliceRefs;
    const M: usize = 1;
    let (i, j): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= 2 && j <= 2);
    let leaf = any_leaf::<U, P, M>(1, 2, 20);
    let l: View<2> = view(leaf);
    let mid = any_internal::<U, P, M>(i.max(1) as u8, 2, 20, |k| if k == i { leaf } else { any_child(20) });
    let root = any_internal::<U, P, M>(j.max(1) as u8, 2, 20, |k| if k == j { mid } else { any_child(20) });
    set_parent::<U, P, M>(root, None);
    let m: View<2> = view_internal(mid, true);
    let r: View<2> = view_internal(root, true);
    let start = |v: &View<2>, k: usize| if k == 0 { H::ZERO } else { v.pos[k - 1].cat(v.w[k - 1]) };
    let k: u8 = kani::any();
    kani::assume(k < l.len);
    let s = slice_handle::<borrow::SliceRef, U, P, M>(leaf, 0, k).range();
    let want = start(&r, j).cat(start(&m, i)).cat(l.pos[k as usize]);
    assert!(s.start == want && s.end == want.cat(l.w[k as usize]), "where the slice is");
    kani::cover!(i == 2 && j == 1 && k == 1);
    kani::cover!(i == 0 && j == 2);
}

/// Taking a slice out leaves a hole that everyone can see, filling it removes exactly that hole.
fn holes<const M: usize, const N: usize>() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, M>(1, 2 * M as u8, 20);
    let v: View<N> = view(p);
    // at most one hole so far, anywhere
    let first: u8 = kani::any();
    let had = kani::any();
    kani::assume(first < v.len);
    if had { set_holes::<U, P, M>(p, [None, NonZeroU8::new(first + 1)]) }
    let k: u8 = kani::any();
    kani::assume(k < v.len && !(had && k == first));
    let mut s = slice_handle::<borrow::Mut, U, P, M>(p, 0, k);
    let out = s.take_value_and_leave_hole();
    assert!(out.w == v.w[k as usize], "the slice asked for");
    let l = unsafe { leaf_at::<U, P, M>(p) };
    assert!(l.has_holes());
    for i in 0..N as u8 {
        if i < v.len { assert!(unsafe { l.is_hole(i) } == (i == k || had && i == first), "holes are where slices are missing, nowhere else") }
    }
    let hs = holes_of::<U, P, M>(p);
    assert!(hs[1].is_some() && (hs[0].is_none() || hs[0] < hs[1]), "holes in order");
    let w = H::any_size(20);
    if had && kani::any() {
        // the other one first
        slice_handle::<borrow::Mut, U, P, M>(p, 0, first).fill_hole(U { w: v.w[first as usize] });
        let l = unsafe { leaf_at::<U, P, M>(p) };
        for i in 0..N as u8 {
            if i < v.len { assert!(unsafe { l.is_hole(i) } == (i == k), "filling one leaves the other") }
        }
        set_holes::<U, P, M>(p, [None, NonZeroU8::new(k + 1)]);
        s.fill_hole(U { w });
        assert!(!unsafe { leaf_at::<U, P, M>(p) }.has_holes() && holes_of::<U, P, M>(p) == [None; 2], "no holes left");
    } else {
        s.fill_hole(U { w });
        assert!(holes_of::<U, P, M>(p) == if had { [None, NonZeroU8::new(first + 1)] } else { [None; 2] }, "the other hole stays");
    }
    let o: View<N> = view(p);
    for i in 0..N {
        if (i as u8) < v.len { assert!(o.pos[i] == v.pos[i] && o.w[i] == if i as u8 == k { w } else { v.w[i] }, "only the value taken changes") }
    }
    assert!(o.len == v.len && o.total == v.total);
    kani::cover!(had && k < first);
    kani::cover!(had && k > first);
    kani::cover!(!had);
}
//@ props=C12,C13 tier=quick m=1 fn=tree::node::SliceHandle::take_value_and_leave_hole,tree::node::SliceHandle::fill_hole,tree::node::Leaf::is_hole,tree::node::Leaf::has_holes
#[kani::proof] #[kani::unwind(4)] fn holes_1() { holes::<1, 2>() }
//@ props=C12,C13 tier=quick m=2 fn=tree::node::SliceHandle::take_value_and_leave_hole,tree::node::SliceHandle::fill_hole,tree::node::Leaf::is_hole,tree::node::Leaf::has_holes
#[kani::proof] #[kani::unwind(6)] fn holes_2() { holes::<2, 4>() }
//@ props=C12,C13 tier=quick m=3 fn=tree::node::SliceHandle::take_value_and_leave_hole,tree::node::SliceHandle::fill_hole,tree::node::Leaf::is_hole,tree::node::Leaf::has_holes
#[kani::proof] #[kani::unwind(8)] fn holes_3() { holes::<3, 6>() }

/// Taking a slice that is a hole, or a third one, panics; so does filling what is not a hole,
/// reading a hole.
//@ props=C13 tier=quick m=2 fn=tree::node::SliceHandle::take_value_and_leave_hole,tree::node::SliceHandle::fill_hole,tree::node::SliceHandle::into_ref
#[kani::proof] #[kani::unwind(6)] #[kani::should_panic]
fn holes_misused_2() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, 2>(3, 4, 20);
    let (a, b, k): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    let len = unsafe { leaf_at::<U, P, 2>(p) }.len;
    kani::assume(a < b && b < len && k < len);
    let two = kani::any();
    set_holes::<U, P, 2>(p, [if two { NonZeroU8::new(a + 1) } else { None }, NonZeroU8::new(b + 1)]);
    let is = k == b || (two && k == a);
    let mut s = slice_handle::<borrow::Mut, U, P, 2>(p, 0, k);
    let what: u8 = kani::any();
    if what == 0 {
        kani::assume(is || two);
        kani::cover!(is && !two);
        kani::cover!(!is && two);
        s.take_value_and_leave_hole();
    } else if what == 1 {
        kani::assume(!is);
        kani::cover!(two);
        s.fill_hole(U { w: H(8) });
    } else {
        kani::assume(is);
        kani::cover!(!two);
        slice_handle::<borrow::Immut, U, P, 2>(p, 0, k).into_ref();
    }
    kani::cover!(true, "never: the call returned");
}

/// `with_slice` runs the function once on the slice and puts back what it leaves.
//@ props=C13 tier=quick m=2 fn=tree::node::SliceHandle::with_slice
#[kani::proof] #[kani::unwind(6)]
fn with_slice_2() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, 2>(1, 4, 20);
    let v: View<4> = view(p);
    let k: u8 = kani::any();
    kani::assume(k < v.len);
    let w = H::any_size(20);
    let mut ran = 0;
    let got = slice_handle::<borrow::Mut, U, P, 2>(p, 0, k).with_slice(|s| {
        ran += 1;
        assert!(s.w == v.w[k as usize]);
        // while it is out, the node says so
        assert!(unsafe { leaf_at::<U, P, 2>(p).is_hole(k) });
        s.w = w;
        7
    });
    assert!(got == 7 && ran == 1);
    let o: View<4> = view(p);
    for i in 0..4 {
        if (i as u8) < v.len { assert!(o.pos[i] == v.pos[i] && o.w[i] == if i as u8 == k { w } else { v.w[i] }) }
    }
    assert!(holes_of::<U, P, 2>(p) == [None; 2] && o.total == v.total && o.len == v.len);
    kani::cover!(k == 3);
}
