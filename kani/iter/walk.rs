//! Contracts of what an iterator does between two slices, and of how it finds its first one.
//!
//! An iterator's position is right if its head is the `k`th slice of the tree in order, its end
//! position the sum of everything up to and including that slice, and its stack lists exactly those
//! nodes on the way from the root whose child towards the head records another parent.
use super::super::*;
use crate::param::{AllowCow, NoFeatures};
use crate::tree::node::verif::lib::*;
use crate::{DirectionalSub, PathComponent};

type S = U;
/// The stack a position in this node has.
fn stack<'t, P: RleTreeConfig<H, S, 1>>(t: &Three<P>, p: NP<S, P, 1>) -> Vec<(NodeHandle<ty::Unknown, borrow::Immut<'t>, H, S, P, 1>, u8)> {
    let mut v = Vec::new();
    let way = t.way(p);
    for j in 0..2 {
        if let Some((from, i, to)) = way[j] {
            if parent_of::<S, P, 1>(to) != Some((from, i)) { v.push((node_handle(from, 2 - j as u8), i)) }
        }
    }
    v
}
fn position<'t, P: RleTreeConfig<H, S, 1>>(t: &Three<P>, k: usize) -> IterStack<'t, H, S, P, 1> {
    let ((p, h, i), end) = t.nth(k);
    IterStack { stack: stack(t, p), root_height: 2, head: slice_handle(p, h, i), end_pos: end }
}
fn is_at<P: RleTreeConfig<H, S, 1>>(t: &Three<P>, s: &IterStack<H, S, P, 1>, k: usize) {
    let ((p, h, i), end) = t.nth(k);
    assert!(handle_ptr(&s.head.node) == p && s.head.node.height() == h && s.head.idx == i, "the next slice in order");
    assert!(s.end_pos == end, "where that slice ends");
    let want = stack(t, p);
    assert!(s.stack.len() == want.len(), "the stack has what the nodes do not know, and nothing else");
    for j in 0..2 {
        if j < want.len() {
            let ((a, ai), (b, bi)) = (&s.stack[j], &want[j]);
            assert!(handle_ptr(a) == handle_ptr(b) && a.height() == b.height() && ai == bi);
        }
    }
    std::mem::forget(want);
}

fn there<P: RleTreeConfig<H, S, 1>>(lens: [u8; 4], k: usize) {
    let t = Three::<P>::any(lens);
    let mut s = position(&t, k);
    s.fwd_step();
    is_at(&t, &s, k + 1);
    kani::cover!(s.stack.len() == 0);
    std::mem::forget(s);
}
fn back<P: RleTreeConfig<H, S, 1>>(lens: [u8; 4], k: usize) {
    let t = Three::<P>::any(lens);
    let mut s = position(&t, k + 1);
    s.bkwd_step();
    is_at(&t, &s, k);
    kani::cover!(s.stack.len() == 0);
    std::mem::forget(s);
}

//@ props=C04,C03 tier=quick m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn fwd_in_leaf() { there::<NoFeatures>([2, 1, 1, 1], 0) }
//@ props=C04,C03 tier=quick m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn fwd_up() { there::<NoFeatures>([2, 1, 1, 1], 1) }
//@ props=C04,C03 tier=quick m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn fwd_down() { there::<NoFeatures>([2, 1, 1, 1], 2) }
//@ props=C04,C03 tier=quick m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn fwd_up_up() { there::<NoFeatures>([2, 1, 1, 1], 3) }
//@ props=C04,C03 tier=quick m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn fwd_down_down() { there::<NoFeatures>([2, 1, 1, 1], 4) }
//@ props=C04 tier=quick m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn bkwd_in_leaf() { back::<NoFeatures>([1, 2, 1, 2], 2) }
//@ props=C04 tier=quick m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn bkwd_up() { back::<NoFeatures>([1, 2, 1, 2], 1) }
//@ props=C04 tier=quick m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn bkwd_down() { back::<NoFeatures>([1, 2, 1, 2], 0) }
//@ props=C04 tier=quick m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn bkwd_down_down() { back::<NoFeatures>([1, 2, 1, 2], 3) }
//@ props=C04 tier=quick m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn bkwd_up_up() { back::<NoFeatures>([1, 2, 1, 2], 4) }

//@ props=C04,C10 tier=thorough m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_fwd_up() { there::<AllowCow>([1, 1, 1, 1], 0) }
//@ props=C04,C10 tier=thorough quick=C10 m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_fwd_down() { there::<AllowCow>([1, 1, 1, 1], 1) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_fwd_up_up() { there::<AllowCow>([1, 1, 1, 1], 2) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::fwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_fwd_down_down() { there::<AllowCow>([1, 1, 1, 1], 3) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_bkwd_down() { back::<AllowCow>([1, 1, 1, 1], 0) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_bkwd_up() { back::<AllowCow>([1, 1, 1, 1], 1) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_bkwd_down_down() { back::<AllowCow>([1, 1, 1, 1], 2) }
//@ props=C04,C10 tier=thorough m=1 fn=IterStack::bkwd_step
#[kani::proof] #[kani::unwind(5)] fn shared_bkwd_up_up() { back::<AllowCow>([1, 1, 1, 1], 3) }

/// Finding the slice at (`before`: just before) a position in the `k`th slice.
fn locate<P: RleTreeConfig<H, S, 1>>(lens: [u8; 4], k: usize, before: bool) {
    let t = Three::<P>::any(lens);
    let (target, _) = t.inside(k, before);
    let target = if before { IncludedOrExcludedBound::Excluded(target) } else { IncludedOrExcludedBound::Included(target) };
    let c = if kani::any() { Some(AnyHints(kani::any())) } else { None };
    let s = Iter::<AnyHints, H, S, P, 1>::make_stack(node_handle(t.root, 2), c, target);
    assert!(s.root_height == 2);
    is_at(&t, &s, k);
    kani::cover!(s.stack.len() == 0);
    std::mem::forget(s);
}
//@ props=C04,C06,C15 tier=thorough quick=C04 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn first_of_all() { locate::<NoFeatures>([2, 1, 1, 1], 0, false) }
//@ props=C04,C06,C15 tier=thorough quick=C04 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn last_of_all() { locate::<NoFeatures>([1, 1, 1, 2], 7, true) }
//@ props=C04,C06,C15 tier=thorough quick=C04 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn at_root_key() { locate::<NoFeatures>([1, 1, 1, 1], 3, false) }
//@ props=C04,C06,C15 tier=thorough m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn before_root_key_end() { locate::<NoFeatures>([1, 1, 1, 1], 3, true) }
//@ props=C04,C06,C15 tier=thorough m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn at_mid_key() { locate::<NoFeatures>([1, 1, 1, 1], 5, false) }
//@ props=C04,C06,C15 tier=thorough quick=C04,C15 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn before_mid_key_end() { locate::<NoFeatures>([1, 1, 1, 1], 5, true) }
//@ props=C04,C06,C15 tier=thorough quick=C04,C06 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn at_right_leaf() { locate::<NoFeatures>([1, 1, 2, 1], 5, false) }
//@ props=C04,C06,C15 tier=thorough m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn before_left_leaf_end() { locate::<NoFeatures>([1, 2, 1, 1], 3, true) }
//@ props=C04,C06,C10 tier=thorough quick=C10 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn shared_at_leaf() { locate::<AllowCow>([1, 1, 1, 1], 4, false) }
//@ props=C04,C06,C10 tier=thorough m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn shared_before_leaf_end() { locate::<AllowCow>([1, 1, 1, 1], 2, true) }
//@ props=C04,C06,C10 tier=thorough quick=C04 m=1 fn=Iter::make_stack,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn shared_before_mid_end() { locate::<AllowCow>([1, 1, 1, 1], 1, true) }
