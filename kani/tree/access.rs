//! Contracts of looking up a slice and of naming the way to it.
use super::super::*;
use crate::param::{AllowCow, NoFeatures};
use crate::tree::node::verif::lib::*;

fn tree<P: Plain<1>>(t: &Three<P>) -> ManuallyDrop<RleTree<H, U, P, 1>> {
    ManuallyDrop::new(RleTree { root: Some(Root { handle: ManuallyDrop::new(node_handle(t.root, 2)), len: t.slices(), refs_store: () }) })
}

/// Looking up any place inside the `k`th slice, with any hints.
fn look<P: Plain<1>>(lens: [u8; 4], k: usize) {
    let t = Three::<P>::any(lens);
    let tree = tree(&t);
    let ((p, h, i), end) = t.nth(k);
    let (idx, start) = t.inside(k, false);
    let e = tree.get_with_cursor(AnyHints(kani::any()), idx);
    assert!(handle_ptr(&e.slice.node) == p && e.slice.node.height() == h && e.slice.idx == i, "the slice that is there");
    assert!(e.range_start == start && e.range_end == end, "its range");
    assert!(e.slice().w == word_at(p, i as usize));
    assert!(tree.number_of_slices() == t.slices() && tree.size() == total_of(t.root));
    kani::cover!(true, "reached");
}
//@ props=C03,C06,C15,C02 tier=thorough quick=C03 m=1 fn=RleTree::get_with_cursor,tree::search_step,RleTree::size,RleTree::number_of_slices
#[kani::proof] #[kani::unwind(5)] fn get_first() { look::<NoFeatures>([2, 1, 1, 1], 0) }
//@ props=C03,C06,C15 tier=thorough quick=C03,C06 m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn get_second() { look::<NoFeatures>([2, 1, 1, 1], 1) }
//@ props=C03,C06,C15 tier=thorough m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn get_left_key() { look::<NoFeatures>([2, 1, 1, 1], 2) }
//@ props=C03,C06,C15 tier=thorough quick=C15,C02 m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn get_root_key() { look::<NoFeatures>([1, 1, 1, 1], 3) }
//@ props=C03,C06,C15 tier=thorough quick=C03 m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn get_right_key() { look::<NoFeatures>([1, 1, 2, 1], 6) }
//@ props=C03,C06,C15 tier=thorough late=C15 quick=C03,C15 m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn get_last() { look::<NoFeatures>([1, 1, 1, 2], 7) }
//@ props=C03,C06,C10 tier=thorough m=1 fn=RleTree::get_with_cursor,tree::search_step
#[kani::proof] #[kani::unwind(5)] fn shared_get() { look::<AllowCow>([1, 1, 1, 1], 4) }

fn is_way<P: Plain<1>>(t: &Three<P>, p: NP<U, P, 1>, c: &Path) {
    let way = t.way(p);
    let n = if way[1].is_some() { 2 } else if way[0].is_some() { 1 } else { 0 };
    assert!(c.n == n, "as long as the way from the root");
    // the deepest comes first
    for j in 0..2 {
        if j < n { assert!(c.at[j] == way[n - 1 - j].unwrap().1, "which child to take") }
    }
}
fn name<P: Plain<1>>(lens: [u8; 4], k: usize) {
    let t = Three::<P>::any(lens);
    let tree = tree(&t);
    let ((p, _, _), _) = t.nth(k);
    let (idx, _) = t.inside(k, false);
    let c: Path = tree.cursor_to(idx);
    is_way(&t, p, &c);
    kani::cover!(true, "reached");
}
//@ props=C07,C15 tier=thorough m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn name_first() { name::<NoFeatures>([2, 1, 1, 1], 1) }
//@ props=C07 tier=thorough quick=C07 m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn name_second_leaf() { name::<NoFeatures>([1, 1, 1, 1], 2) }
//@ props=C07 tier=thorough quick=C07 m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn name_root_key() { name::<NoFeatures>([1, 1, 1, 1], 3) }
//@ props=C07 tier=thorough quick=C07 m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn name_right_key() { name::<NoFeatures>([1, 1, 1, 1], 5) }
//@ props=C07,C15 tier=thorough quick=C07 m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn name_last() { name::<NoFeatures>([1, 1, 1, 2], 7) }
//@ props=C07,C10 tier=thorough m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn shared_name_key() { name::<AllowCow>([1, 1, 1, 1], 1) }
//@ props=C07,C10 tier=thorough m=1 fn=RleTree::cursor_to
#[kani::proof] #[kani::unwind(5)] fn shared_name_leaf() { name::<AllowCow>([1, 1, 1, 1], 4) }

/// The way to a slice already in hand, without any searching.
fn held(k: usize) {
    let t = Three::<NoFeatures>::any([1, 2, 1, 1]);
    let ((p, h, i), _) = t.nth(k);
    let c: Path = entry::cursor_to_handle(slice_handle(p, h, i));
    is_way(&t, p, &c);
    kani::cover!(true, "reached");
}
//@ props=C07 tier=quick m=1 fn=entry::cursor_to_handle
#[kani::proof] #[kani::unwind(5)] fn held_leaf() { held(3) }
//@ props=C07 tier=quick m=1 fn=entry::cursor_to_handle
#[kani::proof] #[kani::unwind(5)] fn held_key() { held(1) }
//@ props=C07 tier=quick m=1 fn=entry::cursor_to_handle
#[kani::proof] #[kani::unwind(5)] fn held_root() { held(4) }

/// Asking for anything at or after the end is refused.
//@ props=C14,C03 tier=quick m=1 fn=RleTree::get_with_cursor
#[kani::proof]
#[kani::unwind(5)]
#[kani::should_panic]
fn get_outside() {
    let root = any_leaf::<U, NoFeatures, 1>(1, 2, 20);
    let tree = ManuallyDrop::new(RleTree::<H, U, NoFeatures, 1> { root: Some(Root { handle: ManuallyDrop::new(node_handle(root, 0)), len: 1, refs_store: () }) });
    let idx = H::any();
    kani::assume(idx >= total_of(root));
    kani::cover!(true, "reached");
    let _ = tree.get_with_cursor(NoCursor, idx);
    kani::cover!(true, "never: looked up a place outside the tree");
}
//@ props=C14,C07 tier=quick m=1 fn=RleTree::cursor_to
#[kani::proof]
#[kani::unwind(5)]
#[kani::should_panic]
fn cursor_outside() {
    let root = any_leaf::<U, NoFeatures, 1>(1, 2, 20);
    let tree = ManuallyDrop::new(RleTree::<H, U, NoFeatures, 1> { root: Some(Root { handle: ManuallyDrop::new(node_handle(root, 0)), len: 1, refs_store: () }) });
    let idx = H::any();
    kani::assume(idx >= total_of(root));
    kani::cover!(true, "reached");
    let _: Path = tree.cursor_to(idx);
    kani::cover!(true, "never: named the way to a place outside the tree");
}
//@ props=C14,C03 tier=quick m=1 fn=RleTree::get_with_cursor,RleTree::new_empty,RleTree::size
#[kani::proof]
#[kani::unwind(5)]
#[kani::should_panic]
fn get_from_nothing() {
    let tree = RleTree::<H, U, NoFeatures, 1>::new_empty();
    assert!(tree.size() == H::ZERO && tree.number_of_slices() == 0);
    kani::cover!(true, "reached");
    let _ = tree.get(H::any());
    kani::cover!(true, "never: looked up a place in an empty tree");
}
