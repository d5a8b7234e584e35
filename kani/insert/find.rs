//! Contract of the search for where an insertion goes.
use super::super::*;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;
use crate::DirectionalSub;

/// Hints with nothing to them.
struct Hints(u8);
impl Iterator for Hints {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        if self.0 == 0 { return None }
        self.0 -= 1;
        Some(PathComponent { child_idx: kani::any() })
    }
}
type Slot<S, const M: usize> = Option<(NP<S, NoFeatures, M>, u8, u8)>;
fn is<S, const M: usize>(h: &Option<SliceHandle<ty::Unknown, borrow::Mut, H, S, NoFeatures, M>>, want: Slot<S, M>) -> bool {
    match (h, want) {
        (None, None) => true,
        (Some(h), Some((p, height, i))) => handle_ptr(&h.node) == p && h.node.height() == height && h.idx == i,
        _ => false,
    }
}
/// A tree of the given height of which only one path from the root exists (the `c[i]`th child at
/// height `i`); the target lies on it, at the border of two slices or inside one.
fn find<S: Word, const M: usize, const N: usize, const LV: usize>(height: u8, c: [u8; LV]) {
    type P = NoFeatures;
    let mut p: [NP<S, P, M>; LV] = [std::ptr::NonNull::dangling(); LV];
    p[0] = any_leaf::<S, P, M>(1, 2 * M as u8, 20);
    for h in 1..LV {
        if h <= height as usize {
            let (kid, at) = (p[h - 1], c[h] as usize);
            p[h] = any_internal::<S, P, M>(if at == 2 * M { 2 * M as u8 } else { (at as u8).max(1) }, 2 * M as u8, 20, |i| if i == at { kid } else { any_child(20) });
        }
    }
    let idx = H::any();
    let mut t = idx;
    let (mut left, mut right): (Slot<S, M>, Slot<S, M>) = (None, None);
    let mut want: Option<(bool, u8, u8, H)> = None;
    for i in 0..LV {
        let h = LV - 1 - i;
        if h <= height as usize && want.is_none() {
            let v: View<N> = if h > 0 { view_internal(p[h], false) } else { view(p[h]) };
            kani::assume(t.n() <= v.total.n());
            let mut start = H::ZERO;
            let mut next = t;
            for j in 0..N + 1 {
                if j as u8 <= v.len && want.is_none() {
                    let end = if (j as u8) < v.len { v.pos[j] } else { v.total };
                    // an index is a prefix of what is there
                    kani::assume((t.n() != start.n() || t == start) && (t.n() != end.n() || t == end));
                    if start.n() <= t.n() && t.n() <= end.n() {
                        // somewhere in, or at a border of, this child
                        if h > 0 { kani::assume(j as u8 == c[h]) }
                        if S::MAY_JOIN {
                            if j > 0 { left = Some((p[h], h as u8, j as u8 - 1)) }
                            if (j as u8) < v.len { right = Some((p[h], h as u8, j as u8)) }
                        }
                        if h == 0 { want = Some((true, 0, j as u8, H::ZERO)) }
                        next = t.sub_left(start);
                    }
                    if (j as u8) < v.len {
                        let after = end.cat(v.w[j]);
                        if end.n() < t.n() && t.n() < after.n() {
                            want = Some((false, h as u8, j as u8, t.sub_left(end)));
                        }
                        start = after;
                    }
                }
            }
            t = next;
        }
    }
    let hints = Hints(kani::any());
    let root = node_handle::<borrow::Mut, S, P, M>(p[height as usize], height);
    let (edge, wh, wi, at) = want.unwrap();
    match RleTree::<H, S, P, M>::find_insertion_point(root, hints, idx) {
        ChildOrKey::Key(SplitKeyInsert { handle, pos_in_key }) => {
            assert!(!edge, "a slice is cut only where the target is inside it");
            assert!(is(&Some(handle), Some((p[wh as usize], wh, wi))), "the slice the target is inside of");
            assert!(pos_in_key == at, "how far inside it is");
        }
        ChildOrKey::Child(EdgeInsert { node, adjacent_keys, new_k_idx }) => {
            assert!(edge, "inside a slice means cutting it");
            assert!(handle_ptr(&node) == p[0] && new_k_idx == wi, "the place between two slices");
            assert!(is(&adjacent_keys.lhs, left), "the slice to the left");
            assert!(is(&adjacent_keys.rhs, right), "the slice to the right");
            kani::cover!(idx.n() > 0 || height > 0 && c[height as usize] > 0);
        }
    }
}
//@ props=C01,C06,C24,C15 tier=quick m=1 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_leaf_1() { find::<V, 1, 2, 1>(0, [0]) }
//@ props=C01,C06,C24,C15 tier=quick m=2 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_leaf_2() { find::<V, 2, 4, 1>(0, [0]) }
//@ props=C01,C06,C15 tier=quick m=2 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_leaf_plain_2() { find::<U, 2, 4, 1>(0, [0]) }
//@ props=C01,C06,C24,C15 tier=quick m=1 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_first_1() { find::<V, 1, 2, 2>(1, [0, 0]) }
//@ props=C01,C06,C24,C15 tier=quick m=1 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_second_1() { find::<V, 1, 2, 2>(1, [0, 1]) }
//@ props=C01,C06,C24,C15 tier=quick m=1 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_third_1() { find::<V, 1, 2, 2>(1, [0, 2]) }
//@ props=C01,C06,C24,C15 tier=thorough m=1 fn=tree::insert::find_insertion_point,tree::search_step
#[kani::proof] #[kani::unwind(6)] fn find_deep_1() { find::<V, 1, 2, 3>(2, [0, 0, 1]) }
