//! Contract of `search_step`: with any hint, the slice or child whose range contains the target.
use super::super::*;
use super::lib::*;
use crate::param::NoFeatures;
use crate::tree::search_step;
use crate::PathComponent;

fn hint() -> Option<PathComponent> {
    if kani::any() { Some(PathComponent { child_idx: kani::any() }) } else { None }
}

fn search_leaf<const M: usize, const N: usize>() {
    let p = any_leaf::<U, NoFeatures, M>(1, 2 * M as u8, 20);
    let v: View<N> = view(p);
    let h = node_handle::<borrow::Immut, U, NoFeatures, M>(p, 0);
    let t = H::any();
    kani::assume(t < v.total);
    match search_step(h, hint(), t) {
        ChildOrKey::Child(_) => assert!(false, "a position in a leaf lies in one of its slices"),
        ChildOrKey::Key((k, p)) => {
            assert!(k < v.len, "slice index in bounds");
            assert!(p == v.pos[k as usize], "position of the slice found");
            assert!(p <= t, "the slice starts at or before the position");
            assert!(t < p.cat(v.w[k as usize]), "the slice ends after the position");
        }
    }
    kani::cover!(v.len as usize == 2 * M);
}
//@ props=C03,C06,C15 tier=quick m=1 fn=tree::search_step
#[kani::proof] #[kani::unwind(4)] fn search_leaf_1() { search_leaf::<1, 2>() }
//@ props=C03,C06,C15 tier=quick m=2 fn=tree::search_step
#[kani::proof] #[kani::unwind(6)] fn search_leaf_2() { search_leaf::<2, 4>() }
//@ props=C03,C06,C15 tier=quick m=3 fn=tree::search_step
#[kani::proof] #[kani::unwind(8)] fn search_leaf_3() { search_leaf::<3, 6>() }

fn search_internal<const M: usize, const N: usize>() {
    let p = any_internal::<U, NoFeatures, M>(1, 2 * M as u8, 20, |_| any_child(20));
    let v: View<N> = view_internal(p, true);
    assert!(v.ok());
    let t = H::any();
    kani::assume(t < v.total);
    match search_step(node_handle::<borrow::Immut, U, NoFeatures, M>(p, 1), hint(), t) {
        ChildOrKey::Child((c, at)) => {
            assert!(c <= v.len, "child index in bounds");
            let before = if c == 0 { H::ZERO } else { v.pos[c as usize - 1].cat(v.w[c as usize - 1]) };
            assert!(at == before, "position of the child found");
            assert!(at <= t && t < at.cat(v.child(c as usize)), "the child covers the position");
        }
        ChildOrKey::Key((k, at)) => {
            assert!(k < v.len, "slice index in bounds");
            assert!(at == v.pos[k as usize], "position of the slice found");
            assert!(at <= t && t < at.cat(v.w[k as usize]), "the slice covers the position");
        }
    }
    kani::cover!(v.len as usize == 2 * M);
}
//@ props=C03,C06,C15 tier=quick m=1 fn=tree::search_step
#[kani::proof] #[kani::unwind(5)] fn search_internal_1() { search_internal::<1, 2>() }
//@ props=C03,C06,C15 tier=quick m=2 fn=tree::search_step
#[kani::proof] #[kani::unwind(7)] fn search_internal_2() { search_internal::<2, 4>() }
//@ props=C03,C06,C15 tier=thorough m=3 fn=tree::search_step
#[kani::proof] #[kani::unwind(9)] fn search_internal_3() { search_internal::<3, 6>() }
