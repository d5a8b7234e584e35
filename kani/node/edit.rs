//! Contracts of the functions that add a slice (and a child) to a node, and of those that set
//! positions and sizes.
use super::super::*;
use super::lib::*;
use crate::param::{AllowCow, NoFeatures};

/// after an insertion at `k` everything before keeps its slot, everything after moves by one, and
/// no position changes
fn shifted<const N: usize>(v: &View<N>, o: &View<N>, k: u8, pos: H, w: H) {
    assert!(o.len == v.len + 1, "one slice more");
    assert!(o.total == v.total, "recorded size untouched");
    for i in 0..N {
        let j = i as u8;
        if j < o.len {
            if j < k {
                assert!(o.pos[i] == v.pos[i] && o.w[i] == v.w[i], "slices before keep their place");
            } else if j == k {
                assert!(o.pos[i] == pos && o.w[i] == w, "the new slice is where it was put");
            } else {
                assert!(o.pos[i] == v.pos[i - 1] && o.w[i] == v.w[i - 1], "slices after move by one");
            }
        }
    }
}

/// the references shift along with the slices
fn ids_shifted<const N: usize>(len: u8, b: &[u8; N], a: &[u8; N], k: u8, id: u8) {
    for i in 0..N {
        let j = i as u8;
        if j < len {
            assert!(a[i] == if j < k { b[i] } else if j == k { id } else { b[i - 1] }, "references shift along with their slices");
        }
    }
}
fn insert_key<P: Conf<U, M>, const M: usize, const N: usize>() {
    let mut store = P::store();
    let p = any_leaf::<U, P, M>(0, 2 * M as u8 - 1, 20);
    give_ids::<U, P, M>(&mut store, p, 0);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let par = any_parent::<U, P, M>(p);
    let v: View<N> = view(p);
    let k: u8 = kani::any();
    kani::assume(k <= v.len);
    let w = H::any_size(20);
    let mut h = leaf_handle::<borrow::Mut, U, P, M>(p);
    let pos = unsafe { h.insert_key(&mut store, k, U { w }) };
    let o: View<N> = view(p);
    assert!(pos == if k < v.len { v.pos[k as usize] } else { v.total }, "position of the new slice");
    shifted(&v, &o, k, pos, w);
    assert!(parent_of::<U, P, M>(p) == par, "parent untouched");
    assert!(holes_of::<U, P, M>(p) == [None; 2], "no holes");
    if P::SLICE_REFS {
        ids_shifted(o.len, &b, &ids::<U, P, M, N>(p), k, NONE);
        placed::<U, P, M, N>(&store, p, 0);
    }
    kani::cover!(v.len as usize == 2 * M - 1 && k == 0);
}
//@ props=C08 tier=quick m=1 fn=tree::node::NodeHandle::insert_key,tree::node::shift
#[kani::proof] #[kani::unwind(4)] fn insert_key_refs_1() { insert_key::<Track, 1, 2>() }
//@ props=C08 tier=quick m=2 fn=tree::node::NodeHandle::insert_key,tree::node::shift
#[kani::proof] #[kani::unwind(6)] fn insert_key_refs_2() { insert_key::<Track, 2, 4>() }
//@ props=C01,C05,C12 tier=quick m=1 fn=tree::node::NodeHandle::insert_key,tree::node::shift
#[kani::proof] #[kani::unwind(4)] fn insert_key_1() { insert_key::<NoFeatures, 1, 2>() }
//@ props=C01,C05,C12 tier=quick m=2 fn=tree::node::NodeHandle::insert_key,tree::node::shift
#[kani::proof] #[kani::unwind(6)] fn insert_key_2() { insert_key::<NoFeatures, 2, 4>() }
//@ props=C01,C05,C12 tier=quick m=3 fn=tree::node::NodeHandle::insert_key,tree::node::shift
#[kani::proof] #[kani::unwind(8)] fn insert_key_3() { insert_key::<NoFeatures, 3, 6>() }

fn push_key<P: Conf<U, M>, const M: usize, const N: usize>() {
    let mut store = P::store();
    let p = any_leaf::<U, P, M>(0, 2 * M as u8 - 1, 20);
    give_ids::<U, P, M>(&mut store, p, 0);
    let id = P::fresh_suspended(&mut store);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let par = any_parent::<U, P, M>(p);
    let v: View<N> = view(p);
    let (w, new, kpos) = (H::any_size(20), H::any(), H::any());
    let mut h = leaf_handle::<borrow::Mut, U, P, M>(p);
    unsafe { h.push_key(&mut store, Key { pos: kpos, slice: U { w }, ref_id: P::mk_id(id) }, new) };
    let mut o: View<N> = view(p);
    assert!(o.total == new, "the size given is recorded");
    o.total = v.total;
    shifted(&v, &o, v.len, v.total, w);
    assert!(parent_of::<U, P, M>(p) == par, "parent untouched");
    if P::SLICE_REFS {
        ids_shifted(o.len, &b, &ids::<U, P, M, N>(p), v.len, id);
        placed::<U, P, M, N>(&store, p, 0);
    }
    kani::cover!(v.len as usize == 2 * M - 1);
}
//@ props=C08 tier=quick m=2 fn=tree::node::NodeHandle::push_key
#[kani::proof] #[kani::unwind(6)] fn push_key_refs_2() { push_key::<Track, 2, 4>() }
//@ props=C01,C02,C05 tier=quick m=1 fn=tree::node::NodeHandle::push_key
#[kani::proof] #[kani::unwind(4)] fn push_key_1() { push_key::<NoFeatures, 1, 2>() }
//@ props=C01,C02,C05 tier=quick m=2 fn=tree::node::NodeHandle::push_key
#[kani::proof] #[kani::unwind(6)] fn push_key_2() { push_key::<NoFeatures, 2, 4>() }
//@ props=C01,C02,C05 tier=quick m=3 fn=tree::node::NodeHandle::push_key
#[kani::proof] #[kani::unwind(8)] fn push_key_3() { push_key::<NoFeatures, 3, 6>() }

/// Parent fields of the children, in order.
fn parents<P: Conf<U, M>, const M: usize, const K: usize>(p: NP<U, P, M>) -> [Option<(NP<U, P, M>, u8)>; K] {
    let n = unsafe { leaf_at::<U, P, M>(p) }.len as usize;
    let mut out = [None; K];
    for i in 0..K {
        if i <= n { out[i] = parent_of::<U, P, M>(child_ptr::<U, P, M>(p, i)) }
    }
    out
}
/// where sharing is on, any child may be shared, and then its parent fields mean nothing
fn any_kid<P: Conf<U, M>, const M: usize>() -> NP<U, P, M> {
    maybe_shared::<U, P, M>(any_child(20))
}
fn any_node<P: Conf<U, M>, const M: usize, const K: usize>(hi: u8) -> NP<U, P, M> {
    let p = any_internal::<U, P, M>(1, hi, 20, |_| any_kid());
    if P::COW {
        for i in 0..K {
            if i <= unsafe { leaf_at::<U, P, M>(p) }.len as usize {
                any_parent::<U, P, M>(child_ptr::<U, P, M>(p, i));
            }
        }
    }
    any_parent::<U, P, M>(p);
    p
}

fn insert_key_and_child<P: Conf<U, M>, const M: usize, const N: usize, const K: usize>() {
    let height = any_height();
    let mut store = P::store();
    let p = any_node::<P, M, K>(2 * M as u8 - 1);
    give_ids::<U, P, M>(&mut store, p, height);
    let id = P::fresh_suspended(&mut store);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let par = parent_of::<U, P, M>(p);
    let v: View<N> = view(p);
    let before: [_; K] = ptrs::<U, P, M, K>(p);
    let pbefore: [_; K] = parents::<P, M, K>(p);
    let c = any_kid::<P, M>();
    let cpar = any_parent::<U, P, M>(c);
    let k: u8 = kani::any();
    kani::assume(k <= v.len);
    let w = H::any_size(20);
    let mut h = internal_handle::<borrow::Mut, U, P, M>(p, height);
    let pos = unsafe { h.insert_key_and_child(&mut store, k, Key { pos: H::any(), slice: U { w }, ref_id: P::mk_id(id) }, node_handle(c, height - 1)) };
    let o: View<N> = view(p);
    assert!(pos == if k < v.len { v.pos[k as usize] } else { v.total }, "position of the new slice");
    shifted(&v, &o, k, pos, w);
    let after: [_; K] = ptrs::<U, P, M, K>(p);
    let pafter: [_; K] = parents::<P, M, K>(p);
    for i in 0..K {
        if i <= o.len as usize {
            let (want, old) = if i <= k as usize { (before[i], pbefore[i]) } else if i == k as usize + 1 { (Some(c), cpar) } else { (before[i - 1], pbefore[i - 1]) };
            assert!(after[i] == want, "children keep their order around the new one");
            let unique = count::<U, P, M>(after[i].unwrap()) == 1;
            if i > k as usize && unique {
                assert!(pafter[i] == Some((p, i as u8)), "a child records its parent and slot");
            } else {
                assert!(pafter[i] == old, "a child that did not move or is shared is left alone");
            }
        }
    }
    assert!(parent_of::<U, P, M>(p) == par, "own parent untouched");
    if P::SLICE_REFS {
        ids_shifted(o.len, &b, &ids::<U, P, M, N>(p), k, id);
        placed::<U, P, M, N>(&store, p, height);
    }
    kani::cover!(v.len as usize == 2 * M - 1 && k == 0);
}
//@ props=C01,C05,C12 tier=quick m=1 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(5)] fn insert_key_and_child_1() { insert_key_and_child::<NoFeatures, 1, 2, 3>() }
//@ props=C01,C05,C12 tier=quick m=2 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(7)] fn insert_key_and_child_2() { insert_key_and_child::<NoFeatures, 2, 4, 5>() }
//@ props=C01,C05,C12 tier=thorough m=3 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(9)] fn insert_key_and_child_3() { insert_key_and_child::<NoFeatures, 3, 6, 7>() }
//@ props=C10 tier=quick m=1 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(5)] fn insert_key_and_child_cow_1() { insert_key_and_child::<AllowCow, 1, 2, 3>() }
//@ props=C10 tier=thorough m=2 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(7)] fn insert_key_and_child_cow_2() { insert_key_and_child::<AllowCow, 2, 4, 5>() }

fn push_key_and_child<P: Conf<U, M>, const M: usize, const N: usize, const K: usize>() {
    let height = any_height();
    let mut store = P::store();
    let p = any_node::<P, M, K>(2 * M as u8 - 1);
    give_ids::<U, P, M>(&mut store, p, height);
    let id = P::fresh_suspended(&mut store);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let par = parent_of::<U, P, M>(p);
    let v: View<N> = view(p);
    let before: [_; K] = ptrs::<U, P, M, K>(p);
    let pbefore: [_; K] = parents::<P, M, K>(p);
    let c = any_kid::<P, M>();
    let cpar = any_parent::<U, P, M>(c);
    let (w, new) = (H::any_size(20), H::any());
    let mut h = internal_handle::<borrow::Mut, U, P, M>(p, height);
    unsafe { h.push_key_and_child(&mut store, Key { pos: H::any(), slice: U { w }, ref_id: P::mk_id(id) }, node_handle(c, height - 1), new) };
    let mut o: View<N> = view(p);
    assert!(o.total == new, "the size given is recorded");
    o.total = v.total;
    shifted(&v, &o, v.len, v.total, w);
    let after: [_; K] = ptrs::<U, P, M, K>(p);
    let pafter: [_; K] = parents::<P, M, K>(p);
    for i in 0..K {
        if i < o.len as usize {
            assert!(after[i] == before[i] && pafter[i] == pbefore[i], "the other children are left alone");
        } else if i == o.len as usize {
            assert!(after[i] == Some(c), "the child comes last");
            assert!(pafter[i] == if count::<U, P, M>(c) == 1 { Some((p, i as u8)) } else { cpar }, "it records its parent unless shared");
        }
    }
    assert!(parent_of::<U, P, M>(p) == par, "own parent untouched");
    if P::SLICE_REFS {
        ids_shifted(o.len, &b, &ids::<U, P, M, N>(p), v.len, id);
        placed::<U, P, M, N>(&store, p, height);
    }
    kani::cover!(v.len as usize == 2 * M - 1);
}
//@ props=C01,C02,C05 tier=quick m=1 fn=tree::node::NodeHandle::push_key_and_child
#[kani::proof] #[kani::unwind(5)] fn push_key_and_child_1() { push_key_and_child::<NoFeatures, 1, 2, 3>() }
//@ props=C01,C02,C05 tier=quick m=2 fn=tree::node::NodeHandle::push_key_and_child
#[kani::proof] #[kani::unwind(7)] fn push_key_and_child_2() { push_key_and_child::<NoFeatures, 2, 4, 5>() }
//@ props=C10 tier=quick m=2 fn=tree::node::NodeHandle::push_key_and_child
#[kani::proof] #[kani::unwind(7)] fn push_key_and_child_cow_2() { push_key_and_child::<AllowCow, 2, 4, 5>() }

//@ props=C08 tier=quick m=2 fn=tree::node::NodeHandle::push_key_and_child
#[kani::proof] #[kani::unwind(7)] fn push_key_and_child_refs_2() { push_key_and_child::<Track, 2, 4, 5>() }
//@ props=C08 tier=quick m=1 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(5)] fn insert_key_and_child_refs_1() { insert_key_and_child::<Track, 1, 2, 3>() }
//@ props=C08 tier=thorough m=2 fn=tree::node::NodeHandle::insert_key_and_child,tree::node::shift
#[kani::proof] #[kani::unwind(7)] fn insert_key_and_child_refs_2() { insert_key_and_child::<Track, 2, 4, 5>() }

fn replace_first_child<const M: usize, const N: usize, const K: usize>() {
    type P = NoFeatures;
    let height = any_height();
    let p = any_node::<P, M, K>(2 * M as u8);
    let v: View<N> = view(p);
    let before: [_; K] = ptrs::<U, P, M, K>(p);
    let c = any_kid::<P, M>();
    any_parent::<U, P, M>(c);
    let mut h = internal_handle::<borrow::Mut, U, P, M>(p, height);
    let old = unsafe { h.replace_first_child(node_handle(c, height - 1)) };
    assert!(Some(handle_ptr(&old)) == before[0] && old.height() == height - 1, "the old first child comes back");
    assert!(parent_of::<U, P, M>(c) == Some((p, 0)), "the new one records its parent");
    let o: View<N> = view(p);
    let after: [_; K] = ptrs::<U, P, M, K>(p);
    assert!(o.len == v.len && o.total == v.total && after[0] == Some(c), "it takes the first slot");
    for i in 0..K {
        if i > 0 { assert!(after[i] == before[i], "the others keep theirs"); }
        if i < N && i < v.len as usize { assert!(o.pos[i] == v.pos[i] && o.w[i] == v.w[i], "slices untouched"); }
    }
    kani::cover!(v.len as usize == 2 * M);
}
//@ props=C05,C12 tier=quick m=2 fn=tree::node::NodeHandle::replace_first_child
#[kani::proof] #[kani::unwind(7)] fn replace_first_child_2() { replace_first_child::<2, 4, 5>() }

fn set_positions<const M: usize, const N: usize>() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, M>(0, 2 * M as u8, 20);
    let v: View<N> = view(p);
    let from: u8 = kani::any();
    kani::assume(from <= v.len);
    let d = H::any();
    let mut h = leaf_handle::<borrow::Mut, U, P, M>(p);
    // an injective function, so that a position that came from elsewhere is noticed
    unsafe { h.set_key_poss_with(|x| H(x.0 ^ d.0), from..) };
    let o: View<N> = view(p);
    assert!(o.len == v.len && o.total == H(v.total.0 ^ d.0), "the end is mapped as well");
    for i in 0..N {
        if (i as u8) < v.len {
            assert!(o.w[i] == v.w[i], "slices untouched");
            assert!(o.pos[i] == if (i as u8) < from { v.pos[i] } else { H(v.pos[i].0 ^ d.0) }, "exactly the positions from there on are mapped");
        }
    }
    let k: u8 = kani::any();
    if k < v.len {
        unsafe { h.set_single_key_pos(k, d) };
        let q: View<N> = view(p);
        for i in 0..N {
            if (i as u8) < v.len {
                assert!(q.pos[i] == if i as u8 == k { d } else { o.pos[i] } && q.w[i] == o.w[i], "one position is set");
            }
        }
        assert!(q.len == o.len && q.total == o.total, "nothing else is");
    }
    h.set_subtree_size(d);
    assert!(unsafe { leaf_at::<U, P, M>(p) }.total_size == d, "recorded size set");
    kani::cover!(v.len as usize == 2 * M && k < v.len && from == 1);
}
//@ props=C02,C15 tier=quick m=2 fn=tree::node::NodeHandle::set_key_poss_with,tree::node::NodeHandle::set_single_key_pos,tree::node::NodeHandle::set_subtree_size
#[kani::proof] #[kani::unwind(6)] fn set_positions_2() { set_positions::<2, 4>() }
//@ props=C02,C15 tier=quick m=3 fn=tree::node::NodeHandle::set_key_poss_with,tree::node::NodeHandle::set_single_key_pos,tree::node::NodeHandle::set_subtree_size
#[kani::proof] #[kani::unwind(8)] fn set_positions_3() { set_positions::<3, 6>() }

/// a node with a hole refuses an insertion: shifting would lose track of the hole
//@ props=C13 tier=quick m=2 fn=tree::node::NodeHandle::insert_key,tree::node::NodeHandle::insert_key_and_child
#[kani::proof] #[kani::unwind(7)] #[kani::should_panic]
fn insert_with_hole_2() {
    type P = NoFeatures;
    let k: u8 = kani::any();
    let hole: u8 = kani::any();
    if kani::any() {
        let p = any_leaf::<U, P, 2>(1, 3, 20);
        kani::assume(k <= unsafe { leaf_at::<U, P, 2>(p) }.len && hole >= 1 && hole <= unsafe { leaf_at::<U, P, 2>(p) }.len);
        set_holes::<U, P, 2>(p, [None, NonZeroU8::new(hole)]);
        kani::cover!(k == 1);
        unsafe { leaf_handle::<borrow::Mut, U, P, 2>(p).insert_key(&mut (), k, U { w: H(8) }) };
    } else {
        let p = any_node::<P, 2, 5>(3);
        kani::assume(k <= unsafe { leaf_at::<U, P, 2>(p) }.len && hole >= 1 && hole <= unsafe { leaf_at::<U, P, 2>(p) }.len);
        set_holes::<U, P, 2>(p, [None, NonZeroU8::new(hole)]);
        kani::cover!(k == 1);
        let c = any_kid::<P, 2>();
        unsafe { internal_handle::<borrow::Mut, U, P, 2>(p, 1).insert_key_and_child(&mut (), k, Key { pos: H(0), slice: U { w: H(8) }, ref_id: () }, node_handle(c, 0)) };
    }
    kani::cover!(true, "never: the call returned");
}
