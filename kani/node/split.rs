//! Contracts of the functions that divide a node, add a level to the tree, or start one.
use super::super::*;
use super::lib::*;
use crate::param::{AllowCow, NoFeatures};

/// `o` is what lies left of `m` in `v`, `n` what lies right of it, and nothing is lost
fn divided<const N: usize>(v: &View<N>, o: &View<N>, n: &View<N>, m: u8) {
    assert!(o.len == m && n.len == v.len - m - 1, "lengths of the halves");
    for i in 0..N {
        let j = i as u8;
        if j < m {
            assert!(o.pos[i] == v.pos[i] && o.w[i] == v.w[i], "the left half stays");
        } else if j > m && j < v.len {
            let k = i - m as usize - 1;
            assert!(n.pos[k] == v.pos[i] && n.w[k] == v.w[i], "the right half moves over, in order");
        }
    }
}
fn ids_divided<const N: usize>(len: u8, before: &[u8; N], o: &[u8; N], n: &[u8; N], m: u8) {
    for i in 0..N {
        let j = i as u8;
        if j < m { assert!(o[i] == before[i], "references of the left half") }
        if j > m && j < len { assert!(n[i - m as usize - 1] == before[i], "references of the right half") }
    }
}

fn split_leaf<P: Conf<U, M>, const M: usize, const N: usize>() {
    let mut store = P::store();
    let p = any_leaf::<U, P, M>(1, 2 * M as u8, 20);
    give_ids::<U, P, M>(&mut store, p, 0);
    let par = any_parent::<U, P, M>(p);
    let v: View<N> = view(p);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let m: u8 = kani::any();
    kani::assume(m < v.len);
    let mut h = leaf_handle::<borrow::Mut, U, P, M>(p);
    let (key, new) = unsafe { h.split(m, &mut store) };
    assert!(key.pos == v.pos[m as usize] && key.slice.w == v.w[m as usize], "the key returned is the one at the midpoint");
    let q = handle_ptr(&new);
    assert!(q != p && new.height() == 0, "a new node of the same kind");
    let o: View<N> = view(p);
    let n: View<N> = view(q);
    divided(&v, &o, &n, m);
    assert!(parent_of::<U, P, M>(p) == par && parent_of::<U, P, M>(q) == None, "only the old node has a parent");
    assert!(n.total == v.total && o.total == v.total, "sizes left to the caller");
    assert!(holes_of::<U, P, M>(q) == [None; 2] && holes_of::<U, P, M>(p) == [None; 2] && count::<U, P, M>(q) == 1, "no holes, not shared");
    if P::SLICE_REFS {
        ids_divided(v.len, &b, &ids::<U, P, M, N>(p), &ids::<U, P, M, N>(q), m);
        placed::<U, P, M, N>(&store, p, 0);
        placed::<U, P, M, N>(&store, q, 0);
        let k = P::get_id(&key.ref_id);
        assert!(k == b[m as usize] && (k == NONE || P::place(&store, k) == Place::Suspended), "the key's references wait");
    }
    kani::cover!(v.len as usize == 2 * M && m == 0);
}
//@ props=C01,C05,C12 tier=quick m=1 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(4)] fn split_leaf_1() { split_leaf::<NoFeatures, 1, 2>() }
//@ props=C01,C05,C12 tier=quick m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(6)] fn split_leaf_2() { split_leaf::<NoFeatures, 2, 4>() }
//@ props=C01,C05,C12 tier=quick m=3 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(8)] fn split_leaf_3() { split_leaf::<NoFeatures, 3, 6>() }
//@ props=C08 tier=quick m=1 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(4)] fn split_leaf_refs_1() { split_leaf::<Track, 1, 2>() }
//@ props=C08 tier=quick m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(6)] fn split_leaf_refs_2() { split_leaf::<Track, 2, 4>() }

fn split_internal<P: Conf<U, M>, const M: usize, const N: usize, const K: usize>() {
    let height = any_height();
    let mut store = P::store();
    let p = any_internal::<U, P, M>(1, 2 * M as u8, 20, |_| maybe_shared::<U, P, M>(any_child(20)));
    give_ids::<U, P, M>(&mut store, p, height);
    let par = any_parent::<U, P, M>(p);
    let v: View<N> = view(p);
    let b: [u8; N] = ids::<U, P, M, N>(p);
    let before: [_; K] = ptrs::<U, P, M, K>(p);
    let m: u8 = kani::any();
    kani::assume(m < v.len);
    let mut h = internal_handle::<borrow::Mut, U, P, M>(p, height);
    let (key, new) = unsafe { h.split(m, &mut store) };
    assert!(key.pos == v.pos[m as usize] && key.slice.w == v.w[m as usize], "the key returned is the one at the midpoint");
    let q = handle_ptr(&new);
    assert!(q != p && new.height() == height, "a new node of the same kind");
    let o: View<N> = view(p);
    let n: View<N> = view(q);
    divided(&v, &o, &n, m);
    let left: [_; K] = ptrs::<U, P, M, K>(p);
    let right: [_; K] = ptrs::<U, P, M, K>(q);
    for i in 0..K {
        if i <= v.len as usize {
            let (now, node, at) = if i <= m as usize { (left[i], p, i) } else { (right[i - m as usize - 1], q, i - m as usize - 1) };
            assert!(now == before[i], "every child is on its side, in order");
            if count::<U, P, M>(now.unwrap()) == 1 {
                assert!(parent_of::<U, P, M>(now.unwrap()) == Some((node, at as u8)), "and records its parent");
            }
        }
    }
    assert!(parent_of::<U, P, M>(p) == par && parent_of::<U, P, M>(q) == None, "only the old node has a parent");
    assert!(n.total == v.total && o.total == v.total, "sizes left to the caller");
    assert!(holes_of::<U, P, M>(q) == [None; 2] && count::<U, P, M>(q) == 1, "no holes, not shared");
    if P::SLICE_REFS {
        ids_divided(v.len, &b, &ids::<U, P, M, N>(p), &ids::<U, P, M, N>(q), m);
        placed::<U, P, M, N>(&store, p, height);
        placed::<U, P, M, N>(&store, q, height);
        let k = P::get_id(&key.ref_id);
        assert!(k == b[m as usize] && (k == NONE || P::place(&store, k) == Place::Suspended), "the key's references wait");
    }
    kani::cover!(v.len as usize == 2 * M && m == 0);
}
//@ props=C01,C05,C12 tier=quick m=1 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(5)] fn split_internal_1() { split_internal::<NoFeatures, 1, 2, 3>() }
//@ props=C01,C05,C12 tier=quick late=C01 m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(7)] fn split_internal_2() { split_internal::<NoFeatures, 2, 4, 5>() }
//@ props=C10 tier=quick m=1 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(5)] fn split_internal_cow_1() { split_internal::<AllowCow, 1, 2, 3>() }
//@ props=C10 tier=thorough m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(7)] fn split_internal_cow_2() { split_internal::<AllowCow, 2, 4, 5>() }
//@ props=C08 tier=quick m=1 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(5)] fn split_internal_refs_1() { split_internal::<Track, 1, 2, 3>() }
//@ props=C08 tier=thorough m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(7)] fn split_internal_refs_2() { split_internal::<Track, 2, 4, 5>() }

/// a node with a hole is not divided
//@ props=C13 tier=quick m=2 fn=tree::node::NodeHandle::split
#[kani::proof] #[kani::unwind(6)] #[kani::should_panic]
fn split_with_hole_2() {
    type P = NoFeatures;
    let p = any_leaf::<U, P, 2>(1, 4, 20);
    let len = unsafe { leaf_at::<U, P, 2>(p) }.len;
    let (m, hole): (u8, u8) = (kani::any(), kani::any());
    kani::assume(m < len && hole >= 1 && hole <= len);
    set_holes::<U, P, 2>(p, [None, NonZeroU8::new(hole)]);
    kani::cover!(m == 1);
    let _ = unsafe { leaf_handle::<borrow::Mut, U, P, 2>(p).split(m, &mut ()) };
    kani::cover!(true, "never: the call returned");
}

fn make_new_parent<P: Conf<U, M>, const M: usize, const N: usize>() {
    let height: u8 = kani::any();
    kani::assume(height < 200);
    let mut store = P::store();
    let (a, c) = (any_child::<U, P, M>(20), any_child::<U, P, M>(20));
    let (sa, sc) = (unsafe { leaf_at::<U, P, M>(a) }.total_size, unsafe { leaf_at::<U, P, M>(c) }.total_size);
    let w = H::any_size(20);
    let id = P::fresh_suspended(&mut store);
    let mut root = node_handle::<borrow::UniqueOwned, U, P, M>(a, height);
    let rhs = node_handle::<borrow::UniqueOwned, U, P, M>(c, height);
    unsafe { root.make_new_parent(&mut store, Key { pos: H::any(), slice: U { w }, ref_id: P::mk_id(id) }, w, rhs) };
    let p = handle_ptr(&root);
    assert!(root.height() == height + 1, "one level more");
    let v: View<N> = view_internal(p, true);
    assert!(v.len == 1 && v.ok(), "one slice, everything adds up");
    assert!(v.w[0] == w && v.pos[0] == sa && v.total == sa.cat(w).cat(sc), "left, slice, right, in this order");
    assert!(child_ptr::<U, P, M>(p, 0) == a && child_ptr::<U, P, M>(p, 1) == c, "left, slice, right, in this order");
    assert!(parent_of::<U, P, M>(p) == None && holes_of::<U, P, M>(p) == [None; 2] && count::<U, P, M>(p) == 1, "a fresh root");
    assert!(ids::<U, P, M, N>(p)[0] == id, "its references come along");
    placed::<U, P, M, N>(&store, p, height + 1);
    kani::cover!(height == 0);
    kani::cover!(height == 7);
}
//@ props=C01,C02,C05,C15 tier=quick m=1 fn=tree::node::NodeHandle::make_new_parent
#[kani::proof] #[kani::unwind(5)] fn make_new_parent_1() { make_new_parent::<NoFeatures, 1, 2>() }
//@ props=C01,C02,C05,C15 tier=quick m=3 fn=tree::node::NodeHandle::make_new_parent
#[kani::proof] #[kani::unwind(9)] fn make_new_parent_3() { make_new_parent::<NoFeatures, 3, 6>() }
//@ props=C10 tier=quick m=2 fn=tree::node::NodeHandle::make_new_parent
#[kani::proof] #[kani::unwind(7)] fn make_new_parent_cow_2() { make_new_parent::<AllowCow, 2, 4>() }
//@ props=C08 tier=quick m=2 fn=tree::node::NodeHandle::make_new_parent
#[kani::proof] #[kani::unwind(7)] fn make_new_parent_refs_2() { make_new_parent::<Track, 2, 4>() }

//@ props=C01,C02,C05 tier=quick m=2 fn=tree::node::NodeHandle::new_root
#[kani::proof] #[kani::unwind(6)]
fn new_root_2() {
    let w = H::any_size(20);
    let h = NodeHandle::<ty::Leaf, borrow::Owned, H, U, AllowCow, 2>::new_root(U { w }, w);
    let p = handle_ptr(&h);
    let v: View<4> = view(p);
    assert!(v.len == 1 && v.w[0] == w && v.ok(), "one slice, everything adds up");
    assert!(parent_of::<U, AllowCow, 2>(p) == None && holes_of::<U, AllowCow, 2>(p) == [None; 2] && count::<U, AllowCow, 2>(p) == 1, "a fresh root");
    kani::cover!(w.n() == 3);
}
