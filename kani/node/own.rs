//! Contracts of the functions that copy and free nodes. Slices are counted: after each call, every
//! slice exists exactly as often as it should.
use super::super::*;
use super::lib::*;
use crate::param::{AllowCow, NoFeatures};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

fn set_count<S, const M: usize>(p: NP<S, AllowCow, M>, n: usize) where S: Clone {
    unsafe { (*(p.as_ptr() as *mut Leaf<H, S, AllowCow, M>)).strong_count = AtomicUsize::new(n) }
}
/// a sharing count as large as anyone can make it, at least `lo`
fn any_count<S: Clone, const M: usize>(p: NP<S, AllowCow, M>, lo: usize) -> usize {
    let n: usize = kani::any();
    kani::assume(n >= lo && n < usize::MAX / 4);
    set_count::<S, M>(p, n);
    n
}
fn ids_of<P: RleTreeConfig<H, C, M>, const M: usize, const N: usize>(p: NP<C, P, M>) -> [u8; N] {
    let n = unsafe { leaf_at::<C, P, M>(p) }.len;
    let mut out = [0; N];
    for i in 0..N {
        if (i as u8) < n { out[i] = id_of::<P, M>(p, i) }
    }
    out
}
fn same<const N: usize>(v: &View<N>, o: &View<N>) {
    assert!(v.len == o.len && v.total == o.total, "same length, same size");
    for i in 0..N {
        if (i as u8) < v.len { assert!(v.pos[i] == o.pos[i] && v.w[i] == o.w[i], "same slices at the same positions") }
    }
}

/// `make_unique`: a unique node is left alone, a shared one is copied -- slice by slice, children
/// shared with the copy -- and this handle's claim on the original given up.
fn make_unique<const M: usize, const N: usize, const K: usize>(leaf: bool) {
    type P = AllowCow;
    let height = if leaf { 0 } else { any_height() };
    let p = if leaf { any_leaf::<C, P, M>(0, 2 * M as u8, 20) } else { any_internal::<C, P, M>(1, 2 * M as u8, 20, |_| any_child(20)) };
    let mut before = [1; K];
    if !leaf {
        for i in 0..K {
            if i <= unsafe { leaf_at::<C, P, M>(p) }.len as usize { before[i] = any_count::<C, M>(child_ptr(p, i), 1) }
        }
    }
    let n = any_count::<C, M>(p, 1);
    let par = any_parent::<C, P, M>(p);
    let v: View<N> = view(p);
    let id: [u8; N] = ids_of::<P, M, N>(p);
    let kids: [_; K] = if leaf { [None; K] } else { ptrs::<C, P, M, K>(p) };
    let mut h = node_handle::<borrow::Owned, C, P, M>(p, height);
    let q = handle_ptr(h.make_unique());
    assert!(h.height() == height && handle_ptr(&h) == q, "the handle now points there");
    assert!(count::<C, P, M>(q) == 1, "nobody else does");
    if n == 1 {
        assert!(q == p, "a unique node is not copied");
    } else {
        assert!(q != p && count::<C, P, M>(p) == n - 1, "one claim less on the original");
        same(&v, &view::<C, P, M, N>(p));
    }
    same(&v, &view::<C, P, M, N>(q));
    let idq: [u8; N] = ids_of::<P, M, N>(q);
    for i in 0..N {
        if (i as u8) < v.len {
            assert!(idq[i] == id[i] && alive(id[i]) == if n == 1 { 1 } else { 2 }, "each slice copied once");
        }
    }
    if !leaf {
        let k: [_; K] = ptrs::<C, P, M, K>(q);
        assert!(k == kids && (n == 1 || ptrs::<C, P, M, K>(p) == kids), "the same children in the same order");
        for i in 0..K {
            if i <= v.len as usize {
                assert!(count::<C, P, M>(kids[i].unwrap()) == before[i] + if n == 1 { 0 } else { 1 }, "one claim more on each child");
            }
        }
    }
    if n == 1 { assert!(parent_of::<C, P, M>(q) == par) }
    assert!(holes_of::<C, P, M>(q) == [None; 2], "no holes");
    kani::cover!(n == 1 && v.len as usize == 2 * M);
    kani::cover!(n > 5 && v.len as usize == 2 * M);
}
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::make_unique,tree::node::ensure_unique,tree::node::NodeHandle::shallow_clone,tree::node::NodeHandle::try_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::do_drop, not_freed)] fn make_unique_leaf_1() { make_unique::<1, 2, 3>(true) }
//@ props=C10,C12 tier=quick m=2 fn=tree::node::NodeHandle::make_unique,tree::node::ensure_unique,tree::node::NodeHandle::shallow_clone,tree::node::NodeHandle::try_drop
#[kani::proof] #[kani::unwind(6)] #[kani::stub(NodeHandle::do_drop, not_freed)] fn make_unique_leaf_2() { make_unique::<2, 4, 5>(true) }
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::make_unique,tree::node::ensure_unique,tree::node::NodeHandle::shallow_clone,tree::node::NodeHandle::try_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::do_drop, not_freed)] fn make_unique_internal_1() { make_unique::<1, 2, 3>(false) }

/// A mutable step down: whatever was shared is not any more, and the child knows its place.
fn into_child_mut<const M: usize, const N: usize, const K: usize>(leaves: bool) {
    type P = AllowCow;
    let height = if leaves { 1 } else { let h = any_height(); kani::assume(h > 1); h };
    let p = any_internal::<C, P, M>(1, 2 * M as u8, 20, |_| any_leaf::<C, P, M>(0, if leaves { 1 } else { 0 }, 20));
    let len = unsafe { leaf_at::<C, P, M>(p) }.len;
    let i: u8 = kani::any();
    kani::assume(i <= len);
    let c = child_ptr(p, i as usize);
    // what it remembers may be out of date in any way: another parent, or another place in this one
    any_parent::<C, P, M>(c);
    let stale: bool = kani::any();
    if stale { set_parent::<C, P, M>(c, Some((p, kani::any()))) }
    let n = any_count::<C, M>(c, 1);
    let before: [_; K] = ptrs::<C, P, M, K>(p);
    let v: View<N> = view(p);
    let cv: View<N> = view(c);
    let h = internal_handle::<borrow::Mut, C, P, M>(p, height);
    let g = unsafe { h.into_child(i) };
    let q = handle_ptr(&g);
    assert!(g.height() == height - 1 && child_ptr(p, i as usize) == q, "the handle is on what the parent holds");
    assert!(count::<C, P, M>(q) == 1 && parent_of::<C, P, M>(q) == Some((p, i)), "unique, and it knows its place");
    assert!(if n == 1 { q == c } else { q != c && count::<C, P, M>(c) == n - 1 }, "copied exactly when shared");
    same(&cv, &view::<C, P, M, N>(q));
    let after: [_; K] = ptrs::<C, P, M, K>(p);
    for k in 0..K {
        if k != i as usize { assert!(after[k] == before[k], "the other children are left alone") }
    }
    same(&v, &view::<C, P, M, N>(p));
    kani::cover!(n == 1 && i == 0 && stale);
    kani::cover!(n > 1 && i == 2);
}
//@ props=C10 tier=quick m=1 fn=tree::node::NodeHandle::into_child,tree::node::ensure_unique
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::do_drop, not_freed)] fn into_child_mut_1() { into_child_mut::<1, 2, 3>(true) }

/// Without sharing a mutable step down changes nothing.
//@ props=C05,C12 tier=quick m=2 fn=tree::node::NodeHandle::into_child
#[kani::proof] #[kani::unwind(7)]
fn into_child_plain_2() {
    type P = NoFeatures;
    let height = any_height();
    let p = any_internal::<U, P, 2>(1, 4, 20, |_| any_child(20));
    let v: View<4> = view_internal(p, true);
    let before: [_; 5] = ptrs::<U, P, 2, 5>(p);
    let i: u8 = kani::any();
    kani::assume(i <= v.len);
    let g = unsafe { internal_handle::<borrow::Mut, U, P, 2>(p, height).into_child(i) };
    assert!(Some(handle_ptr(&g)) == before[i as usize] && g.height() == height - 1);
    let o: View<4> = view_internal(p, true);
    same(&v, &o);
    assert!(ptrs::<U, P, 2, 5>(p) == before);
    kani::cover!(i == 4);
}

/// Giving up a claim: the last one hands out the right to free, any other only counts down.
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::try_drop,tree::node::NodeHandle::increase_strong_count_and_clone,tree::node::NodeHandle::as_mut_if_unique,tree::node::NodeHandle::into_drop
#[kani::proof] #[kani::unwind(5)]
fn claims_1() {
    type P = AllowCow;
    let height: u8 = kani::any();
    let p = any_child::<U, P, 1>(20);
    let n = any_count::<U, 1>(p, 1);
    let mut h = node_handle::<borrow::Owned, U, P, 1>(p, height);
    assert!(h.as_mut_if_unique().is_some() == (n == 1), "mutable only when unique");
    let g = unsafe { h.increase_strong_count_and_clone() };
    assert!(count::<U, P, 1>(p) == n + 1 && handle_ptr(&g) == p && g.height() == height, "one claim more");
    assert!(g.try_drop().is_none() && count::<U, P, 1>(p) == n, "and one less");
    match h.try_drop() {
        Some(d) => assert!(n == 1 && handle_ptr(&d) == p && d.height() == height, "the last claim frees"),
        None => assert!(n > 1 && count::<U, P, 1>(p) == n - 1, "another does not"),
    }
    kani::cover!(n == 1);
    kani::cover!(n == 77);
}

/// A deep copy is a tree of its own: every slice once more, nothing shared, every child below the
/// copy of its parent.
fn deep_clone<const M: usize, const N: usize, const K: usize>() {
    type P = NoFeatures;
    let p = any_internal::<C, P, M>(1, 2 * M as u8, 20, |_| any_leaf::<C, P, M>(0, 1, 20));
    any_parent::<C, P, M>(p);
    let v: View<N> = view_internal(p, true);
    let before: [_; K] = ptrs::<C, P, M, K>(p);
    let id: [u8; N] = ids_of::<P, M, N>(p);
    let g = node_handle::<borrow::Immut, C, P, M>(p, 1).deep_clone();
    let q = handle_ptr(&g);
    assert!(q != p && g.height() == 1 && parent_of::<C, P, M>(q) == None, "a root of its own");
    let o: View<N> = view_internal(q, true);
    same(&v, &o);
    assert!(ids_of::<P, M, N>(q) == id);
    assert!(holes_of::<C, P, M>(q) == [None; 2]);
    let now: [_; K] = ptrs::<C, P, M, K>(q);
    assert!(ptrs::<C, P, M, K>(p) == before, "the original is untouched");
    for i in 0..K {
        if i <= v.len as usize {
            let (a, b) = (before[i].unwrap(), now[i].unwrap());
            assert!(a != b && (i == 0 || now[i - 1] != Some(b)), "nothing is shared");
            let (av, bv): (View<N>, View<N>) = (view(a), view(b));
            same(&av, &bv);
            assert!(ids_of::<P, M, N>(a) == ids_of::<P, M, N>(b));
            assert!(holes_of::<C, P, M>(b) == [None; 2]);
        }
    }
    let m = made();
    for i in 0..CS as u8 {
        if i < m { assert!(alive(i) == 2, "every slice copied once") }
    }
    kani::cover!(v.len as usize == 2 * M);
}
//@ props=C11,C12 tier=quick m=1 fn=tree::node::NodeHandle::deep_clone
#[kani::proof] #[kani::unwind(25)] fn deep_clone_1() { deep_clone::<1, 2, 3>() }

/// a node with a hole is not copied
//@ props=C11,C13 tier=quick m=1 fn=tree::node::NodeHandle::deep_clone,tree::node::NodeHandle::shallow_clone
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic]
fn clone_with_hole_1() {
    let hole: u8 = kani::any();
    if kani::any() {
        let p = any_leaf::<U, NoFeatures, 1>(1, 2, 20);
        kani::assume(hole >= 1 && hole <= unsafe { leaf_at::<U, NoFeatures, 1>(p) }.len);
        set_holes::<U, NoFeatures, 1>(p, [None, NonZeroU8::new(hole)]);
        kani::cover!(hole == 2);
        node_handle::<borrow::Immut, U, NoFeatures, 1>(p, 0).deep_clone();
    } else {
        let p = any_leaf::<U, AllowCow, 1>(1, 2, 20);
        kani::assume(hole >= 1 && hole <= unsafe { leaf_at::<U, AllowCow, 1>(p) }.len);
        set_holes::<U, AllowCow, 1>(p, [None, NonZeroU8::new(hole)]);
        kani::cover!(hole == 2);
        unsafe { node_handle::<borrow::Immut, U, AllowCow, 1>(p, 0).shallow_clone() };
    }
    kani::cover!(true, "never: the call returned");
}

/// Stands for `dealloc_aligned`: records what is given back.
pub static mut FREED: [usize; 4] = [0; 4];
pub static mut FREES: usize = 0;
unsafe fn free<T>(p: NonNull<T>) {
    unsafe {
        FREED[FREES] = p.as_ptr() as usize;
        FREES += 1;
    }
}
/// Freeing a leaf drops every slice in it exactly once, except what a hole already took away.
fn drop_leaf<const M: usize, const N: usize>() {
    type P = NoFeatures;
    let p = any_leaf::<C, P, M>(1, 2 * M as u8, 20);
    let v: View<N> = view(p);
    let (a, b, holes): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    kani::assume(holes <= 2 && a < v.len && b < v.len && (holes < 2 || a < b));
    let at = |x: u8| NonZeroU8::new(x + 1);
    set_holes::<C, P, M>(p, match holes { 0 => [None; 2], 1 => [None, at(b)], _ => [at(a), at(b)] });
    let id: [u8; N] = ids_of::<P, M, N>(p);
    node_handle::<borrow::Dropping, C, P, M>(p, 0).do_drop();
    for i in 0..N {
        let j = i as u8;
        if j < v.len {
            let gone = (holes >= 1 && j == b) || (holes == 2 && j == a);
            assert!(alive(id[i]) == if gone { 1 } else { 0 }, "every slice that is there is dropped, once");
        }
    }
    assert!(unsafe { FREES == 1 && FREED[0] == p.as_ptr() as usize }, "its memory is given back, once");
    kani::cover!(holes == 2 && v.len as usize == 2 * M);
    kani::cover!(holes == 0 && v.len == 1);
}
//@ props=C12,C13 tier=quick m=1 fn=tree::node::NodeHandle::do_drop,tree::node::NodeHandle::drop_vals
#[kani::proof] #[kani::unwind(4)] #[kani::stub(dealloc_aligned, free)] fn drop_leaf_1() { drop_leaf::<1, 2>() }
//@ props=C12,C13 tier=quick m=2 fn=tree::node::NodeHandle::do_drop,tree::node::NodeHandle::drop_vals
#[kani::proof] #[kani::unwind(6)] #[kani::stub(dealloc_aligned, free)] fn drop_leaf_2() { drop_leaf::<2, 4>() }

/// Stands for `try_drop`: records the claim given up; the first one is said to be the last claim on
/// its node.
pub static mut CLAIMS: [(usize, u8); 4] = [(0, 0); 4];
pub static mut CLAIMED: usize = 0;
pub static mut LAST: usize = 9;
fn claim<I, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>) -> Option<NodeHandle<ty::Unknown, borrow::Dropping, I, S, P, M>> {
    unsafe {
        CLAIMS[CLAIMED] = (h.ptr.as_ptr() as usize, h.height);
        CLAIMED += 1;
        if CLAIMED - 1 == LAST { Some(NodeHandle { ptr: h.ptr, height: h.height, borrow: PhantomData }) } else { None }
    }
}
/// Freeing a node gives up the claim on each child, once, and frees those whose last claim it was.
fn drop_internal<P: Conf<C, M>, const M: usize, const N: usize, const K: usize>(last: usize) {
    let p = any_internal::<C, P, M>(1, 2 * M as u8, 20, |i| if i == last { any_leaf::<C, P, M>(1, 1, 20) } else { any_child(20) });
    let v: View<N> = view(p);
    let kids: [_; K] = ptrs::<C, P, M, K>(p);
    let id: [u8; N] = ids_of::<P, M, N>(p);
    let inner = if last < 9 { Some(id_of::<P, M>(kids[last].unwrap(), 0)) } else { None };
    unsafe { LAST = last }
    node_handle::<borrow::Dropping, C, P, M>(p, 1).do_drop();
    for i in 0..N {
        if (i as u8) < v.len { assert!(alive(id[i]) == 0, "own slices are dropped") }
    }
    assert!(unsafe { CLAIMED } == v.len as usize + 1, "one claim for each child");
    for i in 0..K {
        if i <= v.len as usize { assert!(unsafe { CLAIMS[i] } == (kids[i].unwrap().as_ptr() as usize, 0), "one claim for each child") }
    }
    if let Some(s) = inner { assert!(alive(s) == 0, "a child is freed with its last claim") }
    let mut freed = [false; 2];
    for i in 0..2 {
        if i < unsafe { FREES } {
            if unsafe { FREED[i] } == p.as_ptr() as usize { freed[0] = true }
            if last < 9 && unsafe { FREED[i] } == kids[last].unwrap().as_ptr() as usize { freed[1] = true }
        }
    }
    assert!(freed[0] && freed[1] == (last < 9) && unsafe { FREES } == if last < 9 { 2 } else { 1 }, "memory is given back, once");
    kani::cover!(v.len as usize == 2 * M);
}
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::do_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::try_drop, claim)] #[kani::stub(dealloc_aligned, free)] fn drop_internal_1() { drop_internal::<AllowCow, 1, 2, 3>(9) }
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::do_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::try_drop, claim)] #[kani::stub(dealloc_aligned, free)] fn drop_internal_first_1() { drop_internal::<AllowCow, 1, 2, 3>(0) }
//@ props=C10,C12 tier=quick m=1 fn=tree::node::NodeHandle::do_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NodeHandle::try_drop, claim)] #[kani::stub(dealloc_aligned, free)] fn drop_internal_second_1() { drop_internal::<NoFeatures, 1, 2, 3>(1) }
