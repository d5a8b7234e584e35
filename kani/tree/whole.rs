//! Contracts of making, copying and dropping a whole tree.
use super::super::*;
use crate::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig};
use crate::tree::node::verif::lib::*;
use std::ptr::NonNull;

/// Sizes that can be negative.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Z(pub i32);
impl crate::DirectionalAdd for Z { fn add_right(self, r: Z) -> Z { Z(self.0 + r.0) } }
impl crate::DirectionalSub for Z {
    fn sub_left(self, l: Z) -> Z { Z(self.0 - l.0) }
    fn sub_right(self, r: Z) -> Z { Z(self.0 - r.0) }
}
impl Index for Z { const ZERO: Z = Z(0); }

/// A tree of one slice.
fn one<P: RleTreeConfig<H, U, M> + SupportsInsert<H, U, M>, const M: usize, const N: usize>() {
    let size = H::any_size(20);
    let word = H::any();
    let t = ManuallyDrop::new(RleTree::<H, U, P, M>::new(U { w: word }, size));
    let r = t.root.as_ref().unwrap();
    let p = handle_ptr(&r.handle);
    assert!(r.handle.height() == 0);
    let v = view::<U, P, M, N>(p);
    assert!(v.len == 1 && v.pos[0] == H::ZERO && v.w[0] == word && v.total == size, "exactly this slice, of this size");
    assert!(parent_of::<U, P, M>(p).is_none() && holes_of::<U, P, M>(p) == [None; 2] && count::<U, P, M>(p) == 1);
    assert!(t.size() == size && t.number_of_slices() == 1);
    kani::cover!(true, "reached");
}
//@ props=C01,C02,C05 tier=quick m=1 fn=RleTree::new,NodeHandle::new_root,RleTree::size,RleTree::number_of_slices
#[kani::proof] #[kani::unwind(5)] fn one_1() { one::<NoFeatures, 1, 2>() }
//@ props=C01,C02,C05,C10 tier=quick m=2 fn=RleTree::new,NodeHandle::new_root,RleTree::size,RleTree::number_of_slices
#[kani::proof] #[kani::unwind(6)] fn one_shared_2() { one::<AllowCow, 2, 4>() }
//@ props=C01,C02,C05,C08 tier=quick m=1 fn=RleTree::new,NodeHandle::new_root,SliceRefStore::new
#[kani::proof] #[kani::unwind(5)] fn one_referred_1() { one::<AllowSliceRefs, 1, 2>() }

//@ props=C14 tier=quick m=1 fn=RleTree::new
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic]
fn one_not_positive() {
    let size = Z(kani::any());
    kani::assume(size.0 <= 0);
    kani::cover!(true, "reached");
    let t = RleTree::<Z, crate::Constant<u8>, NoFeatures, 1>::new(crate::Constant(1), size);
    kani::cover!(true, "never: a slice without a size");
    std::mem::forget(t);
}
//@ props=C01,C02 tier=quick m=1 fn=RleTree::new_empty,RleTree::size,RleTree::number_of_slices
#[kani::proof]
fn none() {
    let t = RleTree::<H, U, NoFeatures, 1>::new_empty();
    assert!(t.root.is_none() && t.size() == H::ZERO && t.number_of_slices() == 0);
    kani::cover!(true, "reached");
}

// ---- copying ----

fn leaf_tree<P: RleTreeConfig<H, C, 1, SliceRefStore = ()>>(len: u8, slices: usize) -> (ManuallyDrop<RleTree<H, C, P, 1>>, NP<C, P, 1>) {
    let p = any_leaf::<C, P, 1>(len, len, 20);
    (ManuallyDrop::new(RleTree { root: Some(Root { handle: ManuallyDrop::new(node_handle(p, 0)), len: slices, refs_store: () }) }), p)
}
/// Stands for `deep_clone` (its contract is in node/own.rs): some other node.
static mut COPIED: bool = false;

//@ props=C11 tier=quick m=1 fn=RleTree::clone,NodeHandle::deep_clone
#[kani::proof] #[kani::unwind(6)]
fn copy_whole() {
    let n: usize = kani::any();
    let (t, p) = leaf_tree::<NoFeatures>(2, n);
    let u = ManuallyDrop::new((*t).clone());
    let q = handle_ptr(&u.root.as_ref().unwrap().handle);
    assert!(q != p, "nothing is held in common");
    assert!(u.root.as_ref().unwrap().handle.height() == 0);
    let (a, b) = (view::<C, NoFeatures, 1, 2>(p), view::<C, NoFeatures, 1, 2>(q));
    assert!(b.len == 2 && b.pos == a.pos && b.w == a.w && b.total == a.total && b.ok(), "the same slices, of the same sizes");
    assert!(u.number_of_slices() == n && t.number_of_slices() == n);
    assert!(alive(0) == 2 && alive(1) == 2 && made() == 2, "every slice is cloned once");
    kani::cover!(true, "reached");
}
//@ props=C11 tier=quick m=1 fn=RleTree::clone
#[kani::proof]
fn copy_empty() {
    let t = RleTree::<H, C, NoFeatures, 1>::new_empty();
    assert!(t.clone().root.is_none());
    let t = RleTree::<H, C, AllowCow, 1>::new_empty();
    assert!(t.clone().root.is_none());
    kani::cover!(true, "reached");
}
//@ props=C10,C12 tier=quick m=1 fn=RleTree::clone,NodeHandle::increase_strong_count_and_clone
#[kani::proof] #[kani::unwind(5)]
fn share_whole() {
    let n: usize = kani::any();
    let (t, p) = leaf_tree::<AllowCow>(2, n);
    let shared = maybe_shared::<C, AllowCow, 1>(p);
    let c = count::<C, AllowCow, 1>(shared);
    let u = ManuallyDrop::new((*t).clone());
    let r = u.root.as_ref().unwrap();
    assert!(handle_ptr(&r.handle) == p && r.handle.height() == 0 && r.len == n, "the same nodes");
    assert!(count::<C, AllowCow, 1>(p) == c + 1, "held by one tree more");
    assert!(alive(0) == 1 && alive(1) == 1, "no slice is cloned");
    kani::cover!(c == 1, "not shared before");
    kani::cover!(c == 2, "shared before");
}

// ---- dropping ----

/// A configuration without references whose store says whether dropping may go ahead.
struct Held;
struct HeldStore(bool);
impl crate::param::sealed::YouCantImplementThis for Held {}
impl crate::param::sealed::YouCantImplementThis for HeldStore {}
impl<I, S, const M: usize> RleTreeConfig<I, S, M> for Held {
    type YouCantImplementThis = crate::param::sealed::TypeYouCantSee;
    const COW: bool = true;
    const SLICE_REFS: bool = false;
    type StrongCount = std::sync::atomic::AtomicUsize;
    type SliceRefStore = HeldStore;
}
impl crate::param::BorrowState for HeldStore {
    fn acquire_mutable(&self) -> Result<(), crate::tree::slice_ref::BorrowFailure> { Ok(()) }
    fn release_mutable(&self) {}
    fn try_acquire_drop(&self) -> crate::tree::slice_ref::ShouldDrop {
        if self.0 { crate::tree::slice_ref::ShouldDrop::Yes } else { crate::tree::slice_ref::ShouldDrop::No }
    }
}
impl<I, S, P: RleTreeConfig<I, S, M>, const M: usize> crate::param::SliceRefStore<I, S, P, M> for HeldStore {
    type OptionRefId = ();
    fn new(_: crate::tree::slice_ref::RawRoot<I, S, P, M>) -> Self { HeldStore(true) }
    fn set_root(&mut self, _: Option<crate::tree::slice_ref::RawRoot<I, S, P, M>>) {}
    fn redirect(&mut self, _: &mut (), _: &mut ()) {}
    fn remove(&mut self, _: ()) {}
    unsafe fn update(&mut self, _: &(), _: crate::tree::slice_ref::RawSliceRef<I, S, P, M>) {}
    fn suspend(&mut self, _: &()) {}
}
static mut FREED: Option<NonNull<()>> = None;
/// Stands for `do_drop` (its contract is in node/own.rs).
fn freed<I, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: NodeHandle<ty::Unknown, borrow::Dropping, I, S, P, M>) {
    unsafe {
        assert!(FREED.is_none(), "freed once");
        FREED = Some(h.ptr().cast());
    }
}
//@ props=C12,C10,C23 tier=quick m=1 fn=tree::destruct_root,RleTree::drop,NodeHandle::try_drop
#[kani::proof] #[kani::unwind(5)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)]
fn let_go() {
    let may: bool = kani::any();
    let p = any_leaf::<U, Held, 1>(2, 2, 20);
    let p = maybe_shared::<U, Held, 1>(p);
    let n = count::<U, Held, 1>(p);
    let t = RleTree::<H, U, Held, 1> { root: Some(Root { handle: ManuallyDrop::new(node_handle(p, 0)), len: kani::any(), refs_store: HeldStore(may) }) };
    drop(t);
    if may {
        assert!(count::<U, Held, 1>(p) == n - 1, "held by one tree less");
        assert!(unsafe { FREED } == if n == 1 { Some(p.cast()) } else { None }, "freed by the last tree holding it");
    } else {
        assert!(count::<U, Held, 1>(p) == n && unsafe { FREED }.is_none(), "nothing goes while it is looked at");
    }
    kani::cover!(may && n == 1, "freed");
    kani::cover!(may && n == 2, "still held");
    kani::cover!(!may, "waits");
}
//@ props=C12 tier=quick m=1 fn=tree::destruct_root
#[kani::proof] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)]
fn let_go_empty() {
    drop(RleTree::<H, U, Held, 1>::new_empty());
    assert!(unsafe { FREED }.is_none());
    kani::cover!(true, "reached");
}
