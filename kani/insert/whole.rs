//! Contracts of the outermost layer of an insertion: what is refused, borrowing and giving back the
//! tree, and growing a new root.
use super::super::*;
use crate::cursor::{Cursor, NoCursor};
use crate::param::{AllowCow, NoFeatures};
use crate::tree::node::verif::lib::*;
use crate::tree::slice_ref::{BorrowFailure, RawRoot, RawSliceRef, ShouldDrop};
use crate::tree::Root;
use std::mem::ManuallyDrop;
use std::ptr::NonNull;

/// A configuration whose store only counts what is asked of it; `REFS`: with slice references, or
/// else with shared nodes.
struct Ask<const REFS: bool>;
/// 0: free to change; 1: being changed
static mut STATE: u8 = 0;
static mut ROOT: Option<(NonNull<()>, u8)> = None;
struct AskStore { refuse: bool }
impl<const R: bool> crate::param::sealed::YouCantImplementThis for Ask<R> {}
impl crate::param::sealed::YouCantImplementThis for AskStore {}
impl<I, S, const M: usize> RleTreeConfig<I, S, M> for Ask<true> {
    type YouCantImplementThis = crate::param::sealed::TypeYouCantSee;
    const COW: bool = false;
    const SLICE_REFS: bool = true;
    type StrongCount = ();
    type SliceRefStore = AskStore;
}
impl<I, S, const M: usize> RleTreeConfig<I, S, M> for Ask<false> {
    type YouCantImplementThis = crate::param::sealed::TypeYouCantSee;
    const COW: bool = true;
    const SLICE_REFS: bool = false;
    type StrongCount = std::sync::atomic::AtomicUsize;
    type SliceRefStore = AskStore;
}
impl<I, S, const M: usize> SupportsInsert<I, S, M> for Ask<true> {}
impl<I, S: Clone, const M: usize> SupportsInsert<I, S, M> for Ask<false> {
    unsafe fn clone_slice(s: &S) -> S { s.clone() }
}
impl crate::param::BorrowState for AskStore {
    fn acquire_mutable(&self) -> Result<(), BorrowFailure> {
        if self.refuse { return Err(BorrowFailure::CannotGetMutAlreadyBorrowed) }
        unsafe { assert!(STATE == 0); STATE = 1 }
        Ok(())
    }
    fn release_mutable(&self) { unsafe { assert!(STATE == 1, "given back once, after all is done"); STATE = 2 } }
    fn try_acquire_drop(&self) -> ShouldDrop { ShouldDrop::Yes }
}
impl<I, S, P: RleTreeConfig<I, S, M>, const M: usize> crate::param::SliceRefStore<I, S, P, M> for AskStore {
    type OptionRefId = ();
    fn new(r: RawRoot<I, S, P, M>) -> Self {
        unsafe { ROOT = Some((r.ptr().cast(), r.height())) }
        AskStore { refuse: false }
    }
    fn set_root(&mut self, r: Option<RawRoot<I, S, P, M>>) {
        let r = r.unwrap();
        unsafe { assert!(STATE == 1); ROOT = Some((r.ptr().cast(), r.height())) }
    }
    fn redirect(&mut self, _: &mut (), _: &mut ()) {}
    fn remove(&mut self, _: ()) {}
    unsafe fn update(&mut self, _: &(), _: RawSliceRef<I, S, P, M>) {}
    fn suspend(&mut self, _: &()) {}
}

fn tree<P: RleTreeConfig<H, U, M, SliceRefStore = AskStore>, const M: usize>(root: NP<U, P, M>, height: u8, len: usize, refuse: bool) -> ManuallyDrop<RleTree<H, U, P, M>> {
    ManuallyDrop::new(RleTree { root: Some(Root { handle: ManuallyDrop::new(node_handle(root, height)), len, refs_store: AskStore { refuse } }) })
}

// ---- refusals ----

fn put(t: &mut RleTree<H, U, Ask<true>, 1>, idx: H, size: H) {
    let _ = t.insert_internal(CursorBuilder::new(&mut NoCursor), &mut std::iter::empty(), idx, U { w: size }, size);
}
fn touched<I, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: &mut NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>) -> &mut NodeHandle<ty::Unknown, borrow::UniqueOwned, I, S, P, M> {
    kani::cover!(true, "never: the tree is touched");
    kani::assume(false);
    unreachable!()
}
//@ props=C14 tier=quick m=1 fn=RleTree::insert_internal
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic] #[kani::stub(crate::tree::node::NodeHandle::make_unique, touched)]
fn refuse_outside() {
    let root = any_leaf::<U, Ask<true>, 1>(1, 2, 20);
    let mut t = tree(root, 0, 1, false);
    let (idx, size) = (H::any(), H::any());
    kani::assume(idx > total_of(root));
    kani::cover!(true, "reached");
    put(&mut t, idx, size);
    kani::cover!(true, "never: inserted outside the tree");
}
//@ props=C14 tier=quick m=1 fn=RleTree::insert_internal
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic] #[kani::stub(crate::tree::node::NodeHandle::make_unique, touched)]
fn refuse_sizeless() {
    let root = any_leaf::<U, Ask<true>, 1>(1, 2, 20);
    let mut t = tree(root, 0, 1, false);
    let idx = H::any();
    kani::cover!(idx <= total_of(root), "reached");
    put(&mut t, idx, H::ZERO);
    kani::cover!(true, "never: inserted a slice without a size");
}
//@ props=C14 tier=quick m=1 fn=RleTree::insert_internal
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic]
fn refuse_outside_nothing() {
    let mut t = ManuallyDrop::new(RleTree::<H, U, Ask<true>, 1>::new_empty());
    let (idx, size) = (H::any(), H::any());
    kani::assume(idx > H::ZERO || size == H::ZERO);
    kani::cover!(true, "reached");
    put(&mut t, idx, size);
    kani::cover!(true, "never: inserted into an empty tree");
}
//@ props=C09,C14 tier=quick m=1 fn=RleTree::insert_internal
#[kani::proof] #[kani::unwind(5)] #[kani::should_panic] #[kani::stub(crate::tree::node::NodeHandle::make_unique, touched)]
fn refuse_borrowed() {
    let root = any_leaf::<U, Ask<true>, 1>(1, 2, 20);
    let mut t = tree(root, 0, 1, true);
    let (idx, size) = (H::any(), H::any());
    kani::cover!(idx <= total_of(root) && size.n() > 0, "reached");
    put(&mut t, idx, size);
    kani::cover!(true, "never: inserted while borrowed");
}

// ---- carrying it out ----

static mut STARTED: Option<NonNull<()>> = None;
/// Stands for `find_insertion_point` (its contract is in find.rs); sees where it is started.
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
fn point<'t>(
    root: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, _: impl Iterator<Item = PathComponent>, idx: I,
) -> InsertionPoint<'t, I, S, P, M> {
    if P::COW {
        let q: NP<U, Ask<false>, 1> = root.ptr().cast();
        assert!(count::<U, Ask<false>, 1>(q) == 1 && parent_of::<U, Ask<false>, 1>(q).is_none(), "starts from a root nobody else holds, which has no parent");
    }
    unsafe { assert!(STATE == 1, "changes only what was acquired"); STARTED = Some(root.ptr().cast()) }
    ChildOrKey::Key(SplitKeyInsert { handle: SliceHandle { node: root, idx: 0 }, pos_in_key: idx })
}
}
/// 0: everything went in; 1: the root was split, the new slice is in one of the halves; 2: the root
/// was split, the new slice is between the halves.
static mut MODE: u8 = 0;
static mut HALF: Option<NonNull<()>> = None;
/// Stands for `do_insert_full`.
unsafe fn full<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, mut cb: CursorBuilder<'c>, len: &mut usize, at: InsertionPoint<'t, I, S, P, M>,
    slice: S, size: I, updates: UpdatesCallback<I, S, P, M>,
) -> PostInsertResult<'t, I, S, P, M> {
    unsafe {
        assert!(STATE == 1, "changes only what was acquired");
        let (node, pos) = match at {
            ChildOrKey::Key(SplitKeyInsert { handle, pos_in_key }) => (handle.node, pos_in_key),
            ChildOrKey::Child(_) => unreachable!(),
        };
        assert!(Some(node.ptr().cast()) == STARTED, "where the search has ended");
        *len += 1;
        cb.prepend_to_path(PathComponent { child_idx: 9 });
        if MODE != 2 { updates(TraverseUpdate::Insertion { ptr: node.ptr(), height: node.height(), idx: 0 }) }
        if MODE == 0 {
            std::mem::forget(slice);
            return PostInsertResult::Done;
        }
        let rhs: NodeHandle<ty::Unknown, borrow::UniqueOwned, I, S, P, M> = raw_handle(HALF.unwrap().cast(), node.height());
        PostInsertResult::NewRoot { lhs: node, key: node::Key { pos, slice, ref_id: Default::default() }, key_size: size, rhs: NodeBox::new(rhs) }
    }
}

/// `leaf`: the root is a leaf; else it has children, of any height.
fn carry<P: Conf<U, 1, SliceRefStore = AskStore>>(leaf: bool, mode: u8) {
    let height = if leaf { 0 } else { any_height() };
    let mk = |n: u8| if leaf { any_leaf::<U, P, 1>(n, n, 20) } else { any_internal::<U, P, 1>(n, n, 20, |_| any_child(20)) };
    let root = mk(1);
    if P::COW { any_parent::<U, P, 1>(root); }
    let old: View<2> = if leaf { view(root) } else { view_internal(root, false) };
    let rhs = if mode == 0 { root } else { mk(1) };
    set_parent::<U, P, 1>(rhs, if mode == 0 { parent_of::<U, P, 1>(rhs) } else { None });
    unsafe { MODE = mode; HALF = Some(rhs.cast()) }
    let had: usize = kani::any();
    kani::assume(had < usize::MAX);
    let mut t = tree(root, height, had, false);
    let (idx, size) = (H::any(), H::any_size(20));
    kani::assume(idx <= total_of(root));
    let mut path = Path::new_empty();
    let got = t.insert_internal(CursorBuilder::new(&mut path), &mut std::iter::empty(), idx, U { w: size }, size);
    let r = t.root.as_ref().unwrap();
    let top = handle_ptr(&r.handle);
    assert!(r.len == had + 1 && path.n == 1, "counted once");
    assert!(unsafe { STATE } == 2, "given back");
    assert!(unsafe { ROOT } == Some((top.cast(), r.handle.height())), "references start from the root");
    let n = if mode == 0 {
        assert!(top == root && r.handle.height() == height, "no new root");
        None
    } else {
        assert!(r.handle.height() == height + 1 && top != root && top != rhs, "a new root");
        let v: View<2> = view_internal(top, true);
        assert!(v.len == 1 && v.ok() && v.w[0] == size, "the slice between the halves");
        assert!(child_ptr::<U, P, 1>(top, 0) == root && child_ptr::<U, P, 1>(top, 1) == rhs, "the halves");
        assert!(parent_of::<U, P, 1>(top).is_none() && count::<U, P, 1>(top) == 1 && holes_of::<U, P, 1>(top) == [None; 2]);
        Some(top)
    };
    let o: View<2> = if leaf { view(root) } else { view_internal(root, false) };
    assert!(o.len == old.len && o.pos == old.pos && o.w == old.w && o.total == old.total);
    match got {
        None => assert!(!P::SLICE_REFS),
        Some(h) => {
            assert!(P::SLICE_REFS);
            match n {
                Some(n) if mode == 2 => assert!(h.node.ptr() == n && h.node.height() == height + 1 && h.idx == 0, "reports the slice between the halves"),
                _ => assert!(h.node.ptr() == root && h.node.height() == height && h.idx == 0, "reports the slice as told"),
            }
        }
    }
    kani::cover!(true, "reached");
}
impl<const M: usize> Conf<U, M> for Ask<true> {
    fn store() -> AskStore { AskStore { refuse: false } }
    fn mk_id(_: u8) {}
    fn get_id(_: &()) -> u8 { NONE }
}
impl<const M: usize> Conf<U, M> for Ask<false> {
    fn store() -> AskStore { AskStore { refuse: false } }
    fn mk_id(_: u8) {}
    fn get_id(_: &()) -> u8 { NONE }
}
//@ props=C01,C02,C09 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn done_leaf() { carry::<Ask<true>>(true, 0) }
//@ props=C01,C05,C08,C09 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn grow_leaf() { carry::<Ask<true>>(true, 1) }
//@ props=C01,C05,C08 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn grow_between_leaf() { carry::<Ask<true>>(true, 2) }
//@ props=C02,C09 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn done() { carry::<Ask<true>>(false, 0) }
//@ props=C01,C05,C08 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn grow() { carry::<Ask<true>>(false, 1) }
//@ props=C01,C05,C08 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn grow_between() { carry::<Ask<true>>(false, 2) }
//@ props=C02,C10 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn shared_done() { carry::<Ask<false>>(true, 0) }
//@ props=C01,C05,C10 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn shared_grow() { carry::<Ask<false>>(true, 1) }
//@ props=C05,C10 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique,NodeHandle::make_new_parent assume=find_insertion_point,do_insert_full
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn shared_grow_between() { carry::<Ask<false>>(false, 2) }

//@ props=C01,C02,C08 tier=quick m=1 fn=RleTree::insert_internal
#[kani::proof] #[kani::unwind(5)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn first() {
    let mut t = ManuallyDrop::new(RleTree::<H, U, Ask<true>, 1>::new_empty());
    let size = H::any_size(20);
    let mut path = Path::new_empty();
    let got = t.insert_internal(CursorBuilder::new(&mut path), &mut std::iter::empty(), H::ZERO, U { w: size }, size).unwrap();
    let r = t.root.as_ref().unwrap();
    let top = handle_ptr(&r.handle);
    let v: View<2> = view(top);
    assert!(r.len == 1 && r.handle.height() == 0 && v.len == 1 && v.w[0] == size && v.ok(), "exactly this slice");
    assert!(got.node.ptr() == top && got.node.height() == 0 && got.idx == 0 && path.n == 0);
    assert!(unsafe { ROOT } == Some((top.cast(), 0)), "references start from the root");
    kani::cover!(true, "reached");
}

//@ props=C10,C12 tier=quick m=1 fn=RleTree::insert_internal,NodeHandle::make_unique
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::find_insertion_point, RleTree::point)] #[kani::stub(RleTree::do_insert_full, full)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn shared_elsewhere() {
    type P = Ask<false>;
    let root = any_leaf::<U, P, 1>(2, 2, 20);
    any_parent::<U, P, 1>(root);
    let holders: usize = kani::any();
    kani::assume(holders >= 2 && holders < 100);
    unsafe { *(std::ptr::addr_of!(*strong_count_of::<U, P, 1>(root)) as *mut std::sync::atomic::AtomicUsize) = std::sync::atomic::AtomicUsize::new(holders) }
    let (old, par): (View<2>, _) = (view(root), parent_of::<U, P, 1>(root));
    let mut t = tree::<P, 1>(root, 0, 2, false);
    let (idx, size) = (H::any(), H::any_size(20));
    kani::assume(idx <= total_of(root));
    let _ = t.insert_internal(CursorBuilder::new(&mut NoCursor), &mut std::iter::empty(), idx, U { w: size }, size);
    let top = handle_ptr(&t.root.as_ref().unwrap().handle);
    assert!(top != root && count::<U, P, 1>(root) == holders - 1 && count::<U, P, 1>(top) == 1, "a copy of its own");
    let (o, n): (View<2>, View<2>) = (view(root), view(top));
    assert!(o.w == old.w && o.pos == old.pos && o.len == old.len && o.total == old.total && parent_of::<U, P, 1>(root) == par, "what others hold stays");
    assert!(n.w == old.w && n.pos == old.pos && n.len == old.len && n.total == old.total);
    kani::cover!(holders > 2, "reached");
}
