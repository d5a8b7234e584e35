// An insertion as a whole (src/tree/insert.rs): what it refuses, when it holds the tree borrowed, and what it hands to
// which part. For every tree, configuration, M and lawful index type. The state a reference store keeps behind a cell is
// taken as part of the store's value: there is one reference to it here.
//@ rewrite \bP::SLICE_REFS\b => P::slice_refs()
//@ rewrite \bP::COW\b => P::cow()
//@ rewrite &mut dyn Iterator<Item = PathComponent> => &mut Hints
//@ rewrite owned_root\.borrow_mut\(\)\.remove_parent\(\) => owned_root.forget_parent()
//@ rewrite \bdrop\(u\) => u.end()
//@ rewrite \bTraverseUpdate::do_nothing\b => TraverseUpdate::do_nothing::<I, S, P, M>()
//@ rewrite \bTraverseUpdate::apply_to_ref\( => TraverseUpdate::apply_to_ref::<I, S, P, M>(
//@ rewrite \bweak_unreachable!\(\) => never()
//@ include tree.inc noprops
//@ macro panic => refuse()
pub trait SupportsInsert<I, S, const M: usize> { spec fn has_refs() -> bool; fn slice_refs() -> (r: bool) ensures r == Self::has_refs(); }
pub struct Hints { x: u8 }
pub struct Conflict { x: u8 }
#[verifier::external_body]
pub struct CursorBuilder<'c> { x: PhantomData<&'c ()> }
#[verifier::external_body]
pub struct Key { x: u8 }

// ---- the reference store --------------------------------------------------------------------------------------
/// Nothing of the tree is borrowed / an insertion has it borrowed; and the root that references go by.
pub uninterp spec fn free<X>(s: X) -> bool;
pub uninterp spec fn held<X>(s: X) -> bool;
pub uninterp spec fn knows<X>(s: X) -> Addr;
pub trait Store: Sized {
    fn acquire_mutable(&mut self) -> (r: Result<(), Conflict>)
        ensures r is Ok ==> free(*old(self)) && held(*final(self)), r is Err ==> !free(*old(self)) && *final(self) == *old(self);
    fn release_mutable(&mut self)
        requires held(*old(self)) ensures free(*final(self)), knows(*final(self)) == knows(*old(self));
}
impl<X> Store for X {
    #[verifier::external_body]
    fn acquire_mutable(&mut self) -> (r: Result<(), Conflict>) { unimplemented!() }
    #[verifier::external_body]
    fn release_mutable(&mut self) { unimplemented!() }
}
pub struct RawRoot { pub at: Addr }
pub trait StoreRoot: Sized {
    fn set_root(&mut self, new_root: Option<RawRoot>)
        requires held(*old(self)) ensures held(*final(self)), new_root matches Some(r) ==> knows(*final(self)) == r.at;
}
impl<X> StoreRoot for X {
    #[verifier::external_body]
    fn set_root(&mut self, new_root: Option<RawRoot>) { unimplemented!() }
}

// ---- nodes ----------------------------------------------------------------------------------------------------
#[derive(Copy, Clone)]
pub struct Addr { pub n: usize }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Addr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Addr) -> bool { *self == *o }
}
impl PartialEq for Addr { fn eq(&self, o: &Addr) -> (r: bool) { self.n == o.n } }
pub struct UniqueOwned;
/// The tree with a slice of this value and size put in at the index; a root over two halves and what is between them.
pub uninterp spec fn with_new<I, S>(t: Tree<I>, idx: I, s: S, size: I) -> Tree<I>;
pub uninterp spec fn over<I>(l: Tree<I>, k: Key, size: I, r: Tree<I>) -> Tree<I>;
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, B, I, S, P, M> {
    pub uninterp spec fn addr(self) -> Addr;
    /// what it will be when a borrow of it has ended
    pub uninterp spec fn then(self) -> Tree<I>;
    #[verifier::external_body]
    pub fn ptr(&self) -> (r: Addr) ensures r == self.addr() { unimplemented!() }
}
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M> {
    #[verifier::external_body]
    pub fn make_unique(&mut self) -> (r: &mut NodeHandle<ty::Unknown, UniqueOwned, I, S, P, M>)
        ensures r.tree() == old(self).tree(), final(self).tree() == final(r).tree(), final(self).addr() == final(r).addr() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn clone_root_for_refs_store(&self) -> (r: RawRoot) ensures r.at == self.addr() { unimplemented!() }
}
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Unknown, UniqueOwned, I, S, P, M> {
    #[verifier::external_body]
    pub fn forget_parent(&mut self) ensures final(self).tree() == (Tree { up: None, ..old(self).tree() }), final(self).addr() == old(self).addr() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut<'h>(&'h mut self) -> (r: NodeHandle<ty::Unknown, borrow::Mut<'h>, I, S, P, M>)
        ensures r.tree() == old(self).tree(), r.then() == final(self).tree(), r.addr() == old(self).addr(), final(self).addr() == old(self).addr() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn make_new_parent(&mut self, store: &mut P::SliceRefStore, key: Key, key_size: I, rhs: NodeHandle<ty::Unknown, UniqueOwned, I, S, P, M>)
        requires held(*old(store)) ensures held(*final(store)), final(self).tree() == over(old(self).tree(), key, key_size, rhs.tree()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct NodeBox<I, S, P, const M: usize> { x: PhantomData<(I, S, P)> }
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeBox<I, S, P, M> {
    pub uninterp spec fn tree(self) -> Tree<I>;
    #[verifier::external_body]
    pub fn take(self) -> (r: NodeHandle<ty::Unknown, UniqueOwned, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn clone_slice_ref(&self) -> (r: SliceHandle<Ty, borrow::SliceRef, I, S, P, M>) ensures r.idx == self.idx, r.node.tree() == self.node.tree() { unimplemented!() }
}

// ---- what is told of the insertion ----------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Callback<'a, I, S, P, const M: usize> { x: PhantomData<(&'a mut (), I, S, P)> }
impl<'a, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Callback<'a, I, S, P, M> {
    /// what it has been told, and what it will have been in the end: what it has after the one call that it is given to
    pub uninterp spec fn now(self) -> Option<SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M>>;
    pub uninterp spec fn ever(self) -> Option<SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M>>;
    #[verifier::external_body]
    pub fn end(self) { unimplemented!() }
}
pub struct TraverseUpdate { x: u8 }
impl TraverseUpdate {
    #[verifier::external_body]
    pub unsafe fn apply_to_ref<'a, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: &'a mut Option<SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M>>) -> (r: Callback<'a, I, S, P, M>)
        ensures r.now() == *old(h), r.ever() == *final(h) { unimplemented!() }
    #[verifier::external_body]
    pub fn do_nothing<'a, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>() -> (r: Callback<'a, I, S, P, M>) ensures r.now() is None { unimplemented!() }
}
/// The handle is to the slice that holds what was put in.
pub uninterp spec fn is_new<I, S>(t: Tree<I>, k: u8, idx: I, s: S) -> bool;
pub open spec fn new_at<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M>, idx: I, s: S) -> bool { is_new(h.node.tree(), h.idx, idx, s) }

#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub enum PostInsertResult<'t, I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
    Done,
    NewRoot { lhs: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, key: Key, key_size: I, rhs: NodeBox<I, S, P, M> },
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct InsertionPoint<'t, I, S, P, const M: usize> { x: PhantomData<(&'t mut (), I, S, P)> }
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> InsertionPoint<'t, I, S, P, M> {
    pub uninterp spec fn root(self) -> NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>;
    pub uninterp spec fn idx(self) -> I;
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Root<I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
    pub handle: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>,
    pub len: usize,
    pub refs_store: P::SliceRefStore,
}
//@ source src/tree/mod.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type RleTree
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    pub open spec fn len_of(self) -> I { match self.root { Some(r) => r.handle.tree().size, None => I::z() } }
    #[verifier::external_body]
    pub fn size(&self) -> (r: I) requires laws::<I>() ensures r == self.len_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(slice: S, size: I) -> (r: Self)
        requires lt(I::z(), size)
        ensures r.root is Some, r.root.unwrap().handle.tree().keys =~= seq![I::z()], r.root.unwrap().handle.tree().size == size, r.root.unwrap().len == 1, free(r.root.unwrap().refs_store), is_new(r.root.unwrap().handle.tree(), 0, I::z(), slice) { unimplemented!() }
    #[verifier::external_body]
    fn find_insertion_point<'t>(root: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, path: &mut Hints, idx: I) -> (r: InsertionPoint<'t, I, S, P, M>)
        requires laws::<I>(), root.tree().wf(), !lt(root.tree().size, idx), root.tree().up is None
        ensures r.root() == root, r.idx() == idx { unimplemented!() }
    #[verifier::external_body]
    unsafe fn do_insert_full<'t, 'c, 'a>(store: &mut P::SliceRefStore, cb: CursorBuilder<'c>, tree_len: &mut usize, insertion_point: InsertionPoint<'t, I, S, P, M>, slice: S, size: I,
        updates_callback: &mut Callback<'a, I, S, P, M>) -> (r: PostInsertResult<'t, I, S, P, M>)
        requires laws::<I>(), held(*old(store)), lt(I::z(), size), old(updates_callback).now() is None
        ensures held(*final(store)), final(updates_callback).ever() == old(updates_callback).ever(), final(updates_callback).ever() == final(updates_callback).now(), ({
            let want = with_new(insertion_point.root().tree(), insertion_point.idx(), slice, size);
            let told = final(updates_callback).now();
            &&& told matches Some(h) ==> new_at(h, insertion_point.idx(), slice)
            &&& match r {
                PostInsertResult::Done => told is Some && insertion_point.root().then() == want,
                PostInsertResult::NewRoot { lhs, key, key_size, rhs } => lhs.addr() == insertion_point.root().addr() && over(insertion_point.root().then(), key, key_size, rhs.tree()) == want
                    && want.keys.len() == 1 && (told is None ==> is_new(want, 0, insertion_point.idx(), slice)),
            }
        })
    { unimplemented!() }
}
//@ source src/tree/insert.rs
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M>
//@ only
//@ fn insert_internal -> r props=C01,C08,C09,C14
    requires laws::<I>(), old(self).root matches Some(x) ==> x.handle.tree().wf() && (P::is_cow() || x.handle.tree().up is None),
        refusable() == (lt(old(self).len_of(), idx) || !lt(I::z(), size) || (old(self).root matches Some(x) && !free(x.refs_store)))
    ensures !refusable(), final(self).root is Some, free(final(self).root.unwrap().refs_store), r is Some == P::has_refs(), r matches Some(h) ==> new_at(h, idx, slice),
        old(self).root is None ==> final(self).len_of() == size && final(self).root.unwrap().len == 1,
        old(self).root matches Some(x) ==> knows(final(self).root.unwrap().refs_store) == final(self).root.unwrap().handle.addr()
            && final(self).root.unwrap().handle.tree() == with_new(Tree { up: None, ..x.handle.tree() }, idx, slice, size),
//@ body
    proof { law_zero::<I>(); }
//@ end
fn main() {}
}
