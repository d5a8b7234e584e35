// Joining what is inserted with its neighbours (src/tree/insert.rs): for every node, M and lawful index type, and every
// slice type, whatever joins with what. What is handed on to be put in the tree must be what the insertion amounts to:
// each call to go on is an obligation here, stated as its precondition.
//@ rewrite \bS::MAY_JOIN\b => S::may_join()
//@ rewrite \binfo\.handle\.with_slice\(\|(\w+)\| \1\.split_at\(info\.pos_in_key\)\) => info.handle.split_slice(info.pos_in_key)
//@ rewrite \bupdates_callback\((?=TraverseUpdate) => updates_callback.told(
//@ rewrite \bUpdatesCallback<I, S, P, M> => &mut Callback
//@ rewrite \bBubbledInsertState::identity\(\) => OpUpdateState::<I, S, P, M>::identity()
//@ include tree.inc noprops
pub trait SupportsInsert<I, S, const M: usize> {}
pub trait Joins<I>: Slice<I> + Sized {
    spec fn joins(a: Self, b: Self) -> bool;
    spec fn joined(a: Self, b: Self) -> Self;
    spec fn left_of(a: Self, p: I) -> Self;
    spec fn right_of(a: Self, p: I) -> Self;
    spec fn may() -> bool;
    fn may_join() -> (r: bool) ensures r == Self::may();
    fn try_join(self, other: Self) -> (r: Result<Self, (Self, Self)>)
        ensures match r { Ok(n) => Self::joins(self, other) && n == Self::joined(self, other), Err((a, b)) => !Self::joins(self, other) && a == self && b == other };
}
/// A slice and its size.
pub struct E<I, S> { pub s: S, pub n: I }
pub open spec fn joins<I: Index, S: Joins<I>>(a: E<I, S>, b: E<I, S>) -> bool { S::may() && S::joins(a.s, b.s) }
pub open spec fn joined<I: Index, S: Joins<I>>(a: E<I, S>, b: E<I, S>) -> E<I, S> { E { s: S::joined(a.s, b.s), n: a.n.cat(b.n) } }
/// What becomes of a slice x put between l and r: each neighbour that joins has become one with it.
pub open spec fn outcome<I: Index, S: Joins<I>>(l: Option<E<I, S>>, x: E<I, S>, r: Option<E<I, S>>) -> Seq<E<I, S>> {
    let m = match l { Some(l) => if joins(l, x) { joined(l, x) } else { x }, None => x };
    let before = match l { Some(l) => if joins(l, x) { Seq::empty() } else { seq![l] }, None => Seq::empty() };
    before + match r { Some(r) => if joins(m, r) { seq![joined(m, r)] } else { seq![m, r] }, None => seq![m] }
}
/// What the insertion at hand amounts to.
pub uninterp spec fn wanted<I, S>() -> Seq<E<I, S>>;
/// The slice in the tree that is to change, and its size before.
pub uninterp spec fn changed<I>() -> (SliceId, I);
/// The slices that are there already.
pub uninterp spec fn there<I, S>() -> (Option<E<I, S>>, Option<E<I, S>>);
/// The leaf and the place in it that is beside those, if it is between slices.
pub uninterp spec fn goes<I, S>() -> (Tree<I>, u8);
pub open spec fn list<I, S>(x: Option<E<I, S>>) -> Seq<E<I, S>> { match x { Some(e) => seq![e], None => Seq::empty() } }
/// The slice value at an index of a node, unless it has been taken out.
pub uninterp spec fn val<Ty, B, I, S, P, const M: usize>(n: NodeHandle<Ty, B, I, S, P, M>, k: u8) -> Option<S>;
impl<'t, Ty: TypeHint, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    pub open spec fn ok(self) -> bool { self.node.tree().node_ok() && self.idx < self.node.tree().keys.len() }
    pub open spec fn v(self) -> Option<S> { val(self.node, self.idx) }
    pub open spec fn same(self, o: Self) -> bool { self.idx == o.idx && self.node.tree() == o.node.tree() }
    pub open spec fn is(self, e: E<I, S>) -> bool { self.v() == Some(e.s) && self.size() == e.n }
    pub open spec fn size(self) -> I { self.node.tree().cpos(self.idx + 1).sl(self.node.tree().keys[self.idx as int]) }
    #[verifier::external_body]
    pub fn take_value_and_leave_hole(&mut self) -> (r: S)
        requires old(self).v() is Some
        ensures old(self).v() == Some(r), final(self).v() is None, final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_hole(&mut self, val: S)
        requires old(self).v() is None
        ensures final(self).v() == Some(val), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_slice(&mut self, p: I) -> (r: S)
        requires old(self).v() is Some
        ensures final(self).v() == Some(S::left_of(old(self).v().unwrap(), p)), r == S::right_of(old(self).v().unwrap(), p), final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn redirect_to(&self, other: &Self, store: &mut P::SliceRefStore) { unimplemented!() }
}
#[verifier::external_body]
pub struct CursorBuilder<'c> { x: PhantomData<&'c ()> }
impl<'c> CursorBuilder<'c> {
    #[verifier::external_body]
    pub fn reborrow<'d>(&'d mut self) -> CursorBuilder<'d> { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: () }
impl Callback {
    /// The slices it was told of as what was inserted: None for one that is new in the tree.
    pub uninterp spec fn seen(self) -> Seq<Option<SliceId>>;
    pub uninterp spec fn quiet(self) -> bool;
    #[verifier::external_body]
    pub fn told(&mut self, u: TraverseUpdate) requires !old(self).quiet() ensures final(self).seen() == old(self).seen().push(Some(u.id)), !final(self).quiet() { unimplemented!() }
}
pub struct TraverseUpdate { pub id: SliceId }
impl TraverseUpdate {
    #[verifier::external_body]
    pub fn insert<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: &SliceHandle<Ty, B, I, S, P, M>) -> (r: Self) ensures r.id == h.id() { unimplemented!() }
    /// the callback, but for insertions
    #[verifier::external_body]
    pub fn skip_insertions(c: &mut Callback) -> (r: Callback) ensures *final(c) == *old(c), r.quiet() { unimplemented!() }
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub enum PostInsertResult<'t, I, S, P: RleTreeConfig<I, S, M>, const M: usize> { Done, NewRoot { lhs: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M> } }
//@ source src/tree/mod.rs
//@ type SliceSize
//@ impl impl<I, S> SliceSize<I, S>
//@ fn new -> r props=C01
    ensures r.slice == slice, r.size == size
//@ end
spec fn e<I, S>(x: SliceSize<I, S>) -> E<I, S> { E { s: x.slice, n: x.size } }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Keep<I, S, P, const M: usize> { x: PhantomData<(I, S, P)> }
//@ source src/tree/fix.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type OpUpdateState
impl<'t, 'c, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    #[verifier::external_body]
    pub fn identity() -> Keep<I, S, P, M> { unimplemented!() }
    /// One slice in the tree has changed, and it is all there is to do.
    #[verifier::external_body]
    pub fn finish(self, map_state: Keep<I, S, P, M>, early_exit: Option<()>)
        requires self.child_or_key matches ChildOrKey::Key((k, n)) && n.tree().ids[k as int] == changed::<I>().0 && self.old_size == changed::<I>().1 && self.override_pos is None
            && is_one(val(n, k), self.new_size)
    { unimplemented!() }
}
pub open spec fn edits<'t, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize>(x: (SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, I, I)) -> bool {
    x.0.id() == changed::<I>().0 && x.1 == changed::<I>().1 && is_one(x.0.v(), x.2)
}
pub open spec fn some<T>(x: Option<T>) -> int { if x is Some { 1int } else { 0 } }
/// The handle is to this slice, if there is one.
pub open spec fn stands<'t, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize>(h: Option<SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>>, x: Option<E<I, S>>) -> bool {
    match h { Some(h) => h.ok() && (x matches Some(e) && h.is(e)), None => x is None }
}
/// The slice changed is the only one that does, what was beside it staying as it is.
pub open spec fn is_one<I: Index, S: Joins<I>>(v: Option<S>, n: I) -> bool {
    let (l, r) = there::<I, S>();
    let x = E { s: v.unwrap(), n };
    v is Some && (wanted() =~= seq![x] || (r is Some && wanted() =~= seq![x, r.unwrap()]) || (l is Some && wanted() =~= seq![l.unwrap(), x]))
}
//@ source src/tree/insert.rs
#[derive(Copy, Clone)]
//@ type CursorMode
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type SplitKeyInsert
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type AdjacentKeys
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type EdgeInsert
//@ type InsertionPoint
/// What is asked for is a slice between two.
spec fn between<'t, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize>(i: EdgeInsert<'t, I, S, P, M>, slice: S, size: I) -> bool {
    &&& goes::<I, S>() == (i.node.tree(), i.new_k_idx) && i.new_k_idx <= i.node.tree().keys.len()
    &&& wanted() == outcome(there().0, E { s: slice, n: size }, there().1)
    &&& S::may() ==> (there::<I, S>().0 is Some || there::<I, S>().1 is Some) && stands(i.adjacent_keys.lhs, there().0) && stands(i.adjacent_keys.rhs, there().1) && changed::<I>() == (match there::<I, S>().0 {
            Some(l) if joins(l, E { s: slice, n: size }) || there::<I, S>().1 is None => (i.adjacent_keys.lhs.unwrap().id(), i.adjacent_keys.lhs.unwrap().size()),
            _ => (i.adjacent_keys.rhs.unwrap().id(), i.adjacent_keys.rhs.unwrap().size()),
        })
}
/// What is asked for is a slice inside one.
spec fn within<'t, I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M>, const M: usize>(i: SplitKeyInsert<'t, I, S, P, M>, slice: S, size: I) -> bool {
    &&& i.handle.ok() && i.handle.v() is Some && lt(I::z(), i.pos_in_key) && lt(i.pos_in_key, i.handle.size())
    &&& changed::<I>() == (i.handle.id(), i.handle.size()) && there::<I, S>() == (None::<E<I, S>>, None::<E<I, S>>)
    &&& wanted() == outcome(Some(E { s: S::left_of(i.handle.v().unwrap(), i.pos_in_key), n: i.pos_in_key }), E { s: slice, n: size },
            Some(E { s: S::right_of(i.handle.v().unwrap(), i.pos_in_key), n: i.handle.size().sl(i.pos_in_key) }))
}
/// Which slice holds the one put between others.
pub open spec fn told<I: Index, S: Joins<I>>(slice: S, size: I) -> Option<SliceId> {
    let x = E { s: slice, n: size };
    if (there::<I, S>().0 matches Some(l) && joins(l, x)) || (there::<I, S>().1 matches Some(r) && joins(x, r)) { Some(changed::<I>().0) } else { None }
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct RleTree<I, S, P: RleTreeConfig<I, S, M>, const M: usize> { x: PhantomData<(I, S, P)> }
impl<I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    /// The slice has become smaller, or changed, and one or two more go to its right.
    #[verifier::external_body]
    fn insert_rhs<'t, 'c>(store: &mut P::SliceRefStore, cb: CursorBuilder<'c>, right_of: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, new_size: I, mode: CursorMode,
        fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>, updates_callback: &mut Callback) -> (r: PostInsertResult<'t, I, S, P, M>)
        requires right_of.id() == changed::<I>().0, right_of.v() is Some,
            wanted() =~= seq![E { s: right_of.v().unwrap(), n: new_size }, e(fst)] + match snd { Some(s) => seq![e(s)], None => Seq::empty() },
        ensures final(updates_callback).seen() == if old(updates_callback).quiet() { old(updates_callback).seen() } else { old(updates_callback).seen().push(None) }
    { unimplemented!() }
    /// One or two slices go between two others, which stay.
    #[verifier::external_body]
    unsafe fn do_insert_full_edge_no_join<'t, 'c>(store: &mut P::SliceRefStore, cursor_builder: CursorBuilder<'c>, node: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>, new_key_idx: u8,
        override_lhs_size: Option<I>, fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>, updates_callback: &mut Callback, map_state: Keep<I, S, P, M>) -> (r: PostInsertResult<'t, I, S, P, M>)
        requires goes::<I, S>() == (node.tree(), new_key_idx), override_lhs_size is None, wanted() =~= list(there::<I, S>().0) + seq![e(fst)] + match snd { Some(s) => seq![e(s)], None => Seq::empty() } + list(there::<I, S>().1)
        ensures final(updates_callback).seen() == if old(updates_callback).quiet() { old(updates_callback).seen() } else { old(updates_callback).seen().push(None) }
    { unimplemented!() }
    /// One slice in the tree has changed and the one after it is to go.
    #[verifier::external_body]
    fn handle_join_deletion<'t, 'c>(store: &mut P::SliceRefStore, cursor_builder: CursorBuilder<'c>, lhs: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, old_lhs_size: I, new_lhs_size: I,
        rhs: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, rhs_size: I) -> (r: PostInsertResult<'t, I, S, P, M>)
        requires lhs.id() == changed::<I>().0, old_lhs_size == changed::<I>().1, lhs.v() is Some, wanted() =~= seq![E { s: lhs.v().unwrap(), n: new_lhs_size }], rhs.v() is None, rhs.size() == rhs_size
    { unimplemented!() }
}
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Joins<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M>
//@ only
//@ fn do_insert_full_split_key -> r props=C01,C02,C08,C15,C24
    requires laws::<I>(), within(info, slice, slice_size), *old(tree_len) + 2 <= usize::MAX, !old(updates_callback).quiet()
    ensures *final(tree_len) + 1 == *old(tree_len) + wanted::<I, S>().len(),
        final(updates_callback).seen() == old(updates_callback).seen().push(if S::may() && S::joins(S::left_of(info.handle.v().unwrap(), info.pos_in_key), slice) { Some(info.handle.id()) } else if wanted::<I, S>().len() == 1 { Some(info.handle.id()) } else { None })
//@ body
    proof { law_diff(info.pos_in_key, info.handle.size()); law_zero::<I>(); }
//@ fn do_insert_full_edge -> r props=C01,C02,C08,C15,C24
    requires laws::<I>(), between(insert, slice, size), *old(tree_len) >= some(there::<I, S>().0) + some(there::<I, S>().1), *old(tree_len) < usize::MAX, !old(updates_callback).quiet()
    ensures *final(tree_len) + some(there::<I, S>().0) + some(there::<I, S>().1) == *old(tree_len) + wanted::<I, S>().len(),
        final(updates_callback).seen() == old(updates_callback).seen().push(told(slice, size))
//@ fn do_insert_full -> r props=C01,C02,C08,C15,C24
    requires laws::<I>(), *old(tree_len) + 2 <= usize::MAX, *old(tree_len) >= some(there::<I, S>().0) + some(there::<I, S>().1), !old(updates_callback).quiet(), match insertion_point {
            ChildOrKey::Child(i) => between(i, slice, size),
            ChildOrKey::Key(i) => within(i, slice, size),
        }
    ensures *final(tree_len) + some(there::<I, S>().0) + some(there::<I, S>().1) + (if insertion_point is Key { 1int } else { 0 }) == *old(tree_len) + wanted::<I, S>().len(),
//@ fn do_insert_full_edge_try_join -> r props=C01,C02,C08,C15,C24
    requires laws::<I>(), *old(tree_len) >= some(there::<I, S>().0) + some(there::<I, S>().1), !old(updates_callback).quiet(),
        S::may() ==> (there::<I, S>().0 is Some || there::<I, S>().1 is Some) && stands(adjacent_keys.lhs, there().0) && stands(adjacent_keys.rhs, there().1),
        wanted() == outcome(there().0, E { s: slice, n: slice_size }, there().1),
        S::may() ==> (match there::<I, S>().0 {
            Some(l) if joins(l, E { s: slice, n: slice_size }) => changed::<I>() == (adjacent_keys.lhs.unwrap().id(), adjacent_keys.lhs.unwrap().size()),
            _ => adjacent_keys.rhs matches Some(h) ==> changed::<I>() == (h.id(), h.size()),
        }),
    ensures match r {
        Err(s) => s == slice && *final(tree_len) == *old(tree_len) && *final(updates_callback) == *old(updates_callback) && ({
            let (l, x, r) = (there::<I, S>().0, E { s: slice, n: slice_size }, there::<I, S>().1);
            (l matches Some(l) ==> !joins(l, x)) && (r matches Some(r) ==> !joins(x, r))
        }),
        Ok(_) => *final(tree_len) + some(there::<I, S>().0) + some(there::<I, S>().1) == *old(tree_len) + wanted::<I, S>().len() && final(updates_callback).seen() == old(updates_callback).seen().push(told(slice, slice_size)) && told(slice, slice_size) == Some(changed::<I>().0),
    }
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ loop
    invariant_except_break *tree_len == *old(tree_len), updates_callback == old(updates_callback)
    ensures *tree_len == *old(tree_len), *updates_callback == *old(updates_callback), edits(single_join),
        wanted::<I, S>().len() == some(there::<I, S>().0) + some(there::<I, S>().1)
//@ end
fn main() {}
}
