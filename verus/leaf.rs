// Putting slices in a leaf that has room (src/tree/insert.rs): for every leaf, M and lawful index type. What is left to be
// repositioned must meet what repositioning needs (`after_key`, verified in `shift`), and come to what was asked for: both
// are stated as the preconditions of the call that goes on.
//@ rewrite \bupdates_callback\((?=TraverseUpdate) => updates_callback.told(
//@ rewrite \bUpdatesCallback<I, S, P, M> => &mut Callback
//@ rewrite <BubbledInsertState<'t, 'c, I, S, P, M> as MapState>::Map<'m> => MapBubbled<I, S, P, M>
//@ include shift.inc noprops
pub trait SupportsInsert<I, S, const M: usize> {}
/// The slice that is made of a value.
pub uninterp spec fn made<S>(s: S) -> SliceId;
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    #[verifier::external_body]
    pub fn max_len(&self) -> (r: u8) ensures r == 2 * M, r >= 2 { unimplemented!() }
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn key_pos(&self) -> (r: I) requires self.idx < self.node.tree().keys.len() ensures r == self.node.tree().keys[self.idx as int] { unimplemented!() }
}
impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn set_single_key_pos(&mut self, k_idx: u8, pos: I)
        requires k_idx < old(self).tree().keys.len()
        ensures final(self).tree() == (Tree { keys: old(self).tree().keys.update(k_idx as int, pos), ..old(self).tree() }), final(self).above() == old(self).above() { unimplemented!() }
}
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn insert_key(&mut self, store: &mut P::SliceRefStore, key_idx: u8, slice: S) -> (r: I)
        requires key_idx <= old(self).tree().keys.len(), old(self).tree().keys.len() < 2 * M
        ensures r == old(self).tree().next(key_idx as int), final(self).above() == old(self).above(),
            final(self).tree() == (Tree { keys: old(self).tree().keys.insert(key_idx as int, r), ids: old(self).tree().ids.insert(key_idx as int, made(slice)), ..old(self).tree() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: () }
impl Callback {
    /// The slices it was told of.
    pub uninterp spec fn seen(self) -> Seq<SliceId>;
    #[verifier::external_body]
    pub fn told(&mut self, u: TraverseUpdate) ensures final(self).seen() == old(self).seen().push(u.id) { unimplemented!() }
}
pub struct TraverseUpdate { pub id: SliceId }
impl TraverseUpdate {
    #[verifier::external_body]
    pub fn insert<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: &SliceHandle<Ty, B, I, S, P, M>) -> (r: Self) ensures r.id == h.id() { unimplemented!() }
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub enum PostInsertResult<'t, I, S, P: RleTreeConfig<I, S, M>, const M: usize> { Done, NewRoot { lhs: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M> } }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct MapOp<I, S, P, const M: usize> { x: PhantomData<(I, S, P)> }
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct MapBubbled<I, S, P, const M: usize> { pub post_op: MapOp<I, S, P, M> }
//@ source src/tree/mod.rs
//@ type SliceSize

/// What is asked for: in leaf t, at idx, these slices with their sizes, the one before taking on a size.
pub struct Asked<I> { pub t: Tree<I>, pub idx: int, pub lhs: Option<I>, pub new: Seq<(SliceId, I)> }
pub uninterp spec fn asked<I>() -> Asked<I>;
impl<I: Index> Asked<I> {
    /// where the first of them begins
    pub open spec fn start(self) -> I { match self.lhs { Some(n) => self.t.keys[self.idx - 1].cat(n), None => self.t.next(self.idx) } }
    /// where the last ends
    pub open spec fn end(self) -> I { self.start().cat(self.added()) }
    pub open spec fn added(self) -> I { if self.new.len() == 1 { self.new[0].1 } else { self.new[0].1.cat(self.new[1].1) } }
    pub open spec fn fair(self) -> bool {
        &&& self.t.wf() && self.t.height == 0 && 0 <= self.idx <= self.t.keys.len() && 1 <= self.new.len() <= 2
        &&& lt(I::z(), self.new[0].1) && lt(I::z(), self.new.last().1)
        &&& self.lhs matches Some(n) ==> self.idx > 0 && lt(I::z(), n)
    }
    /// t has them, and slice k and those after are still to be moved to where k ends, at b.
    pub open spec fn is_done(self, t: Tree<I>, k: int, b: I) -> bool {
        let m = self.new.len();
        &&& k == self.idx + m - 1 && b == self.end()
        &&& t == Tree { keys: t.keys, ids: t.ids, ..self.t }
        &&& t.keys.len() == self.t.keys.len() + m && t.ids.len() == t.keys.len()
        &&& forall|j: int| 0 <= j < self.idx ==> #[trigger] t.keys[j] == self.t.keys[j] && t.ids[j] == self.t.ids[j]
        &&& t.keys[self.idx] == self.start() && (m == 2 ==> t.keys[k] == self.start().cat(self.new[0].1))
        &&& forall|j: int| self.idx <= j <= k ==> #[trigger] t.ids[j] == self.new[j - self.idx].0
        &&& forall|j: int| k < j < t.keys.len() ==> #[trigger] t.keys[j] == self.t.keys[j - m] && t.ids[j] == self.t.ids[j - m]
    }
}
proof fn lemma_node<I: Index>(t: Tree<I>) requires t.wf() ensures t.node_ok() { }
/// The slice that is before the ones put in is not left overlapping them, nor are they left overlapping one another.
proof fn leaf_done<I: Index>(a: Asked<I>, t: Tree<I>, k: int, b: I)
    requires laws::<I>(), a.fair(), a.is_done(t, k, b), t.keys.len() < 255
    ensures but(t, k), t.cpos(k + 1) == a.t.next(a.idx), lt(t.keys[k], b)
{
    law_zero::<I>();
    let m = a.new.len() as int;
    let n = a.t.keys.len() as int;
    law_mono(a.start(), I::z(), a.new[0].1);
    if m == 2 { law_mono(a.new[0].1, I::z(), a.new[1].1); law_mono(a.start(), a.new[0].1, a.new[0].1.cat(a.new[1].1)); }
    assert(t.cpos(k + 1) == a.t.next(a.idx));
    assert(a.t.cpos(0) == I::z());
    if a.idx > 0 {
        assert(lt(a.t.keys[a.idx - 1], a.t.cpos(a.idx - 1 + 1)));
        if a.lhs is Some { law_mono(a.t.keys[a.idx - 1], I::z(), a.lhs.unwrap()); }
    }
    assert forall|j: int| 0 <= j < t.keys.len() && j != k implies lt(#[trigger] t.keys[j], t.cpos(j + 1)) by {
        if j < a.idx { assert(lt(a.t.keys[j], a.t.cpos(j + 1))); } else if j > k { assert(lt(a.t.keys[j - m], a.t.cpos(j - m + 1))); assert(t.cpos(j + 1) == a.t.cpos(j - m + 1)); }
    }
    assert(t.cpos(0) == I::z());
}
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    pub open spec fn pos(self) -> I { match (self.override_pos, self.child_or_key) { (Some(p), _) => p, (None, ChildOrKey::Key((k, h))) => h.tree().keys[k as int], _ => I::z() } }
    /// The slices are in, and the rest is to be moved.
    pub open spec fn after_put(self) -> bool {
        self.child_or_key matches ChildOrKey::Key((k, h)) && asked().is_done(h.tree(), k as int, self.pos().cat(self.new_size)) && h.tree().keys.len() < 255
            && self.pos().cat(self.old_size) == asked::<I>().t.next(asked::<I>().idx) && above_ok(h.above(), h.tree().height, h.tree().size) && self.at_node()
    }
    proof fn lemma_put(self) requires laws::<I>(), asked::<I>().fair(), self.after_put() ensures self.after_key()
    { if let ChildOrKey::Key((k, h)) = self.child_or_key { leaf_done(asked(), h.tree(), k as int, self.pos().cat(self.new_size)); } }
    #[verifier::external_body]
    pub fn finish(self, map_state: MapOp<I, S, P, M>, early_exit: Option<()>)
        requires early_exit is None, self.after_put()
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct BubbledInsertState<'t, 'c, I, S, P: RleTreeConfig<I, S, M>, const M: usize> { x: PhantomData<(&'t (), &'c (), I, S, P)> }
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> {
    #[verifier::external_body]
    pub fn finish(self, store: &mut P::SliceRefStore, map_state: MapBubbled<I, S, P, M>, updates_callback: &mut Callback, early_exit: Option<()>) -> (r: PostInsertResult<'t, I, S, P, M>)
        requires early_exit is None
        ensures final(updates_callback).seen() == old(updates_callback).seen() { unimplemented!() }
}
spec fn pairs<I, S>(fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>) -> Seq<(SliceId, I)> {
    match snd { Some(s) => seq![(made(fst.slice), fst.size), (made(s.slice), s.size)], None => seq![(made(fst.slice), fst.size)] }
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct RleTree<I, S, P: RleTreeConfig<I, S, M>, const M: usize> { x: PhantomData<(I, S, P)> }
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    /// Only a leaf without room for them is split.
    #[verifier::external_body]
    unsafe fn do_insert_full_edge_no_join_split<'t, 'c>(store: &mut P::SliceRefStore, cursor_builder: CursorBuilder<'c>, node: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>, new_key_idx: u8,
        override_lhs_size: Option<I>, fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>, updates_callback: &mut Callback) -> (r: BubbledInsertState<'t, 'c, I, S, P, M>)
        requires asked() == (Asked { t: node.tree(), idx: new_key_idx as int, lhs: override_lhs_size, new: pairs(fst, snd) }), node.tree().keys.len() + asked::<I>().new.len() > 2 * M, cursor_builder.due() == way(node.above())
        ensures final(updates_callback).seen() == old(updates_callback).seen().push(made(fst.slice))
    { unimplemented!() }
}
//@ source src/tree/insert.rs
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M>
//@ only
//@ fn do_insert_full_edge_no_join -> r props=C01,C02,C05,C07,C08,C15
    requires laws::<I>(), rdiff::<I>(), asked() == (Asked { t: node.tree(), idx: new_key_idx as int, lhs: override_lhs_size, new: pairs(fst, snd) }), asked::<I>().fair(),
        above_ok(node.above(), node.tree().height, node.tree().size), node.tree().keys.len() <= 2 * M, 2 * M < 255, cursor_builder.due() == way(node.above())
    ensures final(updates_callback).seen() == old(updates_callback).seen().push(made(fst.slice))
//@ body
    hide(above_ok); hide(Tree::wf);
    let ghost a = asked::<I>();
    proof { law_zero::<I>(); lemma_node(a.t); if a.lhs is Some { law_assoc(a.t.keys[a.idx - 1], a.lhs.unwrap(), a.added()); } }
//@ end
fn main() {}
}
