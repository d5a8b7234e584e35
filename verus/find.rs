// Finding where to insert (src/tree/insert.rs): for every tree, height, M, hint and lawful index type.
//@ rewrite \bS::MAY_JOIN\b => S::may_join()
//@ include tree.inc noprops
pub trait SupportsInsert<I, S, const M: usize> {}
#[verifier::external_body]
fn next_hint<T>(it: &mut Option<T>) -> Option<PathComponent> { unimplemented!() }
pub trait MayJoin { spec fn joins() -> bool; fn may_join() -> (r: bool) ensures r == Self::joins(); }
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    /// It is a slice of the node, and this one.
    pub open spec fn is(self, id: SliceId) -> bool { self.idx < self.node.tree().keys.len() && self.id() == id }
}
pub open spec fn names<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: Option<SliceHandle<ty::Unknown, borrow::Mut<'_>, I, S, P, M>>, id: Option<SliceId>) -> bool {
    match h { Some(h) => id matches Some(i) && h.is(i), None => id is None }
}
pub mod descent { use super::*;
/// l is the slice of t that ends at p; there is none only at the start.
spec fn ends_at<I: Index>(t: Tree<I>, l: Option<SliceId>, p: I) -> bool { match l { Some(i) => ends(t, i, p), None => p == I::z() } }
spec fn ends<I: Index>(t: Tree<I>, i: SliceId, p: I) -> bool { exists|s: I| #[trigger] t.holds(s, p, i) }
/// r is the slice of t that begins at p; there is none only at the end.
spec fn begins_at<I: Index>(t: Tree<I>, r: Option<SliceId>, p: I) -> bool { match r { Some(i) => begins(t, i, p), None => p == t.size } }
spec fn begins<I: Index>(t: Tree<I>, i: SliceId, p: I) -> bool { exists|e: I| #[trigger] t.holds(p, e, i) }
/// These are the slices on either side of p.
pub closed spec fn beside<I: Index>(t: Tree<I>, l: Option<SliceId>, r: Option<SliceId>, p: I) -> bool { ends_at(t, l, p) && begins_at(t, r, p) }
/// t is a part of top, idx is in it or at its ends at target, and l and r are the slices beside it.
pub closed spec fn within<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>) -> bool {
    exists|base: I| within_at(top, t, idx, target, l, r, base)
}
spec fn within_at<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>, base: I) -> bool {
    &&& idx == base.cat(target)
    &&& forall|s: I, e: I, id: SliceId| #[trigger] t.holds(s, e, id) ==> top.holds(base.cat(s), base.cat(e), id)
    &&& ends_at(top, l, base) && begins_at(top, r, base.cat(t.size))
}
pub proof fn find_top<I: Index>(t: Tree<I>, idx: I)
    requires laws::<I>()
    ensures within(t, t, idx, idx, None, None)
{ law_zero::<I>(); assert(within_at(t, t, idx, idx, None, None, I::z())); }
/// the slice before child c, if it is not the first; the one after, if not the last
pub open spec fn left<I: Index>(t: Tree<I>, c: int, l: Option<SliceId>) -> Option<SliceId> { if c > 0 { Some(t.ids[c - 1]) } else { l } }
pub open spec fn right<I: Index>(t: Tree<I>, c: int, r: Option<SliceId>) -> Option<SliceId> { if c < t.keys.len() { Some(t.ids[c]) } else { r } }
proof fn lemma_sides<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>, base: I, c: int)
    requires laws::<I>(), t.wf(), within_at(top, t, idx, target, l, r, base), 0 <= c <= t.keys.len()
    ensures ends_at(top, left(t, c, l), base.cat(t.cpos(c))), begins_at(top, right(t, c, r), base.cat(t.next(c)))
{
    law_zero::<I>();
    if c > 0 {
        assert(t.holds(t.keys[c - 1], t.cpos(c - 1 + 1), t.ids[c - 1]));
        assert(top.holds(base.cat(t.keys[c - 1]), base.cat(t.cpos(c)), t.ids[c - 1]));
    }
    if c < t.keys.len() {
        assert(t.holds(t.keys[c], t.cpos(c + 1), t.ids[c]));
        assert(top.holds(base.cat(t.keys[c]), base.cat(t.cpos(c + 1)), t.ids[c]));
    }
}
pub broadcast proof fn find_down<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>, c: int)
    requires laws::<I>(), t.wf(), #[trigger] within(top, t, idx, target, l, r), 0 <= c < t.kids.len(), !lt(target, t.cpos(c)), !lt(t.next(c), target)
    ensures within(top, #[trigger] t.kids[c], idx, target.sl(t.cpos(c)), left(t, c, l), right(t, c, r)), !lt(t.kids[c].size, target.sl(t.cpos(c)))
{
    let base = choose|base: I| within_at(top, t, idx, target, l, r, base);
    let (b2, k, d) = (base.cat(t.cpos(c)), t.kids[c], target.sl(t.cpos(c)));
    law_diff(t.cpos(c), target);
    assert(t.cpos(c).cat(t.kids[c].size) == t.next(c));
    law_mono(t.cpos(c), k.size, d);
    law_assoc(base, t.cpos(c), d); law_assoc(base, t.cpos(c), k.size);
    lemma_sides(top, t, idx, target, l, r, base, c);
    assert forall|s: I, e: I, id: SliceId| #[trigger] k.holds(s, e, id) implies top.holds(b2.cat(s), b2.cat(e), id) by {
        assert(t.kids[c].height < t.height);
        assert(t.holds(t.cpos(c).cat(s), t.cpos(c).cat(e), id));
        law_assoc(base, t.cpos(c), s); law_assoc(base, t.cpos(c), e);
    }
    assert(within_at(top, k, idx, d, left(t, c, l), right(t, c, r), b2));
}
/// From the start of a slice to the start of the child before it.
pub broadcast proof fn find_before<I: Index>(t: Tree<I>, k: int, z: I)
    requires laws::<I>(), t.node_ok(), 0 <= k < t.keys.len(), z == (if t.kids.len() > 0 { t.kids[k].size } else { I::z() })
    ensures #[trigger] t.keys[k].sr(z) == t.cpos(k), !lt(t.keys[k], t.cpos(k)), t.cpos(k).cat(z) == t.keys[k]
{ law_zero::<I>(); lemma_cpos(t, k); if t.kids.len() > 0 { assert(t.cpos(k).cat(t.kids[k].size) == t.next(k)); } }
/// A place between two slices of a leaf.
pub broadcast proof fn find_edge<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>, c: int)
    requires laws::<I>(), t.wf(), #[trigger] within(top, t, idx, target, l, r), t.kids.len() == 0, 0 <= c <= t.keys.len(), #[trigger] t.next(c) == target
    ensures beside(top, left(t, c, l), right(t, c, r), idx)
{
    let base = choose|base: I| within_at(top, t, idx, target, l, r, base);
    lemma_sides(top, t, idx, target, l, r, base, c);
}
/// A place inside a slice.
pub broadcast proof fn find_key<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>, d: I, k: int)
    requires laws::<I>(), t.wf(), #[trigger] within(top, t, idx, target, l, r), 0 <= k < t.keys.len(), (#[trigger] t.keys[k]).cat(d) == target, lt(t.keys[k], target), lt(target, t.cpos(k + 1)), #[trigger] t.keys[k].cat(d) == target
    ensures inside(top, t.ids[k], idx, d)
{
    let base = choose|base: I| within_at(top, t, idx, target, l, r, base);
    law_assoc(base, t.keys[k], d);
    assert(t.holds(t.keys[k], t.cpos(k + 1), t.ids[k]));
    law_mono(base, t.keys[k], target); law_mono(base, target, t.cpos(k + 1));
    assert(inside_at(top, t.ids[k], idx, d, base.cat(t.keys[k]), base.cat(t.cpos(k + 1))));
}
spec fn inside_at<I: Index>(t: Tree<I>, id: SliceId, idx: I, d: I, s: I, e: I) -> bool { t.holds(s, e, id) && s.cat(d) == idx && lt(s, idx) && lt(idx, e) }
/// idx is within slice id, d from its start, and not at either end.
pub closed spec fn inside<I: Index>(t: Tree<I>, id: SliceId, idx: I, d: I) -> bool { exists|s: I, e: I| inside_at(t, id, idx, d, s, e) }
/// Between slices of a leaf: a place in the order of the slices of top.
pub closed spec fn at_edge<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I) -> bool { exists|l: Option<SliceId>, r: Option<SliceId>| within(top, t, idx, target, l, r) }
pub broadcast proof fn find_leaf<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, l: Option<SliceId>, r: Option<SliceId>)
    requires #[trigger] within(top, t, idx, target, l, r)
    ensures #[trigger] at_edge(top, t, idx, target)
{ }
}
use descent::*;
//@ source src/tree/insert.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type EdgeInsert
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type SplitKeyInsert
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type AdjacentKeys
//@ type InsertionPoint
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct RleTree<I, S, P: RleTreeConfig<I, S, M>, const M: usize> { x: PhantomData<(I, S, P)> }
impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn split_slice_handle(&self, key_idx: u8) -> (r: SliceHandle<Ty, borrow::Mut<'t>, I, S, P, M>)
        requires key_idx < self.tree().keys.len()
        ensures r.node.tree() == self.tree(), r.idx == key_idx { unimplemented!() }
}
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I> + MayJoin, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M>
//@ only
//@ fn find_insertion_point -> r props=C01,C06,C15,C24
    requires laws::<I>(), root.tree().wf(), !lt(root.tree().size, idx)
    ensures match r {
        ChildOrKey::Child(e) => e.node.tree().height == 0 && e.new_k_idx <= e.node.tree().keys.len() && at_edge(root.tree(), e.node.tree(), idx, e.node.tree().next(e.new_k_idx as int))
            && (S::joins() ==> exists|l: Option<SliceId>, x: Option<SliceId>| names(e.adjacent_keys.lhs, l) && names(e.adjacent_keys.rhs, x) && #[trigger] beside(root.tree(), l, x, idx)),
        ChildOrKey::Key(s) => s.handle.idx < s.handle.node.tree().keys.len() && inside(root.tree(), s.handle.id(), idx, s.pos_in_key),
    }
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {find_down, find_before, find_edge, find_key, find_leaf, lemma_take};
    proof { law_zero::<I>(); find_top(root.tree(), idx); }
//@ loop
    invariant laws::<I>(), node.tree().wf(), !lt(node.tree().size, target),
        exists|l: Option<SliceId>, x: Option<SliceId>| #[trigger] within(root.tree(), node.tree(), idx, target, l, x) && (S::joins() ==> names(adjacent_keys.lhs, l) && names(adjacent_keys.rhs, x)),
    decreases node.tree().height
//@ end
fn main() {}
}
