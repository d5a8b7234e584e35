// Finding the slice at an index (src/tree/mod.rs, src/tree/node.rs): for every M, every height, every hint and every
// lawful index type, directional ones included.
//
// The accessors of a node are contracts assumed here, in terms of an abstract tree; Kani discharges them on the
// representation (pieces node/access, tree/access). What is extracted is everything that decides which slice is found.
//@ include tree.inc
//@ macro panic => refuse()
// ---- the tree -------------------------------------------------------------------------------------------------
pub trait Cursor: Sized { type PathIter; fn into_path(self) -> Self::PathIter; }
#[verifier::external_body]
fn next_hint<T>(it: &mut Option<T>) -> Option<PathComponent> { unimplemented!() }
pub struct NoCursor;
impl Cursor for NoCursor { type PathIter = (); fn into_path(self) -> () { } }

#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Root<I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
    pub handle: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>,
    pub refs_store: P::SliceRefStore,
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type RleTree
//@ source src/tree/entry.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type SliceEntry
use std::ops::Range;
//@ impl impl<'t, I, S, P, const M: usize> SliceEntry<'t, I, S, P, M> where P: RleTreeConfig<I, S, M>, I: Index, => impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceEntry<'t, I, S, P, M>
//@ only
//@ fn range -> r props=C03
    ensures r == (Range { start: self.range_start, end: self.range_end })
//@ fn size -> r props=C03,C15
    requires laws::<I>(), lt(self.range_start, self.range_end)
    ensures self.range_start.cat(r) == self.range_end
//@ body
    broadcast use lemma_take;
//@ end
//@ source src/tree/mod.rs
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> RleTree<I, S, P, M>
    pub open spec fn len_of(self) -> I { match self.root { Some(r) => r.handle.tree().size, None => I::z() } }
//@ only
//@ fn size -> r props=C02,C03
    requires laws::<I>()
    ensures r == self.len_of()
//@ fn get_with_cursor -> r props=C03,C06,C14,C15
    requires laws::<I>(), self.root matches Some(x) ==> x.handle.tree().wf(), refusable() == !lt(idx, self.len_of())
    ensures lt(idx, self.len_of()), self.root.unwrap().handle.tree().holds(r.range_start, r.range_end, r.slice.id()), !lt(idx, r.range_start), lt(idx, r.range_end)
//@ attr #[verifier::loop_isolation(false)]
//@ body
    proof { law_zero::<I>(); }
    broadcast use {lemma_down, lemma_take, lemma_suffix, lemma_found};
    proof { if self.root is Some { lemma_top(self.root.unwrap().handle.tree(), idx); } }
//@ loop
    invariant laws::<I>(), node.tree().wf(), part(self.root.unwrap().handle.tree(), node.tree(), idx, target), lt(target, node.tree().size),
    decreases node.tree().height
//@ fn get -> r props=C03,C14
    requires laws::<I>(), self.root matches Some(x) ==> x.handle.tree().wf(), refusable() == !lt(idx, self.len_of())
    ensures lt(idx, self.len_of()), self.root.unwrap().handle.tree().holds(r.range_start, r.range_end, r.slice.id()), !lt(idx, r.range_start), lt(idx, r.range_end)
//@ end
fn main() {}
}
