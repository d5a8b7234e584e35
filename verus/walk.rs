// Walks along the tree (src/tree/mod.rs, src/tree/node.rs): the path recorded for a cursor, and the place of a slice
// found by following the recorded parents. For every tree, height, M and lawful index type; in trees that may share
// nodes the records may be out of date in any way.
//@ rewrite pub\(crate\) => pub
//@ include tree.inc noprops
//@ macro panic => refuse()
//@ rewrite \bC::IS_NOP\b => C::is_nop()
//@ rewrite \bP::COW\b => P::cow()
//@ rewrite \b(\w+)\.ptr == (\w+)\.ptr\(\) => \1.ptr.same(\2.ptr())
//@ include heap.inc
impl Ptr { #[verifier::external_body] fn same(self, o: Ptr) -> (r: bool) ensures r == (self == o) { unimplemented!() } }
pub struct Parent { pub ptr: Ptr, pub idx_in_parent: u8 }
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<Parent>)
        ensures match self.tree().up { Some((p, c)) => r == Some(Parent { ptr: p, idx_in_parent: c }), None => r is None } { unimplemented!() }
}
/// Any cursor: what was prepended to it, from the root down.
pub trait Cursor: Sized {
    spec fn given(self) -> Seq<u8>;
    spec fn nop() -> bool;
    fn is_nop() -> (r: bool) ensures r == Self::nop();
    fn new_empty() -> (r: Self) ensures r.given() == Seq::<u8>::empty();
    fn prepend_to_path(&mut self, component: PathComponent) ensures final(self).given() == seq![component.child_idx] + old(self).given();
}
pub mod steps { use super::*;
/// from the top: a node and the index of the child taken
pub type Path<I> = Seq<(Tree<I>, u8)>;
/// The path leads from s to t. With rec, each child on it records its place.
spec fn walked<I: Index>(s: Tree<I>, path: Path<I>, t: Tree<I>, rec: bool) -> bool decreases path.len() {
    if path.len() == 0 { t == s } else {
        let (p, c) = path.last();
        c < p.kids.len() && t == p.kids[c as int] && (rec ==> t.up == Some((p.at, c))) && walked(s, path.drop_last(), p, rec)
    }
}
/// Where its end begins.
spec fn base_of<I: Index>(path: Path<I>) -> I decreases path.len() {
    if path.len() == 0 { I::z() } else { base_of(path.drop_last()).cat(path.last().0.cpos(path.last().1 as int)) }
}
/// The children h lead to the node with the slice that covers x.
pub closed spec fn leads<I: Index>(s: Tree<I>, h: Seq<u8>, x: I) -> bool {
    exists|path: Path<I>, t: Tree<I>, k: int| h == path.map_values(|e: (Tree<I>, u8)| e.1) && #[trigger] walked(s, path, t, false) && 0 <= k < t.keys.len()
        && !lt(x, base_of(path).cat(#[trigger] t.keys[k])) && lt(x, base_of(path).cat(t.cpos(k + 1)))
}
pub open spec fn tree_ok<I: Index>(t: Tree<I>, cow: bool) -> bool { laws::<I>() && t.wf() && placed(t) && (!cow ==> linked(t) && t.up is None) }
proof fn lemma_walked<I: Index>(s: Tree<I>, path: Path<I>, t: Tree<I>, rec: bool, cow: bool)
    requires tree_ok(s, cow), walked(s, path, t, rec)
    ensures t.wf(), placed(t), t.height + path.len() == s.height, !cow ==> linked(t),
        forall|x: I, e: I, id: SliceId| #[trigger] t.holds(x, e, id) ==> s.holds(base_of(path).cat(x), base_of(path).cat(e), id)
    decreases path.len()
{
    law_zero::<I>();
    if path.len() > 0 {
        let (p, c) = path.last();
        let b = base_of(path.drop_last());
        lemma_walked(s, path.drop_last(), p, rec, cow);
        assert forall|x: I, e: I, id: SliceId| #[trigger] t.holds(x, e, id) implies s.holds(base_of(path).cat(x), base_of(path).cat(e), id) by {
            assert(p.kids[c as int].holds(x, e, id));
            assert(p.holds(p.cpos(c as int).cat(x), p.cpos(c as int).cat(e), id));
            law_assoc(b, p.cpos(c as int), x); law_assoc(b, p.cpos(c as int), e);
        }
    }
}
/// t is reached from s by recorded steps, and target there is goal in s.
pub closed spec fn reached<I: Index>(s: Tree<I>, t: Tree<I>, goal: I, target: I) -> bool {
    exists|path: Path<I>| #[trigger] walked(s, path, t, true) && base_of(path).cat(target) == goal
}
pub broadcast proof fn reach_start<I: Index>(s: Tree<I>, goal: I)
    requires laws::<I>()
    ensures #[trigger] reached(s, s, goal, goal)
{ law_zero::<I>(); assert(walked(s, Seq::empty(), s, true)); }
pub broadcast proof fn reach_is<I: Index>(s: Tree<I>, t: Tree<I>, goal: I, target: I, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, t, goal, target)
    ensures t.wf(), placed(t), t.height <= s.height, !cow ==> linked(t), t.height != s.height ==> t.up is Some, !cow && t.up is Some ==> t.height != s.height
{ let path = choose|path: Path<I>| #[trigger] walked(s, path, t, true) && base_of(path).cat(target) == goal; lemma_walked(s, path, t, true, cow); }
/// Down to child c, which records its place.
pub broadcast proof fn reach_child<I: Index>(s: Tree<I>, p: Tree<I>, goal: I, target: I, c: int, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, p, goal, target), 0 <= c < p.kids.len(), !lt(target, p.cpos(c)), lt(target, p.next(c)), (#[trigger] p.kids[c]).up == Some((p.at, c as u8)) || !cow
    ensures reached(s, p.kids[c], goal, target.sl(p.cpos(c)))
{
    let path = choose|path: Path<I>| #[trigger] walked(s, path, p, true) && base_of(path).cat(target) == goal;
    lemma_walked(s, path, p, true, cow);
    let path2 = path.push((p, c as u8));
    assert(path2.drop_last() == path);
    assert(walked(s, path2, p.kids[c], true));
    law_diff(p.cpos(c), target); law_assoc(base_of(path), p.cpos(c), target.sl(p.cpos(c)));
}
/// Any child into which target falls: what is looked for there.
pub broadcast proof fn child_is<I: Index>(p: Tree<I>, target: I, c: int)
    requires laws::<I>(), p.wf(), 0 <= c < p.kids.len(), !lt(target, p.cpos(c)), lt(target, p.next(c))
    ensures lt(#[trigger] target.sl(p.cpos(c)), p.kids[c].size), p.kids[c].wf(), p.kids[c].height + 1 == p.height, p.cpos(c).cat(target.sl(p.cpos(c))) == target
{ law_diff(p.cpos(c), target); law_mono(p.cpos(c), target.sl(p.cpos(c)), p.kids[c].size); }
/// Up again, to the recorded parent.
pub broadcast proof fn reach_up<I: Index>(s: Tree<I>, t: Tree<I>, goal: I, target: I, cow: bool, a: Ptr)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, t, goal, target), t.height != s.height || (!cow && t.up is Some), t.up is Some ==> t.up.unwrap().0 == a
    ensures t.height < s.height, t.up matches Some((x, c)) && ({
        let p = #[trigger] heap::<I>(a);
        c < p.kids.len() && t == p.kids[c as int] && p.height == t.height + 1 && reached(s, p, goal, p.cpos(c as int).cat(target))
    })
{
    let path = choose|path: Path<I>| #[trigger] walked(s, path, t, true) && base_of(path).cat(target) == goal;
    lemma_walked(s, path, t, true, cow);
    assert(path.len() > 0);
    let (p, c) = path.last();
    lemma_walked(s, path.drop_last(), p, true, cow);
    law_assoc(base_of(path.drop_last()), p.cpos(c as int), target);
    assert(t.up == Some((p.at, c)) && heap::<I>(p.at) == p);
    assert(base_of(path) == base_of(path.drop_last()).cat(p.cpos(c as int)));
    assert(walked(s, path.drop_last(), p, true) && base_of(path.drop_last()).cat(p.cpos(c as int).cat(target)) == goal);
    assert(reached(s, p, goal, p.cpos(c as int).cat(target)));
}
/// At the top again.
pub broadcast proof fn reach_top<I: Index>(s: Tree<I>, t: Tree<I>, goal: I, target: I, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, t, goal, target), t.height == s.height || t.up is None
    ensures t == s, target == goal
{
    let path = choose|path: Path<I>| #[trigger] walked(s, path, t, true) && base_of(path).cat(target) == goal;
    lemma_walked(s, path, t, true, cow);
    law_zero::<I>();
}
/// What lies in t lies in s.
pub broadcast proof fn reach_holds<I: Index>(s: Tree<I>, t: Tree<I>, goal: I, target: I, k: int, size: I, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, t, goal, target), 0 <= k < t.keys.len(), t.keys[k] == target, t.keys[k].cat(size) == t.cpos(k + 1)
    ensures s.holds(goal, #[trigger] goal.cat(size), #[trigger] t.ids[k])
{
    let path = choose|path: Path<I>| #[trigger] walked(s, path, t, true) && base_of(path).cat(target) == goal;
    lemma_walked(s, path, t, true, cow);
    law_assoc(base_of(path), target, size);
    assert(t.holds(t.keys[k], t.cpos(k + 1), t.ids[k]));
}
proof fn lemma_leaf<I: Index>(t: Tree<I>, n: int, x: I) -> (k: int)
    requires laws::<I>(), t.node_ok(), t.kids.len() == 0, 0 < n <= t.keys.len(), lt(x, t.next(n))
    ensures 0 <= k < n, !lt(x, t.keys[k]), lt(x, t.cpos(k + 1))
    decreases n
{
    if lt(x, t.keys[n - 1]) { law_zero::<I>(); lemma_leaf(t, n - 1, x) } else { n - 1 }
}
proof fn lemma_here<I: Index>(t: Tree<I>, h: Seq<u8>, x: I, k: int)
    requires laws::<I>(), 0 <= k < t.keys.len(), !lt(x, t.keys[k]), lt(x, t.cpos(k + 1)), h.len() == 0
    ensures leads(t, h, x)
{
    law_zero::<I>();
    let path: Path<I> = Seq::empty();
    assert(h =~= path.map_values(|e: (Tree<I>, u8)| e.1));
    assert(walked(t, path, t, false));
    assert(base_of(path).cat(t.keys[k]) == t.keys[k]);
}
/// x is in a slice of this node, as it must be in a leaf: nothing needs to be recorded.
pub broadcast proof fn back_here<I: Index>(s: Tree<I>, t: Tree<I>, h: Seq<u8>, goal: I, x: I, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] reached(s, t, goal, x), h.len() == 0,
        (t.kids.len() == 0 && lt(x, t.size)) || exists|k: int| 0 <= k < t.keys.len() && !lt(x, #[trigger] t.keys[k]) && lt(x, t.cpos(k + 1))
    ensures #[trigger] back(s, t, h, goal)
{
    reach_is(s, t, goal, x, cow);
    let k = if t.kids.len() == 0 && lt(x, t.size) { lemma_leaf(t, t.keys.len() as int, x) } else { choose|k: int| 0 <= k < t.keys.len() && !lt(x, #[trigger] t.keys[k]) && lt(x, t.cpos(k + 1)) };
    lemma_here(t, h, x, k);
}
proof fn lemma_prepend<I: Index>(p: Tree<I>, c: u8, path: Path<I>, t: Tree<I>)
    requires laws::<I>(), c < p.kids.len(), walked(p.kids[c as int], path, t, false)
    ensures walked(p, seq![(p, c)] + path, t, false), base_of(seq![(p, c)] + path) == p.cpos(c as int).cat(base_of(path))
    decreases path.len()
{
    law_zero::<I>();
    let path2 = seq![(p, c)] + path;
    if path.len() == 0 {
        assert(path2.drop_last() =~= Seq::<(Tree<I>, u8)>::empty());
        assert(walked(p, path2.drop_last(), p, false));
        assert(base_of(path2.drop_last()) == I::z());
    } else {
        let (q, d) = path.last();
        lemma_prepend(p, c, path.drop_last(), q);
        assert(path2.drop_last() =~= seq![(p, c)] + path.drop_last());
        law_assoc(p.cpos(c as int), base_of(path.drop_last()), q.cpos(d as int));
    }
}
/// The same path from the parent.
pub broadcast proof fn leads_up<I: Index>(p: Tree<I>, c: u8, h: Seq<u8>, x: I)
    requires laws::<I>(), c < p.kids.len(), #[trigger] leads(p.kids[c as int], h, x)
    ensures leads(p, #[trigger] (seq![c] + h), p.cpos(c as int).cat(x))
{
    let t0 = p.kids[c as int]; let a = p.cpos(c as int);
    let (path, t, k) = choose|path: Path<I>, t: Tree<I>, k: int| h == path.map_values(|e: (Tree<I>, u8)| e.1) && #[trigger] walked(t0, path, t, false) && 0 <= k < t.keys.len()
        && !lt(x, base_of(path).cat(#[trigger] t.keys[k])) && lt(x, base_of(path).cat(t.cpos(k + 1)));
    let b = base_of(path);
    lemma_prepend(p, c, path, t);
    let path2 = seq![(p, c)] + path;
    assert(seq![c] + h =~= path2.map_values(|e: (Tree<I>, u8)| e.1));
    law_assoc(a, b, t.keys[k]); law_assoc(a, b, t.cpos(k + 1));
    law_mono(a, x, b.cat(t.keys[k])); law_mono(a, x, b.cat(t.cpos(k + 1)));
}
/// On the way back up, with h recorded.
pub closed spec fn back<I: Index>(s: Tree<I>, t: Tree<I>, h: Seq<u8>, goal: I) -> bool { exists|y: I| #[trigger] reached(s, t, goal, y) && leads(t, h, y) }
pub broadcast proof fn back_start<I: Index>(s: Tree<I>, t: Tree<I>, h: Seq<u8>, goal: I, y: I)
    requires #[trigger] reached(s, t, goal, y), #[trigger] leads(t, h, y)
    ensures back(s, t, h, goal)
{}
pub broadcast proof fn back_up<I: Index>(s: Tree<I>, t: Tree<I>, h: Seq<u8>, goal: I, cow: bool, a: Ptr)
    requires #[trigger] tree_ok(s, cow), #[trigger] back(s, t, h, goal), t.height != s.height || (!cow && t.up is Some), t.up is Some ==> t.up.unwrap().0 == a
    ensures t.height < s.height, t.up matches Some((x, c)) && back(s, #[trigger] heap::<I>(a), seq![c] + h, goal) && heap::<I>(a).height > t.height
{
    let y = choose|y: I| #[trigger] reached(s, t, goal, y) && leads(t, h, y);
    reach_up(s, t, goal, y, cow, a);
    let c = t.up.unwrap().1;
    leads_up(heap::<I>(a), c, h, y);
}
pub broadcast proof fn back_top<I: Index>(s: Tree<I>, t: Tree<I>, h: Seq<u8>, goal: I, cow: bool)
    requires #[trigger] tree_ok(s, cow), #[trigger] back(s, t, h, goal)
    ensures t.height <= s.height, t.height == s.height || t.up is None ==> leads(s, h, goal), t.height != s.height ==> t.up is Some, !cow && t.up is Some ==> t.height != s.height
{
    let y = choose|y: I| #[trigger] reached(s, t, goal, y) && leads(t, h, y);
    reach_is(s, t, goal, y, cow);
    if t.height == s.height || t.up is None { reach_top(s, t, goal, y, cow); }
}
}
use steps::*;

#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Root<I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
    pub handle: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>,
    pub refs_store: P::SliceRefStore,
}
//@ source src/tree/mod.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type RleTree
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> RleTree<I, S, P, M>
    pub open spec fn len_of(self) -> I { match self.root { Some(r) => r.handle.tree().size, None => I::z() } }
//@ only
//@ fn size -> r props=C07
    ensures r == self.len_of()
//@ fn cursor_to -> r props=C07,C14
    requires laws::<I>(), self.root matches Some(x) ==> tree_ok(x.handle.tree(), P::is_cow()), refusable() == !lt(idx, self.len_of())
    ensures lt(idx, self.len_of()), C::nop() || leads(self.root.unwrap().handle.tree(), r.given(), idx)
//@ body
    proof { law_zero::<I>(); }
//@ nested recurse -> r props=C07
    requires tree_ok(node.tree(), P::is_cow()), lt(target, node.tree().size)
    ensures leads(node.tree(), r.given(), target)
    decreases node.tree().height
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ body
    broadcast use {reach_start, reach_is, reach_child, child_is, back_here, leads_up, back_start, back_up, back_top};
    let ghost (s, goal) = (node.tree(), target);
//@ loop
    invariant tree_ok(s, P::is_cow()), reached(s, node.tree(), goal, target), lt(target, node.tree().size)
    ensures back(s, node.tree(), C::given(cursor), goal)
    decreases node.tree().height
//@ loop
    invariant tree_ok(s, P::is_cow()), back(s, node.tree(), cursor.given(), goal)
    decreases s.height - node.tree().height
//@ end
use std::ops::Range;
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn key_pos(&self) -> (r: I) requires self.idx < self.node.tree().keys.len() ensures r == self.node.tree().keys[self.idx as int] { unimplemented!() }
}
/// The tree a handle is in.
pub uninterp spec fn top<I>() -> Tree<I>;
//@ source src/tree/node.rs
//@ impl impl<I, S, P, const M: usize> SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M> where P: RleTreeConfig<I, S, M>, => impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M>
//@ only
//@ fn range -> r props=C08
    requires tree_ok(top::<I>(), false), self.idx < self.node.tree().keys.len(), exists|g: I| reached(top::<I>(), self.node.tree(), g, self.node.tree().keys[self.idx as int])
    ensures reached(top::<I>(), self.node.tree(), r.start, self.node.tree().keys[self.idx as int]), top::<I>().holds(r.start, r.end, self.id())
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {reach_is, reach_up, reach_top, reach_holds};
    let ghost goal = choose|g: I| reached(top::<I>(), self.node.tree(), g, self.node.tree().keys[self.idx as int]);
//@ loop
    invariant reached(top::<I>(), node.tree(), goal, pos)
    decreases top::<I>().height - node.tree().height
//@ end
/// A slice of that tree, which covers x.
pub open spec fn covers<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: SliceHandle<Ty, B, I, S, P, M>, x: I) -> bool {
    h.idx < h.node.tree().keys.len() && reached(top::<I>(), h.node.tree(), x, h.node.tree().keys[h.idx as int])
}
fn insist(b: bool) requires !b ==> refusable() ensures b { if !b { refuse() } }
//@ macro assert => insist({})
//@ rewrite (\bfn cursor_to_handle<C: Cursor, I), => \1: Index,
//@ source src/tree/entry.rs
//@ free cursor_to_handle -> r props=C07
    requires P::is_cow() || tree_ok(top::<I>(), false), exists|x: I| covers(handle, x), refusable() == P::is_cow()
    ensures C::nop() || exists|x: I| covers(handle, x) && #[trigger] leads(top::<I>(), r.given(), x)
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {reach_is, back_here, back_up, back_top};
    let ghost goal = choose|x: I| covers(handle, x);
//@ loop
    invariant back(top::<I>(), node.tree(), cursor.given(), goal)
    decreases top::<I>().height - node.tree().height
//@ end
fn main() {}
}
