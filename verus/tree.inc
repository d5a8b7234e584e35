//@ macro debug_assert => check({})
//@ macro weak_assert => check({})
//@ macro unreachable => never()
//@ rewrite \bI::ZERO\b => I::zero()
//@ rewrite \.expect\("[^"]*"\) => .unwrap()
//@ rewrite cursor_iter\.as_mut\(\)\.and_then\(\|(\w+)\| \1\.next\(\)\) => next_hint(&mut cursor_iter)
//@ rewrite const M: usize = DEFAULT_MIN_KEYS => const M: usize
//@ rewrite \bP = param::NoFeatures => P
//@ rewrite \broot: Option<Root => pub root: Option<Root
//@ rewrite \bpub\(super\) => pub
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::marker::PhantomData;
verus! {
fn never() -> ! requires false { vstd::pervasive::unreached() }
fn check(b: bool) requires b {}
/// Whether the request at hand may be refused by panicking.
pub uninterp spec fn refusable() -> bool;
#[verifier::external_body]
fn refuse() -> ! requires refusable() { unimplemented!() }


// ---- the index type -------------------------------------------------------------------------------------------
/// a.cat(b) is a.add_right(b): "a, then b to its right".
pub trait Index: Copy + Ord {
    spec fn z() -> Self;
    spec fn cat(self, r: Self) -> Self;
    spec fn sr(self, r: Self) -> Self;
    spec fn sl(self, l: Self) -> Self;
    fn zero() -> (r: Self) ensures r == Self::z();
    fn add_right(self, right: Self) -> (r: Self) ensures r == self.cat(right);
    fn add_left(self, left: Self) -> (r: Self) ensures r == left.cat(self);
    // only what was added on that side may be taken off again
    fn sub_right(self, right: Self) -> (r: Self) requires self.sr(right).cat(right) == self ensures r == self.sr(right);
    fn sub_left(self, left: Self) -> (r: Self) requires left.cat(self.sl(left)) == self ensures r == self.sl(left);
}
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == Ordering::Less }
/// Ord is a total order and the operators agree with it.
pub open spec fn order<I: Index>() -> bool {
    &&& <I as OrdSpec>::obeys_cmp_spec()
    &&& <I as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& <I as PartialEqSpec>::obeys_eq_spec()
    &&& forall|a: I, b: I| #[trigger] a.eq_spec(&b) == (a == b)
    &&& forall|a: I, b: I| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: I, b: I| #[trigger] a.cmp_spec(&b) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater
    &&& forall|a: I, b: I| #[trigger] a.cmp_spec(&b) == Ordering::Equal <==> a == b
    &&& forall|a: I, b: I| #[trigger] a.cmp_spec(&b) == Ordering::Less <==> lt(a, b)
    &&& forall|a: I, b: I, c: I| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c)
}
/// The documented laws of Index, DirectionalAdd and DirectionalSub.
#[verifier::opaque]
pub open spec fn arith<I: Index>() -> bool {
    &&& forall|a: I, b: I, c: I| #[trigger] a.cat(b).cat(c) == a.cat(b.cat(c))
    &&& forall|a: I| #[trigger] a.cat(I::z()) == a
    &&& forall|a: I| #[trigger] I::z().cat(a) == a
    &&& forall|a: I, b: I| #[trigger] a.cat(b).sr(b) == a
    &&& forall|a: I, b: I| #[trigger] a.cat(b).sl(a) == b
    &&& forall|a: I| !lt(a, I::z())
    &&& forall|a: I, b: I| !lt(#[trigger] a.cat(b), a)
    &&& forall|a: I, b: I, c: I| #[trigger] lt(a.cat(b), a.cat(c)) == lt(b, c)
    &&& forall|a: I, c: I| !lt(c, a) ==> a.cat(#[trigger] c.sl(a)) == c
}
pub open spec fn laws<I: Index>() -> bool { order::<I>() && arith::<I>() }
proof fn law_assoc<I: Index>(a: I, b: I, c: I) requires arith::<I>() ensures a.cat(b).cat(c) == a.cat(b.cat(c)) { reveal(arith); }
proof fn law_zero<I: Index>() requires arith::<I>()
    ensures forall|a: I| #[trigger] a.cat(I::z()) == a, forall|a: I| #[trigger] I::z().cat(a) == a, forall|a: I| #[trigger] a.sr(I::z()) == a, forall|a: I| !#[trigger] lt(a, I::z())
{ reveal(arith); assert forall|a: I| #[trigger] a.sr(I::z()) == a by { assert(a.cat(I::z()).sr(I::z()) == a); } }
proof fn law_sr<I: Index>(a: I, b: I) requires arith::<I>() ensures a.cat(b).sr(b) == a { reveal(arith); }
proof fn law_sl<I: Index>(a: I, b: I) requires arith::<I>() ensures a.cat(b).sl(a) == b { reveal(arith); }
proof fn law_grow<I: Index>(a: I, b: I) requires arith::<I>() ensures !lt(a.cat(b), a) { reveal(arith); }
proof fn law_mono<I: Index>(a: I, b: I, c: I) requires arith::<I>() ensures lt(a.cat(b), a.cat(c)) == lt(b, c) { reveal(arith); }
proof fn law_diff<I: Index>(a: I, c: I) requires arith::<I>(), !lt(c, a) ensures a.cat(c.sl(a)) == c { reveal(arith); }

// ---- the abstract tree ----------------------------------------------------------------------------------------
pub struct SliceId { pub id: int }
/// A node's address. What is there does not change while a handle to it is held.
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Ptr { x: usize }
/// `at` is where it is, `up` the parent and index it records (which sharing may leave out of date).
pub struct Tree<I> { pub at: Ptr, pub up: Option<(Ptr, u8)>, pub height: nat, pub size: I, pub keys: Seq<I>, pub ids: Seq<SliceId>, pub kids: Seq<Tree<I>> }
impl<I: Index> Tree<I> {
    /// where the key after child k begins, or the node ends
    pub open spec fn next(self, k: int) -> I { if k < self.keys.len() { self.keys[k] } else { self.size } }
    /// where child k begins: in a leaf, where it would
    pub open spec fn cpos(self, k: int) -> I { if self.kids.len() == 0 { self.next(k) } else { self.next(k).sr(self.kids[k].size) } }
    /// one node tiles its size: child 0, slice 0, child 1, slice 1, ..
    pub open spec fn node_ok(self) -> bool {
        &&& 0 < self.keys.len() < 255 && self.ids.len() == self.keys.len()
        &&& (self.height == 0 <==> self.kids.len() == 0)
        &&& self.height <= 255
        &&& self.kids.len() > 0 ==> self.kids.len() == self.keys.len() + 1
            && (forall|k: int| 0 <= k <= self.keys.len() ==> self.cpos(k).cat((#[trigger] self.kids[k]).size) == self.next(k))
            && (forall|k: int| 0 <= k <= self.keys.len() ==> lt(I::z(), (#[trigger] self.kids[k]).size))
            && (forall|k: int| 0 <= k <= self.keys.len() ==> (#[trigger] self.kids[k]).height + 1 == self.height)
        &&& self.cpos(0) == I::z()
        &&& forall|k: int| 0 <= k < self.keys.len() ==> lt(#[trigger] self.keys[k], self.cpos(k + 1))
    }
    pub open spec fn wf(self) -> bool decreases self.height {
        self.node_ok() && forall|k: int| 0 <= k < self.kids.len() ==> (#[trigger] self.kids[k]).height < self.height && self.kids[k].wf()
    }
    /// Slice id occupies [s, e) of this tree.
    pub open spec fn holds(self, s: I, e: I, id: SliceId) -> bool decreases self.height {
        ||| exists|k: int| 0 <= k < self.keys.len() && #[trigger] self.keys[k] == s && self.cpos(k + 1) == e && self.ids[k] == id
        ||| exists|c: int, s1: I, e1: I| 0 <= c < self.kids.len() && self.kids[c].height < self.height && self.kids[c].holds(s1, e1, id)
                && s == #[trigger] self.cpos(c).cat(s1) && e == #[trigger] self.cpos(c).cat(e1)
    }
}
proof fn lemma_cpos<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), t.node_ok(), 0 <= k <= t.keys.len()
    ensures !lt(t.next(k), t.cpos(k))
{ if t.kids.len() > 0 { assert(t.cpos(k).cat(t.kids[k].size) == t.next(k)); law_grow(t.cpos(k), t.kids[k].size); } else { assert(t.next(k).cmp_spec(&t.next(k)) == Ordering::Equal); } }
proof fn lemma_sorted<I: Index>(t: Tree<I>, i: int, j: int)
    requires laws::<I>(), t.node_ok(), 0 <= i < j < t.keys.len()
    ensures lt(t.keys[i], t.keys[j])
    decreases j - i
{
    let p = j - 1;
    assert(lt(t.keys[p], t.cpos(p + 1)));
    lemma_cpos(t, j);
    assert(t.cpos(j) == t.keys[j] || lt(t.cpos(j), t.keys[j]));
    if i < p { lemma_sorted(t, i, p); }
}

/// t is the part of top that starts at some base, and idx is base and then target.
pub closed spec fn part<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I) -> bool {
    exists|base: I| part_at(top, t, idx, target, base)
}
spec fn part_at<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, base: I) -> bool {
    idx == base.cat(target) && (forall|s: I, e: I, id: SliceId| #[trigger] t.holds(s, e, id) ==> top.holds(base.cat(s), base.cat(e), id))
}
proof fn lemma_top<I: Index>(t: Tree<I>, idx: I)
    requires laws::<I>()
    ensures part(t, t, idx, idx)
{ law_zero::<I>(); assert(part_at(t, t, idx, idx, I::z())); }
broadcast proof fn lemma_down<I: Index>(top: Tree<I>, t: Tree<I>, t2: Tree<I>, idx: I, target: I, target2: I)
    requires laws::<I>(), t.wf(), #[trigger] part(top, t, idx, target),
        exists|c: int| 0 <= c < t.kids.len() && t2 == t.kids[c] && #[trigger] t.cpos(c).cat(target2) == target && lt(target, t.next(c))
    ensures #[trigger] part(top, t2, idx, target2), lt(target2, t2.size)
{
    let c = choose|c: int| 0 <= c < t.kids.len() && t2 == t.kids[c] && #[trigger] t.cpos(c).cat(target2) == target && lt(target, t.next(c));
    law_mono(t.cpos(c), target2, t2.size);
    let base = choose|base: I| part_at(top, t, idx, target, base);
    let b2 = base.cat(t.cpos(c));
    law_assoc(base, t.cpos(c), target2);
    assert forall|s: I, e: I, id: SliceId| #[trigger] t2.holds(s, e, id) implies top.holds(b2.cat(s), b2.cat(e), id) by {
        assert(t.kids[c].holds(s, e, id));
        assert(t.kids[c].height < t.height);
        assert(t.holds(t.cpos(c).cat(s), t.cpos(c).cat(e), id));
        law_assoc(base, t.cpos(c), s);
        law_assoc(base, t.cpos(c), e);
    }
    assert(part_at(top, t2, idx, target2, b2));
}
broadcast proof fn lemma_take<I: Index>(a: I, c: I)
    requires arith::<I>(), !lt(c, a)
    ensures a.cat(#[trigger] c.sl(a)) == c
{ law_diff(a, c); }
broadcast proof fn lemma_suffix<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, a: I, d: I)
    requires laws::<I>(), #[trigger] part(top, t, idx, target), #[trigger] a.cat(d) == target
    ensures (#[trigger] idx.sr(d)).cat(d) == idx
{
    let base = choose|base: I| part_at(top, t, idx, target, base);
    law_assoc(base, a, d); law_sr(base.cat(a), d);
}
broadcast proof fn lemma_found<I: Index>(top: Tree<I>, t: Tree<I>, idx: I, target: I, d: I, sz: I, k: int)
    requires laws::<I>(), t.wf(), #[trigger] part(top, t, idx, target), 0 <= k < t.keys.len(), t.keys[k].cat(d) == target, t.keys[k].cat(sz) == t.cpos(k + 1), lt(target, t.cpos(k + 1))
    ensures
        top.holds(idx.sr(d), #[trigger] idx.sr(d).cat(sz), #[trigger] t.ids[k]), !lt(idx, idx.sr(d)), lt(idx, idx.sr(d).cat(sz))
{
    let base = choose|base: I| part_at(top, t, idx, target, base);
    law_assoc(base, t.keys[k], d); law_sr(base.cat(t.keys[k]), d); law_assoc(base, t.keys[k], sz);
    assert(idx.sr(d) == base.cat(t.keys[k]));
    law_grow(base.cat(t.keys[k]), d);
    assert(t.holds(t.keys[k], t.cpos(k + 1), t.ids[k]));
    law_mono(base, target, t.cpos(k + 1));
}

// ---- nodes: assumed contracts ---------------------------------------------------------------------------------
pub mod ty { pub struct Unknown; pub struct Leaf; pub struct Internal; }
pub mod borrow { pub struct Owned; pub struct SliceRef; #[verifier::external_body] pub struct Mut<'t>(std::marker::PhantomData<&'t mut ()>); #[verifier::external_body] pub struct Immut<'t>(std::marker::PhantomData<&'t ()>); pub trait NotOwned {} impl<'t> NotOwned for Immut<'t> {} impl<'t> NotOwned for Mut<'t> {} }
pub trait TypeHint {}
impl TypeHint for ty::Unknown {}
impl TypeHint for ty::Leaf {}
impl TypeHint for ty::Internal {}
pub trait Slice<I> {}
pub trait RleTreeConfig<I, S, const M: usize>: Sized {
    type SliceRefStore;
    spec fn is_cow() -> bool;
    fn cow() -> (r: bool) ensures r == Self::is_cow();
}
pub enum Type<L, I> { Leaf(L), Internal(I) }
//@ source src/tree/node.rs
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type ChildOrKey
//@ source src/cursor.rs
#[derive(Copy, Clone)]
//@ type PathComponent

/// A node's own data. `keys`, up to `len`, is raw memory: its accessors stay assumed.
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Leaf<I, S, P, const M: usize> { pub len: u8, pub total_size: I, pub x: PhantomData<(S, P)> }
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    pub uninterp spec fn tree(self) -> Tree<I>;
    pub open spec fn ok(self) -> bool { self.len == self.tree().keys.len() && self.total_size == self.tree().size }
    #[verifier::external_body]
    pub fn keys_pos_slice(&self) -> (r: &[I]) requires self.ok() ensures r@ == self.tree().keys { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn key_pos(&self, k_idx: u8) -> (r: I) requires self.ok(), k_idx < self.len ensures r == self.tree().keys[k_idx as int] { unimplemented!() }
}
// documented in core::slice, for a slice without repetition
pub assume_specification<T: Ord> [<[T]>::binary_search] (s: &[T], t: &T) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < s@.len() ==> lt(s@[i], s@[j])
    ensures match r {
        Ok(i) => i < s@.len() && s@[i as int].cmp_spec(t) == Ordering::Equal,
        Err(i) => i <= s@.len() && (forall|j: int| 0 <= j < i ==> lt(#[trigger] s@[j], *t)) && (forall|j: int| i <= j < s@.len() ==> lt(*t, #[trigger] s@[j])),
    };

#[verifier::external_body]
#[verifier::reject_recursive_types(Ty)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct NodeHandle<Ty, B, I, S, P, const M: usize> { x: PhantomData<(Ty, B, I, S, P)> }
impl<'t, Ty, I, S, P, const M: usize> Clone for NodeHandle<Ty, borrow::Immut<'t>, I, S, P, M> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'t, Ty, I, S, P, const M: usize> Copy for NodeHandle<Ty, borrow::Immut<'t>, I, S, P, M> {}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, B, I, S, P, M> {
    pub uninterp spec fn tree(self) -> Tree<I>;
    #[verifier::external_body]
    pub fn leaf(&self) -> (r: &Leaf<I, S, P, M>) ensures r.tree() == self.tree(), r.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: NodeHandle<Ty, borrow::Immut, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn typed_ref(&self) -> (r: Type<&NodeHandle<ty::Leaf, B, I, S, P, M>, &NodeHandle<ty::Internal, B, I, S, P, M>>)
        ensures match r { Type::Leaf(n) => n.tree() == self.tree() && self.tree().height == 0, Type::Internal(n) => n.tree() == self.tree() && self.tree().height > 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_typed(self) -> (r: Type<NodeHandle<ty::Leaf, B, I, S, P, M>, NodeHandle<ty::Internal, B, I, S, P, M>>)
        ensures match r { Type::Leaf(n) => n.tree() == self.tree() && self.tree().height == 0, Type::Internal(n) => n.tree() == self.tree() && self.tree().height > 0 }
    { unimplemented!() }
}
impl<B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Internal, B, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn child(&self, idx: u8) -> (r: NodeHandle<ty::Unknown, borrow::Immut, I, S, P, M>)
        requires idx < self.tree().kids.len() ensures r.tree() == self.tree().kids[idx as int] { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn into_child<'t>(self, child_idx: u8) -> (r: NodeHandle<ty::Unknown, B, I, S, P, M>)
        requires child_idx < self.tree().kids.len() ensures r.tree() == self.tree().kids[child_idx as int] { unimplemented!() }
}

// ---- nodes: extracted -----------------------------------------------------------------------------------------
//@ source src/tree/node.rs
#[verifier::reject_recursive_types(Ty)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type SliceHandle
impl<'t, Ty: TypeHint, I, S, P: RleTreeConfig<I, S, M>, const M: usize> Clone for SliceHandle<Ty, borrow::Immut<'t>, I, S, P, M> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'t, Ty: TypeHint, I, S, P: RleTreeConfig<I, S, M>, const M: usize> Copy for SliceHandle<Ty, borrow::Immut<'t>, I, S, P, M> {}

//@ impl impl<I, S, P, const M: usize> Leaf<I, S, P, M> where P: RleTreeConfig<I, S, M>, => impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M>
//@ only
//@ fn len -> r props=C03
    requires self.ok()
    ensures r == self.tree().keys.len()
//@ fn subtree_size -> r props=C03
    requires self.ok()
    ensures r == self.tree().size
//@ fn try_key_pos -> r props=C03
    requires self.ok()
    ensures r == if k_idx < self.tree().keys.len() { Some(self.tree().keys[k_idx as int]) } else { None }
//@ end
//@ impl impl<Ty, B, I, S, P, const M: usize> NodeHandle<Ty, B, I, S, P, M> where Ty: TypeHint, P: RleTreeConfig<I, S, M>, => impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, B, I, S, P, M>
//@ only
//@ fn try_child_size -> r props=C03
    requires child_idx <= self.tree().keys.len(), self.tree().node_ok()
    ensures r == if self.tree().kids.len() > 0 { Some(self.tree().kids[child_idx as int].size) } else { None }
//@ fn into_slice_handle -> r props=C03
    requires key_idx < self.tree().keys.len()
    ensures r.node == self, r.idx == key_idx
//@ end
//@ impl impl<B, I, S, P, const M: usize> NodeHandle<ty::Internal, B, I, S, P, M> where P: RleTreeConfig<I, S, M>, => impl<B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Internal, B, I, S, P, M>
//@ only
//@ fn child_size -> r props=C03
    requires child_idx < self.tree().kids.len()
    ensures r == self.tree().kids[child_idx as int].size
//@ fn child_pos -> r props=C03,C15
    requires laws::<I>(), self.tree().node_ok(), idx < self.tree().kids.len()
    ensures r == self.tree().cpos(idx as int)
//@ end
//@ impl impl<Ty, B, I, S, P, const M: usize> SliceHandle<Ty, B, I, S, P, M> where Ty: TypeHint, B: borrow::AsImmut, P: RleTreeConfig<I, S, M>, => impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M>
    pub open spec fn id(self) -> SliceId { self.node.tree().ids[self.idx as int] }
//@ only
//@ fn slice_size -> r props=C03,C15
    requires laws::<I>(), self.node.tree().node_ok(), self.idx < self.node.tree().keys.len()
    ensures self.node.tree().keys[self.idx as int].cat(r) == self.node.tree().cpos(self.idx + 1), r == self.node.tree().cpos(self.idx + 1).sl(self.node.tree().keys[self.idx as int])
//@ body
    proof { let t = self.node.tree(); law_diff(t.keys[self.idx as int], t.cpos(self.idx + 1)); }
//@ end

//@ source src/tree/mod.rs
//@ free search_step -> r props=C03,C06,C15
    requires laws::<I>(), node.tree().node_ok(), !lt(node.tree().size, target)
    ensures match r {
        ChildOrKey::Child((i, p)) => i <= node.tree().keys.len() && p == node.tree().cpos(i as int) && !lt(target, p)
            && if lt(target, node.tree().size) { i < node.tree().kids.len() && lt(target, node.tree().next(i as int)) } else { i == node.tree().keys.len() },
        ChildOrKey::Key((k, p)) => k < node.tree().keys.len() && p == node.tree().keys[k as int] && !lt(target, p) && lt(target, node.tree().cpos(k + 1)),
    }
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ loop
//@ body
    proof {
        law_zero::<I>();
        let n = node.tree().keys.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < n implies lt(node.tree().keys[i], node.tree().keys[j]) by { lemma_sorted(node.tree(), i, j) }
        lemma_cpos(node.tree(), n);
        assert(lt(node.tree().keys[n - 1], node.tree().cpos(n - 1 + 1)));
        assert forall|i: int| 0 <= i < n implies lt(#[trigger] node.tree().keys[i], node.tree().size) by { if i < n - 1 { lemma_sorted(node.tree(), i, n - 1) } }
    }
//@ end

