// Putting the halves of a split node in its parent, and so on up to the root (src/tree/insert.rs): for every node, M and
// lawful index type, when nothing is to be changed on the way. Where a node is, and which
// parent it records, is left out here (`at` and `up` mean nothing).
//@ rewrite for upd in (TraverseUpdate::split\([^{;]*\))\s*\{\s*updates_callback\(upd\);\s*\} => updates_callback.told_all(\1);
//@ rewrite \bupdates_callback\((?=make_update) => updates_callback.told(
//@ rewrite \bmake_update\(& => make_update.of(&
//@ rewrite \bTraverseUpdate::(put_back|insert)\b => Kind::\1
//@ rewrite \b(side|s) as u8\b => side_no(\1)
//@ rewrite \bUpdatesCallback<I, S, P, M> => &mut Callback
//@ rewrite \bnode::Key< => Key<
//@ rewrite \bweak_unreachable!\(\) => never()
//@ rewrite <BubbledInsertState<'t, 'c, I, S, P, M> as MapState>::Map<'m> => Changes
//@ rewrite Option<&mut dyn FnMut\(&OpUpdateState<'t, 'c, I, S, P, M>\) -> ControlFlow<\(\)>> => Option<Exit>
//@ include shift.inc noprops
//@ macro assert => check({})

// ---- a node as sizes ------------------------------------------------------------------------------------------
/// where child k ends, children being of sizes z and slices of sizes w
pub open spec fn end<I: Index>(z: Seq<I>, w: Seq<I>, k: int) -> I decreases k { if k <= 0 { z[0] } else { end(z, w, k - 1).cat(w[k - 1]).cat(z[k]) } }
/// and where it begins
pub open spec fn start<I: Index>(z: Seq<I>, w: Seq<I>, k: int) -> I { if k <= 0 { I::z() } else { end(z, w, k - 1).cat(w[k - 1]) } }
/// from the end of child j to the end of child k
pub open spec fn mid<I: Index>(z: Seq<I>, w: Seq<I>, j: int, k: int) -> I decreases k - j { if k <= j { I::z() } else { mid(z, w, j, k - 1).cat(w[k - 1]).cat(z[k]) } }
/// t's positions are what they are when its children and slices are of these sizes.
pub open spec fn laid<I: Index>(t: Tree<I>, z: Seq<I>, w: Seq<I>) -> bool {
    t.keys.len() == w.len() && z.len() == w.len() + 1 && forall|k: int| 0 <= k <= t.keys.len() ==> #[trigger] t.next(k) == end(z, w, k)
}
pub open spec fn kid_sizes<I: Index>(t: Tree<I>) -> Seq<I> { Seq::new(t.kids.len(), |k: int| t.kids[k].size) }
pub open spec fn sizes<I: Index>(t: Tree<I>) -> Seq<I> { Seq::new(t.keys.len(), |k: int| t.cpos(k + 1).sl(t.keys[k])) }
pub open spec fn all_pos<I: Index>(z: Seq<I>) -> bool { forall|k: int| 0 <= k < z.len() ==> lt(I::z(), #[trigger] z[k]) }
/// What is put on the right of two keeps their order.
#[verifier::opaque]
pub open spec fn rmono<I: Index>() -> bool { forall|a: I, b: I, c: I| #[trigger] lt(a.cat(c), b.cat(c)) == lt(a, b) }
proof fn law_rmono<I: Index>(a: I, b: I, c: I) requires rmono::<I>() ensures lt(a.cat(c), b.cat(c)) == lt(a, b) { reveal(rmono); }

proof fn lemma_sizes<I: Index>(t: Tree<I>)
    requires laws::<I>(), t.node_ok(), t.kids.len() > 0
    ensures laid(t, kid_sizes(t), sizes(t)), all_pos(kid_sizes(t)), all_pos(sizes(t))
{
    let (z, w) = (kid_sizes(t), sizes(t));
    law_zero::<I>();
    assert forall|k: int| 0 <= k < w.len() implies t.keys[k].cat(w[k]) == t.cpos(k + 1) && lt(I::z(), #[trigger] w[k]) by {
        assert(lt(t.keys[k], t.cpos(k + 1)));
        law_diff(t.keys[k], t.cpos(k + 1));
        law_mono(t.keys[k], I::z(), w[k]);
    }
    assert forall|k: int| 0 <= k <= t.keys.len() implies #[trigger] t.next(k) == end(z, w, k) by { lemma_sizes_at(t, k); }
}
proof fn lemma_sizes_at<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), t.node_ok(), t.kids.len() > 0, 0 <= k <= t.keys.len(), forall|k: int| 0 <= k < t.keys.len() ==> #[trigger] t.keys[k].cat(sizes(t)[k]) == t.cpos(k + 1)
    ensures t.next(k) == end(kid_sizes(t), sizes(t), k)
    decreases k
{
    law_zero::<I>();
    assert(t.cpos(k).cat(t.kids[k].size) == t.next(k));
    if k > 0 { lemma_sizes_at(t, k - 1); assert(t.keys[k - 1].cat(sizes(t)[k - 1]) == t.cpos(k - 1 + 1)); }
}
/// Where children begin.
proof fn lemma_start<I: Index>(z: Seq<I>, w: Seq<I>, k: int)
    requires laws::<I>(), k >= 0
    ensures start(z, w, k).cat(z[k]) == end(z, w, k), end(z, w, k).sr(z[k]) == start(z, w, k)
{ law_zero::<I>(); law_sr(start(z, w, k), z[k]); }
/// Such a node is in order, and has these sizes.
proof fn lemma_node<I: Index>(t: Tree<I>, w: Seq<I>)
    requires laws::<I>(), laid(t, kid_sizes(t), w), all_pos(kid_sizes(t)), all_pos(w), 0 < t.keys.len() < 255, t.ids.len() == t.keys.len(), 0 < t.height <= 255,
        forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).height + 1 == t.height && t.kids[k].wf()
    ensures t.wf(), sizes(t) == w
{
    let z = kid_sizes(t);
    law_zero::<I>();
    assert forall|k: int| 0 <= k <= t.keys.len() implies t.cpos(k).cat((#[trigger] t.kids[k]).size) == t.next(k) && t.cpos(k) == start(z, w, k) && lt(I::z(), t.kids[k].size) by {
        lemma_start(z, w, k); assert(t.next(k) == end(z, w, k)); assert(lt(I::z(), z[k]));
    }
    assert forall|k: int| 0 <= k < t.keys.len() implies lt(#[trigger] t.keys[k], t.cpos(k + 1)) && sizes(t)[k] == w[k] by {
        assert(t.kids[k + 1].size == z[k + 1]);
        assert(t.next(k) == end(z, w, k));
        law_mono(t.keys[k], I::z(), w[k]); law_sl(t.keys[k], w[k]);
    }
    assert(t.kids[0].size == z[0]);
    assert(sizes(t) =~= w);
    assert(t.node_ok());
}
proof fn lemma_mid<I: Index>(z: Seq<I>, w: Seq<I>, j: int, k: int)
    requires laws::<I>(), 0 <= j <= k
    ensures end(z, w, k) == end(z, w, j).cat(mid(z, w, j, k)), end(z, w, k).sl(end(z, w, j)) == mid(z, w, j, k), !lt(end(z, w, k), end(z, w, j))
    decreases k - j
{
    law_zero::<I>();
    if j < k {
        lemma_mid(z, w, j, k - 1);
        law_assoc(end(z, w, j), mid(z, w, j, k - 1), w[k - 1]); law_assoc(end(z, w, j), mid(z, w, j, k - 1).cat(w[k - 1]), z[k]);
    }
    law_sl(end(z, w, j), mid(z, w, j, k)); law_grow(end(z, w, j), mid(z, w, j, k));
}
proof fn lemma_same_mid<I: Index>(z: Seq<I>, w: Seq<I>, j: int, y: Seq<I>, v: Seq<I>, i: int, d: int)
    requires d >= 0, forall|m: int| 0 <= m < d ==> #[trigger] w[j + m] == v[i + m], forall|m: int| 0 < m <= d ==> #[trigger] z[j + m] == y[i + m]
    ensures mid(z, w, j, j + d) == mid(y, v, i, i + d)
    decreases d
{ if d > 0 { lemma_same_mid(z, w, j, y, v, i, d - 1); assert(w[j + (d - 1)] == v[i + (d - 1)]); assert(z[j + d] == y[i + d]); } }
proof fn lemma_same_end<I: Index>(z: Seq<I>, w: Seq<I>, y: Seq<I>, v: Seq<I>, k: int)
    requires k >= 0, forall|m: int| 0 <= m < k ==> #[trigger] w[m] == v[m], forall|m: int| 0 <= m <= k ==> #[trigger] z[m] == y[m]
    ensures end(z, w, k) == end(y, v, k)
    decreases k
{ if k > 0 { lemma_same_end(z, w, y, v, k - 1); } }
/// What is left when all up to slice m is cut off.
proof fn lemma_cut<I: Index>(z: Seq<I>, w: Seq<I>, m: int, k: int)
    requires laws::<I>(), z.len() == w.len() + 1, 0 <= m < w.len(), 0 <= k < w.len() - m
    ensures ({
        let e = end(z.skip(m + 1), w.skip(m + 1), k);
        end(z, w, m + 1 + k) == start(z, w, m + 1).cat(e) && end(z, w, m + 1 + k).sl(start(z, w, m + 1)) == e && !lt(end(z, w, m + 1 + k), start(z, w, m + 1))
    })
    decreases k
{
    let (y, v) = (z.skip(m + 1), w.skip(m + 1));
    let s = start(z, w, m + 1);
    if k > 0 {
        lemma_cut(z, w, m, k - 1);
        assert(v[k - 1] == w[m + 1 + (k - 1)] && y[k] == z[m + 1 + k]);
        law_assoc(s, end(y, v, k - 1), v[k - 1]); law_assoc(s, end(y, v, k - 1).cat(v[k - 1]), y[k]);
        assert(end(z, w, m + 1 + k) == end(z, w, m + 1 + (k - 1)).cat(w[m + 1 + (k - 1)]).cat(z[m + 1 + k]));
    } else { assert(y[0] == z[m + 1]); }
    law_sl(s, end(y, v, k)); law_grow(s, end(y, v, k));
}

// ---- a child become two, with a slice between -------------------------------------------------------------------
pub open spec fn spread_z<I>(z: Seq<I>, c: int, l: I, r: I) -> Seq<I> { z.update(c, l).insert(c + 1, r) }
/// t has the slice and its child, where child c was, but has not been shifted.
pub open spec fn spread<I: Index>(t: Tree<I>, q: Tree<I>, z: Seq<I>, w: Seq<I>, c: int, l: I) -> bool {
    t.keys == q.keys.insert(c, start(z, w, c).cat(l)) && t.size == q.size
}
proof fn lemma_spread<I: Index>(q: Tree<I>, z: Seq<I>, w: Seq<I>, c: int, l: I, t: Tree<I>)
    requires laws::<I>(), laid(q, z, w), 0 <= c <= w.len(), spread(t, q, z, w, c, l)
    ensures after(t, c + 1, end(z, w, c)), start(z, w, c).cat(z[c]) == end(z, w, c), end(z, w, c).sr(z[c]) == start(z, w, c)
{
    lemma_start(z, w, c);
    let n = w.len() as int;
    assert forall|j: int| c < j < t.keys.len() implies !lt(#[trigger] t.keys[j], end(z, w, c)) by { assert(q.next(j - 1) == end(z, w, j - 1)); lemma_mid(z, w, c, j - 1); }
    assert(q.next(n) == end(z, w, n));
    lemma_mid(z, w, c, n);
}
proof fn lemma_spread_n<I: Index>(q: Tree<I>, z: Seq<I>, w: Seq<I>, c: int, l: I, k: I, r: I, t: Tree<I>, m: Tree<I>)
    requires laws::<I>(), laid(q, z, w), 0 <= c <= w.len(), spread(t, q, z, w, c, l), is_shifted(m, t, c + 1, end(z, w, c), start(z, w, c).cat(l.cat(k).cat(r)))
    ensures laid(m, spread_z(z, c, l, r), w.insert(c, k))
{
    let (a, b) = (end(z, w, c), start(z, w, c).cat(l.cat(k).cat(r)));
    let (y, v) = (spread_z(z, c, l, r), w.insert(c, k));
    let s = start(z, w, c);
    lemma_start(z, w, c);
    law_zero::<I>();
    if c > 0 { lemma_same_end(z, w, y, v, c - 1); }
    assert(start(y, v, c) == s && end(y, v, c) == s.cat(l)) by { assert(y[c] == l); }
    assert(end(y, v, c + 1) == b) by { assert(v[c] == k && y[c + 1] == r); law_assoc(s, l, k); law_assoc(s, l.cat(k), r); }
    assert forall|j: int| 0 <= j <= m.keys.len() implies #[trigger] m.next(j) == end(y, v, j) by {
        if j < c {
            lemma_same_end(z, w, y, v, j);
            assert(q.next(j) == end(z, w, j));
            assert(t.keys[j] == q.keys[j]);
        } else if j == c {
            assert(m.keys[j] == t.keys[j]);
        } else {
            assert(q.next(j - 1) == end(z, w, j - 1));
            lemma_mid(z, w, c, j - 1);
            lemma_mid(y, v, c + 1, j);
            assert forall|i: int| 0 <= i < j - 1 - c implies #[trigger] w[c + i] == v[c + 1 + i] by {}
            assert forall|i: int| 0 < i <= j - 1 - c implies #[trigger] z[c + i] == y[c + 1 + i] by {}
            lemma_same_mid(z, w, c, y, v, c + 1, j - 1 - c);
            assert(t.next(j) == q.next(j - 1));
        }
    }
}
/// The whole does not get smaller when child c does not.
proof fn lemma_grown<I: Index>(z: Seq<I>, w: Seq<I>, c: int, l: I, k: I, r: I)
    requires laws::<I>(), rmono::<I>(), z.len() == w.len() + 1, 0 <= c <= w.len(), !lt(l.cat(k).cat(r), z[c])
    ensures !lt(end(spread_z(z, c, l, r), w.insert(c, k), (w.len() + 1) as int), end(z, w, w.len() as int))
{
    let n = w.len() as int;
    let (y, v) = (spread_z(z, c, l, r), w.insert(c, k));
    let s = start(z, w, c);
    let x = l.cat(k).cat(r);
    lemma_start(z, w, c);
    if c > 0 { lemma_same_end(z, w, y, v, c - 1); }
    law_zero::<I>();
    assert(start(y, v, c) == s && end(y, v, c) == s.cat(l)) by { assert(y[c] == l); }
    assert(end(y, v, c + 1) == s.cat(x)) by { assert(v[c] == k && y[c + 1] == r); law_assoc(s, l, k); law_assoc(s, l.cat(k), r); }
    lemma_mid(z, w, c, n);
    lemma_mid(y, v, c + 1, n + 1);
    assert forall|i: int| 0 <= i < n - c implies #[trigger] w[c + i] == v[c + 1 + i] by {}
    assert forall|i: int| 0 < i <= n - c implies #[trigger] z[c + i] == y[c + 1 + i] by {}
    lemma_same_mid(z, w, c, y, v, c + 1, n - c);
    law_mono(s, x, z[c]);
    law_rmono(s.cat(x), s.cat(z[c]), mid(z, w, c, n));
}

// ---- assumed: nodes, the cursor, what is told -------------------------------------------------------------------
pub struct UniqueOwned;
#[verifier::external_body]
pub struct Opaque { x: u8 }
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Key<I, S, P, const M: usize> { pub pos: I, pub slice: Opaque, pub x: PhantomData<(S, P)> }
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Key<I, S, P, M> { pub uninterp spec fn id(self) -> SliceId; }
#[verifier::reject_recursive_types(Ty)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct NodeBox<Ty, I, S, P, const M: usize> { pub node: NodeHandle<Ty, UniqueOwned, I, S, P, M> }
impl<Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeBox<Ty, I, S, P, M> {
    pub open spec fn tree(self) -> Tree<I> { self.node.tree() }
    #[verifier::external_body]
    pub fn new(node: NodeHandle<Ty, UniqueOwned, I, S, P, M>) -> (r: Self) ensures r.tree() == node.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self) -> (r: NodeHandle<Ty, UniqueOwned, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: NodeBox<ty::Unknown, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &NodeHandle<Ty, borrow::Immut, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut<'h>(&'h mut self) -> (r: &'h mut NodeHandle<Ty, borrow::Mut<'h>, I, S, P, M>) ensures r.tree() == old(self).tree(), final(self).tree() == final(r).tree() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(Ty)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct SharedNodeBox<Ty, I, S, P, const M: usize> { x: PhantomData<(Ty, I, S, P)> }
impl<Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SharedNodeBox<Ty, I, S, P, M> {
    pub uninterp spec fn tree(self) -> Tree<I>;
    #[verifier::external_body]
    pub fn new(node: NodeHandle<Ty, borrow::Owned, I, S, P, M>) -> (r: Self) ensures r.tree() == node.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self) -> (r: NodeHandle<Ty, borrow::Owned, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
}
impl<Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, UniqueOwned, I, S, P, M> {
    #[verifier::external_body]
    pub fn erase_unique(self) -> (r: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
}
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    #[verifier::external_body]
    pub fn max_len(&self) -> (r: u8) ensures r == 2 * M, r >= 2 { unimplemented!() }
}
impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub fn as_mut<'h>(&'h mut self) -> (r: &'h mut NodeHandle<Ty, borrow::Mut<'h>, I, S, P, M>)
        ensures r.tree() == old(self).tree(), final(self).tree() == final(r).tree(), final(self).above() == old(self).above() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn set_single_key_pos(&mut self, k_idx: u8, pos: I)
        requires k_idx < old(self).tree().keys.len()
        ensures final(self).tree() == (Tree { keys: old(self).tree().keys.update(k_idx as int, pos), ..old(self).tree() }), final(self).above() == old(self).above() { unimplemented!() }
}
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Internal, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn insert_key_and_child(&mut self, store: &mut P::SliceRefStore, key_idx: u8, key: Key<I, S, P, M>, child: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>) -> (r: I)
        requires key_idx <= old(self).tree().keys.len() < 2 * M, child.tree().height + 1 == old(self).tree().height
        ensures r == old(self).tree().next(key_idx as int), final(self).above() == old(self).above(), ({
            let t = old(self).tree();
            final(self).tree() == (Tree { keys: t.keys.insert(key_idx as int, r), ids: t.ids.insert(key_idx as int, key.id()), kids: t.kids.insert(key_idx + 1, child.tree()), ..t })
        })
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn push_key_and_child(&mut self, store: &mut P::SliceRefStore, key: Key<I, S, P, M>, child: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>, new_subtree_size: I)
        requires old(self).tree().keys.len() < 2 * M, child.tree().height + 1 == old(self).tree().height
        ensures final(self).above() == old(self).above(), ({
            let t = old(self).tree();
            final(self).tree() == (Tree { keys: t.keys.push(t.size), ids: t.ids.push(key.id()), kids: t.kids.push(child.tree()), size: new_subtree_size, ..t })
        })
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn replace_first_child(&mut self, child: NodeHandle<ty::Unknown, UniqueOwned, I, S, P, M>) -> (r: NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>)
        requires old(self).tree().kids.len() > 0, child.tree().height + 1 == old(self).tree().height
        ensures r.tree() == old(self).tree().kids[0], final(self).above() == old(self).above(), final(self).tree() == (Tree { kids: old(self).tree().kids.update(0, child.tree()), ..old(self).tree() })
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn split(&mut self, midpoint_idx: u8, store: &mut P::SliceRefStore) -> (r: (Key<I, S, P, M>, NodeHandle<ty::Internal, UniqueOwned, I, S, P, M>))
        requires midpoint_idx < old(self).tree().keys.len()
        ensures ({
            let (t, m) = (old(self).tree(), midpoint_idx as int);
            &&& r.0.id() == t.ids[m] && r.0.pos == t.keys[m]
            &&& final(self).above() == old(self).above()
            &&& final(self).tree() == (Tree { keys: t.keys.take(m), ids: t.ids.take(m), kids: t.kids.take(m + 1), ..t })
            &&& r.1.tree() == (Tree { keys: t.keys.skip(m + 1), ids: t.ids.skip(m + 1), kids: t.kids.skip(m + 1), ..t })
        })
    { unimplemented!() }
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: SliceHandle<ty::Unknown, B, I, S, P, M>) ensures r.idx == self.idx, r.node.tree() == self.node.tree() { unimplemented!() }
}
/// The slice the cursor is to lead to: the first of those put in.
pub uninterp spec fn target() -> SliceId;
/// These steps go from t to a node with that slice.
pub open spec fn leads<I>(t: Tree<I>, path: Seq<u8>) -> bool decreases path.len() {
    if path.len() == 0 { t.ids.contains(target()) } else { path[0] < t.kids.len() && leads(t.kids[path[0] as int], path.skip(1)) }
}
impl<'c> CursorBuilder<'c> {
    pub uninterp spec fn path(self) -> Seq<u8>;
    #[verifier::external_body]
    fn prepend_to_path(&mut self, x: PathComponent) ensures final(self).path() == seq![x.child_idx] + old(self).path() { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: () }
impl Callback {
    /// The slices it was told had been inserted.
    pub uninterp spec fn seen(self) -> Seq<SliceId>;
    #[verifier::external_body]
    pub fn told(&mut self, u: Update) ensures final(self).seen() == (if u.new { old(self).seen().push(u.id) } else { old(self).seen() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn told_all(&mut self, u: Moves) ensures final(self).seen() == old(self).seen() { unimplemented!() }
}
pub struct Moves;
pub struct Update { pub id: SliceId, pub new: bool }
#[allow(non_camel_case_types)]
pub enum Kind { put_back, insert }
impl Kind {
    #[verifier::external_body]
    pub fn of<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(self, h: &SliceHandle<Ty, B, I, S, P, M>) -> (r: Update)
        requires h.idx < h.node.tree().keys.len() ensures r.id == h.id(), r.new == (self is insert) { unimplemented!() }
}
pub struct TraverseUpdate;
impl TraverseUpdate {
    #[verifier::external_body]
    pub fn split<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(lhs: &NodeHandle<Ty, B, I, S, P, M>, idx: u8, rhs: &NodeHandle<Ty, UniqueOwned, I, S, P, M>) -> (r: Moves) { unimplemented!() }
}
//@ source src/tree/mod.rs
#[derive(Copy, Clone)]
//@ type Side
fn side_no(s: Side) -> (r: u8) ensures r == side_idx(s) { match s { Side::Left => 0, Side::Right => 1 } }
spec fn side_idx(s: Side) -> u8 { match s { Side::Left => 0, Side::Right => 1 } }
//@ source src/tree/insert.rs
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type BubbleLhs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type PostInsertResult
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type BubbledInsertState
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type BubbleStepResult

// ---- the state --------------------------------------------------------------------------------------------------
spec fn rest(inserted: bool) -> Seq<SliceId> { if inserted { Seq::empty() } else { seq![target()] } }
spec fn fits<I>(above: Seq<(Tree<I>, u8)>, m: int) -> bool { forall|i: int| 0 <= i < above.len() ==> (#[trigger] above[i]).0.keys.len() <= 2 * m }
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> {
    spec fn l(self) -> Tree<I> { self.lhs.tree() }
    spec fn r(self) -> Tree<I> { self.rhs.tree() }
    /// Two nodes and a slice between, where there was one that was not larger; nothing to be corrected before them.
    spec fn fair(self) -> bool {
        &&& 0 < M && 2 * M < 255
        &&& self.l().wf() && self.r().wf() && self.l().height == self.r().height && lt(I::z(), self.l().size) && lt(I::z(), self.r().size)
        &&& lt(I::z(), self.key_size) && !lt(self.l().size.cat(self.key_size).cat(self.r().size), self.old_size)
        &&& above_ok(self.lhs.above(), self.l().height, self.old_size) && fits(self.lhs.above(), M as int)
        &&& self.shift_lhs is None
        &&& self.inserted <==> self.cursor_side is Some
        &&& match self.cursor_side { Some(Side::Left) => leads(self.l(), self.cursor_builder.path()), Some(Side::Right) => leads(self.r(), self.cursor_builder.path()), None => self.cursor_builder.path().len() == 0 && self.key.id() == target() }
    }
    /// What is to be in the parent, or the two it becomes: its slices, their sizes, its children.
    spec fn ids(self) -> Seq<SliceId> { let (p, c) = self.lhs.above().last(); p.ids.insert(c as int, self.key.id()) }
    spec fn kids(self) -> Seq<Tree<I>> { let (p, c) = self.lhs.above().last(); p.kids.update(c as int, self.l()).insert(c + 1, self.r()) }
    spec fn sizes(self) -> Seq<I> { let (p, c) = self.lhs.above().last(); sizes(p).insert(c as int, self.key_size) }
    /// Two halves, in order.
    spec fn halves(self, n: Self) -> bool {
        &&& n.l().ids.push(n.key.id()) + n.r().ids == self.ids()
        &&& n.l().kids + n.r().kids == self.kids()
        &&& sizes(n.l()).push(n.key_size) + sizes(n.r()) == self.sizes()
        &&& n.l().ids.len() == M && n.r().ids.len() == M
        &&& n.old_size == self.lhs.above().last().0.size
    }
    /// One node, but for shifting.
    spec fn whole(self, s: OpUpdateState<'t, 'c, I, S, P, M>) -> bool {
        &&& s.above() == self.lhs.above().drop_last()
        &&& s.after_both()
        &&& s.child_or_key matches ChildOrKey::Key((k, h)) && h.tree().ids == self.ids() && h.tree().kids == self.kids() && leads(h.tree(), s.cursor_builder.path())
        &&& s.override_pos matches Some(p) && s.child_or_key matches ChildOrKey::Key((k, h))
            && forall|n: Tree<I>| #[trigger] is_shifted(n, h.tree(), k + 1, p.cat(s.old_size), p.cat(s.new_size)) ==> sizes(n) == self.sizes()
    }
}
/// Two nodes and a slice for a new root.
spec fn pair<I: Index>(l: Tree<I>, k: I, r: Tree<I>) -> bool { l.wf() && r.wf() && l.height == r.height && lt(I::z(), k) && lt(I::z(), l.size) && lt(I::z(), r.size) }
/// What is to be changed on the way, and where to stop.
pub struct Changes { pub any: bool, pub post_op: PostChanges }
pub struct PostChanges { pub any: bool }
impl Changes { pub open spec fn none(self) -> bool { !self.any && !self.post_op.any } }
#[verifier::external_body]
pub struct Exit { x: u8 }
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> {
    #[verifier::external_body]
    fn map(self, f: &mut Changes) -> (r: Self) ensures !old(f).any ==> r == self && *final(f) == *old(f) { unimplemented!() }
}
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    #[verifier::external_body]
    fn finish(self, f: PostChanges, e: Option<Exit>) requires laws::<I>(), rdiff::<I>(), self.after_both(), !f.any, e is None ensures climbed::<I>() { unimplemented!() }
}
// ---- what comes of it -------------------------------------------------------------------------------------------
broadcast proof fn seq_fix<T>(s: Seq<T>, i: int, x: T, y: T) requires 0 <= i <= s.len() ensures #[trigger] s.insert(i, x).update(i, y) == s.insert(i, y) { assert(s.insert(i, x).update(i, y) =~= s.insert(i, y)); }
broadcast proof fn seq_one<T>(s: Seq<T>, x: T) ensures #[trigger] (s + seq![x]) == s.push(x) { assert(s + seq![x] =~= s.push(x)); }
broadcast proof fn seq_none<T>(s: Seq<T>) ensures #[trigger] (s + Seq::<T>::empty()) == s { assert(s + Seq::<T>::empty() =~= s); }
broadcast proof fn leads_step<I>(t: Tree<I>, x: u8, path: Seq<u8>) ensures #[trigger] leads(t, seq![x] + path) == (x < t.kids.len() && leads(t.kids[x as int], path)) { assert((seq![x] + path).skip(1) =~= path); }
broadcast proof fn leads_here<I>(t: Tree<I>, path: Seq<u8>) requires path.len() == 0 ensures #[trigger] leads(t, path) == t.ids.contains(target()) {}
broadcast proof fn shifted_rest<I: Index>(n: Tree<I>, t: Tree<I>, f: int, a: I, b: I) requires #[trigger] is_shifted(n, t, f, a, b) ensures n.keys.len() == t.keys.len(), n.ids == t.ids, n.kids == t.kids, n.height == t.height {}
/// t with a slice and a child put in
spec fn with<I: Index>(t: Tree<I>, c: int, at: I, id: SliceId, kid: Tree<I>) -> Tree<I> { Tree { keys: t.keys.insert(c, at), ids: t.ids.insert(c, id), kids: t.kids.insert(c + 1, kid), ..t } }
/// The two parts of t to the sides of slice m.
spec fn low<I: Index>(t: Tree<I>, m: int) -> Tree<I> { Tree { keys: t.keys.take(m), ids: t.ids.take(m), kids: t.kids.take(m + 1), size: t.keys[m], ..t } }
spec fn high<I: Index>(t: Tree<I>, m: int) -> Tree<I> { Tree { keys: t.keys.skip(m + 1), ids: t.ids.skip(m + 1), kids: t.kids.skip(m + 1), ..t } }
proof fn lemma_low<I: Index>(t: Tree<I>, z: Seq<I>, w: Seq<I>, m: int)
    requires laid(t, z, w), 0 <= m < w.len()
    ensures laid(low(t, m), z.take(m + 1), w.take(m))
{
    let l = low(t, m);
    assert forall|k: int| 0 <= k <= l.keys.len() implies #[trigger] l.next(k) == end(z.take(m + 1), w.take(m), k) by { assert(t.next(k) == end(z, w, k)); lemma_same_end(z, w, z.take(m + 1), w.take(m), k); }
}
proof fn lemma_high<I: Index>(t: Tree<I>, z: Seq<I>, w: Seq<I>, m: int)
    requires laws::<I>(), laid(t, z, w), 0 <= m < w.len()
    ensures after(high(t, m), 0, start(z, w, m + 1)), forall|n: Tree<I>| #[trigger] is_shifted(n, high(t, m), 0, start(z, w, m + 1), I::z()) ==> laid(n, z.skip(m + 1), w.skip(m + 1))
{
    let h = high(t, m);
    law_zero::<I>();
    assert forall|k: int| 0 <= k <= h.keys.len() implies !lt(#[trigger] h.next(k), start(z, w, m + 1)) && h.next(k).sl(start(z, w, m + 1)) == end(z.skip(m + 1), w.skip(m + 1), k) by { assert(t.next(m + 1 + k) == end(z, w, m + 1 + k)); lemma_cut(z, w, m, k); }
    assert forall|k: int| 0 <= k < h.keys.len() implies !lt(#[trigger] h.keys[k], start(z, w, m + 1)) by { assert(h.next(k) == h.keys[k]); }
    assert(h.next(h.keys.len() as int) == h.size);
    assert forall|n: Tree<I>| #[trigger] is_shifted(n, h, 0, start(z, w, m + 1), I::z()) implies laid(n, z.skip(m + 1), w.skip(m + 1)) by {
        assert forall|k: int| 0 <= k <= n.keys.len() implies #[trigger] n.next(k) == end(z.skip(m + 1), w.skip(m + 1), k) by { assert(h.next(k).sl(start(z, w, m + 1)) == end(z.skip(m + 1), w.skip(m + 1), k)); }
    }
}
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> {
    spec fn p(self) -> Tree<I> { self.lhs.above().last().0 }
    spec fn c(self) -> int { self.lhs.above().last().1 as int }
    spec fn q(self) -> Tree<I> { put(self.p(), self.c(), self.l()) }
    spec fn z(self) -> Seq<I> { kid_sizes(self.p()) }
    spec fn w(self) -> Seq<I> { sizes(self.p()) }
    spec fn nz(self) -> Seq<I> { spread_z(self.z(), self.c(), self.l().size, self.r().size) }
    spec fn total(self) -> I { self.l().size.cat(self.key_size).cat(self.r().size) }
    /// The left half, and the right.
    spec fn left(self, n: Tree<I>) -> bool { n.height == self.p().height && laid(n, self.nz().take(M + 1), self.sizes().take(M as int)) && n.ids == self.ids().take(M as int) && n.kids == self.kids().take(M + 1) }
    spec fn right(self, n: Tree<I>) -> bool { n.height == self.p().height && laid(n, self.nz().skip(M + 1), self.sizes().skip(M + 1)) && n.ids == self.ids().skip(M + 1) && n.kids == self.kids().skip(M + 1) }
    proof fn lemma_base(self)
        requires laws::<I>(), self.fair(), self.lhs.above().len() > 0
        ensures ({
            let (q, c, z, w) = (self.q(), self.c(), self.z(), self.w());
            &&& self.p().wf() && c < self.p().kids.len() && self.p().kids.len() == self.p().keys.len() + 1 && self.p().ids.len() == self.p().keys.len() <= 2 * M
            &&& laid(q, z, w) && laid(self.p(), z, w) && all_pos(z) && all_pos(w) && z[c] == self.old_size
            &&& q.height == self.p().height == self.l().height + 1 <= 255 && q.size == self.p().size && q.kids.len() == self.p().kids.len()
            &&& above_ok(self.lhs.above().drop_last(), self.p().height, self.p().size) && fits(self.lhs.above().drop_last(), M as int)
            &&& forall|k: int| 0 <= k < self.kids().len() ==> (#[trigger] self.kids()[k]).height + 1 == q.height && self.kids()[k].wf()
            &&& all_pos(self.nz()) && all_pos(self.sizes()) && self.nz().len() == self.kids().len()
            &&& forall|k: int| 0 <= k < self.kids().len() ==> (#[trigger] self.kids()[k]).size == self.nz()[k]
        })
    {
        let (p, c) = (self.p(), self.c());
        assert(p.wf() && p.node_ok());
        assert(p.height <= 255);
        assert(p.kids[c].size == self.old_size);
        lemma_sizes(p);
        assert forall|k: int| 0 <= k <= p.keys.len() implies #[trigger] self.q().next(k) == end(self.z(), self.w(), k) by { assert(p.next(k) == end(self.z(), self.w(), k)); }
        assert forall|i: int| 0 <= i < self.lhs.above().drop_last().len() implies (#[trigger] self.lhs.above().drop_last()[i]).0.keys.len() <= 2 * M by { assert(self.lhs.above()[i].0.keys.len() <= 2 * M); }
        assert(self.lhs.above()[self.lhs.above().len() - 1].0.keys.len() <= 2 * M);
        assert forall|k: int| 0 <= k < self.kids().len() implies (#[trigger] self.kids()[k]).height + 1 == self.q().height && self.kids()[k].wf() && self.kids()[k].size == self.nz()[k] && lt(I::z(), self.nz()[k]) by {
            if k < c { assert(p.kids[k].wf() && p.kids[k].height + 1 == p.height && lt(I::z(), self.z()[k])); }
            if k > c + 1 { assert(p.kids[k - 1].wf() && p.kids[k - 1].height + 1 == p.height && lt(I::z(), self.z()[k - 1])); }
        }
        assert forall|k: int| 0 <= k < self.sizes().len() implies lt(I::z(), #[trigger] self.sizes()[k]) by {
            if k < c { assert(lt(I::z(), self.w()[k])); }
            if k > c { assert(lt(I::z(), self.w()[k - 1])); }
        }
    }
    /// The parent has room.
    proof fn lemma_room(self)
        requires laws::<I>(), self.fair(), self.lhs.above().len() > 0, self.p().keys.len() < 2 * M
        ensures ({
            let (q, c, z, w) = (self.q(), self.c(), self.z(), self.w());
            let (a, s) = (q.next(c), start(z, w, c));
            let t = with(q, c, s.cat(self.l().size), self.key.id(), self.r());
            &&& s.cat(self.old_size) == a && a.sr(self.old_size) == s
            &&& ready(t, c + 1, a, s.cat(self.total()))
            &&& t.ids.contains(self.key.id())
            &&& forall|n: Tree<I>| #[trigger] is_shifted(n, t, c + 1, a, s.cat(self.total())) ==> sizes(n) == self.sizes()
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(Tree::wf); hide(Tree::node_ok); hide(stale);
        self.lemma_base();
        let (q, c, z, w) = (self.q(), self.c(), self.z(), self.w());
        let (a, s) = (q.next(c), start(z, w, c));
        let t = with(q, c, s.cat(self.l().size), self.key.id(), self.r());
        lemma_spread(q, z, w, c, self.l().size, t);
        assert(t.ids[c] == self.key.id());
        assert forall|n: Tree<I>| #[trigger] is_shifted(n, t, c + 1, a, s.cat(self.total())) implies n.wf() && n.height == t.height && sizes(n) == self.sizes() by {
            lemma_spread_n(q, z, w, c, self.l().size, self.key_size, self.r().size, t, n);
            assert(n.kids == self.kids());
            assert forall|k: int| 0 <= k < n.kids.len() implies kid_sizes(n)[k] == #[trigger] self.nz()[k] by { assert(self.kids()[k].size == self.nz()[k]); }
            assert(kid_sizes(n) =~= self.nz());
            assert(laid(n, spread_z(z, c, self.l().size, self.r().size), w.insert(c, self.key_size)));
            assert(self.nz() == spread_z(z, c, self.l().size, self.r().size));
            assert(self.sizes() == w.insert(c, self.key_size));
            lemma_node(n, self.sizes());
        }
    }
}
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> {
    spec fn full(self) -> bool { self.fair() && self.lhs.above().len() > 0 && self.p().keys.len() == 2 * M }
    proof fn lemma_half(self, n: Tree<I>, lo: int)
        requires laws::<I>(), self.full(), lo == 0 && self.left(n) || lo == M + 1 && self.right(n)
        ensures n.wf(), lt(I::z(), n.size), n.keys.len() == M, sizes(n) == self.sizes().subrange(lo, lo + M)
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale);
        self.lemma_base();
        let (z, w) = (self.nz().subrange(lo, lo + M + 1), self.sizes().subrange(lo, lo + M));
        assert(n.kids =~= self.kids().subrange(lo, lo + M + 1));
        assert(kid_sizes(n) =~= z) by { assert forall|k: int| 0 <= k < n.kids.len() implies kid_sizes(n)[k] == #[trigger] z[k] by { assert(self.kids()[lo + k].size == self.nz()[lo + k]); } }
        if lo == 0 { assert(self.nz().take(M + 1) =~= z && self.sizes().take(M as int) =~= w); } else { assert(self.nz().skip(M + 1) =~= z && self.sizes().skip(M + 1) =~= w); }
        assert(all_pos(z)) by { assert forall|k: int| 0 <= k < z.len() implies lt(I::z(), #[trigger] z[k]) by { assert(lt(I::z(), self.nz()[lo + k])); } }
        assert(all_pos(w)) by { assert forall|k: int| 0 <= k < w.len() implies lt(I::z(), #[trigger] w[k]) by { assert(lt(I::z(), self.sizes()[lo + k])); } }
        assert forall|k: int| 0 <= k < n.kids.len() implies (#[trigger] n.kids[k]).height + 1 == n.height && n.kids[k].wf() by { assert(n.kids[k] == self.kids()[lo + k]); }
        lemma_node(n, w);
        step::lemma_positive(n);
    }
    broadcast proof fn lemma_halves(self, x: Tree<I>, y: Tree<I>)
        requires laws::<I>(), rmono::<I>(), self.full(), #[trigger] self.left(x), #[trigger] self.right(y)
        ensures x.wf(), y.wf(), lt(I::z(), x.size), lt(I::z(), y.size), x.height == y.height == self.p().height, x.ids.len() == M, y.ids.len() == M,
            x.ids.push(self.ids()[M as int]) + y.ids == self.ids(), x.kids + y.kids == self.kids(), sizes(x).push(self.sizes()[M as int]) + sizes(y) == self.sizes(),
            lt(I::z(), self.sizes()[M as int]), !lt(x.size.cat(self.sizes()[M as int]).cat(y.size), self.p().size)
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_half(x, 0); self.lemma_half(y, M + 1);
        self.lemma_base();
        let (z, w) = (self.nz(), self.sizes());
        assert(x.ids.push(self.ids()[M as int]) + y.ids =~= self.ids());
        assert(x.kids + y.kids =~= self.kids());
        assert(sizes(x).push(w[M as int]) + sizes(y) =~= w);
        assert(lt(I::z(), w[M as int]));
        assert(x.next(M as int) == end(z.take(M + 1), w.take(M as int), M as int));
        assert(y.next(M as int) == end(z.skip(M + 1), w.skip(M + 1), M as int));
        lemma_same_end(z.take(M + 1), w.take(M as int), z, w, M as int);
        lemma_cut(z, w, M as int, M as int);
        assert(self.p().next(2 * M) == end(self.z(), self.w(), 2 * M));
        lemma_grown(self.z(), self.w(), self.c(), self.l().size, self.key_size, self.r().size);
    }
    /// What goes in goes in the left half.
    proof fn lemma_low_case(self)
        requires laws::<I>(), self.full(), self.c() < M
        ensures ({
            let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M - 1);
            let s = start(z, w, c);
            let t = with(low(q, m), c, s.cat(self.l().size), self.key.id(), self.r());
            let e = start(z, w, m + 1);
            &&& self.ids()[M as int] == q.ids[m] && self.sizes()[M as int] == w[m]
            &&& q.next(m + 1) == q.keys[m + 1] && q.kids[m + 1].size == if c == m + 1 { self.l().size } else { z[m + 1] }
            &&& q.next(m + 1).sr(z[m + 1]) == e && e.cat(z[m + 1]) == q.next(m + 1) && q.keys[m].cat(e.sl(q.keys[m])) == e && e.sl(q.keys[m]) == w[m]
            &&& after(high(q, m), 0, e)
            &&& forall|n: Tree<I>| #[trigger] is_shifted(n, high(q, m), 0, e, I::z()) ==> self.right(n)
            &&& low(q, m).next(c).sr(self.old_size) == s && s.cat(self.old_size) == low(q, m).next(c)
            &&& after(t, c + 1, low(q, m).next(c)) && t.ids.contains(self.key.id())
            &&& forall|n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, u, f, a, b) && u == t && f == c + 1 && a == low(q, m).next(c) && b == s.cat(self.total()) ==> self.left(n)
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M - 1);
        let s = start(z, w, c);
        let t = with(low(q, m), c, s.cat(self.l().size), self.key.id(), self.r());
        let e = start(z, w, m + 1);
        assert(q.next(m) == end(z, w, m) && q.next(m + 1) == end(z, w, m + 1));
        lemma_start(z, w, m + 1); law_sl(end(z, w, m), w[m]);
        lemma_high(q, z, w, m); lemma_low(q, z, w, m);
        let (y, v) = (z.take(m + 1), w.take(m));
        lemma_same_end(z, w, y, v, c);
        if c > 0 { lemma_same_end(z, w, y, v, c - 1); }
        assert(start(y, v, c) == s);
        assert(low(q, m).next(c) == end(y, v, c));
        lemma_spread(low(q, m), y, v, c, self.l().size, t);
        assert(t.ids[c] == self.key.id());
        assert forall|n: Tree<I>| #[trigger] is_shifted(n, high(q, m), 0, e, I::z()) implies self.right(n) by {
            assert(z.skip(m + 1) =~= self.nz().skip(M + 1) && w.skip(m + 1) =~= self.sizes().skip(M + 1));
            assert(n.ids =~= self.ids().skip(M + 1) && n.kids =~= self.kids().skip(M + 1));
        }
        assert forall|n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, u, f, a, b) && u == t && f == c + 1 && a == low(q, m).next(c) && b == s.cat(self.total()) implies self.left(n) by {
            lemma_spread_n(low(q, m), y, v, c, self.l().size, self.key_size, self.r().size, t, n);
            assert(spread_z(y, c, self.l().size, self.r().size) =~= self.nz().take(M + 1) && v.insert(c, self.key_size) =~= self.sizes().take(M as int));
            assert(n.ids =~= self.ids().take(M as int) && n.kids =~= self.kids().take(M + 1));
        }
    }
    /// What goes in becomes what is between.
    proof fn lemma_mid_case(self)
        requires laws::<I>(), self.full(), self.c() == M
        ensures ({
            let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M - 1);
            let e = start(z, w, m + 1);
            let (t, h) = (low(q, m), high(q, m));
            let g = Tree { kids: h.kids.update(0, self.r()), ..h };
            &&& self.ids()[M as int] == self.key.id() && self.sizes()[M as int] == self.key_size
            &&& q.next(m + 1) == q.keys[m + 1]
            &&& q.next(m + 1).sr(z[m + 1]) == e && e.cat(z[m + 1]) == q.next(m + 1) && q.keys[m].cat(e.sl(q.keys[m])) == e && e.sl(q.keys[m]) == w[m]
            &&& h.kids[0] == self.l()
            &&& self.left(Tree { keys: t.keys.push(t.size), ids: t.ids.push(q.ids[m]), kids: t.kids.push(self.l()), size: q.keys[m].cat(w[m]).cat(self.l().size), ..t })
            &&& after(g, 0, g.keys[0])
            &&& forall|n: Tree<I>| #[trigger] is_shifted(n, g, 0, g.keys[0], self.r().size) ==> self.right(n)
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M - 1);
        let e = start(z, w, m + 1);
        let (t, h) = (low(q, m), high(q, m));
        let g = Tree { kids: h.kids.update(0, self.r()), ..h };
        assert(q.next(m) == end(z, w, m) && q.next(m + 1) == end(z, w, m + 1));
        lemma_start(z, w, m + 1); law_sl(end(z, w, m), w[m]);
        let x = Tree { keys: t.keys.push(t.size), ids: t.ids.push(q.ids[m]), kids: t.kids.push(self.l()), size: q.keys[m].cat(w[m]).cat(self.l().size), ..t };
        assert(x.ids =~= self.ids().take(M as int) && x.kids =~= self.kids().take(M + 1));
        assert forall|k: int| 0 <= k <= x.keys.len() implies #[trigger] x.next(k) == end(self.nz().take(M + 1), self.sizes().take(M as int), k) by {
            let (y, v) = (self.nz().take(M + 1), self.sizes().take(M as int));
            if k < M { lemma_same_end(z, w, y, v, k); assert(q.next(k) == end(z, w, k)); } else { lemma_same_end(z, w, y, v, m); assert(v[m] == w[m] && y[m + 1] == self.l().size); }
        }
        let (y, v) = (self.nz().skip(M + 1), self.sizes().skip(M + 1));
        law_zero::<I>();
        assert forall|k: int| 0 <= k <= g.keys.len() && g.keys.len() == M implies !lt(#[trigger] g.next(k), g.keys[0]) && (k < M ==> self.r().size.cat(g.next(k).sl(g.keys[0])) == end(y, v, k)) && (k == M ==> true) by {
            self.lemma_mid_at(k);
        }
        assert(g.next(M as int) == g.size);
        assert forall|k: int| 0 <= k < g.keys.len() implies !lt(#[trigger] g.keys[k], g.keys[0]) by { assert(g.next(k) == g.keys[k]); }
        assert forall|n: Tree<I>| #[trigger] is_shifted(n, g, 0, g.keys[0], self.r().size) implies self.right(n) by {
            assert(n.ids =~= self.ids().skip(M + 1) && n.kids =~= self.kids().skip(M + 1));
            assert forall|k: int| 0 <= k <= n.keys.len() implies #[trigger] n.next(k) == end(y, v, k) by { self.lemma_mid_at(k); assert(g.next(k) == q.next(M + k)); }
        }
    }
    /// The right half's positions, from where its first child ends.
    proof fn lemma_mid_at(self, k: int)
        requires laws::<I>(), self.full(), self.c() == M, 0 <= k <= M
        ensures high(self.q(), M - 1).next(k) == self.q().next(M + k), !lt(self.q().next(M + k), self.q().next(M as int)),
            self.r().size.cat(self.q().next(M + k).sl(self.q().next(M as int))) == end(self.nz().skip(M + 1), self.sizes().skip(M + 1), k)
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let (z, w, m) = (self.z(), self.w(), M as int);
        let (y, v) = (self.nz().skip(M + 1), self.sizes().skip(M + 1));
        assert(self.q().next(m + k) == end(z, w, m + k) && self.q().next(m) == end(z, w, m));
        lemma_mid(z, w, m, m + k);
        lemma_mid(y, v, 0, k);
        assert forall|i: int| 0 <= i < k implies #[trigger] w[m + i] == v[0 + i] by {}
        assert forall|i: int| 0 < i <= k implies #[trigger] z[m + i] == y[0 + i] by {}
        lemma_same_mid(z, w, m, y, v, 0, k);
        assert(y[0] == self.r().size);
    }
    /// What goes in goes in the right half.
    proof fn lemma_high_case(self)
        requires laws::<I>(), self.full(), self.c() > M
        ensures ({
            let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M as int);
            let d = c - (M + 1);
            let e = start(z, w, m + 1);
            let s = start(z.skip(m + 1), w.skip(m + 1), d);
            let h = high(q, m);
            &&& self.ids()[M as int] == q.ids[m] && self.sizes()[M as int] == w[m]
            &&& h.next(0) == q.next(m + 1) && q.kids[m + 1].size == if c == m + 1 { self.l().size } else { z[m + 1] }
            &&& q.next(m + 1).sr(z[m + 1]) == e && e.cat(z[m + 1]) == q.next(m + 1) && q.keys[m].cat(e.sl(q.keys[m])) == e && e.sl(q.keys[m]) == w[m]
            &&& after(h, 0, e)
            &&& self.left(low(q, m))
            &&& forall|n: Tree<I>| #[trigger] is_shifted(n, h, 0, e, I::z()) ==> n.next(d).sr(self.old_size) == s && s.cat(self.old_size) == n.next(d)
                && after(with(n, d, s.cat(self.l().size), self.key.id(), self.r()), d + 1, n.next(d)) && with(n, d, s.cat(self.l().size), self.key.id(), self.r()).ids.contains(self.key.id())
            &&& forall|n: Tree<I>, x: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, h, 0, e, I::z()) && #[trigger] is_shifted(x, u, f, a, b) && u == with(n, d, s.cat(self.l().size), self.key.id(), self.r()) && f == d + 1 && a == n.next(d) && b == s.cat(self.total()) ==> self.right(x)
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M as int);
        let d = c - (M + 1);
        let e = start(z, w, m + 1);
        let (y, v) = (z.skip(m + 1), w.skip(m + 1));
        let s = start(y, v, d);
        let h = high(q, m);
        assert(q.next(m) == end(z, w, m) && q.next(m + 1) == end(z, w, m + 1));
        lemma_start(z, w, m + 1); law_sl(end(z, w, m), w[m]);
        if m + 1 < 2 * M { assert(h.next(0) == q.next(m + 1)); }
        self.lemma_high_rest();
    }
    proof fn lemma_high_rest(self)
        requires laws::<I>(), self.full(), self.c() > M
        ensures ({
            let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M as int);
            let d = c - (M + 1);
            let e = start(z, w, m + 1);
            let s = start(z.skip(m + 1), w.skip(m + 1), d);
            let h = high(q, m);
            &&& after(h, 0, e)
            &&& self.left(low(q, m))
            &&& forall|n: Tree<I>| #[trigger] is_shifted(n, h, 0, e, I::z()) ==> n.next(d).sr(self.old_size) == s && s.cat(self.old_size) == n.next(d)
                && after(with(n, d, s.cat(self.l().size), self.key.id(), self.r()), d + 1, n.next(d)) && with(n, d, s.cat(self.l().size), self.key.id(), self.r()).ids.contains(self.key.id())
            &&& forall|n: Tree<I>, x: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, h, 0, e, I::z()) && #[trigger] is_shifted(x, u, f, a, b) && u == with(n, d, s.cat(self.l().size), self.key.id(), self.r()) && f == d + 1 && a == n.next(d) && b == s.cat(self.total()) ==> self.right(x)
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let (q, c, z, w, m) = (self.q(), self.c(), self.z(), self.w(), M as int);
        let d = c - (M + 1);
        let e = start(z, w, m + 1);
        let (y, v) = (z.skip(m + 1), w.skip(m + 1));
        let s = start(y, v, d);
        let h = high(q, m);
        lemma_high(q, z, w, m); lemma_low(q, z, w, m);
        assert(low(q, m).ids =~= self.ids().take(M as int) && low(q, m).kids =~= self.kids().take(M + 1));
        assert(z.take(m + 1) =~= self.nz().take(M + 1) && w.take(m) =~= self.sizes().take(M as int));
        assert forall|n: Tree<I>| #[trigger] is_shifted(n, h, 0, e, I::z()) implies n.next(d).sr(self.old_size) == s && s.cat(self.old_size) == n.next(d)
                && after(with(n, d, s.cat(self.l().size), self.key.id(), self.r()), d + 1, n.next(d)) && with(n, d, s.cat(self.l().size), self.key.id(), self.r()).ids.contains(self.key.id()) by {
            self.lemma_high_n(n);
        }
        assert forall|n: Tree<I>, x: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, h, 0, e, I::z()) && #[trigger] is_shifted(x, u, f, a, b) && u == with(n, d, s.cat(self.l().size), self.key.id(), self.r()) && f == d + 1 && a == n.next(d) && b == s.cat(self.total()) implies self.right(x) by {
            self.lemma_high_x(n, x);
        }
    }
    spec fn high_n(self, n: Tree<I>) -> bool {
        let h = high(self.q(), M as int);
        laid(n, self.z().skip(M + 1), self.w().skip(M + 1)) && n.ids == h.ids && n.kids == h.kids && n.height == h.height && n.keys.len() == h.keys.len()
    }
    proof fn lemma_high_n(self, n: Tree<I>)
        requires laws::<I>(), self.full(), self.c() > M, self.high_n(n)
        ensures ({
            let d = self.c() - (M + 1);
            let s = start(self.z().skip(M + 1), self.w().skip(M + 1), d);
            let t = with(n, d, s.cat(self.l().size), self.key.id(), self.r());
            n.next(d).sr(self.old_size) == s && s.cat(self.old_size) == n.next(d) && after(t, d + 1, n.next(d)) && t.ids.contains(self.key.id())
        })
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let d = self.c() - (M + 1);
        let (y, v) = (self.z().skip(M + 1), self.w().skip(M + 1));
        let t = with(n, d, start(y, v, d).cat(self.l().size), self.key.id(), self.r());
        assert(y[d] == self.old_size);
        assert(n.next(d) == end(y, v, d));
        lemma_spread(n, y, v, d, self.l().size, t);
        assert(t.ids[d] == self.key.id());
    }
    proof fn lemma_high_x(self, n: Tree<I>, x: Tree<I>)
        requires laws::<I>(), self.full(), self.c() > M, self.high_n(n), ({
            let d = self.c() - (M + 1);
            let s = start(self.z().skip(M + 1), self.w().skip(M + 1), d);
            is_shifted(x, with(n, d, s.cat(self.l().size), self.key.id(), self.r()), d + 1, n.next(d), s.cat(self.total()))
        })
        ensures self.right(x)
    {
        hide(above_ok); hide(fits); hide(leads); hide(stale); hide(Tree::wf); hide(Tree::node_ok);
        self.lemma_base();
        let d = self.c() - (M + 1);
        let (y, v) = (self.z().skip(M + 1), self.w().skip(M + 1));
        let t = with(n, d, start(y, v, d).cat(self.l().size), self.key.id(), self.r());
        assert(n.next(d) == end(y, v, d));
        lemma_spread_n(n, y, v, d, self.l().size, self.key_size, self.r().size, t, x);
        assert(spread_z(y, d, self.l().size, self.r().size) =~= self.nz().skip(M + 1) && v.insert(d, self.key_size) =~= self.sizes().skip(M + 1));
        assert(x.ids =~= self.ids().skip(M + 1) && x.kids =~= self.kids().skip(M + 1));
    }
}
//@ impl impl<'t, 'c, I, S, P, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> BubbledInsertState<'t, 'c, I, S, P, M>
//@ only
//@ fn do_upward_step -> r props=C01,C02,C05,C07,C08,C15
//@ attr #[verifier::rlimit(80)]
    requires laws::<I>(), rdiff::<I>(), rmono::<I>(), self.fair()
    ensures match r {
        BubbleStepResult::Root(n) => self.lhs.above().len() == 0 && final(updates_callback).seen() == old(updates_callback).seen()
            && (n matches PostInsertResult::NewRoot { lhs, key, key_size, rhs } && lhs.tree() == self.l() && key == self.key && key_size == self.key_size && rhs.tree() == self.r()),
        BubbleStepResult::Done(s) => self.lhs.above().len() > 0 && self.whole(s) && final(updates_callback).seen() == old(updates_callback).seen() + rest(self.inserted),
        BubbleStepResult::KeepGoing(n) => self.lhs.above().len() > 0 && self.halves(n) && n.fair() && n.lhs.above() == self.lhs.above().drop_last()
            && final(updates_callback).seen() + rest(n.inserted) == old(updates_callback).seen() + rest(self.inserted),
    }
//@ body
    hide(stale); hide(but); hide(ready); hide(is_shifted); hide(after); hide(above_ok); hide(fits); hide(Tree::wf); hide(Tree::node_ok); hide(laid); hide(leads); hide(end); hide(start); hide(sizes); hide(kid_sizes); hide(all_pos); hide(BubbledInsertState::left); hide(BubbledInsertState::right);
    broadcast use {BubbledInsertState::lemma_halves, seq_fix, seq_one, seq_none, leads_here, leads_step, shifted_rest};
    proof {
        law_zero::<I>();
        if self.lhs.above().len() > 0 {
            self.lemma_base();
            if self.p().keys.len() < 2 * M { self.lemma_room(); }
            else if self.c() < M { self.lemma_low_case(); }
            else if self.c() == M { self.lemma_mid_case(); }
            else { self.lemma_high_case(); }
        }
    }
//@ fn finish -> r props=C01,C02,C05,C07,C08,C15
    requires laws::<I>(), rdiff::<I>(), rmono::<I>(), self.fair(), map.none(), early_exit is None
    ensures match r {
        PostInsertResult::Done => climbed::<I>() && final(updates_callback).seen() == old(updates_callback).seen() + rest(self.inserted),
        PostInsertResult::NewRoot { lhs, key, key_size, rhs } => pair(lhs.tree(), key_size, rhs.tree())
            && (final(updates_callback).seen() == old(updates_callback).seen() + rest(self.inserted) || key.id() == target() && final(updates_callback).seen().push(target()) == old(updates_callback).seen() + rest(self.inserted)),
    }
//@ body
    hide(leads); hide(above_ok); hide(fits); hide(Tree::wf); hide(Tree::node_ok); hide(BubbledInsertState::halves);
    broadcast use {seq_one, seq_none};
//@ attr #[verifier::loop_isolation(false)]
//@ loop
    invariant laws::<I>(), rdiff::<I>(), rmono::<I>(), self_.fair(), map.none(), early_exit is None, updates_callback.seen() + rest(self_.inserted) == old(updates_callback).seen() + rest(self.inserted)
    decreases self_.lhs.above().len()
//@ end
fn main() {}
}
