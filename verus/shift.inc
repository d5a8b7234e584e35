// Repositioning after a change of size (src/tree/fix.rs): for every node, every M and every lawful index type, whether
// its addition commutes or not.
//@ include tree.inc noprops
//@ rewrite self\.leaf\(\)\.keys\.get_unchecked\(idx\)\.assume_init\(\) => self.raw_key(idx)
//@ rewrite self\.with_mut\(\|leaf\| drop\(leaf\.keys\.get_mut_unchecked\(idx\)\.write\((\w+)\)\)\) => self.set_raw_key(idx, \1)
//@ rewrite \bty::TypeHint\b => TypeHint
use std::ops::RangeFrom;
/// The last of the documented laws: what is subtracted on the right was there.
#[verifier::opaque]
pub open spec fn rdiff<I: Index>() -> bool { forall|a: I, c: I| !lt(c, a) ==> (#[trigger] c.sr(a)).cat(a) == c }
proof fn law_rdiff<I: Index>(a: I, c: I) requires rdiff::<I>(), !lt(c, a) ensures c.sr(a).cat(a) == c { reveal(rdiff); }

/// What keys from f on, and the size, become when what ended at a ends at b.
pub open spec fn is_shifted<I: Index>(new: Tree<I>, t: Tree<I>, f: int, a: I, b: I) -> bool {
    &&& new == Tree { keys: new.keys, size: new.size, ..t }
    &&& new.keys.len() == t.keys.len()
    &&& forall|k: int| 0 <= k < t.keys.len() ==> #[trigger] new.keys[k] == if k < f { t.keys[k] } else { b.cat(t.keys[k].sl(a)) }
    &&& new.size == b.cat(t.size.sl(a))
}
/// There is nothing from f on that begins before a.
pub open spec fn after<I: Index>(t: Tree<I>, f: int, a: I) -> bool { !lt(t.size, a) && forall|k: int| f <= k < t.keys.len() ==> !lt(#[trigger] t.keys[k], a) }
broadcast proof fn lemma_rdiff<I: Index>(a: I, c: I) requires rdiff::<I>(), !lt(c, a) ensures (#[trigger] c.sr(a)).cat(a) == c { reveal(rdiff); }
/// What reaches up to a or beyond, when a becomes b.
broadcast proof fn shift_up<I: Index>(a: I, b: I, k: I)
    requires laws::<I>(), rdiff::<I>(), !lt(b, a), !lt(k, a)
    ensures #[trigger] b.sr(a).cat(k) == b.cat(k.sl(a))
{ reveal(rdiff); law_diff(a, k); law_assoc(b.sr(a), a, k.sl(a)); }
broadcast proof fn shift_down<I: Index>(a: I, b: I, k: I)
    requires laws::<I>(), rdiff::<I>(), !lt(a, b), !lt(k, a)
    ensures #[trigger] k.sl(a.sr(b)) == b.cat(k.sl(a)), a.sr(b).cat(k.sl(a.sr(b))) == k
{ reveal(rdiff); law_diff(a, k); law_assoc(a.sr(b), b, k.sl(a)); law_sl(a.sr(b), b.cat(k.sl(a))); }
broadcast proof fn end_order<I: Index>(p: I, x: I, y: I)
    requires arith::<I>()
    ensures #![trigger p.cat(x), p.cat(y)] lt(p.cat(x), p.cat(y)) == lt(x, y)
{ law_mono(p, x, y); }

impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    /// the nodes above, as they were, and the child taken at each
    pub uninterp spec fn above(self) -> Seq<(Tree<I>, u8)>;
    #[verifier::external_body]
    unsafe fn raw_key(&self, idx: usize) -> (r: I) requires idx < self.tree().keys.len() ensures r == self.tree().keys[idx as int] { unimplemented!() }
    #[verifier::external_body]
    unsafe fn set_raw_key(&mut self, idx: usize, x: I) requires idx < old(self).tree().keys.len()
        ensures final(self).tree() == (Tree { keys: old(self).tree().keys.update(idx as int, x), ..old(self).tree() }), final(self).above() == old(self).above() { unimplemented!() }
    #[verifier::external_body]
    fn set_subtree_size(&mut self, x: I)
        ensures final(self).tree() == (Tree { size: x, ..old(self).tree() }), final(self).above() == old(self).above() { unimplemented!() }
}
//@ source src/tree/node.rs
//@ impl impl<'t, Ty, I, S, P, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> where Ty: TypeHint, P: RleTreeConfig<I, S, M>, => impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M>
//@ only
//@ fn set_key_poss_with props=C02,C15 closures
    requires range.start <= old(self).tree().keys.len(),
        f.requires((old(self).tree().size,)), forall|k: int| range.start <= k < old(self).tree().keys.len() ==> f.requires((#[trigger] old(self).tree().keys[k],)),
    ensures final(self).above() == old(self).above(), ({
        let (t, n) = (old(self).tree(), final(self).tree());
        &&& n == Tree { keys: n.keys, size: n.size, ..t }
        &&& n.keys.len() == t.keys.len()
        &&& forall|k: int| 0 <= k < range.start ==> n.keys[k] == t.keys[k]
        &&& forall|k: int| range.start <= k < n.keys.len() ==> f.ensures((#[trigger] t.keys[k],), n.keys[k])
        &&& f.ensures((t.size,), n.size)
    })
//@ attr #[verifier::loop_isolation(false)]
//@ loop
    invariant self.above() == old(self).above(), ({
        let (t, n) = (old(self).tree(), self.tree());
        &&& n == Tree { keys: n.keys, ..t }
        &&& n.keys.len() == t.keys.len()
        &&& forall|k: int| 0 <= k < range.start ==> n.keys[k] == t.keys[k]
        &&& forall|k: int| range.start <= k < idx ==> f.ensures((#[trigger] t.keys[k],), n.keys[k])
        &&& forall|k: int| idx <= k < n.keys.len() ==> #[trigger] n.keys[k] == t.keys[k]
    })
//@ end
//@ source src/tree/fix.rs
//@ type ShiftKeys
//@ free shift_keys props=C02,C15
    requires laws::<I>(), rdiff::<I>(), opts.from <= old(node).tree().keys.len(), after(old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size)),
        IS_INCREASE ==> !lt(opts.new_size, opts.old_size), !IS_INCREASE ==> !lt(opts.old_size, opts.new_size),
    ensures is_shifted(final(node).tree(), old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size), opts.pos.cat(opts.new_size)), final(node).above() == old(node).above()
//@ body
    broadcast use {lemma_rdiff, shift_up, shift_down, end_order};
    let ghost (a, b) = (opts.pos.cat(opts.old_size), opts.pos.cat(opts.new_size));
//@ closure
    requires !lt(k_pos, a)
    ensures r == b.cat(k_pos.sl(a))
//@ end
//@ free shift_keys_increase props=C02,C15
    requires laws::<I>(), rdiff::<I>(), opts.from <= old(node).tree().keys.len(), after(old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size)), !lt(opts.new_size, opts.old_size)
    ensures is_shifted(final(node).tree(), old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size), opts.pos.cat(opts.new_size)), final(node).above() == old(node).above()
//@ end
//@ free shift_keys_decrease props=C02,C15
    requires laws::<I>(), rdiff::<I>(), opts.from <= old(node).tree().keys.len(), after(old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size)), !lt(opts.old_size, opts.new_size)
    ensures is_shifted(final(node).tree(), old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size), opts.pos.cat(opts.new_size)), final(node).above() == old(node).above()
//@ end
//@ free shift_keys_auto props=C02,C15
    requires laws::<I>(), rdiff::<I>(), opts.from <= old(node).tree().keys.len(), after(old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size))
    ensures is_shifted(final(node).tree(), old(node).tree(), opts.from as int, opts.pos.cat(opts.old_size), opts.pos.cat(opts.new_size)), final(node).above() == old(node).above()
//@ end

// ---- one step up ----------------------------------------------------------------------------------------------
/// t with child c taken to be of this size
pub open spec fn resized<I: Index>(t: Tree<I>, c: int, size: I) -> Tree<I> { Tree { kids: t.kids.update(c, Tree { size, ..t.kids[c] }), ..t } }
/// t but for its child c, which has become another
pub open spec fn put<I: Index>(t: Tree<I>, c: int, k: Tree<I>) -> Tree<I> { Tree { kids: t.kids.update(c, k), ..t } }
/// t is in order as soon as it takes account of its child c no longer being of this size.
pub open spec fn stale<I: Index>(t: Tree<I>, c: int, size: I) -> bool {
    &&& 0 <= c < t.kids.len() && resized(t, c, size).node_ok() && lt(I::z(), size)
    &&& forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).height < t.height && t.kids[k].wf()
}
/// The nodes above are in order; the lowest counts this size.
pub open spec fn above_ok<I: Index>(above: Seq<(Tree<I>, u8)>, height: nat, size: I) -> bool decreases above.len() {
    above.len() == 0 || {
        let (p, c) = above.last();
        p.wf() && c < p.kids.len() && p.height == height + 1 && p.kids[c as int].size == size && above_ok(above.drop_last(), p.height, p.size)
    }
}
/// t is in order but for the end of slice x.
pub open spec fn but<I: Index>(t: Tree<I>, x: int) -> bool { node_but(t, x) && forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).height < t.height && t.kids[k].wf() }
pub open spec fn node_but<I: Index>(t: Tree<I>, x: int) -> bool {
    &&& 0 < t.keys.len() < 255 && t.ids.len() == t.keys.len()
    &&& (t.height == 0 <==> t.kids.len() == 0)
    &&& t.height <= 255
    &&& t.kids.len() > 0 ==> t.kids.len() == t.keys.len() + 1
        && (forall|k: int| 0 <= k <= t.keys.len() ==> t.cpos(k).cat((#[trigger] t.kids[k]).size) == t.next(k))
        && (forall|k: int| 0 <= k <= t.keys.len() ==> lt(I::z(), (#[trigger] t.kids[k]).size))
        && (forall|k: int| 0 <= k <= t.keys.len() ==> (#[trigger] t.kids[k]).height + 1 == t.height)
    &&& t.cpos(0) == I::z()
    &&& forall|k: int| 0 <= k < t.keys.len() && k != x ==> lt(#[trigger] t.keys[k], t.cpos(k + 1))
}
/// t is in order as soon as what from f on began at a begins at b, and its size is moved alike.
pub open spec fn ready<I: Index>(t: Tree<I>, f: int, a: I, b: I) -> bool {
    0 <= f <= t.keys.len() < 255 && after(t, f, a) && forall|n: Tree<I>| #[trigger] is_shifted(n, t, f, a, b) ==> n.wf() && n.height == t.height
}
pub mod step { use super::*;
pub broadcast proof fn ready_after<I: Index>(t: Tree<I>, f: int, a: I, b: I)
    requires #[trigger] ready(t, f, a, b)
    ensures after(t, f, a), 0 <= f <= t.keys.len() < 255, forall|n: Tree<I>| #[trigger] is_shifted(n, t, f, a, b) ==> n.wf() && n.height == t.height
{}
/// Nothing from position k on is before where child k begins.
proof fn lemma_cpos_but<I: Index>(t: Tree<I>, x: int, k: int)
    requires laws::<I>(), node_but(t, x), 0 <= k <= t.keys.len()
    ensures !lt(t.next(k), t.cpos(k))
{ if t.kids.len() > 0 { assert(t.cpos(k).cat(t.kids[k].size) == t.next(k)); law_grow(t.cpos(k), t.kids[k].size); } else { assert(t.next(k).cmp_spec(&t.next(k)) == Ordering::Equal); } }
proof fn lemma_sorted_but<I: Index>(t: Tree<I>, x: int, i: int, j: int)
    requires laws::<I>(), node_but(t, x), 0 <= i < j < t.keys.len(), x < i
    ensures lt(t.keys[i], t.keys[j])
    decreases j - i
{
    let p = j - 1;
    assert(lt(t.keys[p], t.cpos(p + 1)));
    lemma_cpos_but(t, x, j);
    assert(t.cpos(j) == t.keys[j] || lt(t.cpos(j), t.keys[j]));
    if i < p { lemma_sorted_but(t, x, i, p); }
}
/// Nothing from k on is before where child k begins, if it is in order from there.
proof fn lemma_from_but<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), node_but(t, k - 1), 0 < k <= t.keys.len()
    ensures after(t, k, t.cpos(k)), forall|j: int| k < j <= t.keys.len() ==> !lt(#[trigger] t.cpos(j), t.cpos(k)),
{
    law_zero::<I>();
    let n = t.keys.len() as int;
    lemma_cpos_but(t, k - 1, k); lemma_cpos_but(t, k - 1, n);
    assert(k < n ==> lt(t.keys[n - 1], t.cpos(n - 1 + 1)));
    assert forall|j: int| k <= j < n implies !lt(#[trigger] t.keys[j], t.cpos(k)) by { if k < j { lemma_sorted_but(t, k - 1, k, j); } }
    assert forall|j: int| k < j <= n implies !lt(#[trigger] t.cpos(j), t.cpos(k)) by { assert(lt(t.keys[j - 1], t.cpos(j - 1 + 1))); if k < j - 1 { lemma_sorted_but(t, k - 1, k, j - 1); } }
    if k < n - 1 { lemma_sorted_but(t, k - 1, k, n - 1); }
}
proof fn lemma_from<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), t.node_ok(), 0 <= k <= t.keys.len()
    ensures after(t, k, t.cpos(k)), k < t.keys.len() ==> after(t, k, t.keys[k]), k == t.keys.len() ==> after(t, k, t.size),
        forall|j: int| k < j <= t.keys.len() ==> !lt(#[trigger] t.cpos(j), t.next(k)),
{
    law_zero::<I>();
    let n = t.keys.len() as int;
    lemma_cpos(t, k); lemma_cpos(t, n);
    assert(lt(t.keys[n - 1], t.cpos(n - 1 + 1)));
    assert forall|j: int| k <= j < n implies !lt(#[trigger] t.keys[j], t.next(k)) by { if k < j { lemma_sorted(t, k, j); } }
    assert forall|j: int| k < j <= n implies !lt(#[trigger] t.cpos(j), t.next(k)) by { assert(lt(t.keys[j - 1], t.cpos(j - 1 + 1))); if k < j - 1 { lemma_sorted(t, k, j - 1); } }
    if k < n - 1 { lemma_sorted(t, k, n - 1); }
}
pub broadcast proof fn child_after<I: Index>(t: Tree<I>, c: int, size: I)
    requires laws::<I>(), rdiff::<I>(), #[trigger] stale(t, c, size)
    ensures after(t, c, t.next(c).sr(size).cat(size)), t.next(c).sr(size).cat(size) == t.next(c), c <= t.keys.len() < 255
{
    let r = resized(t, c, size);
    assert(r.cpos(c).cat(r.kids[c].size) == r.next(c));
    lemma_from(r, c);
}
pub broadcast proof fn child_done<I: Index>(n: Tree<I>, t: Tree<I>, c: int, size: I, a: I, b: I)
    requires laws::<I>(), rdiff::<I>(), #[trigger] stale(t, c, size), #[trigger] is_shifted(n, t, c, a, b), a == t.next(c), b == t.next(c).sr(size).cat(t.kids[c].size)
    ensures n.wf(), n.height == t.height
{
    let r = resized(t, c, size);
    let len = t.keys.len() as int;
    let s = t.kids[c].size;
    law_zero::<I>();
    assert(r.cpos(c).cat(r.kids[c].size) == r.next(c));
    let pos = r.cpos(c);
    law_sl(a, I::z()); law_sr(pos, s);
    lemma_from(r, c);
    assert(n.next(c) == b);
    assert forall|k: int| 0 <= k <= len implies #[trigger] n.cpos(k) == (if k <= c { r.cpos(k) } else { b.cat(r.cpos(k).sl(a)) }) && n.cpos(k).cat(n.kids[k].size) == n.next(k) by {
        if k != c {
            let z = t.kids[k].size;
            assert(r.kids[k].size == z);
            assert(r.cpos(k).cat(z) == r.next(k));
            if k > c {
                let y = r.cpos(k).sl(a);
                law_diff(a, r.cpos(k));
                law_assoc(a, y, z); law_sl(a, y.cat(z));
                law_assoc(b, y, z); law_sr(b.cat(y), z);
            }
        }
    }
    assert forall|k: int| 0 <= k < len implies lt(#[trigger] n.keys[k], n.cpos(k + 1)) by {
        assert(lt(r.keys[k], r.cpos(k + 1)));
        if k >= c {
            law_diff(a, r.keys[k]); law_diff(a, r.cpos(k + 1));
            law_mono(a, r.keys[k].sl(a), r.cpos(k + 1).sl(a)); law_mono(b, r.keys[k].sl(a), r.cpos(k + 1).sl(a));
        }
    }
    assert forall|k: int| 0 <= k <= len implies lt(I::z(), (#[trigger] n.kids[k]).size) && n.kids[k].height + 1 == n.height by {
        assert(n.kids[k].wf());
        assert(r.kids[k].height + 1 == r.height);
        if k == c { lemma_positive(n.kids[k]); } else { assert(lt(I::z(), r.kids[k].size)); }
    }
    assert(n.node_ok());
}
pub proof fn lemma_positive<I: Index>(t: Tree<I>)
    requires laws::<I>(), t.node_ok()
    ensures lt(I::z(), t.size)
{ law_zero::<I>(); let n = t.keys.len() as int; lemma_cpos(t, n); assert(lt(t.keys[n - 1], t.cpos(n - 1 + 1))); }
pub broadcast proof fn key_after<I: Index>(t: Tree<I>, k: int, p: I, size: I)
    requires laws::<I>(), but(t, k), 0 <= k < t.keys.len(), #[trigger] p.cat(size) == #[trigger] t.cpos(k + 1)
    ensures after(t, k + 1, p.cat(size)), t.keys.len() < 255
{ lemma_from_but(t, k + 1); }
pub broadcast proof fn key_done<I: Index>(n: Tree<I>, t: Tree<I>, f: int, a: I, b: I)
    requires laws::<I>(), but(t, f - 1), 0 < f <= t.keys.len(), #[trigger] is_shifted(n, t, f, a, b), a == t.cpos(f), lt(t.keys[f - 1], b)
    ensures n.wf(), n.height == t.height
{
    let len = t.keys.len() as int;
    law_zero::<I>();
    lemma_from_but(t, f);
    law_sl(a, I::z());
    assert forall|k: int| 0 <= k <= len implies #[trigger] n.cpos(k) == (if k < f { t.cpos(k) } else { b.cat(t.cpos(k).sl(a)) }) && (n.kids.len() > 0 ==> n.cpos(k).cat(n.kids[k].size) == n.next(k)) by {
        if t.kids.len() > 0 {
            let z = t.kids[k].size;
            assert(t.cpos(k).cat(z) == t.next(k));
            if k >= f {
                if k > f { lemma_cpos_but(t, f - 1, f); }
                let y = t.cpos(k).sl(a);
                law_diff(a, t.cpos(k));
                law_assoc(a, y, z); law_sl(a, y.cat(z));
                law_assoc(b, y, z); law_sr(b.cat(y), z);
            }
        }
    }
    assert forall|k: int| 0 <= k < len implies lt(#[trigger] n.keys[k], n.cpos(k + 1)) by {
        if k != f - 1 { assert(lt(t.keys[k], t.cpos(k + 1))); }
        if k >= f {
            lemma_cpos_but(t, f - 1, f);
            law_diff(a, t.keys[k]); law_diff(a, t.cpos(k + 1));
            law_mono(a, t.keys[k].sl(a), t.cpos(k + 1).sl(a)); law_mono(b, t.keys[k].sl(a), t.cpos(k + 1).sl(a));
        }
    }
    assert forall|k: int| 0 <= k < n.kids.len() implies (#[trigger] n.kids[k]).height < n.height && n.kids[k].wf() by { assert(n.kids[k] == t.kids[k]); }
    if n.kids.len() > 0 { assert forall|k: int| 0 <= k <= len implies n.cpos(k).cat((#[trigger] n.kids[k]).size) == n.next(k) by { assert(n.cpos(k) == n.cpos(k)); } }
    assert(n.node_ok());
}
pub broadcast proof fn parent_stale<I: Index>(above: Seq<(Tree<I>, u8)>, height: nat, size: I, n: Tree<I>)
    requires laws::<I>(), #[trigger] above_ok(above, height, size), above.len() > 0, #[trigger] n.wf(), n.height == height
    ensures ({
        let (p, c) = above.last();
        let q = put(p, c as int, n);
        stale(q, c as int, size) && q.kids[c as int].size == n.size && above_ok(above.drop_last(), q.height, q.size)
    })
{
    let (p, c) = above.last();
    let q = put(p, c as int, n);
    let r = resized(q, c as int, size);
    assert forall|k: int| 0 <= k <= p.keys.len() implies (#[trigger] r.kids[k]).size == p.kids[k].size && r.kids[k].height == p.kids[k].height && (k != c ==> q.kids[k] == p.kids[k]) by {}
    assert forall|k: int| 0 <= k <= p.keys.len() implies #[trigger] r.cpos(k) == p.cpos(k) by { assert(r.kids[k].size == p.kids[k].size); }
    assert forall|k: int| 0 <= k <= r.keys.len() implies r.cpos(k).cat((#[trigger] r.kids[k]).size) == r.next(k) && lt(I::z(), r.kids[k].size) && r.kids[k].height + 1 == r.height by { assert(p.cpos(k).cat(p.kids[k].size) == p.next(k)); }
    assert forall|k: int| 0 <= k < r.keys.len() implies lt(#[trigger] r.keys[k], r.cpos(k + 1)) by { assert(lt(p.keys[k], p.cpos(k + 1))); assert(r.cpos(k + 1) == p.cpos(k + 1)); }
    assert(r.cpos(0) == p.cpos(0));
    assert(r.node_ok());
    assert forall|k: int| 0 <= k < q.kids.len() implies (#[trigger] q.kids[k]).height < q.height && q.kids[k].wf() by { if k != c { assert(p.kids[k].wf()); } }
}
}
use step::*;
#[verifier::external_body]
pub struct CursorBuilder<'c> { x: PhantomData<&'c ()> }
impl<'c> CursorBuilder<'c> {
    /// The steps from the root that are still to be put before those it has.
    pub uninterp spec fn due(self) -> Seq<u8>;
}
/// A node with none above it has been left in order.
pub uninterp spec fn climbed<I>() -> bool;
/// The way down to a node.
pub open spec fn way<I>(above: Seq<(Tree<I>, u8)>) -> Seq<u8> { above.map_values(|x: (Tree<I>, u8)| x.1) }
pub broadcast proof fn lemma_way<I>(above: Seq<(Tree<I>, u8)>)
    requires above.len() > 0
    ensures #[trigger] way(above) == way(above.drop_last()).push(above.last().1)
{ assert(way(above) =~= way(above.drop_last()).push(above.last().1)); }
impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    /// A node is left only when it is in order: this is where the claim is made.
    #[verifier::external_body]
    pub fn into_parent(self) -> (r: Result<(NodeHandle<ty::Internal, borrow::Mut<'t>, I, S, P, M>, u8), Self>)
        requires self.tree().wf()
        ensures self.above().len() == 0 ==> (r matches Err(h) && h.tree() == self.tree() && h.above() == self.above()) && climbed::<I>(),
            self.above().len() > 0 ==> (r matches Ok((h, c)) && c == self.above().last().1 && h.above() == self.above().drop_last() && h.tree() == put(self.above().last().0, c as int, self.tree()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>) ensures r.tree() == self.tree(), r.above() == self.above() { unimplemented!() }
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type OpUpdateState
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    /// A child has changed its size from old_size to new_size.
    pub open spec fn after_child(self) -> bool {
        self.child_or_key matches ChildOrKey::Child((c, h)) && self.override_pos is None && stale(h.tree(), c as int, self.old_size)
            && h.tree().kids[c as int].size == self.new_size && above_ok(h.above(), h.tree().height, h.tree().size)
    }
    /// The steps to the node, and none below, are still to be put in the cursor.
    pub open spec fn at_node(self) -> bool { self.cursor_builder.due() == way(self.above()) }
    pub open spec fn above(self) -> Seq<(Tree<I>, u8)> { match self.child_or_key { ChildOrKey::Child((c, h)) => h.above(), ChildOrKey::Key((k, h)) => h.above() } }
    /// A slice has been put in, with a child after it, and all in all something has changed from old_size to new_size.
    pub open spec fn after_both(self) -> bool {
        self.child_or_key matches ChildOrKey::Key((k, h)) && k < h.tree().keys.len() && above_ok(h.above(), h.tree().height, h.tree().size) && ({
            let p = match self.override_pos { Some(p) => p, None => h.tree().keys[k as int] };
            ready(h.tree(), k + 1, p.cat(self.old_size), p.cat(self.new_size))
        })
    }
    /// A slice has changed its size from old_size to new_size.
    pub open spec fn after_key(self) -> bool {
        self.child_or_key matches ChildOrKey::Key((k, h)) && k < h.tree().keys.len() && but(h.tree(), k as int) && above_ok(h.above(), h.tree().height, h.tree().size) && ({
            let p = match self.override_pos { Some(p) => p, None => h.tree().keys[k as int] };
            p.cat(self.old_size) == h.tree().cpos(k + 1) && lt(h.tree().keys[k as int], p.cat(self.new_size))
        })
    }
}
//@ impl impl<'t, 'c, I, S, P, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M>
//@ only
//@ fn do_upward_step -> r props=C02,C05,C07,C15
    requires laws::<I>(), rdiff::<I>(), self.after_child() || self.after_key() || self.after_both(), self.at_node()
    ensures match r {
        Ok(_) => self.above().len() == 0 && climbed::<I>(),
        Err(n) => n.after_child() && self.above().len() > 0 && n.above() == self.above().drop_last() && (n.child_or_key matches ChildOrKey::Child((c, h)) && self.above().last().1 == c)
            && n.cursor_builder.due() == way(self.above()),
    }
//@ body
    hide(stale); hide(but); hide(ready); hide(is_shifted); hide(after); hide(above_ok); hide(Tree::wf); hide(Tree::node_ok); hide(put);
    broadcast use {child_after, child_done, key_after, key_done, ready_after, parent_stale};
    proof { law_zero::<I>(); }
//@ end
