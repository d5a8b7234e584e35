// Cutting a leaf without room in two, the slices put in (src/tree/insert.rs): for every leaf, M and lawful index type. Where
// a node is, and which parent it records, is left out here.
//@ rewrite for upd in (TraverseUpdate::split\([^{;]*\))\s*\{\s*updates_callback\(upd\);\s*\} => updates_callback.told_all(\1);
//@ rewrite updates_callback\(TraverseUpdate::PutBack \{[^}]*\}\) => updates_callback.told_all(Moves)
//@ rewrite \bupdates_callback\((?=TraverseUpdate) => updates_callback.told(
//@ rewrite \bTraverseUpdate::(put_back|insert)\( => Kind::\1.of(
//@ rewrite \bUpdatesCallback<I, S, P, M> => &mut Callback
//@ rewrite \bnode::Key\b => Key
//@ rewrite \bDefault::default\(\) => no_ref()
//@ rewrite \bweak_unreachable!\(\) => never()
//@ rewrite \(midpoint_idx, insert_at\) = match => let (midpoint_idx, insert_at): (u8, Result<Side, Side>) = match
//@ include shift.inc noprops
pub trait SupportsInsert<I, S, const M: usize> {}
/// The slice that is made of a value.
pub uninterp spec fn made<S>(s: S) -> SliceId;

// ---- a leaf as sizes ------------------------------------------------------------------------------------------
/// where slice k begins
pub open spec fn off<I: Index>(w: Seq<I>, k: int) -> I decreases k { if k <= 0 { I::z() } else { off(w, k - 1).cat(w[k - 1]) } }
/// t's slices, which may be none, are of these sizes.
pub open spec fn flat<I: Index>(t: Tree<I>, w: Seq<I>) -> bool {
    &&& t.kids.len() == 0 && t.height == 0 && t.keys.len() == w.len() && t.ids.len() == w.len()
    &&& forall|k: int| 0 <= k <= w.len() ==> #[trigger] t.next(k) == off(w, k)
}
pub open spec fn all_pos<I: Index>(z: Seq<I>) -> bool { forall|k: int| 0 <= k < z.len() ==> lt(I::z(), #[trigger] z[k]) }
/// What is put on the right of two keeps their order.
#[verifier::opaque]
pub open spec fn rmono<I: Index>() -> bool { forall|a: I, b: I, c: I| #[trigger] lt(a.cat(c), b.cat(c)) == lt(a, b) }
proof fn law_rmono<I: Index>(a: I, b: I, c: I) requires rmono::<I>() ensures lt(a.cat(c), b.cat(c)) == lt(a, b) { reveal(rmono); }
pub open spec fn sizes<I: Index>(t: Tree<I>) -> Seq<I> { Seq::new(t.keys.len(), |k: int| t.cpos(k + 1).sl(t.keys[k])) }
/// A leaf, perhaps empty, in order.
pub open spec fn ok<I: Index>(t: Tree<I>) -> bool { flat(t, sizes(t)) && all_pos(sizes(t)) }
proof fn lemma_flat<I: Index>(t: Tree<I>, w: Seq<I>)
    requires laws::<I>(), flat(t, w)
    ensures sizes(t) == w, all_pos(w) ==> ok(t)
{
    assert forall|k: int| 0 <= k < w.len() implies sizes(t)[k] == w[k] by { assert(t.next(k) == off(w, k)); assert(t.next(k + 1) == off(w, k + 1)); law_sl(off(w, k), w[k]); }
    assert(sizes(t) =~= w);
}
proof fn lemma_ok_at<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), t.node_ok(), t.height == 0, 0 <= k <= t.keys.len()
    ensures t.next(k) == off(sizes(t), k), k < t.keys.len() ==> lt(I::z(), sizes(t)[k])
    decreases k
{
    law_zero::<I>();
    assert(t.cpos(0) == I::z());
    if k > 0 { lemma_ok_at(t, k - 1); assert(lt(t.keys[k - 1], t.cpos(k - 1 + 1))); law_diff(t.keys[k - 1], t.cpos(k)); }
    if k < t.keys.len() { assert(lt(t.keys[k], t.cpos(k + 1))); law_diff(t.keys[k], t.cpos(k + 1)); law_mono(t.keys[k], I::z(), sizes(t)[k]); }
}
proof fn lemma_ok<I: Index>(t: Tree<I>) requires laws::<I>(), t.wf(), t.height == 0 ensures ok(t)
{
    assert forall|k: int| 0 <= k <= sizes(t).len() implies #[trigger] t.next(k) == off(sizes(t), k) by { lemma_ok_at(t, k); }
    assert forall|k: int| 0 <= k < sizes(t).len() implies lt(I::z(), #[trigger] sizes(t)[k]) by { lemma_ok_at(t, k); }
}
/// In order and with something in it, it is a leaf as any.
pub broadcast proof fn ok_wf<I: Index>(t: Tree<I>)
    requires laws::<I>(), #[trigger] ok(t), 0 < t.keys.len() < 255
    ensures t.wf(), t.node_ok(), lt(I::z(), t.size)
{
    let w = sizes(t);
    law_zero::<I>();
    assert(t.next(0) == off(w, 0));
    assert forall|k: int| 0 <= k < t.keys.len() implies lt(#[trigger] t.keys[k], t.cpos(k + 1)) by { assert(t.next(k) == off(w, k) && t.next(k + 1) == off(w, k + 1)); assert(lt(I::z(), w[k])); law_mono(t.keys[k], I::z(), w[k]); }
    let n = w.len() as int;
    assert(t.next(n) == off(w, n));
    assert(lt(I::z(), w[n - 1]));
    law_mono(off(w, n - 1), I::z(), w[n - 1]);
    lemma_order::<I>(off(w, n - 1), off(w, n));
}
proof fn lemma_order<I: Index>(a: I, b: I) requires laws::<I>(), lt(a, b) ensures lt(I::z(), b)
{ law_zero::<I>(); reveal(order); }
/// a sum from j to k
pub open spec fn sum<I: Index>(w: Seq<I>, j: int, k: int) -> I decreases k - j { if k <= j { I::z() } else { sum(w, j, k - 1).cat(w[k - 1]) } }
proof fn lemma_sum<I: Index>(w: Seq<I>, j: int, k: int)
    requires laws::<I>(), 0 <= j <= k
    ensures off(w, k) == off(w, j).cat(sum(w, j, k)), off(w, k).sl(off(w, j)) == sum(w, j, k), !lt(off(w, k), off(w, j))
    decreases k - j
{ law_zero::<I>(); if j < k { lemma_sum(w, j, k - 1); law_assoc(off(w, j), sum(w, j, k - 1), w[k - 1]); } law_sl(off(w, j), sum(w, j, k)); law_grow(off(w, j), sum(w, j, k)); }
proof fn lemma_same_sum<I: Index>(w: Seq<I>, j: int, v: Seq<I>, i: int, d: int)
    requires d >= 0, forall|m: int| 0 <= m < d ==> #[trigger] w[j + m] == v[i + m]
    ensures sum(w, j, j + d) == sum(v, i, i + d)
    decreases d
{ if d > 0 { lemma_same_sum(w, j, v, i, d - 1); assert(w[j + (d - 1)] == v[i + (d - 1)]); } }
proof fn lemma_same_off<I: Index>(w: Seq<I>, v: Seq<I>, k: int)
    requires k >= 0, forall|m: int| 0 <= m < k ==> #[trigger] w[m] == v[m]
    ensures off(w, k) == off(v, k)
    decreases k
{ if k > 0 { lemma_same_off(w, v, k - 1); } }

/// The two parts of t to the sides of slice m.
pub open spec fn low<I: Index>(t: Tree<I>, m: int) -> Tree<I> { Tree { keys: t.keys.take(m), ids: t.ids.take(m), kids: t.kids, size: t.keys[m], ..t } }
pub open spec fn high<I: Index>(t: Tree<I>, m: int) -> Tree<I> { Tree { keys: t.keys.skip(m + 1), ids: t.ids.skip(m + 1), kids: t.kids, ..t } }
proof fn lemma_low<I: Index>(t: Tree<I>, m: int)
    requires laws::<I>(), ok(t), 0 <= m < t.keys.len()
    ensures ok(low(t, m)), sizes(low(t, m)) == sizes(t).take(m)
{
    let (w, l) = (sizes(t), low(t, m));
    assert forall|k: int| 0 <= k <= m implies #[trigger] l.next(k) == off(w.take(m), k) by { assert(t.next(k) == off(w, k)); lemma_same_off(w, w.take(m), k); }
    lemma_flat(l, w.take(m));
}
proof fn lemma_high<I: Index>(t: Tree<I>, m: int)
    requires laws::<I>(), ok(t), 0 <= m < t.keys.len()
    ensures after(high(t, m), 0, t.next(m + 1)), t.next(m + 1) == t.keys[m].cat(sizes(t)[m]), t.next(m + 1).sl(t.keys[m]) == sizes(t)[m], lt(I::z(), sizes(t)[m]),
        forall|n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #[trigger] is_shifted(n, u, f, a, b) && u == high(t, m) && f == 0 && a == t.next(m + 1) && b == I::z() ==> ok(n) && sizes(n) == sizes(t).skip(m + 1)
{
    let (w, h) = (sizes(t), high(t, m));
    law_zero::<I>();
    assert(t.next(m) == off(w, m) && t.next(m + 1) == off(w, m + 1));
    law_sl(t.keys[m], w[m]);
    let v = w.skip(m + 1);
    assert forall|k: int| 0 <= k <= h.keys.len() implies !lt(#[trigger] h.next(k), t.next(m + 1)) && h.next(k).sl(t.next(m + 1)) == off(v, k) by {
        assert(h.next(k) == t.next(m + 1 + k)); assert(t.next(m + 1 + k) == off(w, m + 1 + k)); lemma_sum(w, m + 1, m + 1 + k); lemma_sum(v, 0, k);
        assert forall|i: int| 0 <= i < k implies #[trigger] w[m + 1 + i] == v[0 + i] by {}
        lemma_same_sum(w, m + 1, v, 0, k);
    }
    assert forall|k: int| 0 <= k < h.keys.len() implies !lt(#[trigger] h.keys[k], t.next(m + 1)) by { assert(h.next(k) == h.keys[k]); }
    assert(h.next(h.keys.len() as int) == h.size);
    assert forall|n: Tree<I>| #[trigger] is_shifted(n, h, 0, t.next(m + 1), I::z()) implies ok(n) && sizes(n) == v by {
        assert forall|k: int| 0 <= k <= n.keys.len() implies #[trigger] n.next(k) == off(v, k) by { assert(h.next(k).sl(t.next(m + 1)) == off(v, k)); }
        lemma_flat(n, v);
    }
}
/// t with one more slice, to the size
pub open spec fn pushed<I>(t: Tree<I>, id: SliceId, size: I) -> Tree<I> { Tree { keys: t.keys.push(t.size), ids: t.ids.push(id), size: size, ..t } }
pub broadcast proof fn push_ok<I: Index>(t: Tree<I>, id: SliceId, size: I)
    requires laws::<I>(), ok(t)
    ensures forall|x: I| size == #[trigger] t.size.cat(x) && lt(I::z(), x) ==> ok(#[trigger] pushed(t, id, size)) && sizes(pushed(t, id, size)) == sizes(t).push(x)
{
    assert forall|x: I| size == #[trigger] t.size.cat(x) && lt(I::z(), x) implies ok(pushed(t, id, size)) && sizes(pushed(t, id, size)) == sizes(t).push(x) by {
        let (w, v, p) = (sizes(t), sizes(t).push(x), pushed(t, id, size));
        let n = w.len() as int;
        assert(t.next(n) == off(w, n));
        assert forall|k: int| 0 <= k <= n + 1 implies #[trigger] p.next(k) == off(v, k) by { if k <= n { assert(t.next(k) == off(w, k)); lemma_same_off(w, v, k); } else { lemma_same_off(w, v, n); } }
        lemma_flat(p, v);
    }
}
/// t with a slice before what was slice i, where that begins
pub open spec fn inserted<I: Index>(t: Tree<I>, i: int, id: SliceId) -> Tree<I> { Tree { keys: t.keys.insert(i, t.next(i)), ids: t.ids.insert(i, id), ..t } }
/// Sizes w, the one before i being s, and xs before the one at i.
pub open spec fn put_in<I: Index>(w: Seq<I>, i: int, s: Option<I>, xs: Seq<I>) -> Seq<I> { (match s { Some(s) => w.update(i - 1, s), None => w }).take(i) + xs + w.skip(i) }
/// u is t with slices of sizes xs put in at i, beginning at a0, but for shifting.
pub open spec fn put_at<I: Index>(u: Tree<I>, t: Tree<I>, i: int, a0: I, xs: Seq<I>) -> bool {
    let m = xs.len();
    &&& u.kids == t.kids && u.height == t.height && u.size == t.size && u.keys.len() == t.keys.len() + m && u.ids.len() == u.keys.len()
    &&& forall|j: int| 0 <= j < i ==> #[trigger] u.keys[j] == t.keys[j]
    &&& forall|j: int| i <= j < i + m ==> #[trigger] u.keys[j] == a0.cat(off(xs, j - i))
    &&& forall|j: int| i + m <= j < u.keys.len() ==> #[trigger] u.keys[j] == t.keys[j - m]
}
proof fn lemma_put<I: Index>(n: Tree<I>, u: Tree<I>, t: Tree<I>, i: int, a0: I, b: I, s: Option<I>, xs: Seq<I>)
    requires laws::<I>(), ok(t), 0 <= i <= t.keys.len(), put_at(u, t, i, a0, xs), is_shifted(n, u, i + xs.len(), t.next(i), b), b == a0.cat(off(xs, xs.len() as int)), all_pos(xs),
        match s { Some(s) => i > 0 && lt(I::z(), s) && a0 == t.keys[i - 1].cat(s), None => a0 == t.next(i) }
    ensures ok(n), sizes(n) == put_in(sizes(t), i, s, xs)
{
    let (w, v, m) = (sizes(t), put_in(sizes(t), i, s, xs), xs.len() as int);
    law_zero::<I>();
    assert(t.next(i) == off(w, i));
    assert(off(v, i) == a0) by {
        if s is Some { lemma_same_off(w, v, i - 1); assert(t.next(i - 1) == off(w, i - 1)); assert(v[i - 1] == s.unwrap()); } else { lemma_same_off(w, v, i); }
    }
    assert forall|d: int| 0 <= d <= m implies #[trigger] off(v, i + d) == a0.cat(off(xs, d)) by { lemma_put_at(v, i, xs, a0, d); }
    assert forall|k: int| 0 <= k <= n.keys.len() implies #[trigger] n.next(k) == off(v, k) by {
        if k < i { assert(t.next(k) == off(w, k)); lemma_same_off(w, v, k); assert(u.keys[k] == t.keys[k]); }
        else if k < i + m { assert(u.keys[k] == a0.cat(off(xs, k - i))); assert(off(v, i + (k - i)) == a0.cat(off(xs, k - i))); }
        else {
            assert(t.next(k - m) == off(w, k - m)); lemma_sum(w, i, k - m); lemma_sum(v, i + m, k);
            assert forall|j: int| 0 <= j < k - m - i implies #[trigger] w[i + j] == v[i + m + j] by {}
            lemma_same_sum(w, i, v, i + m, k - m - i);
            assert(off(v, i + m) == b);
            if k < u.keys.len() { assert(u.keys[k] == t.keys[k - m]); }
        }
    }
    assert forall|k: int| 0 <= k < v.len() implies lt(I::z(), #[trigger] v[k]) by {
        if k < i { if s is Some && k == i - 1 {} else { assert(v[k] == w[k]); } } else if k < i + m { assert(v[k] == xs[k - i]); } else { assert(v[k] == w[k - m]); }
    }
    lemma_flat(n, v);
}
proof fn lemma_put_at<I: Index>(v: Seq<I>, i: int, xs: Seq<I>, a0: I, d: int)
    requires laws::<I>(), 0 <= d <= xs.len(), 0 <= i, off(v, i) == a0, forall|k: int| 0 <= k < xs.len() ==> #[trigger] v[i + k] == xs[k]
    ensures off(v, i + d) == a0.cat(off(xs, d))
    decreases d
{ law_zero::<I>(); if d > 0 { lemma_put_at(v, i, xs, a0, d - 1); assert(v[i + (d - 1)] == xs[d - 1]); law_assoc(a0, off(xs, d - 1), xs[d - 1]); } }
proof fn lemma_put_after<I: Index>(u: Tree<I>, t: Tree<I>, i: int, a0: I, xs: Seq<I>)
    requires laws::<I>(), ok(t), 0 <= i <= t.keys.len(), put_at(u, t, i, a0, xs)
    ensures after(u, i + xs.len(), t.next(i))
{
    let (w, m) = (sizes(t), xs.len() as int);
    assert(t.next(i) == off(w, i));
    assert forall|k: int| i + m <= k < u.keys.len() implies !lt(#[trigger] u.keys[k], t.next(i)) by { assert(t.next(k - m) == off(w, k - m)); lemma_sum(w, i, k - m); assert(u.keys[k] == t.keys[k - m]); }
    assert(t.next(w.len() as int) == off(w, w.len() as int)); lemma_sum(w, i, w.len() as int);
}
/// u has, but for shifting, what t has, with m slices more at i.
pub open spec fn room<I: Index>(u: Tree<I>, t: Tree<I>, i: int, m: int) -> bool {
    &&& u.kids == t.kids && u.height == t.height && u.size == t.size && u.keys.len() == t.keys.len() + m && u.ids.len() == u.keys.len()
    &&& forall|j: int| 0 <= j < i ==> #[trigger] u.keys[j] == t.keys[j]
    &&& forall|j: int| i + m <= j < u.keys.len() ==> #[trigger] u.keys[j] == t.keys[j - m]
}
broadcast proof fn room_after<I: Index>(u: Tree<I>, f: int, a: I, t: Tree<I>, i: int, id: SliceId)
    requires laws::<I>(), ok(t), 0 <= i <= t.keys.len(), i < f, a == t.next(i), room(u, t, i, f - i)
    ensures #![trigger after(u, f, a), inserted(t, i, id)] after(u, f, a)
{
    let (w, m) = (sizes(t), f - i);
    assert(t.next(i) == off(w, i));
    assert forall|k: int| i + m <= k < u.keys.len() implies !lt(#[trigger] u.keys[k], t.next(i)) by { assert(t.next(k - m) == off(w, k - m)); lemma_sum(w, i, k - m); assert(u.keys[k] == t.keys[k - m]); }
    assert(t.next(w.len() as int) == off(w, w.len() as int)); lemma_sum(w, i, w.len() as int);
}
/// The size of a slice, as asked of it.
broadcast proof fn size_of<I: Index>(t: Tree<I>, j: int, k: int)
    requires laws::<I>(), ok(t), 0 <= k < t.keys.len(), j == k + 1
    ensures #[trigger] t.cpos(j).sl(#[trigger] t.keys[k]) == sizes(t)[k], t.keys[k].cat(sizes(t)[k]) == t.next(j)
{ assert(t.next(k) == off(sizes(t), k) && t.next(j) == off(sizes(t), j)); }
spec fn lhs_ok<I: Index>(s: Option<I>, i: int) -> bool { s matches Some(s) ==> i > 0 && lt(I::z(), s) }
spec fn begins<I: Index>(t: Tree<I>, i: int, s: Option<I>) -> I { match s { Some(s) => t.keys[i - 1].cat(s), None => t.next(i) } }
spec fn ends<I: Index>(t: Tree<I>, i: int, s: Option<I>, x: I) -> I { match s { Some(s) => t.keys[i - 1].cat(s.cat(x)), None => t.next(i).cat(x) } }
proof fn lemma_one<I: Index>(s: Option<I>, x: I)
    requires laws::<I>(), lt(I::z(), x)
    ensures forall|t: Tree<I>, i: int, id: SliceId, n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #![trigger is_shifted(n, u, f, a, b), inserted(t, i, id)] is_shifted(n, u, f, a, b) && inserted(t, i, id).height == 0 && ok(t) && 0 <= i <= t.keys.len() && lhs_ok(s, i)
        && f == i + 1 && a == t.next(i) && room(u, t, i, 1) && u.keys[i] == begins(t, i, s) && b == ends(t, i, s, x) ==> ok(n) && sizes(n) == put_in(sizes(t), i, s, seq![x])
{
    law_zero::<I>();
    let xs = seq![x];
    assert(off(xs, 0) == I::z() && off(xs, 1) == x) by { reveal_with_fuel(off, 2); }
    assert forall|t: Tree<I>, i: int, id: SliceId, n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #![trigger is_shifted(n, u, f, a, b), inserted(t, i, id)] is_shifted(n, u, f, a, b) && inserted(t, i, id).height == 0 && ok(t) && 0 <= i <= t.keys.len() && lhs_ok(s, i)
        && f == i + 1 && a == t.next(i) && room(u, t, i, 1) && u.keys[i] == begins(t, i, s) && b == ends(t, i, s, x) implies ok(n) && sizes(n) == put_in(sizes(t), i, s, seq![x]) by {
        if s is Some { law_assoc(t.keys[i - 1], s.unwrap(), x); }
        lemma_put(n, u, t, i, begins(t, i, s), b, s, xs);
    }
}
proof fn lemma_two<I: Index>(s: Option<I>, x: I, y: I)
    requires laws::<I>(), lt(I::z(), x), lt(I::z(), y)
    ensures forall|t: Tree<I>, i: int, id: SliceId, n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #![trigger is_shifted(n, u, f, a, b), inserted(t, i, id)] is_shifted(n, u, f, a, b) && inserted(t, i, id).height == 0 && ok(t) && 0 <= i <= t.keys.len() && lhs_ok(s, i)
        && f == i + 2 && a == t.next(i) && room(u, t, i, 2) && u.keys[i] == begins(t, i, s) && u.keys[i + 1] == begins(t, i, s).cat(x) && (match s { Some(s) => b == t.keys[i - 1].cat(s.cat(x).cat(y)), None => b == t.next(i).cat(x.cat(y)) })
        ==> ok(n) && sizes(n) == put_in(sizes(t), i, s, seq![x, y])
{
    law_zero::<I>();
    let xs = seq![x, y];
    assert(off(xs, 0) == I::z() && off(xs, 1) == x && off(xs, 2) == x.cat(y)) by { reveal_with_fuel(off, 3); }
    assert forall|t: Tree<I>, i: int, id: SliceId, n: Tree<I>, u: Tree<I>, f: int, a: I, b: I| #![trigger is_shifted(n, u, f, a, b), inserted(t, i, id)] is_shifted(n, u, f, a, b) && inserted(t, i, id).height == 0 && ok(t) && 0 <= i <= t.keys.len() && lhs_ok(s, i)
        && f == i + 2 && a == t.next(i) && room(u, t, i, 2) && u.keys[i] == begins(t, i, s) && u.keys[i + 1] == begins(t, i, s).cat(x) && (match s { Some(s) => b == t.keys[i - 1].cat(s.cat(x).cat(y)), None => b == t.next(i).cat(x.cat(y)) })
        implies ok(n) && sizes(n) == put_in(sizes(t), i, s, seq![x, y]) by {
        if s is Some { law_assoc(s.unwrap(), x, y); law_assoc(t.keys[i - 1], s.unwrap(), x.cat(y)); }
        assert forall|j: int| i <= j < i + 2 implies #[trigger] u.keys[j] == begins(t, i, s).cat(off(xs, j - i)) by { if j == i { assert(u.keys[i] == begins(t, i, s)); } else { assert(u.keys[i + 1] == begins(t, i, s).cat(x)); } }
        lemma_put(n, u, t, i, begins(t, i, s), b, s, xs);
    }
}
/// The whole does not get smaller.
proof fn lemma_grown<I: Index>(w: Seq<I>, i: int, s: Option<I>, xs: Seq<I>)
    requires laws::<I>(), rmono::<I>(), 0 <= i <= w.len(), match s { Some(s) => i > 0 && !lt(s.cat(off(xs, xs.len() as int)), w[i - 1]), None => true }
    ensures !lt(off(put_in(w, i, s, xs), (w.len() + xs.len()) as int), off(w, w.len() as int))
{
    let (v, m, n) = (put_in(w, i, s, xs), xs.len() as int, w.len() as int);
    let b = off(v, i + m);
    let e = off(xs, m);
    assert(!lt(b, off(w, i))) by {
        lemma_put_at(v, i, xs, off(v, i), m);
        if s is Some {
            let p = off(w, i - 1);
            lemma_same_off(w, v, i - 1); assert(v[i - 1] == s.unwrap());
            law_assoc(p, s.unwrap(), e); law_mono(p, s.unwrap().cat(e), w[i - 1]);
        } else { lemma_same_off(w, v, i); law_grow(off(w, i), e); }
    }
    lemma_sum(w, i, n); lemma_sum(v, i + m, n + m);
    assert forall|j: int| 0 <= j < n - i implies #[trigger] w[i + j] == v[i + m + j] by {}
    lemma_same_sum(w, i, v, i + m, n - i);
    law_rmono(b, off(w, i), sum(w, i, n));
}
/// Two leaves and a slice between are together what their sizes come to.
proof fn total<I: Index>(l: Tree<I>, k: I, r: Tree<I>)
    requires laws::<I>(), ok(l), ok(r)
    ensures l.size.cat(k).cat(r.size) == off(#[trigger] (sizes(l).push(k) + sizes(r)), (sizes(l).len() + 1 + sizes(r).len()) as int)
{
    let (a, b) = (sizes(l), sizes(r));
    let v = a.push(k) + b;
    let (i, j) = (a.len() as int, b.len() as int);
    assert(l.next(i) == off(a, i) && r.next(j) == off(b, j));
    lemma_same_off(a, v, i);
    assert(v[i] == k);
    law_zero::<I>();
    lemma_sum(v, i + 1, i + 1 + j); lemma_sum(b, 0, j);
    assert forall|d: int| 0 <= d < j implies #[trigger] v[i + 1 + d] == b[0 + d] by {}
    lemma_same_sum(v, i + 1, b, 0, j);
}

// ---- assumed: nodes, what is told -------------------------------------------------------------------------------
pub struct UniqueOwned;
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct RefId<P> { x: PhantomData<P> }
#[verifier::external_body]
fn no_ref<P>() -> RefId<P> { unimplemented!() }
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct Key<I, S, P, const M: usize> { pub pos: I, pub slice: S, pub ref_id: RefId<P> }
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Key<I, S, P, M> { pub open spec fn id(self) -> SliceId { made(self.slice) } }
#[verifier::reject_recursive_types(Ty)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
pub struct NodeBox<Ty, I, S, P, const M: usize> { pub node: NodeHandle<Ty, UniqueOwned, I, S, P, M> }
impl<Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeBox<Ty, I, S, P, M> {
    pub open spec fn tree(self) -> Tree<I> { self.node.tree() }
    #[verifier::external_body]
    pub fn new(node: NodeHandle<Ty, UniqueOwned, I, S, P, M>) -> (r: Self) ensures r.tree() == node.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self) -> (r: NodeHandle<Ty, UniqueOwned, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: NodeBox<ty::Unknown, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &NodeHandle<Ty, borrow::Immut, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut<'h>(&'h mut self) -> (r: &'h mut NodeHandle<Ty, borrow::Mut<'h>, I, S, P, M>) ensures r.tree() == old(self).tree(), final(self).tree() == final(r).tree() { unimplemented!() }
}
impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    #[verifier::external_body]
    pub fn max_len(&self) -> (r: u8) ensures r == 2 * M, r >= 2 { unimplemented!() }
}
impl<'t, Ty: TypeHint, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub fn as_mut<'h>(&'h mut self) -> (r: &'h mut NodeHandle<Ty, borrow::Mut<'h>, I, S, P, M>)
        ensures r.tree() == old(self).tree(), final(self).tree() == final(r).tree(), final(self).above() == old(self).above() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn set_single_key_pos(&mut self, k_idx: u8, pos: I)
        requires k_idx < old(self).tree().keys.len()
        ensures final(self).tree() == (Tree { keys: old(self).tree().keys.update(k_idx as int, pos), ..old(self).tree() }), final(self).above() == old(self).above() { unimplemented!() }
}
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M> {
    #[verifier::external_body]
    pub unsafe fn insert_key(&mut self, store: &mut P::SliceRefStore, key_idx: u8, slice: S) -> (r: I)
        requires key_idx <= old(self).tree().keys.len(), old(self).tree().keys.len() < 2 * M
        ensures r == old(self).tree().next(key_idx as int), final(self).above() == old(self).above(), final(self).tree() == inserted(old(self).tree(), key_idx as int, made(slice))
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn push_key(&mut self, store: &mut P::SliceRefStore, key: Key<I, S, P, M>, new_subtree_size: I)
        requires old(self).tree().keys.len() < 2 * M
        ensures final(self).above() == old(self).above(), final(self).tree() == pushed(old(self).tree(), key.id(), new_subtree_size)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn split(&mut self, midpoint_idx: u8, store: &mut P::SliceRefStore) -> (r: (Key<I, S, P, M>, NodeHandle<ty::Leaf, UniqueOwned, I, S, P, M>))
        requires midpoint_idx < old(self).tree().keys.len()
        ensures ({
            let (t, m) = (old(self).tree(), midpoint_idx as int);
            &&& r.0.id() == t.ids[m] && r.0.pos == t.keys[m]
            &&& final(self).above() == old(self).above()
            &&& final(self).tree() == (Tree { size: t.size, ..low(t, m) })
            &&& r.1.tree() == high(t, m)
        })
    { unimplemented!() }
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn key_pos(&self) -> (r: I) requires self.idx < self.node.tree().keys.len() ensures r == self.node.tree().keys[self.idx as int] { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: () }
impl Callback {
    /// The slices it was told had been inserted.
    pub uninterp spec fn seen(self) -> Seq<SliceId>;
    #[verifier::external_body]
    pub fn told(&mut self, u: Update) ensures final(self).seen() == (if u.new { old(self).seen().push(u.id) } else { old(self).seen() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn told_all(&mut self, u: Moves) ensures final(self).seen() == old(self).seen() { unimplemented!() }
}
pub struct Moves;
pub struct Update { pub id: SliceId, pub new: bool }
#[allow(non_camel_case_types)]
pub enum Kind { put_back, insert }
impl Kind {
    #[verifier::external_body]
    pub fn of<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(self, h: &SliceHandle<Ty, B, I, S, P, M>) -> (r: Update)
        requires h.idx < h.node.tree().keys.len() ensures r.id == h.id(), r.new == (self is insert) { unimplemented!() }
}
pub struct TraverseUpdate;
impl TraverseUpdate {
    #[verifier::external_body]
    pub fn split<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(lhs: &NodeHandle<Ty, B, I, S, P, M>, idx: u8, rhs: &NodeHandle<Ty, UniqueOwned, I, S, P, M>) -> (r: Moves) { unimplemented!() }
}
//@ source src/tree/mod.rs
#[derive(Copy, Clone)]
//@ type Side
//@ type SliceSize
//@ source src/tree/insert.rs
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type BubbleLhs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type BubbledInsertState

broadcast proof fn shifted_rest<I: Index>(n: Tree<I>, t: Tree<I>, f: int, a: I, b: I) requires #[trigger] is_shifted(n, t, f, a, b) ensures n.keys.len() == t.keys.len(), n.ids == t.ids, n.kids == t.kids, n.height == t.height {}
/// What is asked for: in leaf t, at i, these slices with their sizes, the one before taking on a size.
pub struct Asked<I> { pub t: Tree<I>, pub i: int, pub lhs: Option<I>, pub ids: Seq<SliceId>, pub xs: Seq<I> }
impl<I: Index> Asked<I> {
    /// The leaf is in order, and there is something to be put in it; the size given for the slice before does not take more from it than is put in.
    pub open spec fn fair(self, m: int) -> bool {
        &&& self.t.wf() && self.t.height == 0 && 0 <= self.i <= self.t.keys.len() && m <= self.t.keys.len() <= 2 * m
        &&& all_pos(self.xs) && self.ids.len() == self.xs.len() && 1 <= self.xs.len() <= 2
        &&& self.lhs matches Some(s) ==> self.i > 0 && lt(I::z(), s) && !lt(s.cat(off(self.xs, self.xs.len() as int)), sizes(self.t)[self.i - 1])
    }
    pub open spec fn sizes(self) -> Seq<I> { put_in(sizes(self.t), self.i, self.lhs, self.xs) }
    pub open spec fn ids(self) -> Seq<SliceId> { self.t.ids.take(self.i) + self.ids + self.t.ids.skip(self.i) }
}
spec fn asked<I: Index, S>(t: Tree<I>, i: u8, lhs: Option<I>, fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>) -> Asked<I> {
    Asked { t, i: i as int, lhs, ids: match snd { Some(s) => seq![made(fst.slice), made(s.slice)], None => seq![made(fst.slice)] }, xs: match snd { Some(s) => seq![fst.size, s.size], None => seq![fst.size] } }
}
proof fn facts<I: Index>(a: Asked<I>)
    requires laws::<I>(), a.t.wf(), a.t.height == 0, all_pos(a.xs), 1 <= a.xs.len() <= 2
    ensures a.t.kids.len() == 0, a.t.ids.len() == a.t.keys.len(), sizes(a.t).len() == a.t.keys.len(), lt(I::z(), a.xs[0]), a.xs.len() == 2 ==> lt(I::z(), a.xs[1]) && off(a.xs, 2) == a.xs[0].cat(a.xs[1]), a.xs.len() == 1 ==> off(a.xs, 1) == a.xs[0]
{ law_zero::<I>(); reveal_with_fuel(off, 3); }
/// Two leaves, neither too full nor too empty, and a slice between: together what was asked for.
spec fn parts<'t, 'c, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(n: BubbledInsertState<'t, 'c, I, S, P, M>, a: Asked<I>) -> bool {
    let (l, r) = (n.lhs.tree(), n.rhs.tree());
    &&& ok(l) && ok(r) && M <= l.keys.len() <= 2 * M && M <= r.keys.len() <= 2 * M
    &&& l.ids.push(n.key.id()) + r.ids =~= a.ids()
    &&& sizes(l).push(n.key_size) + sizes(r) =~= a.sizes()
    &&& lt(I::z(), n.key_size) && n.old_size == a.t.size && n.shift_lhs is None
}
/// Nor is all of it smaller than what there was.
spec fn grown<'t, 'c, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(n: BubbledInsertState<'t, 'c, I, S, P, M>) -> bool { !lt(n.lhs.tree().size.cat(n.key_size).cat(n.rhs.tree().size), n.old_size) }
spec fn good<'t, 'c, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(n: BubbledInsertState<'t, 'c, I, S, P, M>, a: Asked<I>) -> bool { parts(n, a) && grown(n) }
proof fn parts_grown<'t, 'c, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(n: BubbledInsertState<'t, 'c, I, S, P, M>, a: Asked<I>)
    requires laws::<I>(), rmono::<I>(), a.fair(M as int), parts(n, a)
    ensures grown(n)
{
    hide(ok); hide(sizes);
    lemma_ok(a.t); facts(a);
    let w = sizes(a.t);
    lemma_grown(w, a.i, a.lhs, a.xs);
    total(n.lhs.tree(), n.key_size, n.rhs.tree());
    assert(a.t.next(w.len() as int) == off(w, w.len() as int)) by { reveal(ok); }
    assert(sizes(n.lhs.tree()).push(n.key_size) + sizes(n.rhs.tree()) == a.sizes());
    assert(a.sizes().len() == w.len() + a.xs.len());
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(P)]
/// By where the first slice is to be put, C: in the left half, between, or in the right half.
pub struct RleTree<C, I, S, P: RleTreeConfig<I, S, M>, const M: usize> { x: PhantomData<(C, I, S, P)> }
pub struct Before;
pub struct At;
pub struct After;
impl<C, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<C, I, S, P, M> {
    #[verifier::external_body]
    unsafe fn do_insert_full_edge_no_join_split_small_m<'t, 'c>(store: &mut P::SliceRefStore, cursor_builder: CursorBuilder<'c>, node: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>, new_key_idx: u8,
        override_lhs_size: Option<I>, fst: SliceSize<I, S>, snd: SliceSize<I, S>, updates_callback: &mut Callback) -> (r: BubbledInsertState<'t, 'c, I, S, P, M>)
        requires laws::<I>(), rdiff::<I>(), rmono::<I>(), 0 < M, 2 * M < 255, M == 1, node.tree().keys.len() == 1,
            asked(node.tree(), new_key_idx, override_lhs_size, fst, Some(snd)).fair(M as int)
        ensures good(r, asked(node.tree(), new_key_idx, override_lhs_size, fst, Some(snd))), r.lhs.above() == node.above(),
            r.lhs.tree().wf() && r.rhs.tree().wf(),
            r.inserted <==> r.cursor_side is Some,
            match r.cursor_side { Some(Side::Left) => r.lhs.tree().ids.contains(made(fst.slice)), Some(Side::Right) => r.rhs.tree().ids.contains(made(fst.slice)), None => r.key.id() == made(fst.slice) },
            final(updates_callback).seen() == if r.inserted { old(updates_callback).seen().push(made(fst.slice)) } else { old(updates_callback).seen() }
    { unimplemented!() }
}
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<Before, I, S, P, M>
//@ only
//@ fn do_insert_full_edge_no_join_split -> r props=C01,C02,C05,C07,C08,C15
//@ attr #[verifier::rlimit(60)]
    requires laws::<I>(), rdiff::<I>(), rmono::<I>(), 0 < M, 2 * M < 255, new_key_idx < M, node.tree().keys.len() + (if snd is Some { 2int } else { 1 }) > 2 * M,
        asked(node.tree(), new_key_idx, override_lhs_size, fst, snd).fair(M as int)
    ensures good(r, asked(node.tree(), new_key_idx, override_lhs_size, fst, snd)), r.lhs.above() == node.above(),
        r.lhs.tree().wf() && r.rhs.tree().wf(),
        r.inserted <==> r.cursor_side is Some,
        match r.cursor_side { Some(Side::Left) => r.lhs.tree().ids.contains(made(fst.slice)), Some(Side::Right) => r.rhs.tree().ids.contains(made(fst.slice)), None => r.key.id() == made(fst.slice) },
        final(updates_callback).seen() == if r.inserted { old(updates_callback).seen().push(made(fst.slice)) } else { old(updates_callback).seen() }
//@ body
    hide(after); hide(flat); hide(ok); hide(all_pos); hide(sizes); hide(off); hide(Tree::wf); hide(Tree::node_ok); hide(is_shifted);
    hide(good); broadcast use {push_ok, room_after, size_of, ok_wf, shifted_rest};
    let ghost (q, i, x) = (node.tree(), new_key_idx as int, fst.size);
    proof {
        let a = asked(q, new_key_idx, override_lhs_size, fst, snd);
        law_zero::<I>();
        lemma_ok(q);
        facts(a);
        assert forall|n: BubbledInsertState<'t, 'c, I, S, P, M>| parts(n, a) implies #[trigger] good(n, a) by { parts_grown(n, a); reveal(good); }
        if snd is Some {
            if override_lhs_size is Some { law_assoc(override_lhs_size.unwrap(), x, a.xs[1]); }
            lemma_two(None, x, a.xs[1]); lemma_two(override_lhs_size, x, a.xs[1]);
        } else { lemma_one(None, x); lemma_one(override_lhs_size, x); }
        if M >= 2 && q.keys.len() < 2 * M { lemma_low(q, M - 2); lemma_high(q, M - 2); } else { lemma_low(q, M - 1); lemma_high(q, M - 1); }
    }
//@ end
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<At, I, S, P, M>
//@ only
//@ fn do_insert_full_edge_no_join_split -> r props=C01,C02,C05,C07,C08,C15
//@ attr #[verifier::rlimit(60)]
    requires laws::<I>(), rdiff::<I>(), rmono::<I>(), 0 < M, 2 * M < 255, new_key_idx == M, node.tree().keys.len() + (if snd is Some { 2int } else { 1 }) > 2 * M,
        asked(node.tree(), new_key_idx, override_lhs_size, fst, snd).fair(M as int)
    ensures good(r, asked(node.tree(), new_key_idx, override_lhs_size, fst, snd)), r.lhs.above() == node.above(),
        r.lhs.tree().wf() && r.rhs.tree().wf(),
        r.inserted <==> r.cursor_side is Some,
        match r.cursor_side { Some(Side::Left) => r.lhs.tree().ids.contains(made(fst.slice)), Some(Side::Right) => r.rhs.tree().ids.contains(made(fst.slice)), None => r.key.id() == made(fst.slice) },
        final(updates_callback).seen() == if r.inserted { old(updates_callback).seen().push(made(fst.slice)) } else { old(updates_callback).seen() }
//@ body
    hide(after); hide(flat); hide(ok); hide(all_pos); hide(sizes); hide(off); hide(Tree::wf); hide(Tree::node_ok); hide(is_shifted);
    hide(good); broadcast use {push_ok, room_after, size_of, ok_wf, shifted_rest};
    let ghost (q, i, x) = (node.tree(), new_key_idx as int, fst.size);
    proof {
        let a = asked(q, new_key_idx, override_lhs_size, fst, snd);
        law_zero::<I>();
        lemma_ok(q);
        facts(a);
        assert forall|n: BubbledInsertState<'t, 'c, I, S, P, M>| parts(n, a) implies #[trigger] good(n, a) by { parts_grown(n, a); reveal(good); }
        if snd is Some { lemma_one(None, a.xs[1]); }
        lemma_low(q, M - 1); lemma_high(q, M - 1);
    }
//@ end
//@ impl impl<I, S, P, const M: usize> RleTree<I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, => impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<After, I, S, P, M>
//@ only
//@ fn do_insert_full_edge_no_join_split -> r props=C01,C02,C05,C07,C08,C15
//@ attr #[verifier::rlimit(60)]
    requires laws::<I>(), rdiff::<I>(), rmono::<I>(), 0 < M, 2 * M < 255, new_key_idx > M, node.tree().keys.len() + (if snd is Some { 2int } else { 1 }) > 2 * M,
        asked(node.tree(), new_key_idx, override_lhs_size, fst, snd).fair(M as int)
    ensures good(r, asked(node.tree(), new_key_idx, override_lhs_size, fst, snd)), r.lhs.above() == node.above(),
        r.lhs.tree().wf() && r.rhs.tree().wf(),
        r.inserted <==> r.cursor_side is Some,
        match r.cursor_side { Some(Side::Left) => r.lhs.tree().ids.contains(made(fst.slice)), Some(Side::Right) => r.rhs.tree().ids.contains(made(fst.slice)), None => r.key.id() == made(fst.slice) },
        final(updates_callback).seen() == if r.inserted { old(updates_callback).seen().push(made(fst.slice)) } else { old(updates_callback).seen() }
//@ body
    hide(after); hide(flat); hide(ok); hide(all_pos); hide(sizes); hide(off); hide(Tree::wf); hide(Tree::node_ok); hide(is_shifted);
    hide(good); broadcast use {push_ok, room_after, size_of, ok_wf, shifted_rest};
    let ghost (q, i, x) = (node.tree(), new_key_idx as int, fst.size);
    proof {
        let a = asked(q, new_key_idx, override_lhs_size, fst, snd);
        law_zero::<I>();
        lemma_ok(q);
        facts(a);
        assert forall|n: BubbledInsertState<'t, 'c, I, S, P, M>| parts(n, a) implies #[trigger] good(n, a) by { parts_grown(n, a); reveal(good); }
        if snd is Some {
            if override_lhs_size is Some { law_assoc(override_lhs_size.unwrap(), x, a.xs[1]); }
            lemma_two(None, x, a.xs[1]); lemma_two(override_lhs_size, x, a.xs[1]);
        } else { lemma_one(None, x); lemma_one(override_lhs_size, x); }
        lemma_low(q, M as int); lemma_high(q, M as int);
    }
//@ end
fn main() {}
}
