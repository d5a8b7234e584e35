// Iteration (src/tree/iter.rs): for every tree, every height, every M, shared nodes or not, every lawful index type.
//
// The end of an iterator stands on one slice; `fwd_step` moves it to the slice that begins where that one ends,
// `bkwd_step` to the one that ends where that one begins, and `make_stack` puts it on the slice at an index, or
// ending there. Parent records of shared nodes may be out of date in any way; the stack makes up for it.
//@ include tree.inc
//@ macro assert => check({})
//@ macro panic => refuse()
//@ rewrite pub fn new\b => fn new
//@ rewrite impl Debug \+ RangeBounds<I> => impl RangeBounds<I>
//@ rewrite overlaps_naive\(tree_size\.\.\) => overlaps_naive(From(tree_size))
//@ rewrite root\.map\(\|\(root, store\)\| (IterState \{[^}]*\})\) => match root { Some((root, store)) => Some(\1), None => None }
//@ rewrite \.parent\(\)\.map\(\|p\| \(p\.ptr, p\.idx_in_parent\)\) => .parent_pair()
//@ rewrite pair == \((\w+)\.ptr\(\), c_idx\) => same_place(pair, \1.ptr(), c_idx)
//@ rewrite P::COW => P::cow()
//@ rewrite self\.stack\.last\(\)\.copied\(\) => last(&self.stack)
//@ rewrite self\.stack\.pop\(\) => pop(&mut self.stack)
//@ rewrite panic_internal_error_or_bad_index::<I>\(\) => never()
//@ rewrite Option<Self::Item> => Option<SliceEntry<'t, I, S, P, M>>
//@ rewrite \b(\w+)\.head == (\w+)\.head => \1.head.eq(&\2.head)
//@ rewrite self\.node == other\.node => self.node.eq(&other.node)
//@ rewrite cursor\.map\(\|c\| c\.into_path\(\)\) => path_of(cursor)
//@ rewrite cursor\.as_mut\(\)\.and_then\(\|c\| c\.next\(\)\) => next_hint(&mut cursor)

//@ include range.inc noprops
impl<T> Overlaps<T> for (StartBound<T>, EndBound<T>) {}
/// `i..`
pub struct From<T>(pub T);
impl<T> RangeBounds<T> for From<T> {
    open spec fn sb(&self) -> StartBound<&T> { StartBound::Included(&self.0) }
    open spec fn eb(&self) -> EndBound<&T> { EndBound::Unbounded }
    fn start_bound(&self) -> (r: StartBound<&T>) { StartBound::Included(&self.0) }
    fn end_bound(&self) -> (r: EndBound<&T>) { EndBound::Unbounded }
}
impl<T: Copy> StartBound<&T> {
    #[verifier::external_body]
    pub fn cloned(&self) -> (r: StartBound<T>) ensures r == match *self { StartBound::Included(x) => StartBound::Included(*x), _ => StartBound::Unbounded } { unimplemented!() }
}
impl<T: Copy> EndBound<&T> {
    #[verifier::external_body]
    pub fn cloned(&self) -> (r: EndBound<T>) ensures r == match *self { EndBound::Included(x) => EndBound::Included(*x), EndBound::Excluded(x) => EndBound::Excluded(*x), _ => EndBound::Unbounded } { unimplemented!() }
}
// ---- the tree that is iterated over: any one ------------------------------------------------------------------
pub uninterp spec fn top<I>() -> Tree<I>;
//@ include heap.inc
pub open spec fn good<I: Index>(cow: bool) -> bool {
    laws::<I>() && top::<I>().wf() && placed(top::<I>()) && (!cow ==> linked(top::<I>()) && top::<I>().up is None)
}

pub type H<'t, I, S, P, const M: usize> = NodeHandle<ty::Unknown, borrow::Immut<'t>, I, S, P, M>;
pub mod way { use super::*;
/// from the top: a node and the index of the child taken
type Path<I> = Seq<(Tree<I>, int)>;
spec fn path_ok<I: Index>(path: Path<I>, t: Tree<I>) -> bool decreases path.len() {
    if path.len() == 0 { t == top::<I>() } else {
        let (p, c) = path.last();
        0 <= c < p.kids.len() && t == p.kids[c] && path_ok(path.drop_last(), p)
    }
}
spec fn base_of<I: Index>(path: Path<I>) -> I decreases path.len() {
    if path.len() == 0 { I::z() } else { base_of(path.drop_last()).cat(path.last().0.cpos(path.last().1)) }
}
spec fn stack_ok<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(path: Path<I>, t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>) -> bool decreases path.len() {
    if path.len() == 0 { stack.len() == 0 } else {
        let (p, c) = path.last();
        ||| stack.len() > 0 && stack.last().0.tree() == p && stack.last().1 == c && stack_ok(path.drop_last(), p, stack.drop_last())
        ||| t.up == Some((p.at, c as u8)) && stack_ok(path.drop_last(), p, stack)
    }
}
/// t is part of the tree and begins at base; the stack and the records below lead back from it.
pub closed spec fn at<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I) -> bool {
    (!P::is_cow() ==> stack.len() == 0) && exists|path: Path<I>| #[trigger] path_ok(path, t) && stack_ok(path, t, stack) && base_of(path) == base
}
proof fn lemma_path<I: Index>(path: Path<I>, t: Tree<I>, cow: bool)
    requires good::<I>(cow), path_ok(path, t)
    ensures t.wf(), placed(t), t.height + path.len() == top::<I>().height, !cow ==> linked(t), !cow && path.len() == 0 ==> t.up is None,
        forall|s: I, e: I, id: SliceId| #[trigger] t.holds(s, e, id) ==> top::<I>().holds(base_of(path).cat(s), base_of(path).cat(e), id)
    decreases path.len()
{
    law_zero::<I>();
    if path.len() > 0 {
        let (p, c) = path.last();
        lemma_path(path.drop_last(), p, cow);
        let b = base_of(path.drop_last());
        assert forall|s: I, e: I, id: SliceId| #[trigger] t.holds(s, e, id) implies top::<I>().holds(base_of(path).cat(s), base_of(path).cat(e), id) by {
            assert(p.kids[c].holds(s, e, id));
            assert(p.holds(p.cpos(c).cat(s), p.cpos(c).cat(e), id));
            law_assoc(b, p.cpos(c), s);
            law_assoc(b, p.cpos(c), e);
        }
    }
}
proof fn lemma_stack<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(path: Path<I>, t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, cow: bool)
    requires good::<I>(cow), path_ok(path, t), stack_ok(path, t, stack)
    ensures stack.len() > 0 ==> stack.last().0.tree().height > t.height
    decreases path.len()
{
    if path.len() > 0 {
        let (p, c) = path.last();
        lemma_path(path.drop_last(), p, cow);
        if !(stack.len() > 0 && stack.last().0.tree() == p && stack.last().1 == c && stack_ok(path.drop_last(), p, stack.drop_last())) {
            lemma_stack(path.drop_last(), p, stack, cow);
        }
    }
}
pub broadcast proof fn lemma_start<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(stack: Seq<(H<'t, I, S, P, M>, u8)>, goal: I)
    requires laws::<I>(), stack.len() == 0
    ensures #[trigger] here(top::<I>(), stack, I::z(), goal, goal)
{
    law_zero::<I>();
    let path: Path<I> = Seq::empty();
    assert(path_ok(path, top::<I>()) && stack_ok(path, top::<I>(), stack) && base_of(path) == I::z());
}
/// Down to child c, which records its place.
proof fn lemma_child<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, c: u8)
    requires good::<I>(P::is_cow()), at(p, stack, base), c < p.kids.len(), p.kids[c as int].up == Some((p.at, c)) || !P::is_cow()
    ensures at(p.kids[c as int], stack, base.cat(p.cpos(c as int)))
{
    let path = choose|path: Path<I>| #[trigger] path_ok(path, p) && stack_ok(path, p, stack) && base_of(path) == base;
    lemma_path(path, p, P::is_cow());
    let path2 = path.push((p, c as int));
    assert(path2.drop_last() == path);
    assert(path_ok(path2, p.kids[c as int]) && stack_ok(path2, p.kids[c as int], stack));
}
/// Down to child c with this step on the stack.
proof fn lemma_pushed<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: H<'t, I, S, P, M>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, c: u8)
    requires good::<I>(P::is_cow()), P::is_cow(), at(h.tree(), stack, base), c < h.tree().kids.len()
    ensures at(h.tree().kids[c as int], stack.push((h, c)), base.cat(h.tree().cpos(c as int)))
{
    let p = h.tree();
    let path = choose|path: Path<I>| #[trigger] path_ok(path, p) && stack_ok(path, p, stack) && base_of(path) == base;
    lemma_path(path, p, P::is_cow());
    let path2 = path.push((p, c as int));
    assert(path2.drop_last() == path);
    assert(stack.push((h, c)).drop_last() == stack);
    assert(path_ok(path2, p.kids[c as int]) && stack_ok(path2, p.kids[c as int], stack.push((h, c))));
}
// What a step knows of where it is, stack and recorded parents below included.
/// Slice k begins at pos.
pub closed spec fn key_from<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    0 <= k < t.keys.len() && exists|b: I| #[trigger] at(t, stack, b) && b.cat(t.keys[k]) == pos
}
/// Slice k ends at pos.
pub closed spec fn key_upto<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    0 <= k < t.keys.len() && exists|b: I| #[trigger] at(t, stack, b) && b.cat(t.cpos(k + 1)) == pos
}
/// Child c begins at pos.
pub closed spec fn child_from<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, c: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    0 <= c < t.kids.len() && exists|b: I| #[trigger] at(t, stack, b) && b.cat(t.cpos(c)) == pos
}
/// The node ends at pos.
pub closed spec fn upto<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    exists|b: I| #[trigger] at(t, stack, b) && b.cat(t.size) == pos
}
proof fn lemma_at<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I)
    requires good::<I>(P::is_cow()), at(t, stack, base)
    ensures t.wf(), heap::<I>(t.at) == t, t.height <= top::<I>().height, !P::is_cow() ==> stack.len() == 0, stack.len() > 0 ==> stack.last().0.tree().height > t.height,
        t.height == top::<I>().height ==> t == top::<I>() && base == I::z(),
{
    let path = choose|path: Path<I>| #[trigger] path_ok(path, t) && stack_ok(path, t, stack) && base_of(path) == base;
    lemma_path(path, t, P::is_cow());
    lemma_stack(path, t, stack, P::is_cow());
}
pub broadcast proof fn key_from_is<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] key_from(t, k, stack, pos)
    ensures t.node_ok(), 0 <= k < t.keys.len()
{ let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.keys[k]) == pos; lemma_at(t, stack, b); }
/// From the slice's beginning to its end.
pub broadcast proof fn key_ends<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I, size: I)
    requires good::<I>(P::is_cow()), #[trigger] key_from(t, k, stack, pos), t.keys[k].cat(size) == t.cpos(k + 1)
    ensures key_upto(t, k, stack, #[trigger] pos.cat(size)), pos.cat(size).sr(size) == pos, size == t.cpos(k + 1).sl(t.keys[k])
{
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.keys[k]) == pos;
    lemma_at(t, stack, b);
    law_assoc(b, t.keys[k], size); law_sr(pos, size); law_sl(t.keys[k], size);
}
/// What begins where slice k ends.
pub broadcast proof fn key_next<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] key_upto(t, k, stack, pos)
    ensures t.node_ok(), 0 <= k < t.keys.len(),
        t.kids.len() > 0 ==> child_from(t, k + 1, stack, pos),
        t.kids.len() == 0 && k + 1 < t.keys.len() ==> key_from(t, k + 1, stack, pos),
        t.kids.len() == 0 && k + 1 == t.keys.len() ==> upto(t, stack, pos),
{ let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.cpos(k + 1)) == pos; lemma_at(t, stack, b); }
proof fn lemma_child_first<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(k: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), at(k, stack, pos)
    ensures k.node_ok(), k.kids.len() > 0 ==> child_from(k, 0, stack, pos), k.kids.len() == 0 ==> key_from(k, 0, stack, pos)
{ lemma_at(k, stack, pos); law_zero::<I>(); }
/// Down to child c, which records its place: its first child or slice begins where it does.
pub broadcast proof fn child_first<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, c: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] child_from(p, c, stack, pos)
    ensures p.node_ok(), 0 <= c < p.kids.len(), ({
        let k = p.kids[c];
        k.node_ok() && k.height + 1 == p.height && (k.up == Some((p.at, c as u8)) || !P::is_cow() ==> if k.kids.len() > 0 { child_from(k, 0, stack, pos) } else { key_from(k, 0, stack, pos) })
    })
{
    let b = choose|b: I| #[trigger] at(p, stack, b) && b.cat(p.cpos(c)) == pos;
    lemma_at(p, stack, b);
    assert(p.kids[c].wf());
    if p.kids[c].up == Some((p.at, c as u8)) || !P::is_cow() { lemma_child(p, stack, b, c as u8); lemma_child_first(p.kids[c], stack, pos); }
}
/// .. with this step on the stack.
pub broadcast proof fn child_first_pushed<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: H<'t, I, S, P, M>, c: u8, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), P::is_cow(), #[trigger] child_from(h.tree(), c as int, stack, pos)
    ensures ({
        let k = h.tree().kids[c as int];
        if k.kids.len() > 0 { child_from(k, 0, #[trigger] stack.push((h, c)), pos) } else { key_from(k, 0, stack.push((h, c)), pos) }
    })
{
    let b = choose|b: I| #[trigger] at(h.tree(), stack, b) && b.cat(h.tree().cpos(c as int)) == pos;
    lemma_at(h.tree(), stack, b);
    lemma_pushed(h, stack, b, c);
    lemma_child_first(h.tree().kids[c as int], stack.push((h, c)), pos);
}
/// There is a way up from a node that does not end where the tree does.
pub broadcast proof fn upto_is<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] upto(t, stack, pos), pos != top::<I>().size
    ensures t.node_ok(), t.height < top::<I>().height, !P::is_cow() ==> stack.len() == 0, stack.len() > 0 ==> stack.last().0.tree().height > t.height,
        !(stack.len() > 0 && stack.last().0.tree().height == t.height + 1) ==> t.up is Some,
{
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.size) == pos;
    lemma_at(t, stack, b);
    law_zero::<I>();
    lemma_up(t, stack, b);
}
proof fn lemma_hangs<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, c: u8, t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I)
    requires good::<I>(P::is_cow()), hangs(p, c, t, stack, base)
    ensures p.node_ok(), c < p.kids.len(), p.height == t.height + 1,
        c < p.keys.len() ==> key_from(p, c as int, stack, base.cat(t.size)), c == p.keys.len() ==> upto(p, stack, base.cat(t.size)),
{
    let b = choose|b: I| #[trigger] at(p, stack, b) && b.cat(p.cpos(c as int)) == base;
    lemma_at(p, stack, b);
    law_assoc(b, p.cpos(c as int), t.size);
}
/// Up by the stack: the slice after this child, or again the end.
pub broadcast proof fn up_stack<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] upto(t, stack, pos), pos != top::<I>().size, stack.len() > 0, stack.last().0.tree().height == t.height + 1
    ensures ({
        let (h, c) = stack.last();
        let p = h.tree();
        p.node_ok() && c < p.kids.len() && if c < p.keys.len() { key_from(p, c as int, #[trigger] stack.drop_last(), pos) } else { upto(p, stack.drop_last(), pos) }
    })
{
    upto_is(t, stack, pos);
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.size) == pos;
    lemma_up(t, stack, b);
    lemma_hangs(stack.last().0.tree(), stack.last().1, t, stack.drop_last(), b);
}
/// Up by the record.
pub broadcast proof fn up_parent<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I, a: Ptr)
    requires good::<I>(P::is_cow()), #[trigger] upto(t, stack, pos), pos != top::<I>().size, !(stack.len() > 0 && stack.last().0.tree().height == t.height + 1), t.up.unwrap().0 == a
    ensures ({
        let p = #[trigger] heap::<I>(a);
        let c = t.up.unwrap().1;
        p.node_ok() && p.height == t.height + 1 && c < p.kids.len() && if c < p.keys.len() { key_from(p, c as int, stack, pos) } else { upto(p, stack, pos) }
    })
{
    upto_is(t, stack, pos);
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.size) == pos;
    lemma_up(t, stack, b);
    lemma_hangs(heap::<I>(a), t.up.unwrap().1, t, stack, b);
}
// The same, backwards.
/// Child c ends at pos.
pub closed spec fn child_upto<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, c: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    0 <= c < t.kids.len() && exists|b: I| #[trigger] at(t, stack, b) && b.cat(t.next(c)) == pos
}
/// The node begins at pos.
pub closed spec fn from<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool { at(t, stack, pos) }
/// From the slice's end to its beginning.
pub broadcast proof fn key_begins<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] key_upto(t, k, stack, pos)
    ensures t.node_ok(), 0 <= k < t.keys.len(), ({
        let size = t.cpos(k + 1).sl(t.keys[k]);
        key_from(t, k, stack, pos.sr(size)) && pos.sr(size).cat(size) == pos && lt(pos.sr(size), pos)
    })
{
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.cpos(k + 1)) == pos;
    lemma_at(t, stack, b);
    let size = t.cpos(k + 1).sl(t.keys[k]);
    assert(lt(t.keys[k], t.cpos(k + 1)));
    law_diff(t.keys[k], t.cpos(k + 1));
    law_assoc(b, t.keys[k], size);
    law_sr(b.cat(t.keys[k]), size);
    law_mono(b, t.keys[k], t.cpos(k + 1));
}
/// What ends where slice k begins.
pub broadcast proof fn key_prev<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] key_from(t, k, stack, pos)
    ensures t.node_ok(), 0 <= k < t.keys.len(),
        t.kids.len() > 0 ==> child_upto(t, k, stack, pos),
        t.kids.len() == 0 && k > 0 ==> key_upto(t, k - 1, stack, pos),
        t.kids.len() == 0 && k == 0 ==> from(t, stack, pos),
{ let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.keys[k]) == pos; lemma_at(t, stack, b); law_zero::<I>(); }
proof fn lemma_child_last<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(k: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), exists|b: I| #[trigger] at(k, stack, b) && b.cat(k.size) == pos
    ensures k.node_ok(), k.kids.len() > 0 ==> child_upto(k, k.keys.len() as int, stack, pos), k.kids.len() == 0 ==> key_upto(k, k.keys.len() - 1, stack, pos)
{ let b = choose|b: I| #[trigger] at(k, stack, b) && b.cat(k.size) == pos; lemma_at(k, stack, b); }
pub broadcast proof fn child_last<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, c: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] child_upto(p, c, stack, pos)
    ensures p.node_ok(), 0 <= c < p.kids.len(), ({
        let k = p.kids[c];
        k.node_ok() && k.height + 1 == p.height && (k.up == Some((p.at, c as u8)) || !P::is_cow() ==> if k.kids.len() > 0 { child_upto(k, k.keys.len() as int, stack, pos) } else { key_upto(k, k.keys.len() - 1, stack, pos) })
    })
{
    let b = choose|b: I| #[trigger] at(p, stack, b) && b.cat(p.next(c)) == pos;
    lemma_at(p, stack, b);
    assert(p.kids[c].wf());
    law_assoc(b, p.cpos(c), p.kids[c].size);
    if p.kids[c].up == Some((p.at, c as u8)) || !P::is_cow() { lemma_child(p, stack, b, c as u8); lemma_child_last(p.kids[c], stack, pos); }
}
pub broadcast proof fn child_last_pushed<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: H<'t, I, S, P, M>, c: u8, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), P::is_cow(), #[trigger] child_upto(h.tree(), c as int, stack, pos)
    ensures ({
        let k = h.tree().kids[c as int];
        if k.kids.len() > 0 { child_upto(k, k.keys.len() as int, #[trigger] stack.push((h, c)), pos) } else { key_upto(k, k.keys.len() - 1, stack.push((h, c)), pos) }
    })
{
    let b = choose|b: I| #[trigger] at(h.tree(), stack, b) && b.cat(h.tree().next(c as int)) == pos;
    lemma_at(h.tree(), stack, b);
    lemma_pushed(h, stack, b, c);
    law_assoc(b, h.tree().cpos(c as int), h.tree().kids[c as int].size);
    lemma_child_last(h.tree().kids[c as int], stack.push((h, c)), pos);
}
pub broadcast proof fn from_is<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] from(t, stack, pos), pos != I::z()
    ensures t.node_ok(), t.height < top::<I>().height, !P::is_cow() ==> stack.len() == 0, stack.len() > 0 ==> stack.last().0.tree().height > t.height,
        !(stack.len() > 0 && stack.last().0.tree().height == t.height + 1) ==> t.up is Some,
{
    lemma_at(t, stack, pos);
    lemma_up(t, stack, pos);
}
proof fn lemma_hangs_back<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, c: u8, t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I)
    requires good::<I>(P::is_cow()), hangs(p, c, t, stack, base)
    ensures p.node_ok(), c < p.kids.len(), p.height == t.height + 1,
        c > 0 ==> key_upto(p, c - 1, stack, base), c == 0 ==> from(p, stack, base),
{
    let b = choose|b: I| #[trigger] at(p, stack, b) && b.cat(p.cpos(c as int)) == base;
    lemma_at(p, stack, b);
    law_zero::<I>();
}
pub broadcast proof fn back_stack<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I)
    requires good::<I>(P::is_cow()), #[trigger] from(t, stack, pos), pos != I::z(), stack.len() > 0, stack.last().0.tree().height == t.height + 1
    ensures ({
        let (h, c) = stack.last();
        let p = h.tree();
        p.node_ok() && c < p.kids.len() && if c > 0 { key_upto(p, c - 1, #[trigger] stack.drop_last(), pos) } else { from(p, stack.drop_last(), pos) }
    })
{
    from_is(t, stack, pos);
    lemma_up(t, stack, pos);
    lemma_hangs_back(stack.last().0.tree(), stack.last().1, t, stack.drop_last(), pos);
}
pub broadcast proof fn back_parent<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I, a: Ptr)
    requires good::<I>(P::is_cow()), #[trigger] from(t, stack, pos), pos != I::z(), !(stack.len() > 0 && stack.last().0.tree().height == t.height + 1), t.up.unwrap().0 == a
    ensures ({
        let p = #[trigger] heap::<I>(a);
        let c = t.up.unwrap().1;
        p.node_ok() && p.height == t.height + 1 && c < p.kids.len() && if c > 0 { key_upto(p, c - 1, stack, pos) } else { from(p, stack, pos) }
    })
{
    from_is(t, stack, pos);
    lemma_up(t, stack, pos);
    lemma_hangs_back(heap::<I>(a), t.up.unwrap().1, t, stack, pos);
}
// Looking for an index.
/// t begins at base, and goal is target within it.
pub closed spec fn here<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I) -> bool { at(t, stack, base) && base.cat(target) == goal }
pub broadcast proof fn here_is<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I)
    requires good::<I>(P::is_cow()), #[trigger] here(t, stack, base, target, goal)
    ensures t.node_ok(), base.cat(target) == goal, forall|c: int| 0 <= c < t.kids.len() ==> lt(#[trigger] t.cpos(c), t.next(c)),
{
    lemma_at(t, stack, base);
    law_zero::<I>();
    assert forall|c: int| 0 <= c < t.kids.len() implies lt(#[trigger] t.cpos(c), t.next(c)) by {
        assert(t.cpos(c).cat(t.kids[c].size) == t.next(c));
        law_mono(t.cpos(c), I::z(), t.kids[c].size);
    }
}
spec fn within<I: Index>(t: Tree<I>, c: int, target: I) -> bool {
    let k = t.kids[c]; let inner = target.sl(t.cpos(c));
    lt(inner, k.size) == lt(target, t.next(c)) && lt(k.size, inner) == lt(t.next(c), target) && lt(I::z(), inner) == lt(t.cpos(c), target)
}
proof fn lemma_within<I: Index>(t: Tree<I>, c: int, base: I, target: I)
    requires laws::<I>(), t.node_ok(), 0 <= c < t.kids.len(), !lt(target, t.cpos(c))
    ensures within(t, c, target), t.cpos(c).cat(target.sl(t.cpos(c))) == target, base.cat(t.cpos(c)).cat(target.sl(t.cpos(c))) == base.cat(target)
{
    let p = t.cpos(c); let inner = target.sl(p);
    law_diff(p, target); law_assoc(base, p, inner); law_zero::<I>();
    assert(p.cat(t.kids[c].size) == t.next(c));
    law_mono(p, inner, t.kids[c].size); law_mono(p, t.kids[c].size, inner); law_mono(p, I::z(), inner);
}
pub broadcast proof fn here_child<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I, c: int)
    requires good::<I>(P::is_cow()), #[trigger] here(t, stack, base, target, goal), 0 <= c < t.kids.len(), (#[trigger] t.kids[c]).up == Some((t.at, c as u8)) || !P::is_cow(), !lt(target, t.cpos(c))
    ensures here(t.kids[c], stack, base.cat(t.cpos(c)), #[trigger] target.sl(t.cpos(c)), goal)
{ lemma_at(t, stack, base); lemma_child(t, stack, base, c as u8); lemma_within(t, c, base, target); }
pub broadcast proof fn here_pushed<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: H<'t, I, S, P, M>, c: u8, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I)
    requires good::<I>(P::is_cow()), P::is_cow(), #[trigger] here(h.tree(), stack, base, target, goal), c < h.tree().kids.len(), !lt(target, h.tree().cpos(c as int))
    ensures here(h.tree().kids[c as int], #[trigger] stack.push((h, c)), base.cat(h.tree().cpos(c as int)), #[trigger] target.sl(h.tree().cpos(c as int)), goal)
{ lemma_at(h.tree(), stack, base); lemma_pushed(h, stack, base, c); lemma_within(h.tree(), c as int, base, target); }
pub broadcast proof fn here_inner<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I, c: int)
    requires good::<I>(P::is_cow()), #[trigger] here(t, stack, base, target, goal), 0 <= c < t.kids.len(), !lt(target, t.cpos(c))
    ensures ({
        let k = t.kids[c]; let inner = #[trigger] target.sl(t.cpos(c));
        k.node_ok() && k.height + 1 == t.height && t.cpos(c).cat(inner) == target
        && lt(inner, k.size) == lt(target, t.next(c)) && lt(k.size, inner) == lt(t.next(c), target) && lt(I::z(), inner) == lt(t.cpos(c), target)
    })
{ lemma_at(t, stack, base); assert(t.kids[c].wf()); lemma_within(t, c, base, target); }
/// What is found here, seen from the top.
pub broadcast proof fn here_found<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I, k: int)
    requires good::<I>(P::is_cow()), #[trigger] here(t, stack, base, target, goal), 0 <= k < t.keys.len()
    ensures key_from(t, k, stack, #[trigger] base.cat(t.keys[k])), lt(goal, base.cat(t.keys[k])) == lt(target, t.keys[k]), lt(base.cat(t.keys[k]), goal) == lt(t.keys[k], target)
{ lemma_at(t, stack, base); law_mono(base, target, t.keys[k]); law_mono(base, t.keys[k], target); }
pub broadcast proof fn here_end<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I, target: I, goal: I, k: int, size: I)
    requires good::<I>(P::is_cow()), #[trigger] here(t, stack, base, target, goal), 0 <= k < t.keys.len(), t.keys[k].cat(size) == t.cpos(k + 1)
    ensures ({ let e = #[trigger] base.cat(t.keys[k]).cat(size); lt(goal, e) == lt(target, t.cpos(k + 1)) && lt(e, goal) == lt(t.cpos(k + 1), target) })
{ lemma_at(t, stack, base); law_assoc(base, t.keys[k], size); law_mono(base, target, t.cpos(k + 1)); law_mono(base, t.cpos(k + 1), target); }
/// t is p's child c, and p is part of the tree; t begins at pos.
spec fn hangs<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(p: Tree<I>, c: u8, t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I) -> bool {
    c < p.kids.len() && t == p.kids[c as int] && p.height == t.height + 1 && exists|b: I| #[trigger] at(p, stack, b) && b.cat(p.cpos(c as int)) == pos
}
/// Up: the stack's last entry or the recorded parent is where t hangs.
proof fn lemma_up<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, stack: Seq<(H<'t, I, S, P, M>, u8)>, base: I)
    requires good::<I>(P::is_cow()), at(t, stack, base), t.height < top::<I>().height
    ensures
        stack.len() > 0 && stack.last().0.tree().height == t.height + 1 ==> hangs(stack.last().0.tree(), stack.last().1, t, stack.drop_last(), base),
        !(stack.len() > 0 && stack.last().0.tree().height == t.height + 1) ==> t.up is Some && hangs(heap::<I>(t.up.unwrap().0), t.up.unwrap().1, t, stack, base),
{
    let path = choose|path: Path<I>| #[trigger] path_ok(path, t) && stack_ok(path, t, stack) && base_of(path) == base;
    lemma_path(path, t, P::is_cow());
    let (p, c) = path.last();
    lemma_path(path.drop_last(), p, P::is_cow());
    lemma_stack(path, t, stack, P::is_cow());
    assert(p.keys.len() < 255);
    let b = base_of(path.drop_last());
    if stack.len() > 0 && stack.last().0.tree() == p && stack.last().1 == c && stack_ok(path.drop_last(), p, stack.drop_last()) {
        assert(at(p, stack.drop_last(), b));
    } else {
        lemma_stack(path.drop_last(), p, stack, P::is_cow());
        assert(path_ok(path.drop_last(), p) && stack_ok(path.drop_last(), p, stack));
        assert(at(p, stack, b));
    }
}

// One slice at each position.
/// No node is at two places of the tree.
pub closed spec fn once<I: Index>() -> bool { exists|spot: spec_fn(Ptr) -> I| #[trigger] spots(spot) }
spec fn spots<I: Index>(spot: spec_fn(Ptr) -> I) -> bool { forall|path: Path<I>, t: Tree<I>| #[trigger] path_ok(path, t) ==> base_of(path) == spot(t.at) }
spec fn in_key<I: Index>(t: Tree<I>, k: int, x: I) -> bool { 0 <= k < t.keys.len() && !lt(x, t.keys[k]) && lt(x, t.cpos(k + 1)) }
spec fn in_child<I: Index>(t: Tree<I>, c: int, x: I) -> bool { 0 <= c < t.kids.len() && !lt(x, t.cpos(c)) && lt(x, t.next(c)) }
/// The slice covering x: its node, its index there, where it begins.
spec fn find<I: Index>(t: Tree<I>, x: I) -> (Tree<I>, int, I) decreases t.height {
    if exists|k: int| in_key(t, k, x) { let k = choose|k: int| in_key(t, k, x); (t, k, t.keys[k]) }
    else {
        let c = choose|c: int| in_child(t, c, x);
        if 0 <= c < t.kids.len() && t.kids[c].height < t.height { lift(t.cpos(c), find(t.kids[c], x.sl(t.cpos(c)))) } else { arbitrary() }
    }
}
spec fn lift<I: Index>(b: I, r: (Tree<I>, int, I)) -> (Tree<I>, int, I) { (r.0, r.1, b.cat(r.2)) }
proof fn lemma_one_key<I: Index>(t: Tree<I>, k: int, j: int, x: I)
    requires laws::<I>(), t.node_ok(), in_key(t, k, x), in_key(t, j, x)
    ensures !(k < j)
{ if k < j { lemma_cpos(t, k + 1); if k + 1 < j { lemma_sorted(t, k + 1, j); } } }
proof fn lemma_one_child<I: Index>(t: Tree<I>, c: int, d: int, x: I)
    requires laws::<I>(), t.node_ok(), in_child(t, c, x), in_child(t, d, x)
    ensures !(c < d)
{ if c < d { assert(lt(t.keys[d - 1], t.cpos(d - 1 + 1))); if c < d - 1 { lemma_sorted(t, c, d - 1); } } }
proof fn lemma_one<I: Index>(t: Tree<I>, k: int, c: int, x: I)
    requires laws::<I>(), t.node_ok(), in_key(t, k, x), in_child(t, c, x)
    ensures false
{
    if c <= k { if c < k { lemma_sorted(t, c, k); } }
    else if c > k + 1 { lemma_cpos(t, k + 1); assert(lt(t.keys[c - 1], t.cpos(c - 1 + 1))); if k + 1 < c - 1 { lemma_sorted(t, k + 1, c - 1); } }
}
proof fn lemma_find_key<I: Index>(t: Tree<I>, k: int, x: I)
    requires laws::<I>(), t.node_ok(), in_key(t, k, x)
    ensures find(t, x) == (t, k, t.keys[k])
{ let j = choose|j: int| in_key(t, j, x); lemma_one_key(t, k, j, x); lemma_one_key(t, j, k, x); }
proof fn lemma_find_child<I: Index>(t: Tree<I>, c: int, x: I)
    requires laws::<I>(), t.node_ok(), in_child(t, c, x), t.kids[c].height < t.height
    ensures find(t, x) == lift(t.cpos(c), find(t.kids[c], x.sl(t.cpos(c))))
{
    if exists|k: int| in_key(t, k, x) { let k = choose|k: int| in_key(t, k, x); lemma_one(t, k, c, x); }
    let d = choose|d: int| in_child(t, d, x);
    lemma_one_child(t, c, d, x); lemma_one_child(t, d, c, x);
}
proof fn lemma_find<I: Index>(path: Path<I>, t: Tree<I>, x: I, cow: bool)
    requires good::<I>(cow), path_ok(path, t), lt(x, t.size)
    ensures find(top::<I>(), base_of(path).cat(x)) == lift(base_of(path), find(t, x))
    decreases path.len()
{
    law_zero::<I>();
    if path.len() > 0 {
        let (p, c) = path.last();
        lemma_path(path.drop_last(), p, cow);
        let b = base_of(path.drop_last());
        let q = p.cpos(c).cat(x);
        assert(p.cpos(c).cat(p.kids[c].size) == p.next(c));
        law_mono(p.cpos(c), x, p.kids[c].size); law_grow(p.cpos(c), x); law_sl(p.cpos(c), x);
        let n = p.keys.len() as int;
        if c < n { assert(lt(p.keys[n - 1], p.cpos(n - 1 + 1))); lemma_cpos(p, n); if c < n - 1 { lemma_sorted(p, c, n - 1); } }
        assert(lt(q, p.size));
        lemma_find(path.drop_last(), p, q, cow);
        lemma_find_child(p, c, q);
        law_assoc(b, p.cpos(c), x);
        law_assoc(b, p.cpos(c), find(t, x).2);
    }
}
/// x lies in the slice that begins at pos.
proof fn lemma_find_slice<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, pos: I, size: I, x: I)
    requires good::<I>(P::is_cow()), key_from(t, k, stack, pos), t.keys[k].cat(size) == t.cpos(k + 1), !lt(x, pos), lt(x, pos.cat(size))
    ensures find(top::<I>(), x) == (t, k, pos)
{
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.keys[k]) == pos;
    lemma_at(t, stack, b);
    let path = choose|path: Path<I>| #[trigger] path_ok(path, t) && stack_ok(path, t, stack) && base_of(path) == b;
    let d = x.sl(pos);
    law_diff(pos, x); law_mono(pos, d, size); law_assoc(b, t.keys[k], d);
    let y = t.keys[k].cat(d);
    law_mono(t.keys[k], d, size); law_grow(t.keys[k], d);
    lemma_find_key(t, k, y);
    let n = t.keys.len() as int;
    lemma_cpos(t, k + 1);
    if k + 1 < n { lemma_cpos(t, n); assert(lt(t.keys[n - 1], t.cpos(n - 1 + 1))); if k + 1 < n - 1 { lemma_sorted(t, k + 1, n - 1); } }
    lemma_find(path, t, y, P::is_cow());
}
/// Two ends of an iterator: the same slice exactly if they begin at the same place, and otherwise one is before the other.
pub broadcast proof fn two_slices<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, end: I, u: Tree<I>, j: int, other: Seq<(H<'t, I, S, P, M>, u8)>, stop: I)
    requires good::<I>(P::is_cow()), once::<I>(), #[trigger] key_upto(t, k, stack, end), #[trigger] key_upto(u, j, other, stop)
    ensures ({
        let a = end.sr(t.cpos(k + 1).sl(t.keys[k]));
        let b = stop.sr(u.cpos(j + 1).sl(u.keys[j]));
        &&& (t.at == u.at && k == j) <==> a == b
        &&& a == b ==> end == stop
        &&& lt(a, b) ==> !lt(b, end)
    })
{
    key_begins(t, k, stack, end); key_begins(u, j, other, stop);
    let (sa, sb) = (t.cpos(k + 1).sl(t.keys[k]), u.cpos(j + 1).sl(u.keys[j]));
    let (a, b) = (end.sr(sa), stop.sr(sb));
    law_diff(t.keys[k], t.cpos(k + 1)); law_diff(u.keys[j], u.cpos(j + 1));
    lemma_between(t, k); lemma_between(u, j);
    lemma_find_slice(u, j, other, b, sb, b);
    if a == b { lemma_find_slice(t, k, stack, a, sa, a); }
    if lt(a, b) && lt(b, end) { lemma_find_slice(t, k, stack, a, sa, b); }
    if t.at == u.at && k == j {
        let x = choose|x: I| #[trigger] at(t, stack, x) && x.cat(t.cpos(k + 1)) == end;
        let y = choose|y: I| #[trigger] at(u, other, y) && y.cat(u.cpos(j + 1)) == stop;
        lemma_at(t, stack, x); lemma_at(u, other, y);
        let spot = choose|spot: spec_fn(Ptr) -> I| #[trigger] spots(spot);
        assert(x == y);
    }
}
proof fn lemma_between<I: Index>(t: Tree<I>, k: int)
    requires laws::<I>(), t.node_ok(), 0 <= k < t.keys.len()
    ensures lt(t.keys[k], t.cpos(k + 1)), t.keys[k].cat(t.cpos(k + 1).sl(t.keys[k])) == t.cpos(k + 1)
{ assert(lt(t.keys[k], t.cpos(k + 1))); law_diff(t.keys[k], t.cpos(k + 1)); }
/// What an end stands on is in the tree.
pub broadcast proof fn key_holds<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize>(t: Tree<I>, k: int, stack: Seq<(H<'t, I, S, P, M>, u8)>, end: I)
    requires good::<I>(P::is_cow()), #[trigger] key_upto(t, k, stack, end)
    ensures top::<I>().holds(end.sr(t.cpos(k + 1).sl(t.keys[k])), end, t.ids[k])
{
    key_begins(t, k, stack, end);
    let b = choose|b: I| #[trigger] at(t, stack, b) && b.cat(t.cpos(k + 1)) == end;
    let path = choose|path: Path<I>| #[trigger] path_ok(path, t) && stack_ok(path, t, stack) && base_of(path) == b;
    lemma_path(path, t, P::is_cow());
    let size = t.cpos(k + 1).sl(t.keys[k]);
    lemma_between(t, k);
    law_assoc(b, t.keys[k], size); law_sr(b.cat(t.keys[k]), size);
    assert(t.holds(t.keys[k], t.cpos(k + 1), t.ids[k]));
}

}
use way::*;
#[verifier::external_body]
fn last<T: Copy>(v: &Vec<T>) -> (r: Option<T>) ensures r == if v@.len() > 0 { Some(v@.last()) } else { None } { unimplemented!() }
#[verifier::external_body]
fn pop<T: Copy>(v: &mut Vec<T>) -> (r: Option<T>) ensures old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last() { unimplemented!() }
#[verifier::external_body]
fn same_place(a: (Ptr, u8), p: Ptr, c: u8) -> (r: bool) ensures r == (a == (p, c)) { unimplemented!() }
#[verifier::external_body]
fn next_hint<T>(it: &mut Option<T>) -> Option<PathComponent> { unimplemented!() }
pub trait Cursor: Sized { type PathIter; fn into_path(self) -> Self::PathIter; }
#[verifier::external_body]
fn path_of<C: Cursor>(c: Option<C>) -> Option<C::PathIter> { unimplemented!() }

impl<I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> Leaf<I, S, P, M> {
    #[verifier::external_body]
    pub fn parent_pair(&self) -> (r: Option<(Ptr, u8)>) ensures r == self.tree().up { unimplemented!() }
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: SliceHandle<ty::Unknown, B, I, S, P, M>) ensures r.node.tree() == self.node.tree(), r.idx == self.idx { unimplemented!() }
    pub open spec fn size(self) -> I { self.node.tree().cpos(self.idx + 1).sl(self.node.tree().keys[self.idx as int]) }
}

//@ source src/tree/node.rs
//@ impl impl<Ty, B, I, S, P, const M: usize> PartialEq for SliceHandle<Ty, B, I, S, P, M> where Ty: TypeHint, P: RleTreeConfig<I, S, M>, => impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceHandle<Ty, B, I, S, P, M>
//@ fn eq -> r props=C04
    ensures r == (self.node.tree().at == other.node.tree().at && self.idx == other.idx)
//@ end
//@ source src/tree/entry.rs
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type SliceEntry
//@ source src/tree/iter.rs
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type IncludedOrExcludedBound
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type IterStack
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> IterStack<'t, I, S, P, M> {
    /// It stands on a slice of the tree, whose end is end_pos.
    spec fn ok(self) -> bool {
        &&& self.root_height == top::<I>().height
        &&& key_upto(self.head.node.tree(), self.head.idx as int, self.stack@, self.end_pos)
    }
    spec fn start(self) -> I { self.end_pos.sr(self.head.size()) }
}
//@ impl impl<'t, I, S, P, const M: usize> IterStack<'t, I, S, P, M> where I: Index, P: RleTreeConfig<I, S, M>, => impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> IterStack<'t, I, S, P, M>
//@ fn fwd_step props=C04
    requires good::<I>(P::is_cow()), old(self).ok(), old(self).end_pos != top::<I>().size
    ensures final(self).ok(), final(self).start() == old(self).end_pos
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {key_from_is, key_ends, key_next, child_first, child_first_pushed, upto_is, up_stack, up_parent};
//@ loop
    invariant good::<I>(P::is_cow()), parent.tree().height > 0, self.end_pos == old(self).end_pos, self.root_height == old(self).root_height,
        child_from(parent.tree(), c_idx as int, self.stack@, self.end_pos)
    decreases parent.tree().height
//@ loop
    invariant good::<I>(P::is_cow()), self.end_pos == old(self).end_pos, self.root_height == old(self).root_height, upto(child.tree(), self.stack@, self.end_pos)
    decreases top::<I>().height - child.tree().height
//@ fn bkwd_step props=C04
    requires good::<I>(P::is_cow()), old(self).ok(), old(self).start() != I::z()
    ensures final(self).ok(), final(self).end_pos == old(self).start()
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {key_begins, key_prev, child_last, child_last_pushed, from_is, back_stack, back_parent};
//@ loop
    invariant good::<I>(P::is_cow()), parent.tree().height > 0, self.end_pos == old(self).end_pos, self.head == old(self).head, self.root_height == old(self).root_height,
        c_idx < parent.tree().kids.len(), child_upto(parent.tree(), c_idx as int, self.stack@, old(self).start())
    decreases parent.tree().height
//@ loop
    invariant good::<I>(P::is_cow()), self.end_pos == old(self).end_pos, self.head == old(self).head, self.root_height == old(self).root_height, from(child.tree(), self.stack@, old(self).start())
    decreases top::<I>().height - child.tree().height
//@ end
/// An index that can be looked for: inside the tree, or at its end if excluded.
spec fn bound_ok<I: Index>(b: IncludedOrExcludedBound<I>) -> bool {
    match b { IncludedOrExcludedBound::Included(i) => lt(i, top::<I>().size), IncludedOrExcludedBound::Excluded(i) => lt(I::z(), i) && !lt(top::<I>().size, i) }
}
spec fn goal_of<I>(b: IncludedOrExcludedBound<I>) -> I { match b { IncludedOrExcludedBound::Included(i) => i, IncludedOrExcludedBound::Excluded(i) => i } }
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type IterState
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(P)]
//@ type Iter
//@ impl impl<'t, C, I, S, P, const M: usize> Iter<'t, C, I, S, P, M> where C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Iter<'t, C, I, S, P, M>
    /// What RleTree::iter documents: the range is not reversed, and does not reach past the end.
    spec fn valid_range(s: StartBound<&I>, e: EndBound<&I>, size: I) -> bool {
        &&& s matches StartBound::Included(x) ==> lt(*x, size)
        &&& match e { EndBound::Included(y) => lt(*y, size), EndBound::Excluded(y) => !lt(size, *y), _ => true }
        &&& match (s, e) {
            (StartBound::Included(x), EndBound::Included(y)) => !lt(*y, *x),
            (StartBound::Included(x), EndBound::Excluded(y)) => lt(*x, *y),
            _ => true,
        }
    }
//@ only
//@ fn new -> r props=C04,C14,C16
    requires laws::<I>(), refusable() == !Self::valid_range(range.sb(), range.eb(), tree_size),
        root matches Some(x) ==> good::<I>(P::is_cow()) && x.0.tree() == top::<I>() && tree_size == top::<I>().size,
        root is None ==> tree_size == I::z(),
    ensures Self::valid_range(range.sb(), range.eb(), tree_size), r.ok(),
        r.start == (match range.sb() { StartBound::Included(x) => *x, _ => I::z() }),
        r.end == (match range.eb() { EndBound::Included(x) => IncludedOrExcludedBound::Included(*x), EndBound::Excluded(x) => IncludedOrExcludedBound::Excluded(*x), _ => IncludedOrExcludedBound::Excluded(tree_size) }),
        r.state matches Some(s) ==> s.fwd is None && s.bkwd is None && root is Some && s.store == root.unwrap().1,
        // no state only where there is nothing in the range
        root is Some && r.state is None ==> !within_end(r.end, r.start),
//@ body
    proof { law_zero::<I>(); assert(total::<I>()); }
//@ fn make_stack -> r props=C04,C06
    requires good::<I>(P::is_cow()), root.tree() == top::<I>(), bound_ok(target)
    ensures r.ok(), match target {
        IncludedOrExcludedBound::Included(i) => !lt(i, r.start()) && lt(i, r.end_pos),
        IncludedOrExcludedBound::Excluded(i) => lt(r.start(), i) && !lt(r.end_pos, i),
    }
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {lemma_start, key_ends, here_is, here_child, here_pushed, here_found, here_end, here_inner};
    let ghost goal = goal_of(target);
    proof { law_zero::<I>(); }
//@ loop
    invariant good::<I>(P::is_cow()), root_height == top::<I>().height, here(head_node.tree(), stack@, head_pos, target, goal),
        excluded ==> lt(I::z(), target) && !lt(head_node.tree().size, target), !excluded ==> lt(target, head_node.tree().size),
    decreases head_node.tree().height
//@ end
/// What an iterator knows between two calls: the range asked for is not empty and inside the tree; the front has
/// passed the slice at its start, the back the one at its end; and the front is before the back.
spec fn within_end<I: Index>(b: IncludedOrExcludedBound<I>, pos: I) -> bool {
    match b { IncludedOrExcludedBound::Included(i) => !lt(i, pos), IncludedOrExcludedBound::Excluded(i) => lt(pos, i) }
}
/// the slice from start to end is the last one asked for
spec fn is_last<I: Index>(b: IncludedOrExcludedBound<I>, start: I, end: I) -> bool {
    match b { IncludedOrExcludedBound::Included(i) => !lt(i, start) && lt(i, end), IncludedOrExcludedBound::Excluded(i) => lt(start, i) && !lt(end, i) }
}
impl<'t, C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Iter<'t, C, I, S, P, M> {
    spec fn stands(self, s: IterStack<'t, I, S, P, M>) -> bool { s.ok() && lt(self.start, s.end_pos) && within_end(self.end, s.start()) }
    spec fn ok(self) -> bool {
        self.state matches Some(s) ==> {
            &&& s.root.tree() == top::<I>() && lt(self.start, top::<I>().size) && bound_ok(self.end) && within_end(self.end, self.start)
            &&& s.fwd matches Some(f) ==> self.stands(f)
            &&& s.bkwd matches Some(b) ==> self.stands(b)
            &&& s.fwd matches Some(f) ==> s.bkwd matches Some(b) ==> lt(f.start(), b.start())
        }
    }
    spec fn none_ahead(self) -> bool {
        self.state matches Some(s) ==> match (s.fwd, s.bkwd) {
            (Some(f), Some(b)) => f.end_pos == b.start(),
            (Some(f), None) => !within_end(self.end, f.end_pos),
            (None, Some(b)) => !lt(self.start, b.start()),
            (None, None) => false,
        }
    }
    spec fn none_behind(self) -> bool {
        self.state matches Some(s) ==> match (s.fwd, s.bkwd) {
            (Some(f), Some(b)) => f.end_pos == b.start(),
            (Some(f), None) => is_last(self.end, f.start(), f.end_pos),
            (None, Some(b)) => !lt(self.start, b.start()),
            (None, None) => false,
        }
    }
    spec fn entry_is(self, e: SliceEntry<'t, I, S, P, M>, s: IterStack<'t, I, S, P, M>) -> bool {
        e.slice == s.head && e.range_start == s.start() && e.range_end == s.end_pos && e.store == self.state.unwrap().store
        && top::<I>().holds(e.range_start, e.range_end, e.slice.id())
    }
}
//@ impl impl<'t, C, I, S, P, const M: usize> Iterator for Iter<'t, C, I, S, P, M> where C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Iter<'t, C, I, S, P, M>
//@ only
//@ fn next -> r props=C04
    requires good::<I>(P::is_cow()), once::<I>(), old(self).ok()
    ensures final(self).ok(), final(self).start == old(self).start, final(self).end == old(self).end,
        r is None ==> final(self).state is None && old(self).none_ahead(),
        r matches Some(e) ==> (old(self).state matches Some(s) && (final(self).state matches Some(n) && n.store == s.store && n.bkwd == s.bkwd
            && (n.fwd matches Some(f) && final(self).entry_is(e, f))
            && (match s.fwd { Some(f) => e.range_start == f.end_pos, None => !lt(old(self).start, e.range_start) && lt(old(self).start, e.range_end) }))),
//@ attr #[verifier::loop_isolation(false)]
//@ body
    broadcast use {key_begins, two_slices, key_holds};
//@ end
//@ impl impl<'t, C, I, S, P, const M: usize> DoubleEndedIterator for Iter<'t, C, I, S, P, M> where C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Iter<'t, C, I, S, P, M>
//@ only
//@ fn next_back -> r props=C04
    requires good::<I>(P::is_cow()), once::<I>(), old(self).ok()
    ensures final(self).ok(), final(self).start == old(self).start, final(self).end == old(self).end,
        r is None ==> final(self).state is None && old(self).none_behind(),
        r matches Some(e) ==> (old(self).state matches Some(s) && (final(self).state matches Some(n) && n.store == s.store && n.fwd == s.fwd
            && (n.bkwd matches Some(b) && final(self).entry_is(e, b))
            && (match s.bkwd { Some(b) => e.range_end == b.start(), None => is_last(old(self).end, e.range_start, e.range_end) }))),
//@ body
    broadcast use {key_begins, two_slices, key_holds};
    proof { law_zero::<I>(); }
//@ end
fn main() {}
}
