//! Contracts of inserting one or two slices between two slices of a leaf, without joining.
use super::super::*;
use crate::cursor::Cursor;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;

/// What the leaf is to hold afterwards, in order: the slices it had, the new ones at `k`.
pub struct Want<const L: usize> {
    pub n: u8,
    pub w: [H; L],
    pub id: [u8; L],
}
/// A leaf with room to put things in at `k`, where the slice to the left of `k` may just have
/// changed its size, and nothing knows of that yet.
pub struct Case<P: Conf<U, M>, const M: usize, const L: usize> {
    pub store: P::SliceRefStore,
    pub p: NP<U, P, M>,
    pub k: u8,
    pub over: Option<H>,
    pub fst: H,
    pub snd: Option<H>,
    pub old: H,
    pub want: Want<L>,
    pub len: u8,
}
pub fn case<P: Conf<U, M>, const M: usize, const N: usize, const L: usize>(lo: u8, two: bool) -> Case<P, M, L> {
    let mut store = P::store();
    let p = any_leaf::<U, P, M>(lo, 2 * M as u8, 20);
    give_ids::<U, P, M>(&mut store, p, 0);
    let v: View<N> = view(p);
    let id: [u8; N] = ids::<U, P, M, N>(p);
    let k: u8 = kani::any();
    kani::assume(k <= v.len);
    let over = if k > 0 && kani::any() { Some(H::any_size(20)) } else { None };
    let fst = H::any_size(20);
    let snd = if two { Some(H::any_size(20)) } else { None };
    if let Some(s) = over {
        // whatever was cut off or joined on, this is an insertion: there is more than before
        kani::assume(s.n() + fst.n() + match snd { Some(x) => x.n(), None => 0 } > v.w[k as usize - 1].n());
        unsafe { set_word::<U, P, M>(p, k as usize - 1, s) }
    }
    let mut want = Want { n: 0, w: [H::ZERO; L], id: [NONE; L] };
    let mut put = |w: H, i: u8| {
        want.w[want.n as usize] = w;
        want.id[want.n as usize] = i;
        want.n += 1;
    };
    for i in 0..N + 1 {
        if i as u8 == k {
            put(fst, NONE);
            if let Some(s) = snd { put(s, NONE) }
        }
        if (i as u8) < v.len {
            put(match over { Some(s) if i as u8 + 1 == k => s, _ => v.w[i] }, id[i]);
        }
    }
    Case { store, p, k, over, fst, snd, old: v.total, want, len: v.len }
}
/// `o` holds `want` from `at` on
pub fn holds<const N: usize, const L: usize>(o: &View<N>, want: &Want<L>, at: u8) {
    assert!(o.ok(), "positions and sizes add up");
    for i in 0..N {
        if (i as u8) < o.len {
            let j = (at + i as u8) as usize;
            assert!(j < want.n as usize && o.w[i] == want.w[j], "the slices are those wanted, in order");
        }
    }
}
pub fn holds_ids<const N: usize, const L: usize>(len: u8, ids: &[u8; N], want: &Want<L>, at: u8) {
    for i in 0..N {
        if (i as u8) < len {
            assert!(ids[i] == want.id[(at + i as u8) as usize], "references stay with their slices");
        }
    }
}

fn split<P: Conf<U, M>, const M: usize, const N: usize, const L: usize>(two: bool) {
    let mut c = case::<P, M, N, L>(2 * M as u8 - two as u8, two);
    let mut path = Path::new_empty();
    let mut seen: Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, M>> = None;
    let mut events = 0;
    let s = unsafe {
        let mut track = TraverseUpdate::apply_to_ref(&mut seen);
        let mut cb = |u: TraverseUpdate<H, U, P, M>| {
            if let TraverseUpdate::Insertion { .. } = u { events += 1 }
            track(u)
        };
        RleTree::<H, U, P, M>::do_insert_full_edge_no_join_split(
            &mut c.store,
            CursorBuilder::new(&mut path),
            leaf_handle::<borrow::Mut, U, P, M>(c.p),
            c.k,
            c.over,
            SliceSize::new(U { w: c.fst }, c.fst),
            c.snd.map(|w| SliceSize::new(U { w }, w)),
            &mut cb,
        )
    };
    let BubbledInsertState { lhs, key, key_size, rhs, old_size, shift_lhs, cursor_side, inserted, .. } = s;
    let r = handle_ptr(&*rhs.as_ref());
    let (a, b): (View<N>, View<N>) = (view(c.p), view(r));
    assert!(handle_ptr(&lhs) == c.p && lhs.height() == 0 && rhs.as_ref().height() == 0, "the leaf becomes the left half");
    assert!(a.len + 1 + b.len == c.want.n, "nothing lost, nothing twice");
    assert!(a.len >= M as u8 && b.len >= M as u8, "both halves are at least half full");
    holds(&a, &c.want, 0);
    holds(&b, &c.want, a.len + 1);
    assert!(key.slice.w == c.want.w[a.len as usize] && key_size == key.slice.w, "the middle slice, and its size");
    assert!(old_size == c.old, "the size before all of this");
    assert!(shift_lhs.is_none());
    let at = if c.k < a.len { Some((Side::Left, c.p, c.k)) } else if c.k == a.len { None } else { Some((Side::Right, r, c.k - a.len - 1)) };
    match (at, cursor_side) {
        (Some((Side::Left, ..)), Some(Side::Left)) | (Some((Side::Right, ..)), Some(Side::Right)) | (None, None) => (),
        _ => assert!(false, "says on which side the new slice is"),
    }
    assert!(inserted == at.is_some() && events == at.is_some() as u8, "and whether it is in place");
    match (at, &seen) {
        (Some((_, p, i)), Some(h)) => assert!(h.node.ptr() == p && h.node.height() == 0 && h.idx == i, "reports where the new slice is"),
        (None, None) => (),
        _ => assert!(false, "reports the new slice once it is in place"),
    }
    assert!(path.n == 0, "no path yet");
    assert!(parent_of::<U, P, M>(r).is_none(), "the right half has no parent");
    if P::SLICE_REFS {
        holds_ids(a.len, &ids::<U, P, M, N>(c.p), &c.want, 0);
        holds_ids(b.len, &ids::<U, P, M, N>(r), &c.want, a.len + 1);
        let kid = P::get_id(&key.ref_id);
        assert!(kid == c.want.id[a.len as usize], "the middle slice keeps its references");
        if kid != NONE { assert!(P::place(&c.store, kid) == Place::Suspended, "which are nowhere for now") }
        placed::<U, P, M, N>(&c.store, c.p, 0);
        placed::<U, P, M, N>(&c.store, r, 0);
    }
    kani::cover!(c.k == 0);
    kani::cover!(c.k == c.len && c.over.is_some());
    kani::cover!(c.k as usize == M && c.over.is_none());
    std::mem::forget(rhs);
}
//@ props=C01,C02,C05,C12,C15,C22 tier=quick m=1 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(6)] fn split_one_1() { split::<NoFeatures, 1, 3, 4>(false) }
//@ props=C01,C02,C05,C12,C15,C22 tier=quick late=C02 m=1 fn=tree::insert::do_insert_full_edge_no_join_split,tree::insert::do_insert_full_edge_no_join_split_small_m
#[kani::proof] #[kani::unwind(6)] fn split_two_1() { split::<NoFeatures, 1, 3, 4>(true) }
//@ props=C01,C02,C05,C15,C22 tier=quick late=C02,C15 m=2 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(8)] fn split_one_2() { split::<NoFeatures, 2, 5, 6>(false) }
//@ props=C01,C02,C05,C15,C22 tier=quick late=C02,C05,C15 m=2 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(8)] fn split_two_2() { split::<NoFeatures, 2, 5, 6>(true) }
//@ props=C01,C05,C22 tier=thorough m=3 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(10)] fn split_one_3() { split::<NoFeatures, 3, 7, 8>(false) }
//@ props=C01,C05,C22 tier=thorough m=3 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(10)] fn split_two_3() { split::<NoFeatures, 3, 7, 8>(true) }
//@ props=C08 tier=quick m=1 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(8)] fn split_one_refs_1() { split::<Track, 1, 3, 4>(false) }
//@ props=C08 tier=quick m=1 fn=tree::insert::do_insert_full_edge_no_join_split,tree::insert::do_insert_full_edge_no_join_split_small_m
#[kani::proof] #[kani::unwind(8)] fn split_two_refs_1() { split::<Track, 1, 3, 4>(true) }
//@ props=C08 tier=thorough m=2 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(8)] fn split_one_refs_2() { split::<Track, 2, 5, 6>(false) }
//@ props=C08 tier=thorough m=2 fn=tree::insert::do_insert_full_edge_no_join_split
#[kani::proof] #[kani::unwind(8)] fn split_two_refs_2() { split::<Track, 2, 5, 6>(true) }

/// The walk upwards, cut after its first node: what the nodes above make of it is their contract.
/// `UP` is what is passed on.
pub static mut UP: Option<(H, H)> = None;
pub static mut WALKS: u8 = 0;
impl<'t, 'c, I, S, P, const M: usize> OpUpdateState<'t, 'c, I, S, P, M>
where
    I: Index,
    S: Slice<I>,
    P: RleTreeConfig<I, S, M>,
{
    pub fn first_level<'m>(
        self,
        mut map: <Self as MapState>::Map<'m>,
        early: Option<&mut dyn FnMut(&Self) -> ControlFlow<()>>,
    ) where
        Self: 'm,
    {
        assert!(early.is_none());
        assert!(matches!(self.child_or_key, ChildOrKey::Key(_)), "starts at a slice");
        unsafe { WALKS += 1 }
        if let Err(n) = self.map(&mut map).do_upward_step() {
            // (an index type is an `H` here)
            unsafe { UP = Some((std::mem::transmute_copy(&n.old_size), std::mem::transmute_copy(&n.new_size))) }
        }
    }
}
pub fn no_split<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, _: CursorBuilder<'c>, _: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>, _: u8,
    _: Option<I>, _: SliceSize<I, S>, _: Option<SliceSize<I, S>>, _: UpdatesCallback<I, S, P, M>,
) -> BubbledInsertState<'t, 'c, I, S, P, M> {
    assert!(false, "a leaf with room is not split");
    loop {}
}
fn room<P: Conf<U, M>, const M: usize, const N: usize, const L: usize>(two: bool) {
    let mut c = case::<P, M, N, L>(0, two);
    kani::assume(c.len + 1 + two as u8 <= 2 * M as u8);
    let q = any_child::<U, P, M>(20);
    let qi: u8 = kani::any();
    let top: bool = kani::any();
    set_parent::<U, P, M>(c.p, if top { None } else { Some((q, qi)) });
    let mut path = Path::new_empty();
    let mut seen: Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, M>> = None;
    let r = unsafe {
        let mut cb = TraverseUpdate::apply_to_ref(&mut seen);
        RleTree::<H, U, P, M>::do_insert_full_edge_no_join(
            &mut c.store, CursorBuilder::new(&mut path), leaf_handle::<borrow::Mut, U, P, M>(c.p), c.k, c.over,
            SliceSize::new(U { w: c.fst }, c.fst), c.snd.map(|w| SliceSize::new(U { w }, w)), &mut cb, BubbledInsertState::identity(),
        )
    };
    assert!(matches!(r, PostInsertResult::Done), "no new root");
    let o: View<N> = view(c.p);
    assert!(o.len == c.want.n, "nothing lost, nothing twice");
    holds(&o, &c.want, 0);
    assert!(unsafe { WALKS } == 1, "one walk up");
    assert!(unsafe { UP } == if top { None } else { Some((c.old, o.total)) }, "the change is passed on to the parent");
    let h = seen.unwrap();
    assert!(h.node.ptr() == c.p && h.node.height() == 0 && h.idx == c.k, "reports where the new slice is");
    assert!(path.n == 0 && path.resets == 0, "the path ends in this leaf");
    if P::SLICE_REFS {
        holds_ids(o.len, &ids::<U, P, M, N>(c.p), &c.want, 0);
        placed::<U, P, M, N>(&c.store, c.p, 0);
    }
    kani::cover!(c.k == 0 && !top);
    kani::cover!(c.over.is_some() || two && M == 1);
}
//@ props=C01,C02,C05,C15 tier=quick m=1 fn=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(6)]
#[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::do_insert_full_edge_no_join_split, no_split)]
fn room_one_1() { room::<NoFeatures, 1, 2, 4>(false) }
//@ props=C01,C02,C05,C15 tier=quick late=C02,C15 m=2 fn=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(8)]
#[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::do_insert_full_edge_no_join_split, no_split)]
fn room_one_2() { room::<NoFeatures, 2, 4, 6>(false) }
//@ props=C01,C02,C05,C15 tier=quick late=C01,C02,C15 m=2 fn=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(8)]
#[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::do_insert_full_edge_no_join_split, no_split)]
fn room_two_2() { room::<NoFeatures, 2, 4, 6>(true) }
//@ props=C08 tier=quick m=2 fn=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(8)]
#[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::do_insert_full_edge_no_join_split, no_split)]
fn room_one_refs_2() { room::<Track, 2, 4, 6>(false) }
//@ props=C08 tier=thorough m=2 fn=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(8)]
#[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::do_insert_full_edge_no_join_split, no_split)]
fn room_two_refs_2() { room::<Track, 2, 4, 6>(true) }
