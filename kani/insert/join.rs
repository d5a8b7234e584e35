//! Contracts of putting a slice between two others, or into the middle of one, where any of them may
//! join: what joins with what, what is left to be inserted, and that nothing is lost on the way.
//! needs: insert/leaf
use super::leaf::{no_split, UP, WALKS};
use super::super::*;
use crate::cursor::Cursor;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;
use crate::DirectionalSub;

type P = NoFeatures;
/// All three join: the tree has one slice less than before. What becomes of it is missing from this
/// commit (`todo!()`, a known finding); until then everything is to be right.
fn three_way<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, _: CursorBuilder<'c>,
    lhs: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, old: I, new: I,
    rhs: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>, rhs_size: I,
) -> PostInsertResult<'t, I, S, P, M> {
    // (these are `H` and `C` here)
    let lp: NP<C, NoFeatures, 1> = lhs.node.ptr().cast();
    let w: H = view::<C, NoFeatures, 1, 2>(lp).w[lhs.idx as usize];
    let (old, new, rs): (H, H, H) = unsafe { (std::mem::transmute_copy(&old), std::mem::transmute_copy(&new), std::mem::transmute_copy(&rhs_size)) };
    unsafe { assert!(w == ALL && new == ALL && old == OLD.0 && rs == OLD.1, "all three in one") }
    assert!(lhs.node.ptr() != rhs.node.ptr() || lhs.idx + 1 == rhs.idx);
    kani::assume(false);
    loop {}
}
static mut ALL: H = H(0);
static mut OLD: (H, H) = (H(0), H(0));

fn living() -> i8 {
    let mut n = 0;
    for i in 0..8 { if i < made() { n += alive(i) } }
    n
}
/// `which`: there are slices on both sides (0), on the left (1), on the right (2).
fn edge(which: u8, apart: bool) {
    let p = any_leaf::<C, P, 1>(2, 2, 20);
    // where they are in different nodes, the left one is further up
    let (a, ah, ai) = if apart { (any_internal::<C, P, 1>(1, 1, 20, |_| any_child(20)), any_height(), 0) } else { (p, 0, 0) };
    let bi = if apart { 0 } else { 1 };
    let q = any_child::<C, P, 1>(20);
    let qi: u8 = kani::any();
    let top: bool = kani::any();
    set_parent::<C, P, 1>(p, if top { None } else { Some((q, qi)) });
    if apart { set_parent::<C, P, 1>(a, if top { None } else { Some((q, qi)) }); }
    let see = |x: NP<C, P, 1>| -> View<2> { if apart && x == a { view_internal(x, true) } else { view(x) } };
    let (va, vb) = (see(a), see(p));
    let size = H::any_size(20);
    let slice = <C as Word>::new(size);
    let (id, before) = (slice.id, living());
    let (lid, rid) = (id_of::<P, 1>(a, ai), id_of::<P, 1>(p, bi));
    let (l, r) = (va.w[ai], vb.w[bi]);
    unsafe { ALL = l.cat(size).cat(r); OLD = (l, r) }
    let had: usize = kani::any();
    kani::assume(had > 1 && had < usize::MAX);
    let mut len = had;
    let mut path = Path::new_empty();
    let mut seen: Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, C, P, 1>> = None;
    let mut events = 0;
    let res = {
        let mut track = unsafe { TraverseUpdate::apply_to_ref(&mut seen) };
        let mut cb = |u: TraverseUpdate<H, C, P, 1>| { events += 1; track(u) };
        RleTree::<H, C, P, 1>::do_insert_full_edge_try_join(
            &mut (), CursorBuilder::new(&mut path), &mut len, slice, size,
            AdjacentKeys {
                lhs: if which != 2 { Some(slice_handle(a, ah, ai as u8)) } else { None },
                rhs: if which != 1 { Some(slice_handle(p, 0, bi as u8)) } else { None },
            },
            &mut cb,
        )
    };
    let (na, nb) = (see(a), see(p));
    assert!(len == had, "as many slices as before, so far");
    assert!(holes_of::<C, P, 1>(a) == [None; 2] && holes_of::<C, P, 1>(p) == [None; 2], "nothing is left out");
    assert!(na.len == va.len && nb.len == vb.len && path.n == 0 && path.resets == 0);
    match res {
        Err(s) => {
            assert!(s.id == id && s.w == size, "handed back as it was");
            assert!(na.w == va.w && na.pos == va.pos && na.total == va.total && nb.w == vb.w && nb.pos == vb.pos && nb.total == vb.total, "nothing changed");
            assert!(id_of::<P, 1>(a, ai) == lid && id_of::<P, 1>(p, bi) == rid && living() == before);
            assert!(events == 0 && unsafe { WALKS } == 0);
            kani::cover!(true, "nothing joins");
        }
        Ok(r2) => {
            assert!(matches!(r2, PostInsertResult::Done), "no new root");
            std::mem::forget(r2);
            assert!(events == 1 && unsafe { WALKS } == 1, "reported once, passed on once");
            assert!(na.ok() && nb.ok(), "positions and sizes add up");
            assert!(living() == before - 1, "two slices became one");
            let left = na.w[ai] == l.cat(size) && na.w[ai] != l;
            let h = seen.unwrap();
            let (x, y): (H, H) = if which != 2 && h.node.ptr() == a && h.node.height() == ah && h.idx == ai as u8 {
                assert!(left && nb.w[bi] == r, "joined with the one to its left");
                (va.total, na.total)
            } else {
                assert!(which != 1 && h.node.ptr() == p && h.node.height() == 0 && h.idx == bi as u8, "reports the slice it is part of");
                assert!(na.w[ai] == l && nb.w[bi] == size.cat(r), "joined with the one to its right");
                (vb.total, nb.total)
            };
            assert!(unsafe { UP } == if top { None } else { Some((x, y)) }, "the change is passed on to the parent");
            kani::cover!(true, "one joins");
        }
    }
}
//@ props=C01,C02,C12,C15,C24 tier=quick m=1 fn=tree::insert::do_insert_full_edge_try_join
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::handle_join_deletion, three_way)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn edge_both() { edge(0, false) }
//@ props=C01,C02,C12,C15,C24 tier=quick late=C02,C12,C15 m=1 fn=tree::insert::do_insert_full_edge_try_join
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::handle_join_deletion, three_way)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn edge_both_apart() { edge(0, true) }
//@ props=C01,C02,C12,C15,C24 tier=quick m=1 fn=tree::insert::do_insert_full_edge_try_join
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::handle_join_deletion, three_way)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn edge_left() { edge(1, false) }
//@ props=C01,C02,C12,C15,C24 tier=quick m=1 fn=tree::insert::do_insert_full_edge_try_join
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::handle_join_deletion, three_way)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn edge_right() { edge(2, false) }

/// What is handed on to be inserted to the right of the left part.
#[derive(Copy, Clone)]
struct Rest { idx: u8, height: u8, lhs: H, at_lhs: bool, fst: (H, H), snd: Option<(H, H)> }
static mut REST: Option<Rest> = None;
fn rest<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, _: CursorBuilder<'c>, right_of: SliceHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
    lhs: I, mode: CursorMode, fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>, cb: UpdatesCallback<I, S, P, M>,
) -> PostInsertResult<'t, I, S, P, M> {
    fn h<T>(t: &T) -> H { unsafe { std::mem::transmute_copy(t) } }
    fn w<S>(s: &S) -> H { if std::mem::size_of::<S>() == std::mem::size_of::<C>() { unsafe { (*(s as *const S as *const C)).w } } else { unsafe { (*(s as *const S as *const U)).w } } }
    unsafe {
        assert!(REST.is_none(), "once");
        REST = Some(Rest {
            idx: right_of.idx, height: right_of.node.height(), lhs: h(&lhs), at_lhs: mode == CursorMode::Lhs,
            fst: (w(&fst.slice), h(&fst.size)), snd: snd.as_ref().map(|s| (w(&s.slice), h(&s.size))),
        });
    }
    // says where the first of them is, as the contract of `insert_rhs` has it
    cb(TraverseUpdate::Insertion { ptr: right_of.node.ptr(), height: right_of.node.height(), idx: right_of.idx ^ 1 });
    std::mem::forget((fst, snd));
    PostInsertResult::Done
}
fn cut<S: Word>(joins: bool, parts: impl Fn() -> i8) {
    let p = any_leaf::<S, P, 1>(2, 2, 20);
    let q = any_child::<S, P, 1>(20);
    let qi: u8 = kani::any();
    let top: bool = kani::any();
    set_parent::<S, P, 1>(p, if top { None } else { Some((q, qi)) });
    let v: View<2> = view(p);
    let i: usize = if kani::any() { 0 } else { 1 };
    let pos = H::any();
    kani::assume(pos.n() > 0 && pos.n() < v.w[i].n());
    let right = v.w[i].sub_left(pos);
    let size = H::any_size(20);
    let slice = S::new(size);
    let before = parts();
    let had: usize = kani::any();
    kani::assume(had < usize::MAX - 2);
    let mut len = had;
    let mut path = Path::new_empty();
    let mut seen: Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, S, P, 1>> = None;
    let mut events = 0;
    let res = {
        let mut track = unsafe { TraverseUpdate::apply_to_ref(&mut seen) };
        let mut cb = |u: TraverseUpdate<H, S, P, 1>| { events += 1; track(u) };
        RleTree::<H, S, P, 1>::do_insert_full_split_key(
            &mut (), CursorBuilder::new(&mut path), &mut len,
            SplitKeyInsert { handle: slice_handle(p, 0, i as u8), pos_in_key: pos }, slice, size, &mut cb,
        )
    };
    assert!(matches!(res, PostInsertResult::Done));
    let o: View<2> = view(p);
    assert!(o.len == 2 && holes_of::<S, P, 1>(p) == [None; 2] && o.w[1 - i] == v.w[1 - i], "everything else is as it was");
    assert!(path.n == 0 && path.resets == 0 && events == 1, "reported once");
    let h = seen.unwrap();
    assert!(h.node.ptr() == p && h.node.height() == 0);
    match unsafe { REST } {
        None => {
            assert!(joins && o.w[i] == pos.cat(size).cat(right), "all in one");
            assert!(o.ok() && len == had && h.idx == i as u8);
            assert!(unsafe { UP } == if top { None } else { Some((v.total, o.total)) } && unsafe { WALKS } == 1, "the change is passed on to the parent");
            assert!(parts() == before - 1, "two slices became one");
        }
        Some(r) => {
            assert!(unsafe { WALKS } == 0 && r.idx == i as u8 && r.height == 0);
            assert!(r.lhs == o.w[i] && o.pos == v.pos && o.total == v.total, "the left part is in place, nothing else changed yet");
            assert!(r.fst.0 == r.fst.1);
            let n = match r.snd {
                None => {
                    assert!(joins);
                    if r.at_lhs {
                        assert!(r.lhs == pos.cat(size) && r.fst.0 == right, "joined with the left part");
                    } else {
                        assert!(r.lhs == pos && r.fst.0 == size.cat(right), "joined with the right part");
                    }
                    1
                }
                Some(s) => {
                    assert!(s.0 == s.1 && r.lhs == pos && r.fst.0 == size && s.0 == right && !r.at_lhs, "left part, new slice, right part");
                    2
                }
            };
            assert!(h.idx == if r.at_lhs { i as u8 } else { i as u8 ^ 1 }, "reports the slice the new one is part of");
            assert!(len == had + n as usize, "counts what there is more");
            // one more came out of the cut
            assert!(!joins || parts() == before + n - 1, "nothing lost, nothing twice");
            kani::cover!(r.snd.is_some(), "nothing joins");
        }
    }
}
//@ props=C01,C02,C12,C15,C24 tier=quick m=1 fn=tree::insert::do_insert_full_split_key
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::insert_rhs, rest)]
fn cut_joining() { cut::<C>(true, living) }
//@ props=C01,C02,C15 tier=quick m=1 fn=tree::insert::do_insert_full_split_key
#[kani::proof] #[kani::unwind(9)] #[kani::stub(OpUpdateState::finish, OpUpdateState::first_level)] #[kani::stub(RleTree::insert_rhs, rest)]
fn cut_plain() { cut::<U>(false, || 0) }
