//! Contract of one upward step of an insertion that split a node: the new middle slice and the new
//! right half go into the parent, which may have to be split in turn.
//! needs: insert/leaf
use super::leaf::{holds, holds_ids, Want};
use super::super::*;
use crate::cursor::Cursor;
use crate::param::{AllowCow, NoFeatures};
use crate::tree::node::verif::lib::*;

/// An internal node whose `i`th child was just split: the child has its new size, nothing else
/// knows. Where `shifted`, the slice to the left of that child has changed its size as well.
fn bubble<P: Conf<U, M>, const M: usize, const N: usize, const L: usize>(len: u8, i: u8, shifted: bool) {
    let mut store = P::store();
    let height = any_height();
    let full = len as usize == 2 * M;
    let p = any_internal::<U, P, M>(len, len, 20, |_| any_child(20));
    let top: bool = kani::any();
    // the parent is not looked at
    let q = any_child::<U, P, M>(20);
    let qi: u8 = kani::any();
    set_parent::<U, P, M>(p, if top { None } else { Some((q, qi)) });
    let v: View<N> = view_internal(p, false);
    give_ids::<U, P, M>(&mut store, p, height);
    let id: [u8; N] = ids::<U, P, M, N>(p);
    assert!(i <= len && (!shifted || i > 0));
    let old = v.child(i as usize);
    let (lsize, rsize, kw) = (H::any_size(20), H::any_size(20), H::any_size(20));
    kani::assume(lsize.n() + rsize.n() + kw.n() > old.n());
    let l = child_ptr::<U, P, M>(p, i as usize);
    set_total::<U, P, M>(l, lsize);
    let r = any_child::<U, P, M>(20);
    set_total::<U, P, M>(r, rsize);
    let kid = P::fresh_suspended(&mut store);
    let over = H::any_size(20);
    let shift_lhs = if shifted {
        let (pos, old_size) = (v.pos[i as usize - 1], v.w[i as usize - 1]);
        kani::assume(lsize.n() + rsize.n() + kw.n() + over.n() > old.n() + old_size.n());
        unsafe { set_word::<U, P, M>(p, i as usize - 1, over) }
        Some(BubbleLhs { pos, old_size, new_size: over })
    } else {
        None
    };
    // what is to come out: slices, references and children in order
    let mut want = Want::<L> { n: 0, w: [H::ZERO; L], id: [NONE; L] };
    let mut kids: [Option<NP<U, P, M>>; L] = [None; L];
    for j in 0..N + 1 {
        if j as u8 <= v.len {
            kids[want.n as usize] = Some(child_ptr::<U, P, M>(p, j));
            if j as u8 == i {
                want.w[want.n as usize] = kw;
                want.id[want.n as usize] = kid;
                want.n += 1;
                kids[want.n as usize] = Some(r);
            }
            if (j as u8) < v.len {
                want.w[want.n as usize] = if shifted && j as u8 + 1 == i { over } else { v.w[j] };
                want.id[want.n as usize] = id[j];
                want.n += 1;
            }
        }
    }
    let side: u8 = kani::any();
    let cursor_side = match side { 0 => Some(Side::Left), 1 => Some(Side::Right), _ => None };
    let inserted: bool = kani::any();
    let mut path = Path::new_empty();
    // the slice somebody refers to: not yet there (this is it), in the left or right half, the one
    // to the left of the change, or there and just now in nobody's hands (this is it)
    let who: u8 = kani::any();
    kani::assume(who < 5 && (who != 0 || !inserted) && (who == 0 || inserted) && (who != 3 || i > 0));
    let mut seen: Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, M>> = match who {
        0 => None,
        1 | 4 => Some(slice_handle(l, height - 1, 1)),
        2 => Some(slice_handle(r, height - 1, 0)),
        _ => Some(slice_handle(p, height, i - 1)),
    };
    let mut events = 0;
    let s = BubbledInsertState {
        lhs: node_handle::<borrow::Mut, U, P, M>(l, height - 1),
        key: node::Key { pos: H::any(), slice: U { w: kw }, ref_id: P::mk_id(kid) },
        key_size: kw,
        rhs: NodeBox::new(node_handle::<borrow::UniqueOwned, U, P, M>(r, height - 1)),
        old_size: old,
        shift_lhs,
        cursor_side,
        inserted,
        cursor_builder: CursorBuilder::new(&mut path),
    };
    let res = {
        let mut track = unsafe { TraverseUpdate::apply_to_ref(&mut seen) };
        if who == 4 { track(TraverseUpdate::Remove { ptr: l, height: height - 1, idx: 1 }) }
        let mut cb = |u: TraverseUpdate<H, U, P, M>| {
            match u {
                TraverseUpdate::Insertion { .. } => { assert!(!inserted, "inserted once"); events += 1 }
                TraverseUpdate::PutBack { .. } => { assert!(inserted, "put back what was inserted before"); events += 1 }
                _ => (),
            }
            track(u)
        };
        s.do_upward_step(&mut store, &mut cb)
    };
    // where something with index `j` in the end result must be seen
    let is = |seen: &Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, M>>, at: Option<(NP<U, P, M>, u8)>| match who {
        1 => assert!(matches!(seen, Some(h) if h.node.ptr() == l && h.idx == 1), "what did not move is where it was"),
        2 => assert!(matches!(seen, Some(h) if h.node.ptr() == r && h.idx == 0), "what did not move is where it was"),
        _ => match (seen, at) {
            (None, None) => (),
            (Some(h), Some((n, j))) => assert!(h.node.ptr() == n && h.node.height() == height && h.idx == j, "the reference follows its slice"),
            _ => assert!(false, "the reference is there exactly when its slice is"),
        },
    };
    match res {
        BubbleStepResult::Root(_) => assert!(false, "there is a parent"),
        BubbleStepResult::Done(up) => {
            assert!(!full, "there was room");
            assert!(matches!(&up.child_or_key, ChildOrKey::Key((_, n)) if handle_ptr(n) == p));
            match up.do_upward_step() {
                Ok(()) => assert!(top),
                Err(OpUpdateState { child_or_key: ChildOrKey::Child((c, n)), override_pos, old_size, new_size, .. }) => {
                    assert!(!top && c == qi && handle_ptr(&n) == q && n.height() == height + 1, "continues at this node's place in its parent");
                    assert!(override_pos.is_none() && old_size == v.total && new_size == total_of::<U, P, M>(p), "passes on this node's change of size");
                }
                Err(_) => assert!(false),
            }
            let o: View<N> = view_internal(p, true);
            assert!(o.len == want.n, "nothing lost, nothing twice");
            holds(&o, &want, 0);
            for j in 0..L {
                if j as u8 <= o.len { assert!(Some(child_ptr::<U, P, M>(p, j)) == kids[j], "the children, in order") }
            }
            if P::SLICE_REFS {
                holds_ids(o.len, &ids::<U, P, M, N>(p), &want, 0);
                placed::<U, P, M, N>(&store, p, height);
            }
            is(&seen, Some((p, if who == 3 { i - 1 } else { i })));
            assert!(events == 1, "reports that the slice is in place");
            path_is(&path, cursor_side.map(|s| i + s as u8));
        }
        BubbleStepResult::KeepGoing(BubbledInsertState { lhs, key, key_size, rhs, old_size, shift_lhs, cursor_side: cs, inserted: done, .. }) => {
            assert!(full, "there was no room");
            let b = handle_ptr(rhs.as_ref());
            assert!(handle_ptr(&lhs) == p && lhs.height() == height && rhs.as_ref().height() == height);
            let (x, y): (View<N>, View<N>) = (view_internal(p, true), view_internal(b, true));
            assert!(x.len + 1 + y.len == want.n, "nothing lost, nothing twice");
            assert!(x.len >= M as u8 && y.len >= M as u8, "both halves are at least half full");
            holds(&x, &want, 0);
            holds(&y, &want, x.len + 1);
            for j in 0..L {
                if j as u8 <= x.len { assert!(Some(child_ptr::<U, P, M>(p, j)) == kids[j], "the children, in order") }
                if j as u8 <= y.len { assert!(Some(child_ptr::<U, P, M>(b, j)) == kids[j + x.len as usize + 1], "the children, in order") }
            }
            assert!(key.slice.w == want.w[x.len as usize] && key_size == key.slice.w, "the middle slice, and its size");
            assert!(old_size == v.total && shift_lhs.is_none());
            assert!(parent_of::<U, P, M>(b).is_none(), "the right half has no parent");
            assert!(parent_of::<U, P, M>(p) == if top { None } else { Some((q, qi)) }, "the left half keeps its place");
            // where things went
            let place = |j: u8| if j <= x.len { (Some(Side::Left), p, j) } else { (Some(Side::Right), b, j - x.len - 1) };
            let stays = i == x.len;
            let t = if who == 3 { i - 1 } else { i };
            is(&seen, if t < x.len { Some((p, t)) } else if t == x.len { None } else { Some((b, t - x.len - 1)) });
            assert!(events == !stays as u8 && done == (inserted || !stays), "reports that the slice is in place, once it is");
            // the path goes through the half the target was in; if the target is the slice itself
            // it ends in that slice's node
            match cursor_side {
                Some(s) => {
                    let (ns, _, j) = place(i + s as u8);
                    path_is(&path, Some(j));
                    assert!(same(cs, ns), "says on which side the target is");
                }
                None => {
                    path_is(&path, None);
                    assert!(same(cs, if stays { None } else if i < x.len { Some(Side::Left) } else { Some(Side::Right) }), "says on which side the target is");
                }
            }
            if P::SLICE_REFS {
                holds_ids(x.len, &ids::<U, P, M, N>(p), &want, 0);
                holds_ids(y.len, &ids::<U, P, M, N>(b), &want, x.len + 1);
                let k = P::get_id(&key.ref_id);
                assert!(k == want.id[x.len as usize], "the middle slice keeps its references");
                if k != NONE { assert!(P::place(&store, k) == Place::Suspended, "which are nowhere for now") }
                placed::<U, P, M, N>(&store, p, height);
                placed::<U, P, M, N>(&store, b, height);
            }
            std::mem::forget(rhs);
        }
    }
    kani::cover!(!top && who != 1 && who != 2);
}
fn same(a: Option<Side>, b: Option<Side>) -> bool {
    match (a, b) {
        (None, None) | (Some(Side::Left), Some(Side::Left)) | (Some(Side::Right), Some(Side::Right)) => true,
        _ => false,
    }
}
fn path_is(p: &Path, c: Option<u8>) {
    assert!(p.resets == 0);
    match c {
        None => assert!(p.n == 0, "no component of the path here"),
        Some(c) => assert!(p.n == 1 && p.at[0] == c, "the path goes through the child the target is in"),
    }
}

//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn room_0_1() { bubble::<NoFeatures, 1, 3, 4>(1, 0, false) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn room_1_1() { bubble::<NoFeatures, 1, 3, 4>(1, 1, false) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn room_1_shifted_1() { bubble::<NoFeatures, 1, 3, 4>(1, 1, true) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_0_1() { bubble::<NoFeatures, 1, 3, 4>(2, 0, false) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_1_1() { bubble::<NoFeatures, 1, 3, 4>(2, 1, false) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_1_shifted_1() { bubble::<NoFeatures, 1, 3, 4>(2, 1, true) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_2_1() { bubble::<NoFeatures, 1, 3, 4>(2, 2, false) }
//@ props=C01,C02,C05,C07,C15,C22 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_2_shifted_1() { bubble::<NoFeatures, 1, 3, 4>(2, 2, true) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_0_2() { bubble::<NoFeatures, 2, 5, 6>(4, 0, false) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_1_2() { bubble::<NoFeatures, 2, 5, 6>(4, 1, false) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_1_shifted_2() { bubble::<NoFeatures, 2, 5, 6>(4, 1, true) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_2_2() { bubble::<NoFeatures, 2, 5, 6>(4, 2, false) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_2_shifted_2() { bubble::<NoFeatures, 2, 5, 6>(4, 2, true) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_3_2() { bubble::<NoFeatures, 2, 5, 6>(4, 3, false) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_3_shifted_2() { bubble::<NoFeatures, 2, 5, 6>(4, 3, true) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_4_2() { bubble::<NoFeatures, 2, 5, 6>(4, 4, false) }
//@ props=C01,C05,C07,C15,C22 tier=thorough m=2 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_4_shifted_2() { bubble::<NoFeatures, 2, 5, 6>(4, 4, true) }
//@ props=C08 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn room_0_refs_1() { bubble::<Track, 1, 3, 4>(1, 0, false) }
//@ props=C08 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn room_1_refs_1() { bubble::<Track, 1, 3, 4>(1, 1, false) }
//@ props=C08 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_0_refs_1() { bubble::<Track, 1, 3, 4>(2, 0, false) }
//@ props=C08 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_1_refs_1() { bubble::<Track, 1, 3, 4>(2, 1, false) }
//@ props=C08 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(8)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn full_2_refs_1() { bubble::<Track, 1, 3, 4>(2, 2, false) }
