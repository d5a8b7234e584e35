//! Contracts of putting slices to the right of another one wherever that one is, of what has to be
//! corrected on the way up because that one changed its size as well, and of the ways into all this.
//! needs: insert/leaf
use super::super::*;
use crate::cursor::{Cursor, NoCursor};
use crate::param::NoFeatures;
use crate::tree::fix::OpUpdateStateSizes;
use crate::tree::node::verif::lib::*;

type P = NoFeatures;
type N1 = NP<U, NoFeatures, 1>;
fn h<T>(t: &T) -> H { unsafe { std::mem::transmute_copy(t) } }
fn i<I>(t: H) -> I { unsafe { std::mem::transmute_copy(&t) } }

/// What is known of the slice to the left: its node, where it is in it, its old and new size; where
/// the new ones have to go, and the nodes on the way there from the left one's.
struct Left {
    node: N1,
    height: u8,
    idx: u8,
    pos: H,
    old: H,
    new: H,
    to: N1,
    at: u8,
    /// the child through which the new ones are reached
    kid: N1,
    lhs_mode: bool,
    nop: bool,
}
static mut LEFT: Option<Left> = None;
static mut CALLS: u8 = 0;
static mut PATH: *const usize = std::ptr::null();
/// What may still be found out about the callbacks: which of their paths to take.
static mut WHAT: u8 = 0;

impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    /// Stands for the insertion itself, by its contract (insert/leaf): it may walk up calling back
    /// for each node on the way, either because a child changed its size, or because it was split.
    unsafe fn inserted<'m, 't: 'm, 'c: 'm>(
        _: &mut P::SliceRefStore,
        mut cursor: CursorBuilder<'c>,
        node: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>,
        at: u8,
        over: Option<I>,
        fst: SliceSize<I, S>,
        snd: Option<SliceSize<I, S>>,
        cb: UpdatesCallback<I, S, P, M>,
        map: <BubbledInsertState<'t, 'c, I, S, P, M> as MapState>::Map<'m>,
    ) -> PostInsertResult<'t, I, S, P, M> {
        let l = unsafe { CALLS += 1; LEFT.as_ref().unwrap() };
        assert!(node.ptr().cast() == l.to && at == l.at, "right next to it");
        assert!(h(&fst.size) == H(77) && matches!(&snd, Some(s) if h(&s.size) == H(78)), "both of them");
        // (nothing is there, really)
        cb(TraverseUpdate::Insertion { ptr: node.ptr(), height: 0, idx: 0 });
        let MapBubbledInsertState { mut post_op, mut cursor_side, mut shift_lhs } = map;
        let here = |p: N1, height: u8| raw_handle::<borrow::Mut<'t>, I, S, P, M>(p.cast(), height);
        let mut left = here(l.node, l.height);
        let mut kid = here(l.kid, l.height.saturating_sub(1));
        let above = any_child::<U, NoFeatures, 1>(20);
        let mut above = here(above, l.height + 1);
        // the cursor is to name the slice to the left; it is told where something else is
        assert!(post_op.cursor.is_some() == (l.lhs_mode && !l.nop) && cursor_side.is_some() == (l.lhs_mode && !l.nop));
        let kept = || unsafe { PATH.is_null() || *PATH == 1 };
        if let Some(f) = &mut post_op.cursor {
            if l.height > 0 { f(&kid, cursor.reborrow()) }
            assert!(kept());
            f(&left, cursor.reborrow());
            assert!(!kept(), "what was recorded below the slice's own node goes");
            cursor.prepend_to_path(PathComponent { child_idx: 3 });
            f(&above, cursor.reborrow());
            assert!(kept());
        }
        if let Some(f) = &mut cursor_side {
            assert!(matches!(f(&above, Some(Side::Left)), Some(Side::Left)) && f(&above, None).is_none());
            let len = left.leaf().len();
            let s = f(&left, None);
            match s {
                Some(Side::Left) => assert!(l.idx < len, "in the left half"),
                None => assert!(l.idx == len, "the slice in the middle"),
                Some(Side::Right) => assert!(l.idx > len, "in the right half"),
            }
        }
        if l.height == 0 {
            assert!(matches!(over, Some(x) if h(&x) == l.new) && at > 0, "its new size counts from the start");
            assert!(post_op.sizes.is_none() && shift_lhs.is_none(), "and need not be corrected later");
        } else {
            assert!(over.is_none());
            let same = |a: &OpUpdateStateSizes<I>, (o, n, p): (H, H, Option<H>)| h(&a.old_size) == o && h(&a.new_size) == n && a.override_pos.map(|x| h(&x)) == p;
            let sizes = post_op.sizes.as_mut().unwrap();
            let shift = shift_lhs.as_mut().unwrap();
            let (o, n) = (H(21), H(22));
            let raw = |o: H, n: H| OpUpdateStateSizes { override_pos: None, old_size: i(o), new_size: i(n) };
            match unsafe { WHAT } {
                // no split up to the child
                0 => {
                    if l.height > 1 {
                        assert!(shift(&here(l.to, 0), None).is_none(), "not yet");
                        assert!(same(&sizes(&mut kid, ChildOrKey::Child(0), raw(o, n)), (o, n, None)), "not yet");
                    }
                    // the child has its new size by now
                    let child_old = unsafe { OLD };
                    let child_new = H::any_size(4000);
                    set_total::<U, NoFeatures, 1>(l.kid, child_new);
                    let s = sizes(&mut left, ChildOrKey::Child(l.idx + 1), raw(child_old, child_new));
                    assert!(same(&s, (l.old.cat(child_old), l.new.cat(child_new), Some(l.pos))), "the change starts at the left slice, and includes it");

                    assert!(same(&sizes(&mut above, ChildOrKey::Child(3), raw(o, n)), (o, n, None)), "nothing to correct further up");
                }
                // split all the way up to the child
                1 => {
                    if l.height > 1 { assert!(shift(&here(l.to, 0), None).is_none(), "not yet") }
                    let b = shift(&kid, None);
                    assert!(matches!(b, Some(b) if h(&b.pos) == l.pos && h(&b.old_size) == l.old && h(&b.new_size) == l.new), "the step into the left slice's node takes its change along");
                    assert!(same(&sizes(&mut left, ChildOrKey::Key(l.idx + 1), OpUpdateStateSizes { override_pos: Some(i(l.pos)), old_size: i(o), new_size: i(n) }), (o, n, Some(l.pos))), "which is done then");
                    assert!(shift(&left, None).is_none(), "once");
                    assert!(same(&sizes(&mut above, ChildOrKey::Child(3), raw(o, n)), (o, n, None)), "nothing to correct further up");
                }
                _ => (),
            }
        }
        std::mem::forget((fst, snd));
        PostInsertResult::Done
    }
}
static mut OLD: H = H(0);

fn ask<C: Cursor>(l: Left, path: &mut C) {
    let (node, height, idx, new, to, mode) = (l.node, l.height, l.idx, l.new, l.to, if l.lhs_mode { CursorMode::Lhs } else { CursorMode::Fst });
    unsafe { LEFT = Some(l) }
    let mut seen = None;
    let r = {
        let mut cb = unsafe { TraverseUpdate::apply_to_ref(&mut seen) };
        RleTree::<H, U, P, 1>::insert_rhs(
            &mut (), CursorBuilder::new(path), slice_handle(node, height, idx), new, mode,
            SliceSize::new(U { w: H(5) }, H(77)), Some(SliceSize::new(U { w: H(6) }, H(78))), &mut cb,
        )
    };
    assert!(matches!(r, PostInsertResult::Done) && unsafe { CALLS } == 1, "passed on as it is");
    std::mem::forget(r);
    assert!(matches!(seen, Some(s) if s.node.ptr() == to), "who asked is told");
}
fn go(l: Left) {
    go_(l);
    kani::cover!(true, "reached");
}
fn go_(l: Left) {
    if l.nop {
        ask(l, &mut NoCursor);
    } else {
        let mut path = Path::new_empty();
        path.prepend_to_path(PathComponent { child_idx: 9 });
        unsafe { PATH = std::ptr::addr_of!(path.n) }
        ask(l, &mut path);
    }
}
/// The slice to the left is in a leaf.
fn beside(nop: bool) {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let v: View<2> = view(p);
    let idx: usize = if kani::any() { 0 } else { 1 };
    go(Left { node: p, height: 0, idx: idx as u8, pos: v.pos[idx], old: v.w[idx], new: H::any_size(20), to: p, at: idx as u8 + 1, kid: p, lhs_mode: kani::any(), nop })
}
//@ props=C01,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn beside_in_leaf() { beside(false) }
//@ props=C01,C07 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn beside_without_cursor() { beside(true) }

/// The slice to the left has a leaf right below.
fn above(idx: u8, what: u8) {
    let k = [0, 1, 2].map(|_| any_leaf::<U, P, 1>(1, 1, 20));
    let p = any_internal::<U, P, 1>(2, 2, 20, |i| k[i]);
    let v: View<2> = view_internal(p, false);
    let kid = k[idx as usize + 1];
    unsafe { WHAT = what; OLD = v.child(idx as usize + 1) }
    go(Left { node: p, height: 1, idx, pos: v.pos[idx as usize], old: v.w[idx as usize], new: H::any_size(4000), to: kid, at: 0, kid, lhs_mode: kani::any(), nop: false })
}
//@ props=C01,C02,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn above_first() { above(0, 0) }
//@ props=C01,C02,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn above_last() { above(1, 0) }
//@ props=C01,C02,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn above_split() { above(if kani::any() { 0 } else { 1 }, 1) }

/// Two levels up.
fn far_above(what: u8) {
    let t = Three::<P>::any([1, 1, 1, 1]);
    let v: View<1> = { let v: View<2> = view_internal(t.root, false); View { len: v.len, pos: [v.pos[0]], w: [v.w[0]], c: [v.c[0]], last: v.last, total: v.total } };
    unsafe { WHAT = what; OLD = v.last }
    go(Left { node: t.root, height: 2, idx: 0, pos: v.pos[0], old: v.w[0], new: H::any_size(4000), to: t.leaf[2], at: 0, kid: t.mid[1], lhs_mode: kani::any(), nop: false })
}
//@ props=C01,C02,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn far_above_grows() { far_above(0) }
//@ props=C01,C02,C07,C15 tier=quick m=1 fn=tree::insert::insert_rhs assume=tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::inserted)] fn far_above_splits() { far_above(1) }

// ---- ways in ----

static mut JOINED: bool = false;
static mut TRIED: u8 = 0;
fn try_<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, _: CursorBuilder<'c>, len: &mut usize, slice: S, size: I, keys: AdjacentKeys<'t, I, S, P, M>, cb: UpdatesCallback<I, S, P, M>,
) -> Result<PostInsertResult<'t, I, S, P, M>, S> {
    unsafe { TRIED += 1 }
    assert!(*len == 41 && h(&size) == H(77) && matches!(keys.lhs, Some(k) if k.idx == 0) && matches!(keys.rhs, Some(k) if k.idx == 1));
    if unsafe { JOINED } {
        std::mem::forget(slice);
        cb(TraverseUpdate::Insertion { ptr: std::ptr::NonNull::dangling(), height: 0, idx: 0 });
        Ok(PostInsertResult::Done)
    } else {
        Err(slice)
    }
}
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    unsafe fn plain<'m, 't: 'm, 'c: 'm>(
        _: &mut P::SliceRefStore, _: CursorBuilder<'c>, node: NodeHandle<ty::Leaf, borrow::Mut<'t>, I, S, P, M>, at: u8, over: Option<I>,
        fst: SliceSize<I, S>, snd: Option<SliceSize<I, S>>, cb: UpdatesCallback<I, S, P, M>, map: <BubbledInsertState<'t, 'c, I, S, P, M> as MapState>::Map<'m>,
    ) -> PostInsertResult<'t, I, S, P, M> {
        unsafe { CALLS += 1 }
        assert!(node.leaf().len() == 2 && at == 1 && over.is_none() && h(&fst.size) == H(77) && snd.is_none(), "there, and nothing else");
        assert!(map.cursor_side.is_none() && map.shift_lhs.is_none() && map.post_op.cursor.is_none() && map.post_op.sizes.is_none());
        assert!(h(&fst.slice) == H(5));
        std::mem::forget(fst);
        cb(TraverseUpdate::Insertion { ptr: node.ptr(), height: 0, idx: at });
        PostInsertResult::Done
    }
}
//@ props=C01,C02,C24 tier=quick m=1 fn=tree::insert::do_insert_full_edge,tree::insert::do_insert_full assume=tree::insert::do_insert_full_edge_try_join,tree::insert::do_insert_full_edge_no_join
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_edge_try_join, try_)] #[kani::stub(RleTree::do_insert_full_edge_no_join, RleTree::plain)]
fn between_two() {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    unsafe { JOINED = kani::any() }
    let mut len = 41;
    let mut events = 0;
    let mut cb = |_: TraverseUpdate<H, U, P, 1>| events += 1;
    let edge = EdgeInsert {
        node: leaf_handle(p), new_k_idx: 1,
        adjacent_keys: AdjacentKeys { lhs: Some(slice_handle(p, 0, 0)), rhs: Some(slice_handle(p, 0, 1)) },
    };
    let mut path = Path::new_empty();
    let r = unsafe { RleTree::<H, U, P, 1>::do_insert_full(&mut (), CursorBuilder::new(&mut path), &mut len, ChildOrKey::Child(edge), U { w: H(5) }, H(77), &mut cb) };
    assert!(matches!(r, PostInsertResult::Done));
    std::mem::forget(r);
    unsafe {
        assert!(TRIED == 1 && events == 1, "reported once");
        assert!(if JOINED { CALLS == 0 && len == 41 } else { CALLS == 1 && len == 42 }, "one slice more exactly if it did not join");
        kani::cover!(JOINED);
        kani::cover!(!JOINED);
    }
}
static mut CUT: u8 = 0;
fn cut_<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(
    _: &mut P::SliceRefStore, _: CursorBuilder<'c>, len: &mut usize, at: SplitKeyInsert<'t, I, S, P, M>, slice: S, size: I, _: UpdatesCallback<I, S, P, M>,
) -> PostInsertResult<'t, I, S, P, M> {
    unsafe { CUT += 1 }
    assert!(*len == 41 && h(&size) == H(77) && h(&slice) == H(5) && at.handle.idx == 1 && h(&at.pos_in_key) == H(33));
    std::mem::forget(slice);
    PostInsertResult::Done
}
//@ props=C01,C02 tier=quick m=1 fn=tree::insert::do_insert_full assume=tree::insert::do_insert_full_split_key
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::do_insert_full_split_key, cut_)]
fn within_one() {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let mut len = 41;
    let mut cb = |_: TraverseUpdate<H, U, P, 1>| ();
    let mut path = Path::new_empty();
    let at = SplitKeyInsert { handle: slice_handle(p, 0, 1), pos_in_key: H(33) };
    let r = unsafe { RleTree::<H, U, P, 1>::do_insert_full(&mut (), CursorBuilder::new(&mut path), &mut len, ChildOrKey::Key(at), U { w: H(5) }, H(77), &mut cb) };
    assert!(matches!(r, PostInsertResult::Done) && unsafe { CUT } == 1);
    std::mem::forget(r);
    kani::cover!(true, "reached");
}

// ---- all the way up ----

/// What one step upwards may do (its own contract: insert/bubble): go on with the next node, stop
/// there, or find that there is no next one.
static mut STEPS: u8 = 0;
static mut FOUND: u8 = 0;
static mut SIDES: [u8; 4] = [9; 4];
fn side_no(s: &Option<Side>) -> u8 { match s { Some(Side::Left) => 0, Some(Side::Right) => 1, None => 2 } }
fn bubble_step<'t: 't, 'c: 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize>(
    s: BubbledInsertState<'t, 'c, I, S, P, M>, _: &mut P::SliceRefStore, cb: UpdatesCallback<I, S, P, M>,
) -> BubbleStepResult<'t, 'c, I, S, P, M> {
    unsafe {
        assert!(FOUND == 0, "not after the end");
        // what the callbacks made of the last one's result
        assert!(side_no(&s.cursor_side) == (SIDES[STEPS as usize] + 1) % 3, "as mapped");
        assert!(match &s.shift_lhs { Some(b) => h(&b.pos) == H(STEPS as u16), None => false }, "as mapped");
        assert!(s.lhs.height() == STEPS, "the node it is at");
        STEPS += 1;
        cb(TraverseUpdate::Insertion { ptr: s.lhs.ptr(), height: 9, idx: 9 });
        let k: u8 = kani::any();
        let BubbledInsertState { lhs, key, key_size, rhs, old_size, inserted, cursor_builder, .. } = s;
        let up = raw_handle::<borrow::Mut<'t>, I, S, P, M>(lhs.ptr(), STEPS);
        match k {
            0 if STEPS < 3 => {
                let side: u8 = kani::any();
                kani::assume(side < 3);
                SIDES[STEPS as usize] = side;
                let cursor_side = match side { 0 => Some(Side::Left), 1 => Some(Side::Right), _ => None };
                BubbleStepResult::KeepGoing(BubbledInsertState { lhs: up, key, key_size, rhs, old_size, shift_lhs: None, cursor_side, inserted, cursor_builder })
            }
            1 => {
                FOUND = 1;
                std::mem::forget((key, rhs));
                BubbleStepResult::Done(OpUpdateState { child_or_key: ChildOrKey::Key((0, up)), override_pos: None, old_size: i(H(31)), new_size: i(H(32)), cursor_builder })
            }
            _ => {
                FOUND = 2;
                BubbleStepResult::Root(PostInsertResult::NewRoot { lhs: up, key, key_size, rhs })
            }
        }
    }
}
static mut ENDS: u8 = 0;
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    fn end<'m>(self, map: <OpUpdateState<'t, 'c, I, S, P, M> as MapState>::Map<'m>, exit: Option<&mut dyn FnMut(&OpUpdateState<'t, 'c, I, S, P, M>) -> ControlFlow<()>>)
    where Self: 'm {
        unsafe { ENDS += 1; assert!(FOUND == 1) }
        assert!(h(&self.old_size) == H(31) && h(&self.new_size) == H(32) && map.cursor.is_some() && map.sizes.is_some() && exit.is_none(), "continues as it is, with the same callbacks");
    }
}
//@ props=C01,C02,C05,C07 tier=quick m=1 fn=tree::insert::BubbledInsertState::finish,tree::insert::BubbledInsertState::map assume=tree::insert::BubbledInsertState::do_upward_step,tree::fix::OpUpdateState::finish bounded=3-levels
#[kani::proof] #[kani::unwind(5)] #[kani::stub(BubbledInsertState::do_upward_step, bubble_step)] #[kani::stub(OpUpdateState::finish, OpUpdateState::end)]
#[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn all_the_way() {
    let (a, b) = (any_child::<U, P, 1>(20), any_child::<U, P, 1>(20));
    let mut path = Path::new_empty();
    let mut level = 0u8;
    let mut told = 0u8;
    let mut curs = |n: &NodeHandle<ty::Unknown, borrow::Mut, H, U, P, 1>, _: CursorBuilder| { assert!(n.height() == level); level += 1 };
    let mut sizes = |_: &mut NodeHandle<ty::Unknown, borrow::Mut, H, U, P, 1>, _: ChildOrKey<u8, u8>, s: OpUpdateStateSizes<H>| s;
    let mut side = |_: &NodeHandle<ty::Unknown, borrow::Mut, H, U, P, 1>, s: Option<Side>| match s { None => Some(Side::Left), Some(Side::Left) => Some(Side::Right), Some(Side::Right) => None };
    let mut shift = |n: &NodeHandle<ty::Unknown, borrow::Mut, H, U, P, 1>, s: Option<BubbleLhs<H>>| {
        assert!(s.is_none());
        Some(BubbleLhs { pos: H(n.height() as u16), old_size: H(1), new_size: H(2) })
    };
    unsafe { SIDES[0] = 2 }
    let mut cb = |_: TraverseUpdate<H, U, P, 1>| told += 1;
    let s = BubbledInsertState {
        lhs: node_handle::<borrow::Mut, U, P, 1>(a, 0),
        key: node::Key { pos: H::any(), slice: U { w: H(5) }, ref_id: Default::default() },
        key_size: H(77),
        rhs: NodeBox::new(node_handle::<borrow::UniqueOwned, U, P, 1>(b, 0)),
        old_size: H::any(), shift_lhs: None, cursor_side: None, inserted: kani::any(),
        cursor_builder: CursorBuilder::new(&mut path),
    };
    let r = {
        let map = MapBubbledInsertState {
            post_op: MapOpUpdateState { cursor: Some(&mut curs), sizes: Some(&mut sizes) },
            cursor_side: Some(&mut side),
            shift_lhs: Some(&mut shift),
        };
        s.finish(&mut (), map, &mut cb, None)
    };
    unsafe {
        assert!(told == STEPS && level == STEPS, "asked about each node on the way, once");
        match &r {
            PostInsertResult::Done => assert!(FOUND == 1 && ENDS == 1, "what is left is done"),
            PostInsertResult::NewRoot { lhs, key, key_size, rhs } => {
                assert!(FOUND == 2 && ENDS == 0, "a new root is made exactly where there is none");
                assert!(handle_ptr(lhs) == a && lhs.height() == STEPS && key.slice.w == H(5) && *key_size == H(77) && handle_ptr(&*rhs.as_ref()) == b, "of the two halves");
            }
        }
        kani::cover!(FOUND == 1 && STEPS == 3);
        kani::cover!(FOUND == 2 && STEPS == 1);
    }
    std::mem::forget(r);
}

//@ props=C01,C05,C07 tier=quick m=1 fn=tree::insert::BubbledInsertState::do_upward_step
#[kani::proof] #[kani::unwind(5)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, not_freed)]
fn no_parent() {
    let (a, b) = (any_child::<U, P, 1>(20), any_child::<U, P, 1>(20));
    set_parent::<U, P, 1>(a, None);
    let (ta, tb) = (total_of::<U, P, 1>(a), total_of::<U, P, 1>(b));
    let height: u8 = kani::any();
    let mut path = Path::new_empty();
    let mut cb = |_: TraverseUpdate<H, U, P, 1>| assert!(false, "nothing moves");
    let side: u8 = kani::any();
    let (pos, size) = (H::any(), H::any_size(20));
    let s = BubbledInsertState {
        lhs: node_handle::<borrow::Mut, U, P, 1>(a, height),
        key: node::Key { pos, slice: U { w: H(5) }, ref_id: Default::default() },
        key_size: size,
        rhs: NodeBox::new(node_handle::<borrow::UniqueOwned, U, P, 1>(b, height)),
        old_size: H::any(), shift_lhs: None,
        cursor_side: match side { 0 => Some(Side::Left), 1 => Some(Side::Right), _ => None },
        inserted: kani::any(),
        cursor_builder: CursorBuilder::new(&mut path),
    };
    let r = s.do_upward_step(&mut (), &mut cb);
    match &r {
        BubbleStepResult::Root(PostInsertResult::NewRoot { lhs, key, key_size, rhs }) => {
            assert!(handle_ptr(lhs) == a && lhs.height() == height && handle_ptr(&*rhs.as_ref()) == b && key.slice.w == H(5) && *key_size == size, "the halves of a new root");
            assert!(total_of::<U, P, 1>(a) == ta && total_of::<U, P, 1>(b) == tb);
        }
        _ => assert!(false, "there is no parent"),
    }
    std::mem::forget(r);
    assert!(path.resets == 0 && path.n == (side < 2) as usize && (side >= 2 || path.at[0] == side), "the way starts with the half it leads to");
    kani::cover!(side == 1);
}
