//! Contracts of the walk upwards, and of what keeps track of one slice while others move.
use super::super::*;
use crate::cursor::Cursor;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;

/// What `do_upward_step` is allowed to do as far as this node's place in the walk goes (its own
/// contract is in keys.rs): stop, or continue with any child of any node.
static mut LEVELS: u8 = 0;
static mut IDX: [u8; 3] = [0; 3];
fn any_step<'t: 't, 'c: 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize>(
    s: OpUpdateState<'t, 'c, I, S, P, M>,
) -> Result<(), OpUpdateState<'t, 'c, I, S, P, M>> {
    unsafe {
        if LEVELS == 3 || kani::any() { return Ok(()) }
        let c: u8 = kani::any();
        IDX[LEVELS as usize] = c;
        LEVELS += 1;
        // the node itself is not looked at by the walk
        let node = match s.child_or_key {
            ChildOrKey::Key((_, n)) => n,
            ChildOrKey::Child((_, n)) => n.erase_type(),
        };
        let n = node_as_internal(node);
        Err(OpUpdateState { child_or_key: ChildOrKey::Child((c, n)), override_pos: None, old_size: s.old_size, new_size: s.new_size, cursor_builder: s.cursor_builder })
    }
}
fn node_as_internal<'t, I, S, P: RleTreeConfig<I, S, M>, const M: usize>(n: NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>) -> NodeHandle<ty::Internal, borrow::Mut<'t>, I, S, P, M> {
    match n.into_typed() {
        super::super::super::node::Type::Internal(n) => n,
        super::super::super::node::Type::Leaf(_) => unreachable!(),
    }
}
//@ props=C07,C02 tier=quick m=2 fn=tree::fix::OpUpdateState::finish,tree::fix::OpUpdateState::map assume=tree::fix::OpUpdateState::do_upward_step
#[kani::proof] #[kani::unwind(6)]
#[kani::stub(OpUpdateState::do_upward_step, any_step)]
fn finish() {
    const M: usize = 2;
    let p = any_child::<U, NoFeatures, M>(20);
    let height = any_height();
    let i: u8 = kani::any();
    let key: bool = kani::any();
    let node = internal_handle::<borrow::Mut, U, NoFeatures, M>(p, height);
    let mut path = Path::new_empty();
    let (old, new, ov) = (H::any(), H::any(), H::any());
    let mut calls = 0u8;
    let stop: u8 = kani::any();
    let mut exits = 0u8;
    let mut cur = |n: &NodeHandle<ty::Unknown, borrow::Mut, H, U, NoFeatures, M>, mut b: CursorBuilder| {
        assert!(n.height() == height);
        calls += 1;
        // after this level's component
        b.prepend_to_path(PathComponent { child_idx: 200 });
    };
    let mut sizes = |_: &mut NodeHandle<ty::Unknown, borrow::Mut, H, U, NoFeatures, M>, ck: ChildOrKey<u8, u8>, s: OpUpdateStateSizes<H>| {
        match ck {
            ChildOrKey::Key(k) => assert!(key && k == i),
            ChildOrKey::Child(_) => (),
        }
        OpUpdateStateSizes { override_pos: s.override_pos, old_size: s.old_size, new_size: s.new_size }
    };
    let mapped: bool = kani::any();
    {
        let mut m = OpUpdateState::<H, U, NoFeatures, M>::identity();
        if mapped {
            m.cursor = Some(&mut cur);
            m.sizes = Some(&mut sizes);
        }
        let s = OpUpdateState {
            child_or_key: if key { ChildOrKey::Key((i, node.erase_type())) } else { ChildOrKey::Child((i, node)) },
            override_pos: Some(ov), old_size: old, new_size: new, cursor_builder: CursorBuilder::new(&mut path),
        };
        let mut exit = |s: &OpUpdateState<H, U, NoFeatures, M>| {
            assert!(s.old_size == old && s.new_size == new, "nothing maps the sizes");
            exits += 1;
            if exits == stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        };
        if kani::any() { s.finish(m, Some(&mut exit)) } else { s.finish(m, None) }
    }
    // one component for every level reached through a child, in order, and the callback after each
    let levels = unsafe { LEVELS };
    let mut n = 0;
    if !key { assert!(path.n > 0 && path.at[0] == i, "the first level's child"); n = 1 }
    if mapped { kani::cover!(key); return }
    for l in 0..3 {
        if l < levels {
            assert!(path.at[n] == unsafe { IDX[l as usize] }, "each level's child index, bottom up");
            n += 1;
        }
    }
    assert!(path.n == n, "one component per level");
    kani::cover!(levels == 3 && !key);
    kani::cover!(key && levels == 2);
}

type R<const M: usize> = Option<SliceHandle<ty::Unknown, borrow::SliceRef, H, U, NoFeatures, M>>;
/// Any three changes, as the tree may report them, against what they mean.
fn track<const M: usize>() {
    let a = any_leaf::<U, NoFeatures, M>(1, 2 * M as u8, 20);
    let b = any_leaf::<U, NoFeatures, M>(1, 2 * M as u8, 20);
    let (la, lb) = (len(a), len(b));
    let pick = |x: bool| if x { (a, la) } else { (b, lb) };
    let mut at: Option<(NP<U, NoFeatures, M>, u8)> = None;
    let mut present = kani::any();
    let mut r: R<M> = None;
    if present {
        let (p, l) = pick(kani::any());
        let i: u8 = kani::any();
        kani::assume(i < l);
        at = Some((p, i));
        r = Some(unsafe { SliceHandle::from_raw_parts(p, 0, i) });
    }
    {
        let mut f = unsafe { TraverseUpdate::apply_to_ref(&mut r) };
        for _ in 0..3 {
            let (p, l) = pick(kani::any());
            let idx: u8 = kani::any();
            let kind: u8 = kani::any();
            kani::assume(kind < 4 && (kind == 1 || idx < l));
            match kind {
                0 => {
                    // at most one insertion, and never of something already there
                    kani::assume(!present);
                    f(TraverseUpdate::Insertion { ptr: p, height: 0, idx });
                    at = Some((p, idx));
                    present = true;
                    kani::cover!(true);
                }
                1 => {
                    let (q, ql) = pick(kani::any());
                    let (from, to, n): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
                    kani::assume(n <= 2 * M as u8 && from <= 2 * M as u8 && to <= ql && to + n <= ql);
                    f(TraverseUpdate::Move { old_ptr: p, old_range: from..from + n, new_ptr: q, new_height: 0, new_range: to..to + n });
                    if let Some((x, i)) = at {
                        if x == p && i >= from && i - from < n { at = Some((q, to + (i - from))); kani::cover!(to > from && p != q); }
                    }
                }
                2 => {
                    // nothing is taken away twice
                    kani::assume(!present || at.is_some());
                    f(TraverseUpdate::Remove { ptr: p, height: 0, idx });
                    if at == Some((p, idx)) { at = None; kani::cover!(true); }
                }
                _ => {
                    f(TraverseUpdate::PutBack { ptr: p, height: 0, idx });
                    if present && at.is_none() { at = Some((p, idx)); kani::cover!(true); }
                }
            }
        }
    }
    match (&r, at) {
        (None, None) => (),
        (Some(h), Some((p, i))) => assert!(h.node.ptr() == p && h.node.height() == 0 && h.idx == i, "the reference follows its slice"),
        _ => assert!(false, "the reference is there exactly when its slice is"),
    }
}
fn len<const M: usize>(p: NP<U, NoFeatures, M>) -> u8 { unsafe { leaf_at::<U, NoFeatures, M>(p) }.len() }
//@ props=C08 tier=quick m=1 fn=tree::fix::TraverseUpdate::apply_to_ref
#[kani::proof] #[kani::unwind(5)] fn track_1() { track::<1>() }
//@ props=C08 tier=quick m=3 fn=tree::fix::TraverseUpdate::apply_to_ref
#[kani::proof] #[kani::unwind(8)] fn track_3() { track::<3>() }

//@ props=C08 tier=quick m=2 fn=tree::fix::TraverseUpdate::split,tree::fix::TraverseUpdate::skip_insertions,tree::fix::TraverseUpdate::insert,tree::fix::TraverseUpdate::put_back,tree::fix::TraverseUpdate::do_nothing
#[kani::proof] #[kani::unwind(6)]
fn reports() {
    const M: usize = 2;
    let a = any_leaf::<U, NoFeatures, M>(0, 2 * M as u8, 20);
    let b = any_leaf::<U, NoFeatures, M>(0, 2 * M as u8, 20);
    let (la, lb) = (len(a), len(b));
    // a split of the first `la + 1 + lb` slices at `la`
    let lhs = leaf_handle::<borrow::Mut, U, NoFeatures, M>(a);
    let rhs = leaf_handle::<borrow::UniqueOwned, U, NoFeatures, M>(b);
    let mut moved = 0u8;
    let mut removed = 0u8;
    {
        let mut f = TraverseUpdate::skip_insertions(|u: TraverseUpdate<H, U, NoFeatures, M>| match u {
            TraverseUpdate::Insertion { .. } => assert!(false, "insertions are left out"),
            TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range } => {
                assert!(old_ptr == a && new_ptr == b && new_height == 0);
                assert!(old_range == (la + 1..la + 1 + lb) && new_range == (0..lb), "everything after the middle moves to the new node");
                moved += 1;
            }
            TraverseUpdate::Remove { ptr, height, idx } => {
                assert!(ptr == a && height == 0 && idx == la, "the middle is taken out");
                removed += 1;
            }
            TraverseUpdate::PutBack { ptr, height, idx } => {
                assert!(ptr == a && height == 7 && idx == 1);
                removed += 10;
            }
        });
        for u in TraverseUpdate::split(&lhs, la, &rhs) { f(u) }
        let h = slice_handle::<borrow::Mut, U, NoFeatures, M>(a, 7, 1);
        f(TraverseUpdate::insert(&h));
        f(TraverseUpdate::put_back(&h));
    }
    assert!(moved == 1 && removed == 11);
    for u in TraverseUpdate::split(&lhs, la, &rhs) { u.do_nothing() }
    kani::cover!(la == 0 && lb == 4);
    std::mem::forget(rhs);
}
