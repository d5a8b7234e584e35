//! Contracts of the position arithmetic after a change of size, and of one upward step of it.
use super::super::*;
use crate::cursor::Cursor;
use crate::param::NoFeatures;
use crate::DirectionalSub;
use crate::tree::node::verif::lib::*;

/// a node whose first `from` positions are anything, as long as the changed stretch ends at or
/// before the first one that moves
fn spec<const N: usize>(v: &View<N>, o: &View<N>, from: u8, old_end: H, new_end: H) {
    assert!(o.len == v.len, "no slice more or less");
    for i in 0..N {
        if (i as u8) < v.len {
            assert!(o.w[i] == v.w[i], "slices untouched");
            if (i as u8) < from {
                assert!(o.pos[i] == v.pos[i], "positions before the change stay");
            } else {
                assert!(o.pos[i] == new_end.cat(v.pos[i].sub_left(old_end)), "positions after the change move by it, on its side");
            }
        }
    }
    assert!(o.total == new_end.cat(v.total.sub_left(old_end)), "the node's size moves by it");
}
fn shift<const M: usize, const N: usize, const INTERNAL: bool>() {
    let height = any_height();
    let p = if INTERNAL {
        any_internal::<U, NoFeatures, M>(1, 2 * M as u8, 20, |_| any_child(20))
    } else {
        any_leaf::<U, NoFeatures, M>(0, 2 * M as u8, 20)
    };
    let v: View<N> = view(p);
    let before: [_; 5] = ptrs0::<INTERNAL, M>(p);
    let par = any_parent::<U, NoFeatures, M>(p);
    let from: u8 = kani::any();
    kani::assume(from <= v.len);
    let (pos, old_size, new_size) = (H::any(), H::any(), H::any());
    kani::assume(pos.n() <= 200 && old_size.n() <= 200 && new_size.n() <= 200);
    let (old_end, new_end) = (pos.cat(old_size), pos.cat(new_size));
    kani::assume(old_end.n() <= if from < v.len { v.pos[from as usize].n() } else { v.total.n() });
    let opts = ShiftKeys { from, pos, old_size, new_size };
    let up = new_size > old_size;
    let auto: bool = kani::any();
    // the direction, where the caller gives it, may be the right one only
    unsafe {
        if INTERNAL {
            let mut h = internal_handle::<borrow::Mut, U, NoFeatures, M>(p, height);
            if auto { shift_keys_auto(&mut h, opts) } else if up { shift_keys_increase(&mut h, opts) } else { shift_keys_decrease(&mut h, opts) }
        } else {
            let mut h = leaf_handle::<borrow::Mut, U, NoFeatures, M>(p);
            if auto { shift_keys_auto(&mut h, opts) } else if up { shift_keys_increase(&mut h, opts) } else { shift_keys_decrease(&mut h, opts) }
        }
    }
    let o: View<N> = view(p);
    spec(&v, &o, from, old_end, new_end);
    assert!(parent_of::<U, NoFeatures, M>(p) == par, "parent untouched");
    assert!(ptrs0::<INTERNAL, M>(p) == before, "children untouched");
    kani::cover!(up && from == 0 && v.len as usize == 2 * M);
    kani::cover!(!up && auto && from == v.len);
}
fn ptrs0<const INTERNAL: bool, const M: usize>(p: NP<U, NoFeatures, M>) -> [Option<NP<U, NoFeatures, M>>; 5] {
    if INTERNAL { ptrs::<U, NoFeatures, M, 5>(p) } else { [None; 5] }
}
//@ props=C15,C02,C05 tier=quick m=1 fn=tree::fix::shift_keys,tree::fix::shift_keys_auto,tree::fix::shift_keys_increase,tree::fix::shift_keys_decrease
#[kani::proof] #[kani::unwind(6)] fn shift_leaf_1() { shift::<1, 2, false>() }
//@ props=C15,C02,C05 tier=quick late=C02 m=2 fn=tree::fix::shift_keys,tree::fix::shift_keys_auto,tree::fix::shift_keys_increase,tree::fix::shift_keys_decrease
#[kani::proof] #[kani::unwind(6)] fn shift_leaf_2() { shift::<2, 4, false>() }
//@ props=C15,C02,C05 tier=quick m=1 fn=tree::fix::shift_keys,tree::fix::shift_keys_auto
#[kani::proof] #[kani::unwind(6)] fn shift_internal_1() { shift::<1, 2, true>() }
//@ props=C15,C02,C05 tier=thorough m=2 fn=tree::fix::shift_keys,tree::fix::shift_keys_auto
#[kani::proof] #[kani::unwind(6)] fn shift_internal_2() { shift::<2, 4, true>() }

/// After one child or one slice of an otherwise consistent node changed its size, one step makes
/// the node consistent again and passes exactly its own change on to its parent.
fn step<const M: usize, const N: usize, const CHILD: bool, const LEAF: bool>() {
    let height = any_height();
    let p = if LEAF {
        any_leaf::<U, NoFeatures, M>(1, 2 * M as u8, 20)
    } else {
        any_internal::<U, NoFeatures, M>(1, 2 * M as u8, 20, |_| any_child(20))
    };
    let read = |p| -> View<N> { if LEAF { view(p) } else { view_internal(p, true) } };
    let v = read(p);
    let top: bool = kani::any();
    // the parent is not looked at
    let q = any_child::<U, NoFeatures, M>(20);
    let qi: u8 = kani::any();
    set_parent::<U, NoFeatures, M>(p, if top { None } else { Some((q, qi)) });
    let qt = view_total::<M>(q);
    let i: u8 = kani::any();
    kani::assume(if CHILD { i <= v.len } else { i < v.len });
    let new = H::any_size(20);
    let mut path = Path::new_empty();
    let (old, handle);
    if CHILD {
        old = v.child(i as usize);
        set_total::<U, NoFeatures, M>(child_ptr::<U, NoFeatures, M>(p, i as usize), new);
        handle = ChildOrKey::Child((i, internal_handle::<borrow::Mut, U, NoFeatures, M>(p, height)));
    } else {
        old = v.w[i as usize];
        unsafe { set_word::<U, NoFeatures, M>(p, i as usize, new) };
        handle = ChildOrKey::Key((i, node_handle::<borrow::Mut, U, NoFeatures, M>(p, if LEAF { 0 } else { height })));
    }
    let override_pos = if CHILD || kani::any() { None } else { Some(v.pos[i as usize]) };
    let s = OpUpdateState { child_or_key: handle, override_pos, old_size: old, new_size: new, cursor_builder: CursorBuilder::new(&mut path) };
    match s.do_upward_step() {
        Ok(()) => assert!(top, "the walk ends at the root only"),
        Err(OpUpdateState { child_or_key: ChildOrKey::Child((c, n)), override_pos, old_size, new_size, .. }) => {
            assert!(!top && c == qi && handle_ptr(&n) == q && n.height() == if LEAF { 1 } else { height + 1 }, "continues at this node's place in its parent");
            assert!(override_pos.is_none());
            assert!(old_size == v.total && new_size == view_total::<M>(p), "passes on this node's change of size");
        }
        Err(_) => assert!(false, "continues with a child"),
    }
    let o = read(p);
    assert!(o.ok(), "positions and sizes add up again");
    for j in 0..N {
        if (j as u8) < v.len {
            assert!(o.w[j] == if !CHILD && j as u8 == i { new } else { v.w[j] }, "no other slice changes");
        }
    }
    assert!(path.n == 0 && path.resets == 0, "the cursor is somebody else's business");
    assert!(view_total::<M>(q) == qt, "the parent is not touched yet");
    kani::cover!(new > old && !top && i == 0 && v.len as usize == 2 * M);
    kani::cover!(new < old);
}
fn view_total<const M: usize>(p: NP<U, NoFeatures, M>) -> H {
    unsafe { leaf_at::<U, NoFeatures, M>(p) }.subtree_size()
}
//@ props=C02,C05,C15 tier=quick m=1 fn=tree::fix::OpUpdateState::do_upward_step,tree::fix::shift_keys
#[kani::proof] #[kani::unwind(6)] fn step_child_1() { step::<1, 2, true, false>() }
//@ props=C02,C05,C15 tier=thorough m=2 fn=tree::fix::OpUpdateState::do_upward_step,tree::fix::shift_keys
#[kani::proof] #[kani::unwind(6)] fn step_child_2() { step::<2, 4, true, false>() }
//@ props=C02,C05,C15 tier=quick m=1 fn=tree::fix::OpUpdateState::do_upward_step,tree::fix::shift_keys
#[kani::proof] #[kani::unwind(6)] fn step_key_leaf_1() { step::<1, 2, false, true>() }
//@ props=C02,C05,C15 tier=quick m=2 fn=tree::fix::OpUpdateState::do_upward_step,tree::fix::shift_keys
#[kani::proof] #[kani::unwind(6)] fn step_key_leaf_2() { step::<2, 4, false, true>() }
//@ props=C02,C05,C15 tier=quick m=1 fn=tree::fix::OpUpdateState::do_upward_step,tree::fix::shift_keys
#[kani::proof] #[kani::unwind(6)] fn step_key_internal_1() { step::<1, 2, false, false>() }
