//! Contracts of what a reference to a slice denotes: the slot it counts on says where the slice is,
//! or that it is gone.
//!
//! The store's slots are a counted set (its own contract: recycle/vec.rs). Here a store has three
//! slots that any number of references count on, each saying any of the things it can say.
use super::super::*;
use crate::param::{BorrowState as _, RleTreeConfig};
use crate::param::SliceRefStore as _;
use crate::tree::node::verif::lib::*;

type P = AllowSliceRefs;
type Inner = InnerStore<H, U, 1>;
type Store = SliceRefStore<H, U, 1>;
type Ref = SliceRef<H, U, 1>;
type Stored = StoredSliceRef<H, U, 1>;

/// What a slot says.
#[derive(Copy, Clone, PartialEq)]
enum Says {
    Here(NP<U, P, 1>, u8, u8),
    Suspended,
    Removed,
    Elsewhere,
}
fn says(s: &Stored) -> Says {
    match s {
        StoredSliceRef::Handle(Some(h)) => Says::Here(handle_ptr(&h.node), h.node.height(), h.idx),
        StoredSliceRef::Handle(None) => Says::Suspended,
        StoredSliceRef::Removed => Says::Removed,
        StoredSliceRef::Redirect(_) => Says::Elsewhere,
    }
}
/// A reference id of this slot, made by counting it (`extra` times more).
struct Made {
    inner: NonNull<Inner>,
    ids: [Option<RefId>; 3],
}
fn handle(p: NP<U, P, 1>, i: u8) -> SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, 1> { slice_handle(p, 0, i) }
/// A store with a slot for each of `what`, each counted once.
fn make(what: [Option<Says>; 3]) -> Made {
    let mut v = RecycleVec::default();
    let mut ids = [None, None, None];
    for i in 0..3 {
        if let Some(w) = what[i] {
            ids[i] = Some(v.push(match w {
                Says::Here(p, _, i) => StoredSliceRef::Handle(Some(handle(p, i))),
                Says::Suspended => StoredSliceRef::Handle(None),
                Says::Removed => StoredSliceRef::Removed,
                Says::Elsewhere => panic!(),
            }));
        }
    }
    let inner = InnerStore::alloc(InnerStore {
        borrow: Cell::new(BorrowState::NotBorrowed),
        refs: RefCell::new(v),
        root: Cell::new(None),
        weak_count: Cell::new(1),
    });
    Made { inner, ids }
}
fn refs<'a>(p: NonNull<Inner>) -> &'a RefCell<RecycleVec<Stored>> { unsafe { &(*p.as_ptr()).refs } }
fn store(p: NonNull<Inner>) -> mem::ManuallyDrop<Store> {
    mem::ManuallyDrop::new(SliceRefStore { inner: p, marker: PhantomData })
}
/// How many count on the slot.
fn counted(p: NonNull<Inner>, id: &RefId) -> usize { crate::recycle::verif::lib::count_of(&*refs(p).borrow(), id) }
fn says_at(p: NonNull<Inner>, id: &RefId) -> Says { says(refs(p).borrow().get(id)) }
fn same(id: &RefId) -> RefId { unsafe { id.clone_because_vec_is_dropped() } }
fn refid(p: NP<U, P, 1>, i: u8) -> Option<RefId> {
    // looked at, and put back
    let h = handle(p, i);
    let x = h.take_refid();
    let y = x.as_ref().map(same);
    mem::forget(h.replace_refid(x));
    y
}
fn set_refid(p: NP<U, P, 1>, i: u8, id: Option<RefId>) { mem::forget(handle(p, i).replace_refid(id)) }

/// A reference to a slice that has none yet gets a slot saying where the slice is.
//@ props=C08,C18 tier=quick m=1 fn=SliceRefStore::make_ref
#[kani::proof]
#[kani::unwind(6)]
fn first_reference() {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let m = make([None; 3]);
    let i: u8 = if kani::any() { 0 } else { 1 };
    let r = mem::ManuallyDrop::new(store(m.inner).make_ref(handle(p, i)));
    assert!(r.inner == m.inner && unsafe { m.inner.as_ref() }.weak_count.get() == 2, "the reference keeps the store");
    let id = r.id.take().expect("denotes something");
    assert!(says_at(m.inner, &id) == Says::Here(p, 0, i), "the slice it was made for");
    assert!(refid(p, i) == Some(same(&id)), "the slice knows its slot");
    assert!(refid(p, 1 - i).is_none(), "no other slice does");
    assert!(counted(m.inner, &id) == 2, "counted for the slice and the reference");
    kani::cover!(true, "reached");
}
/// Another reference to the same slice counts on the same slot.
//@ props=C08,C18 tier=quick m=1 fn=SliceRefStore::make_ref
#[kani::proof]
#[kani::unwind(6)]
fn another_reference() {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let mut m = make([Some(Says::Here(p, 0, 0)), Some(Says::Here(p, 0, 1)), None]);
    let (a, b) = (m.ids[0].take().unwrap(), m.ids[1].take().unwrap());
    set_refid(p, 0, Some(same(&a)));
    set_refid(p, 1, Some(same(&b)));
    let r = mem::ManuallyDrop::new(store(m.inner).make_ref(handle(p, 1)));
    assert!(r.id.take() == Some(same(&b)), "the same slot");
    assert!(refid(p, 1) == Some(same(&b)) && refid(p, 0) == Some(same(&a)));
    assert!(says_at(m.inner, &b) == Says::Here(p, 0, 1) && says_at(m.inner, &a) == Says::Here(p, 0, 0));
    assert!(counted(m.inner, &b) == 2 && counted(m.inner, &a) == 1);
    assert!(unsafe { m.inner.as_ref() }.weak_count.get() == 2);
    kani::cover!(true, "reached");
}
fn any_handle(p: NP<U, P, 1>, here: bool) -> Says {
    if here { Says::Here(p, 0, kani::any()) } else { Says::Suspended }
}
fn moved(here: bool) {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let q = any_leaf::<U, P, 1>(1, 1, 20);
    let (x, y) = (any_handle(q, here), any_handle(q, true));
    let mut m = make([Some(x), Some(y), None]);
    let (a, b) = (m.ids[0].take(), m.ids[1].take().unwrap());
    let mut s = store(m.inner);
    unsafe { param::SliceRefStore::<H, U, P, 1>::update(&mut *s, &a, handle(p, 1)) };
    let a = a.unwrap();
    assert!(says_at(m.inner, &a) == Says::Here(p, 0, 1), "where it moved to");
    assert!(says_at(m.inner, &b) == y, "others stay");
    let a = Some(a);
    param::SliceRefStore::<H, U, P, 1>::suspend(&mut *s, &a);
    let a = a.unwrap();
    assert!(says_at(m.inner, &a) == Says::Suspended);
    assert!(says_at(m.inner, &b) == y, "others stay");
    // a slice without references has nothing to be told
    unsafe { param::SliceRefStore::<H, U, P, 1>::update(&mut *s, &None, handle(p, 0)) };
    param::SliceRefStore::<H, U, P, 1>::suspend(&mut *s, &None);
    param::SliceRefStore::<H, U, P, 1>::remove(&mut *s, None);
    assert!(says_at(m.inner, &a) == Says::Suspended && says_at(m.inner, &b) == y);
    assert!(counted(m.inner, &a) == 1 && counted(m.inner, &b) == 1);
    kani::cover!(true, "reached");
}
//@ props=C08 tier=quick m=1 fn=SliceRefStore::update,SliceRefStore::suspend
#[kani::proof] #[kani::unwind(6)] fn moved_from_place() { moved(true) }
//@ props=C08 tier=quick m=1 fn=SliceRefStore::update,SliceRefStore::suspend
#[kani::proof] #[kani::unwind(6)] fn moved_from_nowhere() { moved(false) }
fn remove(here: bool, others: bool) {
    let q = any_leaf::<U, P, 1>(1, 1, 20);
    let (x, y) = (any_handle(q, here), any_handle(q, true));
    let mut m = make([Some(x), Some(y), None]);
    let (a, b) = (m.ids[0].take().unwrap(), m.ids[1].take().unwrap());
    let mut s = store(m.inner);
    if others { mem::forget(refs(m.inner).borrow().clone(&a)) }
    let keep = same(&a);
    param::SliceRefStore::<H, U, P, 1>::remove(&mut *s, Some(a));
    if others {
        assert!(says_at(m.inner, &keep) == Says::Removed, "whoever still counts on it is told");
        assert!(counted(m.inner, &keep) == 1);
    }
    assert!(says_at(m.inner, &b) == y && counted(m.inner, &b) == 1, "others stay");
    kani::cover!(true, "reached");
}
//@ props=C08 tier=quick m=1 fn=SliceRefStore::remove
#[kani::proof] #[kani::unwind(6)] fn removed() { remove(true, false) }
//@ props=C08 tier=quick m=1 fn=SliceRefStore::remove
#[kani::proof] #[kani::unwind(6)] fn removed_referred() { remove(true, true) }
//@ props=C08 tier=quick m=1 fn=SliceRefStore::remove
#[kani::proof] #[kani::unwind(6)] fn removed_suspended() { remove(false, true) }
/// Where only one of two joined slices is referred to, its references go on counting on its slot.
fn join(moved: bool) {
    let q = any_leaf::<U, P, 1>(1, 1, 20);
    let x = any_handle(q, true);
    let mut m = make([Some(x), None, None]);
    let a = m.ids[0].take().unwrap();
    let keep = same(&a);
    let mut s = store(m.inner);
    let (mut from, mut to) = if moved { (Some(a), None) } else { (None, Some(a)) };
    param::SliceRefStore::<H, U, P, 1>::redirect(&mut *s, &mut from, &mut to);
    assert!(to == Some(same(&keep)), "the joined slice has the slot");
    assert!(says_at(m.inner, &keep) == x);
    assert!(counted(m.inner, &keep) == if moved { 2 } else { 1 });
    let (mut from, mut to) = (None, None);
    param::SliceRefStore::<H, U, P, 1>::redirect(&mut *s, &mut from, &mut to);
    assert!(from.is_none() && to.is_none());
    mem::forget((from, to));
    kani::cover!(true, "reached");
}
//@ props=C08 tier=quick m=1 fn=SliceRefStore::redirect
#[kani::proof] #[kani::unwind(6)] fn joined_from() { join(true) }
//@ props=C08 tier=quick m=1 fn=SliceRefStore::redirect
#[kani::proof] #[kani::unwind(6)] fn joined_to() { join(false) }
fn with<R>(p: NonNull<Inner>, id: Option<RefId>, s: BorrowState, f: impl FnOnce(&Ref) -> R) -> (R, Option<RefId>) {
    unsafe { p.as_ref() }.borrow.set(s);
    let r = mem::ManuallyDrop::new(SliceRef { inner: p, id: Cell::new(id), marker: PhantomData });
    let x = f(&r);
    (x, r.id.take())
}
fn open(s: BorrowState) -> bool {
    matches!(s, BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. })
}
fn gone(s: BorrowState) -> bool {
    matches!(s, BorrowState::Dropping | BorrowState::Dropped | BorrowState::Immutable { drop_if_zero: true, .. })
}
/// A state of this kind.
fn state(kind: u8) -> (BorrowState, usize) {
    // (any other number of borrows: state.rs)
    let n: usize = 2;
    let count = NonZeroUsize::new(n).unwrap();
    match kind {
        0 => (BorrowState::NotBorrowed, 0),
        1 => (BorrowState::Immutable { count, drop_if_zero: false }, n),
        2 => (BorrowState::Immutable { count, drop_if_zero: true }, n),
        3 => (BorrowState::Mutable, 0),
        4 => (BorrowState::Dropping, 0),
        _ => (BorrowState::Dropped, 0),
    }
}
/// Two slots, references to the second of which are looked at.
fn second(y: Says) -> (NonNull<Inner>, RefId, RefId) {
    let mut m = make([Some(Says::Suspended), Some(y), None]);
    let (a, b) = (m.ids[0].take().unwrap(), m.ids[1].take().unwrap());
    // the slice counts on the slot as well
    if y != Says::Removed { mem::forget(refs(m.inner).borrow().clone(&b)) }
    (m.inner, a, b)
}
fn present(kind: u8) {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let v: View<2> = view(p);
    let i: u8 = 1;
    let (inner, _, b) = second(Says::Here(p, 0, i));
    let (s, n) = state(kind);
    let keep = same(&b);
    let cell = unsafe { &(*inner.as_ptr()).borrow };
    let (_, id) = with(inner, Some(b), s, |r| {
        match r.try_borrow_slice() {
            Some(x) => {
                assert!(open(s), "only while nobody changes or has dropped the tree");
                assert!(x.w == v.w[i as usize], "the slice it denotes");
                assert!(cell.get() == BorrowState::Immutable { count: NonZeroUsize::new(n + 1).unwrap(), drop_if_zero: false });
                drop(x);
                assert!(cell.get() == s, "and that borrow ended");
            }
            None => {
                assert!(!open(s));
                assert!(cell.get() == s);
            }
        }
    });
    assert!(id == Some(same(&keep)), "the reference is as before");
    assert!(says_at(inner, &keep) == Says::Here(p, 0, i) && counted(inner, &keep) == 2);
    kani::cover!(true, "reached");
}
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_free() { present(0) }
//@ props=C08,C09,C23 tier=thorough m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_borrowed() { present(1) }
//@ props=C08,C09,C23 tier=thorough m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_waiting() { present(2) }
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_changing() { present(3) }
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_dropping() { present(4) }
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::try_temporary_borrow,TemporaryBorrow::into_borrow
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn borrow_dropped() { present(5) }
// A slot that says `Removed` is never produced on any reachable path of this commit (no caller of
// `SliceRefStore::remove`), and `collapse_refs` would panic on it; only the refusals before it is
// looked at are stated here. See DESIGN.md, latent defects.
fn absent(kind: u8, had: bool, borrow: bool) {
    let (inner, _, b) = second(Says::Removed);
    let (s, _) = state(kind);
    let cell = unsafe { &(*inner.as_ptr()).borrow };
    let (_, id) = with(inner, if had { Some(b) } else { None }, s, |r| {
        if borrow {
            assert!(r.try_borrow_slice().is_none(), "no slice any more");
        } else {
            assert!(!r.is_valid());
        }
        assert!(cell.get() == s, "nothing stays borrowed");
    });
    if !gone(s) && (!borrow || open(s)) { assert!(id.is_none(), "the slot is given up") }
    kani::cover!(true, "reached");
}
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::is_valid,TemporaryBorrow::drop
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn removed_waiting() { absent(2, true, true) }
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs,SliceRef::is_valid,TemporaryBorrow::drop
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn removed_changing() { absent(3, true, true) }
//@ props=C08,C09,C23 tier=quick m=1 fn=SliceRef::try_borrow_slice,SliceRef::collapse_refs
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn never_valid() { absent(0, false, true) }
fn valid(kind: u8, here: bool) {
    let p = any_leaf::<U, P, 1>(1, 1, 20);
    let y = any_handle(p, here);
    let (inner, a, b) = second(y);
    let (s, _) = state(kind);
    let keep = same(&b);
    let cell = unsafe { &(*inner.as_ptr()).borrow };
    let (v, id) = with(inner, Some(b), s, |r| r.is_valid());
    assert!(v == !gone(s), "valid as long as slice and tree are there");
    assert!(cell.get() == s);
    assert!(id == Some(same(&keep)) && says_at(inner, &keep) == y);
    assert!(counted(inner, &keep) == 2 && counted(inner, &a) == 1);
    kani::cover!(true, "reached");
}
//@ props=C08,C23 tier=quick m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_free() { valid(0, true) }
//@ props=C08,C23 tier=thorough m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_borrowed() { valid(1, true) }
//@ props=C08,C23 tier=thorough m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_waiting() { valid(2, true) }
//@ props=C08,C23 tier=quick m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_changing() { valid(3, false) }
//@ props=C08,C23 tier=quick m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_dropping() { valid(4, true) }
//@ props=C08,C23 tier=quick m=1 fn=SliceRef::is_valid
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn valid_dropped() { valid(5, true) }
fn copy(kind: u8, here: bool, had: bool) {
    let p = any_leaf::<U, P, 1>(1, 1, 20);
    let y = if here { any_handle(p, true) } else { Says::Removed };
    let (inner, a, b) = second(y);
    let n = if y == Says::Removed { 1 } else { 2 };
    let (s, _) = state(kind);
    let keep = same(&b);
    let (c, id) = with(inner, if had { Some(b) } else { None }, s, |r| mem::ManuallyDrop::new(r.clone()));
    assert!(c.inner == inner && unsafe { inner.as_ref() }.weak_count.get() == 2, "a reference of its own");
    let cid = c.id.take();
    if had && !gone(s) {
        assert!(id == Some(same(&keep)) && cid == Some(same(&keep)), "both denote what the first did");
        assert!(says_at(inner, &keep) == y && counted(inner, &keep) == n + 1);
    } else {
        assert!(cid.is_none());
        assert!(says_at(inner, &keep) == y && counted(inner, &keep) == n);
    }
    assert!(counted(inner, &a) == 1);
    kani::cover!(true, "reached");
}
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied() { copy(0, true, true) }
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied_removed() { copy(1, false, true) }
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied_changing() { copy(3, true, true) }
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied_waiting() { copy(2, true, true) }
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied_dropped() { copy(5, true, true) }
//@ props=C08,C23,C12 tier=quick m=1 fn=SliceRef::clone
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn copied_invalid() { copy(0, true, false) }
/// Where the slice is, in a tree of height two.
fn place(k: usize) {
    let t = Three::<P>::any([1, 2, 1, 1]);
    let ((p, h, i), end) = t.nth(k);
    let start = if k == 0 { H::ZERO } else { t.nth(k - 1).1 };
    let x: SliceHandle<ty::Unknown, borrow::SliceRef, H, U, P, 1> = slice_handle(p, h, i);
    let r = x.range();
    assert!(r.start == start && r.end == end, "the range the slice takes up");
    kani::cover!(true, "reached");
}
//@ props=C08,C15 tier=quick m=1 fn=SliceHandle::range
#[kani::proof] #[kani::unwind(5)] fn place_first() { place(0) }
//@ props=C08,C15 tier=quick m=1 fn=SliceHandle::range
#[kani::proof] #[kani::unwind(5)] fn place_leaf() { place(3) }
//@ props=C08,C15 tier=quick m=1 fn=SliceHandle::range
#[kani::proof] #[kani::unwind(5)] fn place_root() { place(4) }
//@ props=C08,C15 tier=quick m=1 fn=SliceHandle::range
#[kani::proof] #[kani::unwind(5)] fn place_key() { place(6) }
//@ props=C08,C15 tier=quick m=1 fn=SliceHandle::range
#[kani::proof] #[kani::unwind(5)] fn place_last() { place(7) }

/// Asking a reference for its slice's range and the way to it leaves nothing borrowed.
fn whereabouts(kind: u8) {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let root = any_internal::<U, P, 1>(1, 1, 20, |i| if i == 1 { p } else { any_child(20) });
    let v: View<2> = view(p);
    let top: View<2> = view_internal(root, true);
    let (inner, _, b) = second(Says::Here(p, 0, 1));
    let (s, _) = state(kind);
    let cell = unsafe { &(*inner.as_ptr()).borrow };
    let (_, id) = with(inner, Some(b), s, |r| {
        let x = r.try_range();
        assert!(x.is_some() == open(s) && cell.get() == s);
        if let Some(x) = x {
            let at = top.c[0].cat(top.w[0]).cat(v.w[0]);
            assert!(x.start == at && x.end == at.cat(v.w[1]), "the range the slice takes up");
        }
        let c: Option<Path> = r.try_cursor();
        assert!(c.is_some() == open(s) && cell.get() == s);
        if let Some(c) = c { assert!(c.n == 1 && c.at[0] == 1, "the way to it") }
    });
    assert!(id.is_some());
    kani::cover!(true, "reached");
}
//@ props=C08,C09,C07 tier=thorough m=1 fn=SliceRef::try_range,SliceRef::try_cursor
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn range_free() { whereabouts(0) }
//@ props=C08,C09,C07 tier=quick m=1 fn=SliceRef::try_range,SliceRef::try_cursor
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn range_changing() { whereabouts(3) }
//@ props=C08,C09,C07 tier=thorough m=1 fn=SliceRef::try_range,SliceRef::try_cursor
#[kani::proof] #[kani::unwind(6)] #[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)] fn range_waiting() { whereabouts(2) }
/// What a dropped tree held goes with its last borrow, once, and the slots with the tree.
//@ props=C23,C12 tier=quick m=1 fn=InnerStore::drop,TemporaryBorrow::drop_tree_once_no_borrows,slice_ref::drop_borrow
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(crate::tree::node::NodeHandle::do_drop, freed)]
fn contents_go() {
    let p = any_leaf::<U, P, 1>(2, 2, 20);
    let inner: NonNull<Inner> = InnerStore::alloc(InnerStore {
        borrow: Cell::new(BorrowState::Immutable { count: NonZeroUsize::new(2).unwrap(), drop_if_zero: true }),
        refs: RefCell::new(RecycleVec::default()),
        root: Cell::new(Some(node_handle(p, 0))),
        weak_count: Cell::new(1),
    });
    let i = unsafe { inner.as_ref() };
    let val = 0u8;
    let b = || Borrow { val: &val, borrow: &i.borrow, data_ptr: inner.cast(), drop_fn: TemporaryBorrow::<H, U, 1>::drop_tree_once_no_borrows };
    drop(b());
    assert!(unsafe { FREED.is_none() }, "still borrowed");
    drop(b());
    assert!(unsafe { FREED } == Some((p.cast(), 0)), "dropped with the last borrow");
    assert!(i.borrow.get() == BorrowState::Dropped && i.root.take().is_none());
    kani::cover!(true, "reached");
}
/// Stands for freeing a tree (its own contract: node/own.rs); remembers which, once.
static mut FREED: Option<(NonNull<()>, u8)> = None;
pub fn freed<I, S, P: RleTreeConfig<I, S, M>, const M: usize>(h: NodeHandle<ty::Unknown, borrow::Dropping, I, S, P, M>) {
    unsafe {
        assert!(FREED.is_none(), "freed at most once");
        FREED = Some((h.ptr().cast(), h.height()));
    }
}
