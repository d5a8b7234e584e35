//! Contracts of the state that keeps changes to the tree and borrows of its slices apart, and keeps
//! a dropped tree's contents for as long as something borrows them.
//!
//! As far as a caller can tell, the state is: how many borrows there are, whether the tree is being
//! changed, and whether it is gone. Every operation is checked from every such state.
use super::super::*;
use crate::param::BorrowState as _;
use crate::param::SliceRefStore as _;
use crate::tree::node::verif::lib::*;

type P = AllowSliceRefs;
type Inner = InnerStore<H, U, 1>;
type Store = SliceRefStore<H, U, 1>;
type Ref = SliceRef<H, U, 1>;

pub fn any_state() -> BorrowState {
    match kani::any::<u8>() % 5 {
        0 => BorrowState::NotBorrowed,
        1 => BorrowState::Mutable,
        2 => BorrowState::Immutable { count: kani::any(), drop_if_zero: kani::any() },
        3 => BorrowState::Dropping,
        _ => BorrowState::Dropped,
    }
}
fn inner(state: BorrowState) -> NonNull<Inner> {
    InnerStore::alloc(InnerStore {
        borrow: Cell::new(state),
        refs: RefCell::new(RecycleVec::default()),
        root: Cell::new(None),
        weak_count: Cell::new(kani::any()),
    })
}
fn store(p: NonNull<Inner>) -> mem::ManuallyDrop<Store> {
    mem::ManuallyDrop::new(SliceRefStore { inner: p, marker: PhantomData })
}
fn slice_ref(p: NonNull<Inner>) -> mem::ManuallyDrop<Ref> {
    mem::ManuallyDrop::new(SliceRef { inner: p, id: Cell::new(None), marker: PhantomData })
}
fn state(p: NonNull<Inner>) -> BorrowState { unsafe { p.as_ref() }.borrow.get() }
fn weak(p: NonNull<Inner>) -> usize { unsafe { p.as_ref() }.weak_count.get() }

static mut FREED: u8 = 0;
static mut CALLED: u8 = 0;
impl<I, S, const M: usize> InnerStore<I, S, M> {
    /// Stands for the deallocation: counts it.
    unsafe fn count_dealloc(_this: NonNull<Self>) {
        unsafe { FREED += 1 }
    }
}
unsafe fn called(_: NonNull<()>) {
    unsafe { CALLED += 1 }
}

//@ props=C09,C23 tier=quick fn=SliceRefStore::acquire_mutable
#[kani::proof]
fn changing_excludes_borrows() {
    let s = any_state();
    // nobody changes a tree that is gone or is being changed
    kani::assume(matches!(s, BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. }));
    let p = inner(s);
    match store(p).acquire_mutable() {
        Ok(()) => {
            assert!(s == BorrowState::NotBorrowed, "a tree with borrows is not changed");
            assert!(state(p) == BorrowState::Mutable);
            kani::cover!(true, "acquired");
        }
        Err(e) => {
            assert!(s != BorrowState::NotBorrowed, "a tree without borrows can be changed");
            assert!(matches!(e, BorrowFailure::CannotGetMutAlreadyBorrowed));
            assert!(state(p) == s, "refusing changes nothing");
            kani::cover!(true, "refused");
        }
    }
}
//@ props=C09 tier=quick fn=SliceRefStore::release_mutable
#[kani::proof]
fn release() {
    let p = inner(BorrowState::Mutable);
    store(p).release_mutable();
    assert!(state(p) == BorrowState::NotBorrowed);
    kani::cover!(true, "reached");
}
/// A change is only ever ended by who began it.
//@ props=C09 tier=quick fn=SliceRefStore::release_mutable
#[kani::proof]
#[kani::should_panic]
fn release_of_nothing() {
    let s = any_state();
    kani::assume(s != BorrowState::Mutable);
    kani::cover!(true, "reached");
    let p = inner(s);
    store(p).release_mutable();
    kani::cover!(true, "never: ended a change that was not going on");
}
//@ props=C23,C12 tier=quick fn=SliceRefStore::try_acquire_drop
#[kani::proof]
fn dropping_waits() {
    let s = any_state();
    kani::assume(!matches!(s, BorrowState::Dropping | BorrowState::Dropped | BorrowState::Immutable { drop_if_zero: true, .. }));
    let p = inner(s);
    let r = store(p).try_acquire_drop();
    if let BorrowState::Immutable { count, .. } = s {
        assert!(r == ShouldDrop::No, "contents stay while borrowed");
        assert!(state(p) == BorrowState::Immutable { count, drop_if_zero: true }, "the last borrow is to drop them");
        kani::cover!(true, "waits");
    } else {
        assert!(r == ShouldDrop::Yes);
        assert!(state(p) == BorrowState::Dropping);
        kani::cover!(true, "at once");
    }
}
//@ props=C23,C12 tier=quick fn=SliceRefStore::try_acquire_drop
#[kani::proof]
#[kani::should_panic]
fn dropped_once() {
    let s = any_state();
    kani::assume(matches!(s, BorrowState::Dropping | BorrowState::Dropped | BorrowState::Immutable { drop_if_zero: true, .. }));
    kani::cover!(true, "reached");
    let p = inner(s);
    let _ = store(p).try_acquire_drop();
    kani::cover!(true, "never: a tree was dropped again");
}
/// Whether slices can be looked at in a state.
fn open(s: BorrowState) -> bool {
    matches!(s, BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. })
}
fn gone(s: BorrowState) -> bool {
    matches!(s, BorrowState::Dropping | BorrowState::Dropped | BorrowState::Immutable { drop_if_zero: true, .. })
}
//@ props=C09,C23 tier=quick fn=SliceRef::borrow_refs,SliceRef::can_borrow,SliceRef::get_refs_without_borrow
#[kani::proof]
fn borrowing() {
    let s = any_state();
    if let BorrowState::Immutable { count, .. } = s { kani::assume(count.get() < usize::MAX) }
    let p = inner(s);
    let r = slice_ref(p);
    assert!(r.can_borrow() == open(s));
    assert!(r.get_refs_without_borrow().is_some() == !gone(s), "what a dropped tree held is not looked at");
    assert!(state(p) == s, "asking changes nothing");
    match r.borrow_refs() {
        Ok(_) => {
            assert!(open(s));
            let n = match s { BorrowState::Immutable { count, .. } => count.get(), _ => 0 };
            assert!(state(p) == BorrowState::Immutable { count: NonZeroUsize::new(n + 1).unwrap(), drop_if_zero: false }, "one more borrow");
            kani::cover!(n == 0, "the first");
            kani::cover!(n > 0, "another");
        }
        Err(e) => {
            assert!(!open(s));
            assert!(state(p) == s, "refusing changes nothing");
            match e {
                BorrowFailure::CannotGetImmutAlreadyMutablyBorrowed => assert!(s == BorrowState::Mutable),
                BorrowFailure::CannotGetImmutAlreadyDropped => assert!(gone(s)),
                BorrowFailure::CannotGetMutAlreadyBorrowed => panic!("not what was asked for"),
            }
            kani::cover!(true, "refused");
        }
    }
}
//@ props=C09 tier=quick fn=SliceRef::borrow_refs
#[kani::proof]
#[kani::should_panic]
fn borrow_count_wraps() {
    let p = inner(BorrowState::Immutable { count: NonZeroUsize::MAX, drop_if_zero: false });
    let r = slice_ref(p);
    kani::cover!(true, "reached");
    let _ = r.borrow_refs().is_ok();
    kani::cover!(true, "never: the number of borrows wrapped around");
}
//@ props=C09,C23,C12 tier=quick fn=slice_ref::drop_borrow
#[kani::proof]
fn last_borrow_drops() {
    let s = any_state();
    kani::assume(matches!(s, BorrowState::Immutable { .. }));
    let cell = Cell::new(s);
    unsafe { drop_borrow(&cell, NonNull::dangling(), called) };
    let BorrowState::Immutable { count, drop_if_zero } = s else { unreachable!() };
    let calls = unsafe { CALLED };
    if count.get() > 1 {
        assert!(cell.get() == BorrowState::Immutable { count: NonZeroUsize::new(count.get() - 1).unwrap(), drop_if_zero });
        assert!(calls == 0, "contents stay while borrowed");
        kani::cover!(drop_if_zero, "not the last");
    } else if drop_if_zero {
        assert!(cell.get() == BorrowState::Dropped && calls == 1, "the last borrow of a dropped tree drops the contents");
        kani::cover!(true, "the last of a dropped tree");
    } else {
        assert!(cell.get() == BorrowState::NotBorrowed && calls == 0, "the tree is as before");
        kani::cover!(true, "the last");
    }
}
//@ props=C09,C23 tier=quick fn=Borrow::clone,Borrow::map,Borrow::drop
#[kani::proof]
fn borrows_count() {
    let s = any_state();
    let BorrowState::Immutable { count, drop_if_zero } = s else { kani::assume(false); unreachable!() };
    kani::assume(count.get() < usize::MAX);
    let cell = Cell::new(s);
    let val: (u8, u8) = kani::any();
    let b = mem::ManuallyDrop::new(Borrow { val: &val, borrow: &cell, data_ptr: NonNull::dangling(), drop_fn: called });
    let c = (*b).clone();
    assert!(cell.get() == BorrowState::Immutable { count: NonZeroUsize::new(count.get() + 1).unwrap(), drop_if_zero }, "a copy is a borrow of its own");
    assert!(*c == val);
    let m = Borrow::map(c, |v| &v.1);
    assert!(*m == val.1);
    assert!(cell.get() == BorrowState::Immutable { count: NonZeroUsize::new(count.get() + 1).unwrap(), drop_if_zero }, "a part of it is the same borrow");
    drop(m);
    assert!(cell.get() == s && unsafe { CALLED } == 0, "dropping it undoes that");
    kani::cover!(drop_if_zero);
}
//@ props=C23,C12 tier=quick fn=SliceRefStore::drop,InnerStore::drop
#[kani::proof]
#[kani::stub(InnerStore::dealloc, InnerStore::count_dealloc)]
fn tree_goes() {
    let s = any_state();
    kani::assume(matches!(s, BorrowState::Dropping | BorrowState::Immutable { drop_if_zero: true, .. }));
    let p = inner(s);
    drop(mem::ManuallyDrop::into_inner(store(p)));
    let waiting = s != BorrowState::Dropping;
    assert!(state(p) == if waiting { s } else { BorrowState::Dropped });
    let free = !waiting && weak(p) == 0;
    assert!(unsafe { FREED } == free as u8, "the store goes with the last of tree, borrows and references");
    kani::cover!(free);
    kani::cover!(!free && !waiting);
    kani::cover!(waiting);
}
//@ props=C23,C12 tier=quick fn=SliceRef::do_drop
#[kani::proof]
#[kani::stub(InnerStore::dealloc, InnerStore::count_dealloc)]
fn reference_goes() {
    let s = any_state();
    let p = inner(s);
    let w = weak(p);
    kani::assume(w > 0);
    drop(mem::ManuallyDrop::into_inner(slice_ref(p)));
    assert!(weak(p) == w - 1 && state(p) == s);
    let free = w == 1 && s == BorrowState::Dropped;
    assert!(unsafe { FREED } == free as u8, "the store goes with the last of tree, borrows and references");
    kani::cover!(free);
    kani::cover!(w == 1 && !free);
}
//@ props=C23,C12 tier=quick fn=slice_ref::bump_weak_count
#[kani::proof]
fn reference_counts() {
    let c = Cell::new(kani::any());
    let n = c.get();
    kani::assume(n < usize::MAX);
    bump_weak_count(&c);
    assert!(c.get() == n + 1);
    kani::cover!(true, "reached");
}
//@ props=C23,C12 tier=quick fn=slice_ref::bump_weak_count
#[kani::proof]
#[kani::should_panic]
fn reference_count_wraps() {
    let c = Cell::new(usize::MAX);
    kani::cover!(true, "reached");
    bump_weak_count(&c);
    kani::cover!(true, "never: the number of references wrapped around");
}
