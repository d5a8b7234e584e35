//! Vocabulary of the contracts: an index type, a slice type, ways to build and read nodes.
#![allow(dead_code, unused_imports)]
use super::super::*;
use crate::param::{AllowCow, AllowSliceRefs, NoFeatures};
use crate::cursor::Cursor;
use crate::{DirectionalAdd, DirectionalSub, Index, PathComponent, Slice};
use std::ptr::{addr_of, addr_of_mut};
use std::num::NonZeroU8;

/// An index type whose addition does not commute: a length together with an element of the
/// Heisenberg group over Z/2 (the dihedral group of order 8), packed as `length * 8 + element`.
/// Arithmetic on the wrong side gives a different group element for some choice of operands;
/// taking away more than there is panics.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(transparent)]
pub struct H(pub u16);
const fn mul(x: u16, y: u16) -> u16 {
    x ^ y ^ (((x & 1) & ((y >> 1) & 1)) << 2)
}
const fn inv(x: u16) -> u16 {
    x ^ (((x & 1) & ((x >> 1) & 1)) << 2)
}
impl H {
    pub const fn n(self) -> u16 { self.0 >> 3 }
    pub const fn g(self) -> u16 { self.0 & 7 }
    const fn of(n: u16, g: u16) -> H { H((n << 3) | g) }
    pub fn cat(self, r: H) -> H { H::of(self.n() + r.n(), mul(self.g(), r.g())) }
    pub fn any() -> H { H(kani::any()) }
    /// any size a slice can have: positive, at most `max` long
    pub fn any_size(max: u16) -> H {
        let h = H(kani::any());
        kani::assume(h.n() >= 1 && h.n() <= max);
        h
    }
}
impl DirectionalAdd for H {
    fn add_right(self, r: H) -> H { self.cat(r) }
}
impl DirectionalSub for H {
    fn sub_left(self, l: H) -> H {
        assert!(self.n() >= l.n(), "index subtraction underflows");
        H::of(self.n() - l.n(), mul(inv(l.g()), self.g()))
    }
    fn sub_right(self, r: H) -> H {
        assert!(self.n() >= r.n(), "index subtraction underflows");
        H::of(self.n() - r.n(), mul(self.g(), inv(r.g())))
    }
}
impl Index for H {
    const ZERO: H = H(0);
}

/// A slice whose content is a word of the same group: cutting and joining it keeps the word, so
/// that a slice whose word differs from its recorded size has been mixed up with another.
/// Whether two slices join is chosen anew each time.
#[derive(PartialEq, Eq, Debug)]
pub struct V {
    pub w: H,
}
impl Slice<H> for V {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, i: H) -> V {
        assert!(i.n() > 0 && i.n() < self.w.n(), "split_at inside the slice");
        let r = V { w: self.w.sub_left(i) };
        self.w = i;
        r
    }
    fn try_join(self, o: V) -> Result<V, (V, V)> {
        if kani::any() { Ok(V { w: self.w.cat(o.w) }) } else { Err((self, o)) }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V { w: self.w }
    }
}
/// The same, never joining.
#[derive(PartialEq, Eq, Debug, Clone)]
pub struct U {
    pub w: H,
}
impl Slice<H> for U {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, i: H) -> U {
        assert!(i.n() > 0 && i.n() < self.w.n(), "split_at inside the slice");
        let r = U { w: self.w.sub_left(i) };
        self.w = i;
        r
    }
}
pub trait Word: Slice<H> {
    fn new(w: H) -> Self;
    fn word(&self) -> H;
}
impl Word for V {
    fn new(w: H) -> V { V { w } }
    fn word(&self) -> H { self.w }
}
impl Word for U {
    fn new(w: H) -> U { U { w } }
    fn word(&self) -> H { self.w }
}

pub type LeafOf<S, P, const M: usize> = Leaf<H, S, P, M>;

/// What a node holds, as plain data.
#[derive(Copy, Clone)]
pub struct View<const N: usize> {
    pub len: u8,
    pub pos: [H; N],
    pub w: [H; N],
    /// child sizes, for internal nodes; zero for leaves
    pub c: [H; N],
    pub last: H,
    pub total: H,
}
impl<const N: usize> View<N> {
    pub fn child(&self, i: usize) -> H {
        if i == self.len as usize { self.last } else { self.c[i] }
    }
    /// every position is the ordered sum of what lies before it, and every slice has the size
    /// of the room it is given
    pub fn ok(&self) -> bool {
        let mut at = H::ZERO;
        let mut ok = true;
        for i in 0..N {
            if i < self.len as usize {
                at = at.cat(self.c[i]);
                ok &= self.pos[i] == at;
                at = at.cat(self.w[i]);
                ok &= self.w[i].n() > 0;
            }
        }
        ok & (self.total == at.cat(self.last))
    }
    pub fn sorted(&self) -> bool {
        let mut ok = true;
        for i in 1..N {
            if i < self.len as usize {
                ok &= self.pos[i - 1] < self.pos[i];
            }
        }
        ok
    }
}

pub type NP<S, P, const M: usize> = NodePtr<H, S, P, M>;

/// Memory for one node, written field by field below so that whatever a contract does not set
/// stays arbitrary.
pub fn fresh<T>() -> NonNull<T> {
    // the crate's own allocation function, so that it may also be freed by the crate
    alloc_aligned::<MaybeUninit<T>>(MaybeUninit::uninit()).cast()
}
unsafe fn fill<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(l: *mut Leaf<H, S, P, M>, len: u8, total: H) {
    unsafe {
        addr_of_mut!((*l).parent).write(None);
        addr_of_mut!((*l).holes).write([None; 2]);
        addr_of_mut!((*l).len).write(len);
        addr_of_mut!((*l).strong_count).write(<P::StrongCount as StrongCount>::one());
        addr_of_mut!((*l).total_size).write(total);
    }
}
unsafe fn set_slice<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(l: *mut Leaf<H, S, P, M>, i: usize, at: H, w: H) {
    unsafe {
        (addr_of_mut!((*l).keys) as *mut H).add(i).write(at);
        (addr_of_mut!((*l).vals) as *mut S).add(i).write(S::new(w));
        (*l).refs.as_mut_slice()[i].write(UnsafeCell::new(Default::default()));
    }
}
/// Replaces what a slice holds, and nothing else.
pub unsafe fn set_word<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, i: usize, w: H) {
    unsafe { *(addr_of_mut!((*(p.as_ptr() as *mut Leaf<H, S, P, M>)).vals) as *mut S).add(i) = S::new(w) }
}
pub fn set_total<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, to: H) {
    unsafe { addr_of_mut!((*(p.as_ptr() as *mut Leaf<H, S, P, M>)).total_size).write(to) }
}
/// Any number from `lo` to `hi`; a constant where there is no choice.
pub fn between(lo: u8, hi: u8) -> u8 {
    if lo == hi { return lo }
    let n: u8 = kani::any();
    kani::assume(n >= lo && n <= hi);
    n
}
/// A leaf of any length in `lo..=hi`, with any slices, where everything adds up.
pub fn any_leaf<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(lo: u8, hi: u8, max: u16) -> NP<S, P, M> {
    let len = between(lo, hi);
    assert!(hi as usize <= 2 * M);
    let p: NonNull<Leaf<H, S, P, M>> = fresh();
    let l = p.as_ptr();
    let mut at = H::ZERO;
    unsafe {
        for i in 0..2 * M {
            if (i as u8) < len {
                let w = H::any_size(max);
                set_slice(l, i, at, w);
                at = at.cat(w);
            }
        }
        fill(l, len, at);
    }
    p.cast()
}
/// A stand-in for a child subtree of any shape: nothing but its size, sharing count and parent
/// fields may be looked at.
pub fn any_child<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(max: u16) -> NP<S, P, M> {
    let p: NonNull<Leaf<H, S, P, M>> = fresh();
    unsafe { fill(p.as_ptr(), kani::any(), H::any_size(max)) };
    p.cast()
}
/// An internal node of any length in `lo..=hi` over children made by `kid`.
pub fn any_internal<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(
    lo: u8,
    hi: u8,
    max: u16,
    mut kid: impl FnMut(usize) -> NP<S, P, M>,
) -> NP<S, P, M> {
    let len = between(lo, hi);
    assert!(hi as usize <= 2 * M);
    let p: NonNull<Internal<H, S, P, M>> = fresh();
    let n = p.as_ptr();
    let mut at = H::ZERO;
    unsafe {
        for i in 0..2 * M + 1 {
            if i <= len as usize {
                let c = kid(i);
                let cl = c.as_ptr() as *mut Leaf<H, S, P, M>;
                addr_of_mut!((*cl).parent).write(Some(p.cast()));
                addr_of_mut!((*cl).idx_in_parent).write(MaybeUninit::new(i as u8));
                at = at.cat((*cl).total_size);
                (addr_of_mut!((*n).child_ptrs) as *mut NP<S, P, M>).add(i).write(c);
                if i < len as usize {
                    let w = H::any_size(max);
                    set_slice(n as *mut Leaf<H, S, P, M>, i, at, w);
                    at = at.cat(w);
                }
            }
        }
        fill(n as *mut Leaf<H, S, P, M>, len, at);
    }
    p.cast()
}

pub fn leaf_handle<B, S, P: RleTreeConfig<H, S, M>, const M: usize>(ptr: NP<S, P, M>) -> NodeHandle<ty::Leaf, B, H, S, P, M> {
    NodeHandle { ptr, height: ty::ZeroU8::new(), borrow: PhantomData }
}
pub fn internal_handle<B, S, P: RleTreeConfig<H, S, M>, const M: usize>(ptr: NP<S, P, M>, height: u8) -> NodeHandle<ty::Internal, B, H, S, P, M> {
    NodeHandle { ptr, height: NonZeroU8::new(height).unwrap(), borrow: PhantomData }
}
pub fn node_handle<B, S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, height: u8) -> NodeHandle<ty::Unknown, B, H, S, P, M> {
    NodeHandle { ptr: p, height, borrow: PhantomData }
}
pub fn raw_handle<B, I, S, P: RleTreeConfig<I, S, M>, const M: usize>(ptr: NodePtr<I, S, P, M>, height: u8) -> NodeHandle<ty::Unknown, B, I, S, P, M> {
    NodeHandle { ptr, height, borrow: PhantomData }
}
pub fn slice_handle<B, S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, height: u8, idx: u8) -> SliceHandle<ty::Unknown, B, H, S, P, M> {
    SliceHandle { node: node_handle(p, height), idx }
}
pub unsafe fn leaf_at<'a, S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> &'a Leaf<H, S, P, M> {
    unsafe { &*(p.as_ptr() as *const Leaf<H, S, P, M>) }
}
pub unsafe fn internal_at<'a, S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> &'a Internal<H, S, P, M> {
    unsafe { &*(p.as_ptr() as *const Internal<H, S, P, M>) }
}
/// Reads a leaf, without any of the crate's own accessors.
pub fn view<S: Word, P: RleTreeConfig<H, S, M>, const M: usize, const N: usize>(p: NP<S, P, M>) -> View<N> {
    let l = unsafe { leaf_at::<S, P, M>(p) };
    let mut v = View { len: l.len, pos: [H::ZERO; N], w: [H::ZERO; N], c: [H::ZERO; N], last: H::ZERO, total: l.total_size };
    assert!(l.len as usize <= 2 * M && N >= 2 * M, "node length within its capacity");
    for i in 0..2 * M {
        if (i as u8) < l.len {
            v.pos[i] = unsafe { *(addr_of!(l.keys) as *const H).add(i) };
            v.w[i] = unsafe { (*(addr_of!(l.vals) as *const S).add(i)).word() };
        }
    }
    v
}
/// Reads an internal node together with the sizes of its children; checks their parent fields.
pub fn view_internal<S: Word, P: RleTreeConfig<H, S, M>, const M: usize, const N: usize>(p: NP<S, P, M>, parents: bool) -> View<N> {
    let mut v = view::<S, P, M, N>(p);
    for i in 0..2 * M + 1 {
        if (i as u8) <= v.len {
            let ch = unsafe { leaf_at::<S, P, M>(child_ptr(p, i)) };
            // (what a node that others hold as well says of its parent means nothing)
            if parents && ch.strong_count.count() == 1 {
                assert!(ch.parent == Some(p), "child records its parent");
                assert!(unsafe { ch.idx_in_parent.assume_init() } == i as u8, "child records its slot");
            }
            if i as u8 == v.len { v.last = ch.total_size } else { v.c[i] = ch.total_size }
        }
    }
    v
}
pub fn child_ptr<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, i: usize) -> NP<S, P, M> {
    unsafe { *(addr_of!(internal_at::<S, P, M>(p).child_ptrs) as *const NP<S, P, M>).add(i) }
}
pub fn handle_ptr<Ty: TypeHint, B, S, P: RleTreeConfig<H, S, M>, const M: usize>(h: &NodeHandle<Ty, B, H, S, P, M>) -> NP<S, P, M> {
    h.ptr
}

/// The sharing count of a node; one where sharing is off.
pub fn count<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> usize {
    unsafe { leaf_at::<S, P, M>(p) }.strong_count.count()
}
pub fn strong_count_of<'a, S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> &'a P::StrongCount {
    unsafe { &(*(p.as_ptr() as *const Leaf<H, S, P, M>)).strong_count }
}
/// Makes a node shared or not, whichever; only where sharing is on.
pub fn maybe_shared<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> NP<S, P, M> {
    if P::COW && kani::any() {
        let _ = unsafe { leaf_at::<S, P, M>(p) }.strong_count.increment();
    }
    p
}
pub fn parent_of<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> Option<(NP<S, P, M>, u8)> {
    let l = unsafe { leaf_at::<S, P, M>(p) };
    l.parent.map(|x| (x, unsafe { l.idx_in_parent.assume_init() }))
}
pub fn set_parent<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, to: Option<(NP<S, P, M>, u8)>) {
    let l = p.as_ptr() as *mut Leaf<H, S, P, M>;
    unsafe {
        addr_of_mut!((*l).parent).write(to.map(|x| x.0));
        if let Some((_, i)) = to {
            addr_of_mut!((*l).idx_in_parent).write(MaybeUninit::new(i));
        }
    }
}
/// Any parent fields at all, not to be followed.
pub fn any_parent<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> Option<(NP<S, P, M>, u8)> {
    let to = if kani::any() { Some((NonNull::dangling(), kani::any())) } else { None };
    set_parent::<S, P, M>(p, to);
    to
}
pub fn set_holes<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>, h: [Option<NonZeroU8>; 2]) {
    let l = p.as_ptr() as *mut Leaf<H, S, P, M>;
    unsafe { addr_of_mut!((*l).holes).write(h) }
}
pub fn holes_of<S, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> [Option<NonZeroU8>; 2] {
    unsafe { leaf_at::<S, P, M>(p) }.holes
}
pub fn ptrs<S, P: RleTreeConfig<H, S, M>, const M: usize, const K: usize>(p: NP<S, P, M>) -> [Option<NP<S, P, M>>; K] {
    let n = unsafe { leaf_at::<S, P, M>(p) }.len as usize;
    let mut out = [None; K];
    for i in 0..K {
        if i <= n { out[i] = Some(child_ptr::<S, P, M>(p, i)) }
    }
    out
}
/// A height an internal node can have.
pub fn any_height() -> u8 {
    let h: u8 = kani::any();
    kani::assume(h >= 1 && h < 200);
    h
}
/// Configurations without slice references, where the store is nothing.
pub trait Plain<const M: usize>: RleTreeConfig<H, U, M, SliceRefStore = ()> {}
impl<P: RleTreeConfig<H, U, M, SliceRefStore = ()>, const M: usize> Plain<M> for P {}

// ---- configurations ----

/// A configuration whose reference store follows the trait's contract and nothing more: it
/// records, for every id, where the tree last said the slice is. What the crate's own store does
/// with the same calls is the business of the contracts in slice_ref/.
pub struct Track;
pub const IDS: usize = 7;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Place {
    Unused,
    /// node, height, index
    At(NonNull<()>, u8, u8),
    Suspended,
    Removed,
    /// joined into the slice with this id
    Joined(u8),
}
pub struct TrackStore {
    pub at: [Place; IDS],
    pub next: u8,
    pub roots: u8,
}
#[derive(PartialEq, Eq, Debug)]
pub struct Id(pub u8);
pub const NONE: u8 = 255;
impl Default for Id {
    fn default() -> Id { Id(NONE) }
}
impl crate::param::sealed::YouCantImplementThis for Track {}
impl crate::param::sealed::YouCantImplementThis for TrackStore {}
impl<I, S, const M: usize> RleTreeConfig<I, S, M> for Track {
    type YouCantImplementThis = crate::param::sealed::TypeYouCantSee;
    const COW: bool = false;
    const SLICE_REFS: bool = true;
    type StrongCount = ();
    type SliceRefStore = TrackStore;
}
impl<I, S, const M: usize> SupportsInsert<I, S, M> for Track {}
impl crate::param::BorrowState for TrackStore {
    fn acquire_mutable(&self) -> Result<(), crate::tree::slice_ref::BorrowFailure> { Ok(()) }
    fn release_mutable(&self) {}
    fn try_acquire_drop(&self) -> crate::tree::slice_ref::ShouldDrop { crate::tree::slice_ref::ShouldDrop::Yes }
}
impl<I, S, P: RleTreeConfig<I, S, M>, const M: usize> SliceRefStore<I, S, P, M> for TrackStore {
    type OptionRefId = Id;
    fn new(_: crate::tree::slice_ref::RawRoot<I, S, P, M>) -> Self { TrackStore { at: [Place::Unused; IDS], next: 0, roots: 0 } }
    fn set_root(&mut self, _: Option<crate::tree::slice_ref::RawRoot<I, S, P, M>>) { self.roots += 1 }
    fn redirect(&mut self, from: &mut Id, to: &mut Id) {
        if from.0 == NONE { return }
        if to.0 == NONE { to.0 = from.0 } else { self.at[from.0 as usize] = Place::Joined(to.0) }
    }
    fn remove(&mut self, x: Id) {
        if x.0 == NONE { return }
        assert!(matches!(self.at[x.0 as usize], Place::At(..) | Place::Suspended), "only a present slice is removed");
        self.at[x.0 as usize] = Place::Removed;
    }
    unsafe fn update(&mut self, x: &Id, h: crate::tree::slice_ref::RawSliceRef<I, S, P, M>) {
        if x.0 == NONE { return }
        assert!(matches!(self.at[x.0 as usize], Place::At(..) | Place::Suspended), "only a present slice moves");
        self.at[x.0 as usize] = Place::At(h.node.ptr.cast(), h.node.height, h.idx);
    }
    fn suspend(&mut self, x: &Id) {
        if x.0 == NONE { return }
        assert!(matches!(self.at[x.0 as usize], Place::At(..)), "only a placed slice is suspended");
        self.at[x.0 as usize] = Place::Suspended;
    }
}

/// What the contracts need to know of a configuration.
pub trait Conf<S, const M: usize>: RleTreeConfig<H, S, M> + SupportsInsert<H, S, M> {
    fn store() -> Self::SliceRefStore;
    fn mk_id(id: u8) -> <Self::SliceRefStore as SliceRefStore<H, S, Self, M>>::OptionRefId;
    fn get_id(r: &<Self::SliceRefStore as SliceRefStore<H, S, Self, M>>::OptionRefId) -> u8;
    /// the next unused id (or none), recorded as being there
    fn give(_store: &mut Self::SliceRefStore, _p: NP<S, Self, M>, _height: u8, _idx: u8) -> u8 { NONE }
    fn place(_store: &Self::SliceRefStore, _id: u8) -> Place { Place::Unused }
    fn fresh_suspended(_store: &mut Self::SliceRefStore) -> u8 { NONE }
}
impl<S, const M: usize> Conf<S, M> for NoFeatures {
    fn store() {}
    fn mk_id(_: u8) {}
    fn get_id(_: &()) -> u8 { NONE }
}
impl<S: Clone, const M: usize> Conf<S, M> for AllowCow {
    fn store() {}
    fn mk_id(_: u8) {}
    fn get_id(_: &()) -> u8 { NONE }
}
impl<S, const M: usize> Conf<S, M> for Track {
    fn store() -> TrackStore { TrackStore { at: [Place::Unused; IDS], next: 0, roots: 0 } }
    fn mk_id(id: u8) -> Id { Id(id) }
    fn get_id(r: &Id) -> u8 { r.0 }
    fn give(store: &mut TrackStore, p: NP<S, Self, M>, height: u8, idx: u8) -> u8 {
        let id = store.next;
        store.next += 1;
        store.at[id as usize] = Place::At(p.cast(), height, idx);
        // whether anything refers to the slice is any choice
        if kani::any() { id } else { NONE }
    }
    fn place(store: &TrackStore, id: u8) -> Place { store.at[id as usize] }
    fn fresh_suspended(store: &mut TrackStore) -> u8 {
        let id = store.next;
        store.next += 1;
        store.at[id as usize] = Place::Suspended;
        if kani::any() { id } else { NONE }
    }
}
/// Gives the slices of a node ids (or none).
pub fn give_ids<S, P: Conf<S, M>, const M: usize>(store: &mut P::SliceRefStore, p: NP<S, P, M>, height: u8) {
    if !P::SLICE_REFS { return }
    let l = p.as_ptr() as *mut Leaf<H, S, P, M>;
    for i in 0..2 * M {
        if (i as u8) < unsafe { (*l).len } {
            let id = P::give(store, p, height, i as u8);
            unsafe { (*l).refs.as_mut_slice()[i].write(UnsafeCell::new(P::mk_id(id))) };
        }
    }
}
/// The ids of the slices of a node.
pub fn ids<S, P: Conf<S, M>, const M: usize, const N: usize>(p: NP<S, P, M>) -> [u8; N] {
    let mut out = [NONE; N];
    if !P::SLICE_REFS { return out }
    let l = unsafe { leaf_at::<S, P, M>(p) };
    for i in 0..2 * M {
        if (i as u8) < l.len {
            out[i] = unsafe { P::get_id(&*l.refs.as_slice()[i].assume_init_ref().get()) };
        }
    }
    out
}
/// Every slice of the node that is referred to is recorded as being exactly where it is.
pub fn placed<S, P: Conf<S, M>, const M: usize, const N: usize>(store: &P::SliceRefStore, p: NP<S, P, M>, height: u8) {
    if !P::SLICE_REFS { return }
    let a: [u8; N] = ids::<S, P, M, N>(p);
    let len = unsafe { leaf_at::<S, P, M>(p) }.len;
    for i in 0..N {
        if (i as u8) < len && a[i] != NONE {
            assert!(P::place(store, a[i]) == Place::At(p.cast(), height, i as u8), "references follow their slice");
        }
    }
}

/// A slice that counts: how often the value with its number exists right now, and how often it
/// was dropped.
pub struct C {
    pub w: H,
    pub id: u8,
}
pub const CS: usize = 24;
pub static mut ALIVE: [i8; CS] = [0; CS];
pub static mut MADE: u8 = 0;
pub fn alive(id: u8) -> i8 { unsafe { ALIVE[id as usize] } }
pub fn made() -> u8 { unsafe { MADE } }
impl C {
    fn make(w: H) -> C {
        unsafe {
            let id = MADE;
            MADE += 1;
            ALIVE[id as usize] = 1;
            C { w, id }
        }
    }
}
impl Clone for C {
    fn clone(&self) -> C {
        unsafe { ALIVE[self.id as usize] += 1 }
        C { w: self.w, id: self.id }
    }
}
impl Drop for C {
    fn drop(&mut self) {
        unsafe {
            assert!(ALIVE[self.id as usize] > 0, "a slice is dropped at most once");
            ALIVE[self.id as usize] -= 1;
        }
    }
}
impl Slice<H> for C {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, i: H) -> C {
        assert!(i.n() > 0 && i.n() < self.w.n(), "split_at inside the slice");
        let r = C::make(self.w.sub_left(i));
        self.w = i;
        r
    }
    fn try_join(mut self, o: C) -> Result<C, (C, C)> {
        if kani::any() {
            self.w = self.w.cat(o.w);
            drop(o);
            Ok(self)
        } else {
            Err((self, o))
        }
    }
}
impl Word for C {
    fn new(w: H) -> C { C::make(w) }
    fn word(&self) -> H { self.w }
}
pub fn id_of<P: RleTreeConfig<H, C, M>, const M: usize>(p: NP<C, P, M>, i: usize) -> u8 {
    unsafe { (*(addr_of!(leaf_at::<C, P, M>(p).vals) as *const C).add(i)).id }
}

/// A cursor that records what it is given.
pub struct Path {
    pub at: [u8; 8],
    pub n: usize,
    pub resets: usize,
}
impl Cursor for Path {
    fn new_empty() -> Self { Path { at: [0; 8], n: 0, resets: 0 } }
    fn prepend_to_path(&mut self, c: PathComponent) {
        self.at[self.n] = c.child_idx;
        self.n += 1;
    }
    type PathIter = std::iter::Empty<PathComponent>;
    fn into_path(self) -> Self::PathIter { std::iter::empty() }
}
// the crate asks this of cursors where its `test` configuration is on
impl std::fmt::Debug for Path {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}

/// Stands for `do_drop` where it cannot be reached: nobody frees a node that others still hold.
pub fn not_freed<I, S, P: RleTreeConfig<I, S, M>, const M: usize>(_h: NodeHandle<ty::Unknown, borrow::Dropping, I, S, P, M>) {
    assert!(false, "a node that others hold is not freed");
}
pub fn total_of<S: Word, P: RleTreeConfig<H, S, M>, const M: usize>(p: NP<S, P, M>) -> H {
    unsafe { leaf_at::<S, P, M>(p) }.total_size
}

// ---- a tree of height two ----

/// A tree of height two of a fixed shape (two inner nodes under the root, two leaves under each, of
/// the given lengths), whose slices have any sizes; where nodes can be shared, any of them may record
/// any parent.
pub struct Three<P: RleTreeConfig<H, U, 1>> {
    pub root: NP<U, P, 1>,
    pub mid: [NP<U, P, 1>; 2],
    pub leaf: [NP<U, P, 1>; 4],
    pub lens: [u8; 4],
}
impl<P: RleTreeConfig<H, U, 1>> Three<P> {
    pub fn any(lens: [u8; 4]) -> Self {
        let leaf = [0, 1, 2, 3].map(|i: usize| any_leaf::<U, P, 1>(lens[i], lens[i], 20));
        let mid = [0, 1].map(|m: usize| any_internal::<U, P, 1>(1, 1, 20, |i| leaf[2 * m + i]));
        let root = any_internal::<U, P, 1>(1, 1, 20, |i| mid[i]);
        if P::COW {
            lie::<P>(root, None);
            for i in 0..2 { lie::<P>(mid[i], Some((root, i as u8))) }
            for i in 0..4 { lie::<P>(leaf[i], Some((mid[i / 2], (i % 2) as u8))) }
        }
        Three { root, mid, leaf, lens }
    }
    pub fn slices(&self) -> usize {
        (self.lens[0] + self.lens[1] + self.lens[2] + self.lens[3]) as usize + 3
    }
    /// The `k`th slice (node, height, index) and where it ends.
    pub fn nth(&self, k: usize) -> ((NP<U, P, 1>, u8, u8), H) {
        let mut end = H::ZERO;
        let mut n = 0;
        for l in 0..4 {
            for i in 0..self.lens[l] {
                end = end.cat(word_at(self.leaf[l], i as usize));
                if n == k { return ((self.leaf[l], 0, i), end) }
                n += 1;
            }
            if l < 3 {
                let (p, h) = if l == 1 { (self.root, 2) } else { (self.mid[l / 2], 1) };
                end = end.cat(word_at(p, 0));
                if n == k { return ((p, h, 0), end) }
                n += 1;
            }
        }
        panic!("no such slice")
    }
    /// The way from the root to this node: which child of what, from the top.
    pub fn way(&self, p: NP<U, P, 1>) -> [Option<(NP<U, P, 1>, u8, NP<U, P, 1>)>; 2] {
        for m in 0..2 {
            let first = Some((self.root, m as u8, self.mid[m]));
            if p == self.mid[m] { return [first, None] }
            for i in 0..2 {
                let l = self.leaf[2 * m + i];
                if p == l { return [first, Some((self.mid[m], i as u8, l))] }
            }
        }
        [None, None]
    }
    /// Somewhere in the `k`th slice (`end`: after its start and up to its end; else from its start
    /// and before its end), and where that slice starts.
    pub fn inside(&self, k: usize, end: bool) -> (H, H) {
        let ((p, _, i), to) = self.nth(k);
        let w = word_at(p, i as usize);
        let mut off = H::any();
        kani::assume(off.n() <= w.n());
        // an index is a prefix of what is there
        if off.n() == 0 { off = H::ZERO }
        if off.n() == w.n() { off = w }
        kani::assume(if end { off.n() > 0 } else { off.n() < w.n() });
        let start = if k == 0 { H::ZERO } else { self.nth(k - 1).1 };
        assert!(start.cat(w) == to);
        (start.cat(off), start)
    }
}
pub fn word_at<P: RleTreeConfig<H, U, M>, const M: usize>(p: NP<U, P, M>, i: usize) -> H {
    unsafe { (*(addr_of!(leaf_at::<U, P, M>(p).vals) as *const U).add(i)).w }
}
/// A node that others hold as well may record another parent, or another slot in this one, or none.
fn lie<P: RleTreeConfig<H, U, 1>>(p: NP<U, P, 1>, truth: Option<(NP<U, P, 1>, u8)>) {
    if kani::any() {
        set_parent::<U, P, 1>(p, match truth {
            Some((q, i)) if kani::any() => Some((q, i + 1)),
            _ if kani::any() => None,
            _ => Some((NonNull::dangling(), kani::any())),
        });
    }
}
/// A cursor that hands out anything, up to a number of times.
pub struct AnyHints(pub u8);
impl Cursor for AnyHints {
    fn new_empty() -> Self { AnyHints(0) }
    fn prepend_to_path(&mut self, _: PathComponent) {}
    type PathIter = AnyHints;
    fn into_path(self) -> AnyHints { self }
}
impl Iterator for AnyHints {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        if self.0 == 0 { return None }
        self.0 -= 1;
        Some(PathComponent { child_idx: kani::any() })
    }
}
impl std::fmt::Debug for AnyHints {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}
