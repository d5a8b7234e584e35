//! Contracts of the store of counted slots behind slice references.
//!
//! A `RecycleVec` is a function from slot to (count, value), together with a list of the free slots.
//! Every operation is checked against that, from every well-formed state of up to three slots: the
//! free list reaches exactly the slots without a value, each of them once.
use super::super::*;

const MAX: usize = 3;

#[derive(Copy, Clone, PartialEq)]
struct Slot {
    count: usize,
    val: u8,
}

fn link(i: usize) -> LinkId {
    LinkId { idx_plus_one: NonZeroUsize::new(i + 1).unwrap() }
}
fn id(i: usize) -> EntryId {
    EntryId { idx_plus_one: NonZeroUsize::new(i + 1).unwrap() }
}

/// The slots' contents (`None`: free), having checked that the free list is what it should be.
fn view(v: &RecycleVec<u8>) -> [Option<Slot>; MAX + 1] {
    assert!(v.vals.len() <= MAX + 1);
    let mut out = [None; MAX + 1];
    let mut free = 0;
    for i in 0..v.vals.len() {
        match &v.vals[i] {
            Entry::Value(x) => out[i] = Some(Slot { count: x.ref_count.get().get(), val: x.inner }),
            Entry::Link(_) => free += 1,
        }
    }
    let mut seen = [false; MAX + 1];
    let mut at = v.head_empty;
    for _ in 0..free {
        let l = at.expect("the free list is too short");
        let i = l.idx_plus_one.get() - 1;
        assert!(i < v.vals.len() && !seen[i], "the free list leaves the slots or comes back");
        seen[i] = true;
        match &v.vals[i] {
            Entry::Link(next) => at = *next,
            Entry::Value(_) => panic!("a used slot is in the free list"),
        }
    }
    assert!(at.is_none(), "the free list is too long");
    out
}

/// Any well-formed one with `n` slots.
fn any_vec(n: usize) -> RecycleVec<u8> {
    let mut vals = Vec::with_capacity(MAX + 1);
    let mut head: Option<LinkId> = None;
    let mut used = [false; MAX];
    let mut rank = [0u8; MAX];
    for i in 0..n {
        used[i] = kani::any();
        rank[i] = kani::any();
        kani::assume((rank[i] as usize) < n);
        for j in 0..i { kani::assume(rank[i] != rank[j]); }
    }
    // free slots in the order of their ranks, any order
    let mut next = [None; MAX];
    for r in 0..n {
        for i in 0..n {
            if rank[i] as usize == r && !used[i] {
                next[i] = head;
                head = Some(link(i));
            }
        }
    }
    for i in 0..n {
        vals.push(if used[i] {
            let c: usize = kani::any();
            kani::assume(c > 0);
            Entry::Value(Value { ref_count: Cell::new(NonZeroUsize::new(c).unwrap()), inner: kani::any() })
        } else {
            Entry::Link(next[i])
        });
    }
    RecycleVec { vals, head_empty: head }
}

fn push_from(n: usize) {
    let mut v = any_vec(n);
    let before = view(&v);
    let x: u8 = kani::any();
    let e = v.push(x);
    let after = view(&v);
    let i = e.idx();
    assert!(i < v.vals.len() && before[i].is_none(), "a new slot that was in use");
    assert!(v.vals.len() <= n + 1 && (v.vals.len() == n || i == n), "grew without need");
    let mut full = true;
    for j in 0..n { if before[j].is_none() { full = false } }
    assert!((v.vals.len() == n + 1) == full, "free slots are used before new ones are made");
    assert!(after[i] == Some(Slot { count: 1, val: x }));
    assert!(*v.get(&e) == x);
    for j in 0..MAX + 1 { if j != i { assert!(after[j] == before[j], "another slot changed"); } }
    kani::cover!(full, "nothing free");
    kani::cover!(!full || n == 0, "something free");
    std::mem::forget(e);
}

fn used_slot(n: usize, s: &[Option<Slot>; MAX + 1]) -> usize {
    let i: usize = kani::any();
    kani::assume(i < n);
    kani::assume(s[i].is_some());
    i
}

//@ props=C18,C08 tier=quick fn=RecycleVec::push
#[kani::proof]
#[kani::unwind(6)]
fn push_0() { push_from(0) }
//@ props=C18 tier=quick fn=RecycleVec::push
#[kani::proof]
#[kani::unwind(6)]
fn push_1() { push_from(1) }
//@ props=C18 tier=quick fn=RecycleVec::push
#[kani::proof]
#[kani::unwind(6)]
fn push_2() { push_from(2) }
//@ props=C18,C08 tier=quick fn=RecycleVec::push
#[kani::proof]
#[kani::unwind(6)]
fn push_3() { push_from(3) }

fn recycle_from(n: usize) {
    let mut v = any_vec(n);
    let before = view(&v);
    let i = used_slot(n, &before);
    let old = before[i].unwrap();
    let r = v.recycle(id(i));
    let after = view(&v);
    assert!(v.vals.len() == n);
    if old.count == 1 {
        assert!(r == Some(old.val), "the last reference hands the value back");
        assert!(after[i].is_none());
        kani::cover!(true, "last");
    } else {
        assert!(r.is_none(), "the value went away while referenced");
        assert!(after[i] == Some(Slot { count: old.count - 1, val: old.val }));
        kani::cover!(true, "not last");
    }
    for j in 0..MAX + 1 { if j != i { assert!(after[j] == before[j], "another slot changed"); } }
}
//@ props=C18,C08 tier=quick fn=RecycleVec::recycle
#[kani::proof]
#[kani::unwind(6)]
fn recycle_1() { recycle_from(1) }
//@ props=C18 tier=quick fn=RecycleVec::recycle
#[kani::proof]
#[kani::unwind(6)]
fn recycle_2() { recycle_from(2) }
//@ props=C18,C08 tier=quick fn=RecycleVec::recycle
#[kani::proof]
#[kani::unwind(6)]
fn recycle_3() { recycle_from(3) }

//@ props=C18,C08 tier=quick fn=RecycleVec::clone
#[kani::proof]
#[kani::unwind(6)]
fn clone_counts() {
    let v = any_vec(2);
    let before = view(&v);
    let i = used_slot(2, &before);
    kani::assume(before[i].unwrap().count < usize::MAX);
    let e = v.clone(&id(i));
    assert!(e.idx() == i);
    let after = view(&v);
    for j in 0..MAX + 1 {
        let want = if j == i { before[j].map(|s| Slot { count: s.count + 1, val: s.val }) } else { before[j] };
        assert!(after[j] == want);
    }
    assert!(v.vals.len() == 2);
    kani::cover!(true, "reached");
}

/// The count never wraps around: running out of counts panics and changes nothing.
//@ props=C18 tier=quick fn=RecycleVec::clone
#[kani::proof]
#[kani::unwind(6)]
#[kani::should_panic]
fn clone_overflow() {
    let v = any_vec(1);
    let before = view(&v);
    let i = used_slot(1, &before);
    kani::assume(before[i].unwrap().count == usize::MAX);
    kani::cover!(true, "reached");
    std::mem::forget(v.clone(&id(i)));
    kani::cover!(true, "never: a count wrapped around");
}

//@ props=C18,C08 tier=quick fn=RecycleVec::get,RecycleVec::replace
#[kani::proof]
#[kani::unwind(6)]
fn get_replace() {
    let mut v = any_vec(3);
    let before = view(&v);
    let i = used_slot(3, &before);
    let e = id(i);
    assert!(*v.get(&e) == before[i].unwrap().val);
    let x: u8 = kani::any();
    let old = v.replace(&e, x);
    assert!(old == before[i].unwrap().val);
    let after = view(&v);
    assert!(v.vals.len() == 3);
    for j in 0..MAX + 1 {
        let want = if j == i { before[j].map(|s| Slot { count: s.count, val: x }) } else { before[j] };
        assert!(after[j] == want);
    }
    kani::cover!(true, "reached");
}
