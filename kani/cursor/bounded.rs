//! Contracts of `BoundedCursor` and of the builder that fills it.
//!
//! A cursor denotes the components it will hand out: the first `LEN` of the path, whatever was
//! prepended before and after.
use super::super::*;

fn view<const L: usize>(c: &BoundedCursor<L>) -> ([u8; 8], usize) {
    let mut out = [0xAA; 8];
    let mut n = 0;
    let mut c = *c;
    while let Some(p) = c.next() {
        assert!(n < L, "hands out more than it can hold");
        out[n] = p.child_idx;
        n += 1;
    }
    assert!(c.next().is_none(), "an exhausted cursor stays exhausted");
    (out, n)
}

fn any_cursor<const L: usize>() -> BoundedCursor<L> {
    let mut c = BoundedCursor::<L>::new_empty();
    let s: u8 = kani::any();
    kani::assume(s as usize <= L);
    for i in 0..L {
        c.path[i] = PathComponent { child_idx: kani::any() };
    }
    c.start_at = s;
    c
}

fn prepend_any<const L: usize>() {
    let mut c = any_cursor::<L>();
    let (old, n) = view(&c);
    let x: u8 = kani::any();
    Cursor::prepend_to_path(&mut c, PathComponent { child_idx: x });
    assert!(c.start_at as usize <= L);
    let (new, m) = view(&c);
    assert!(m == if n < L { n + 1 } else { L });
    for i in 0..m {
        assert!(new[i] == if i == 0 { x } else { old[i - 1] }, "not the path with the component in front");
    }
    kani::cover!(n == L, "full");
    kani::cover!(n < L || L == 0, "room");
    // into_path hands out the same
    let p = c.into_path();
    assert!(view(&p) == (new, m));
}
//@ props=C07 tier=quick m=- fn=BoundedCursor::prepend_to_path,BoundedCursor::next,BoundedCursor::into_path
#[kani::proof]
#[kani::unwind(10)]
fn prepend_0() { prepend_any::<0>() }
//@ props=C07 tier=quick m=- fn=BoundedCursor::prepend_to_path,BoundedCursor::next,BoundedCursor::into_path
#[kani::proof]
#[kani::unwind(10)]
fn prepend_1() { prepend_any::<1>() }
//@ props=C07 tier=quick m=- fn=BoundedCursor::prepend_to_path,BoundedCursor::next,BoundedCursor::into_path
#[kani::proof]
#[kani::unwind(10)]
fn prepend_2() { prepend_any::<2>() }
//@ props=C07 tier=quick m=- fn=BoundedCursor::prepend_to_path,BoundedCursor::next,BoundedCursor::into_path
#[kani::proof]
#[kani::unwind(10)]
fn prepend_3() { prepend_any::<3>() }
//@ props=C07 tier=quick m=- fn=BoundedCursor::prepend_to_path,BoundedCursor::next,BoundedCursor::into_path
#[kani::proof]
#[kani::unwind(10)]
fn prepend_8() { prepend_any::<8>() }

//@ props=C07 tier=quick m=- fn=BoundedCursor::new_empty
#[kani::proof]
#[kani::unwind(10)]
fn starts_empty() {
    assert!(view(&BoundedCursor::<0>::new_empty()).1 == 0);
    assert!(view(&BoundedCursor::<1>::new_empty()).1 == 0);
    assert!(view(&BoundedCursor::<8>::new_empty()).1 == 0);
    let mut c = BoundedCursor::<255>::new_empty();
    assert!(c.next().is_none());
    kani::cover!(true, "reached");
}

//@ props=C07 tier=quick m=- fn=BoundedCursor::new_empty
#[kani::proof]
#[kani::should_panic]
fn too_long() {
    kani::cover!(true, "reached");
    let _ = BoundedCursor::<256>::new_empty();
    kani::cover!(true, "never: a cursor longer than its counter");
}

/// The builder is the cursor, except that it leaves alone one that does nothing.
//@ props=C07 tier=quick m=- fn=CursorBuilder::new,CursorBuilder::prepend_to_path,CursorBuilder::reset,CursorBuilder::reborrow,CursorBuilder::is_nop
#[kani::proof]
#[kani::unwind(10)]
fn builder() {
    let mut c = any_cursor::<2>();
    let mut d = c;
    let ops: [Option<u8>; 3] = kani::any();
    {
        let mut b = CursorBuilder::new(&mut c);
        assert!(!b.is_nop());
        for i in 0..3 {
            let mut r = b.reborrow();
            assert!(!r.is_nop());
            match ops[i] {
                None => { r.reset(); d = BoundedCursor::new_empty(); }
                Some(x) => {
                    r.prepend_to_path(PathComponent { child_idx: x });
                    Cursor::prepend_to_path(&mut d, PathComponent { child_idx: x });
                }
            }
        }
    }
    assert!(view(&c) == view(&d));
    let mut n = NoCursor;
    let mut b = CursorBuilder::new(&mut n);
    assert!(b.is_nop() && b.reborrow().is_nop());
    b.prepend_to_path(PathComponent { child_idx: 1 });
    b.reset();
    assert!(n.into_path().next().is_none());
    kani::cover!(true, "reached");
}
