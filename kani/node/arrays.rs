//! Contracts of the arrays that nodes are made of: as many elements as they say, one after the other,
//! each of them filled, taken and dropped once, wherever that stops.
use super::super::*;
use crate::const_math_hack::{ArrayHack, GradualInitArray, GradualUninitArray, MappedArray};

const MOST: usize = 9;
static mut DROPS: [u8; MOST] = [0; MOST];
struct D(u8);
impl Drop for D {
    fn drop(&mut self) { unsafe { DROPS[self.0 as usize] += 1 } }
}
fn dropped(from: usize, to: usize) -> bool {
    let mut ok = true;
    for i in 0..MOST { ok &= unsafe { DROPS[i] } == (i >= from && i < to) as u8 }
    ok
}
fn none_dropped() -> bool { dropped(0, 0) }

/// What holds for an array type that is to have `n` elements.
fn filled<A: ArrayHack<Element = D>>(n: usize, full: bool) {
    assert!(A::LEN == n && n <= MOST);
    assert!(std::mem::size_of::<A>() == n * std::mem::size_of::<D>() && std::mem::align_of::<A>() == std::mem::align_of::<D>(), "nothing between them");
    let mut a = GradualInitArray::<A>::new();
    let upto: usize = if full { n } else { kani::any() };
    kani::assume(upto <= n);
    for i in 0..n { if i < upto { unsafe { a.push_unchecked(D(i as u8)) } } }
    assert!(none_dropped(), "filling drops nothing");
    if full {
        let mut a = unsafe { a.into_init_unchecked() };
        assert!(none_dropped() && a.len() == n);
        assert!(a.as_slice().len() == n && a.as_mut_slice().len() == n);
        for i in 0..n {
            assert!(a.as_slice()[i].0 == i as u8 && a.as_mut_slice()[i].0 == i as u8);
            unsafe {
                assert!(a.get_unchecked(i).0 == i as u8 && a.get_mut_unchecked(i).0 == i as u8);
                assert!((*A::get_ptr_unchecked(&a, i)).0 == i as u8);
            }
        }
        // what is left over is dropped, what was taken is not
        let t: usize = kani::any();
        kani::assume(t <= n);
        let mut u = GradualUninitArray::new(a);
        for i in 0..n { if i < t { let d = unsafe { u.take_unchecked() }; assert!(d.0 == i as u8, "in order"); std::mem::forget(d) } }
        assert!(none_dropped());
        drop(u);
        assert!(dropped(t, n), "the rest, once");
    } else {
        drop(a);
        assert!(dropped(0, upto), "what is there, once");
    }
}
fn mapped<A: MappedArray<u8, Element = D> + MappedArray<MaybeUninit<D>>>(n: usize, uninit: bool) {
    let upto: usize = if uninit { kani::any() } else { n };
    kani::assume(upto <= n);
    let mut a = GradualInitArray::<A>::new();
    for i in 0..n { if i < upto { unsafe { a.push_unchecked(D(i as u8)) } } }
    if uninit {
        let u = a.into_uninit();
        assert!(none_dropped() && u.len() == n);
        for i in 0..n { if i < upto { assert!(unsafe { (*(u.as_slice()[i].as_ptr())).0 } == i as u8, "where it was") } }
        drop(u);
        assert!(none_dropped(), "nobody's any more");
    } else {
        let a = unsafe { a.into_init_unchecked() };
        let mut at = 0;
        let b = <A as MappedArray<u8>>::map_array_with_index(a, |i, d| {
            assert!(i == at && d.0 == i as u8, "each one in order");
            at += 1;
            std::mem::forget(d);
            i as u8 + 100
        });
        assert!(at == n && b.len() == n && none_dropped(), "each one once");
        for i in 0..n { assert!(b.as_slice()[i] == i as u8 + 100, "to its own place") }
    }
}
//@ props=C12,C13,C22 tier=quick m=1,2,4 fn=const_math_hack::GradualInitArray::push_unchecked,const_math_hack::GradualInitArray::drop,const_math_hack::ArrayHack::len
#[kani::proof] #[kani::unwind(11)]
fn partly_filled() {
    match kani::any::<u8>() % 6 {
        0 => filled::<KeyArray<D, 1>>(2, false),
        1 => filled::<KeyArray<D, 2>>(4, false),
        2 => filled::<KeyArray<D, 4>>(8, false),
        3 => filled::<ChildArray<D, 1>>(3, false),
        4 => filled::<ChildArray<D, 2>>(5, false),
        _ => filled::<ChildArray<D, 4>>(9, false),
    }
    kani::cover!(true, "reached");
}
//@ props=C12,C13,C22 tier=quick m=1,2,4 fn=const_math_hack::GradualInitArray::into_init_unchecked,const_math_hack::GradualUninitArray::take_unchecked,const_math_hack::GradualUninitArray::drop,const_math_hack::ArrayHack::as_slice,const_math_hack::ArrayHack::as_mut_slice,const_math_hack::ArrayHack::get_unchecked,const_math_hack::ArrayHack::get_mut_unchecked,const_math_hack::ArrayHack::get_ptr_unchecked,const_math_hack::ArrayHack::get_mut_ptr_unchecked
#[kani::proof] #[kani::unwind(11)]
fn filled_and_taken() {
    match kani::any::<u8>() % 6 {
        0 => filled::<KeyArray<D, 1>>(2, true),
        1 => filled::<KeyArray<D, 2>>(4, true),
        2 => filled::<KeyArray<D, 4>>(8, true),
        3 => filled::<ChildArray<D, 1>>(3, true),
        4 => filled::<ChildArray<D, 2>>(5, true),
        _ => filled::<ChildArray<D, 4>>(9, true),
    }
    kani::cover!(true, "reached");
}
//@ props=C12,C13,C22 tier=quick m=1,2,4 fn=const_math_hack::MappedArray::map_array_with_index,const_math_hack::MappedArray::map_array,const_math_hack::GradualInitArray::into_uninit
#[kani::proof] #[kani::unwind(11)]
fn mapped_over() {
    match kani::any::<u8>() % 6 {
        0 => mapped::<KeyArray<D, 1>>(2, false),
        1 => mapped::<KeyArray<D, 4>>(8, false),
        2 => mapped::<ChildArray<D, 1>>(3, false),
        3 => mapped::<ChildArray<D, 4>>(9, false),
        4 => mapped::<KeyArray<D, 2>>(4, true),
        _ => mapped::<ChildArray<D, 2>>(5, true),
    }
    kani::cover!(true, "reached");
}
