//! Contracts of reading a tree back, from a format that hands out anything.
//! needs: tree/whole
//! features: serde
use super::super::*;
use super::whole::Z;
use crate::param::{NoFeatures, RleTreeConfig};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use std::fmt::{self, Display};

#[derive(Debug)]
struct Bad;
impl Display for Bad { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl de::Error for Bad { fn custom<T: Display>(_: T) -> Bad { Bad } }

/// A slice with a content.
pub struct K(u8);
impl Slice<Z> for K {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: Z) -> K { K(self.0) }
}
impl<'de> Deserialize<'de> for Z {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Z, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Z;
            fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
            fn visit_i32<E: de::Error>(self, x: i32) -> Result<Z, E> { Ok(Z(x)) }
        }
        d.deserialize_i32(V)
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = K;
            fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
            fn visit_u8<E: de::Error>(self, x: u8) -> Result<K, E> { Ok(K(x)) }
        }
        d.deserialize_u8(V)
    }
}
const MAX: usize = 3;
/// What the input holds: pairs, then its end or something that is no pair.
static mut IN: [(i32, u8); MAX] = [(0, 0); MAX];
static mut PAIRS: usize = 0;
static mut BROKEN: bool = false;
static mut READ: usize = 0;
#[derive(Copy, Clone)]
enum Src { Top, Pair(usize), Size(i32), Value(u8) }
struct Pairs;
struct Two(usize, u8);
impl<'de> Deserializer<'de> for Src {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self {
            Src::Top => v.visit_seq(Pairs),
            Src::Pair(i) => v.visit_seq(Two(i, 0)),
            Src::Size(x) => v.visit_i32(x),
            Src::Value(x) => v.visit_u8(x),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> SeqAccess<'de> for Pairs {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, Bad> {
        unsafe {
            let i = READ;
            READ += 1;
            assert!(i <= PAIRS, "reads no further than the end");
            if i < PAIRS { return t.deserialize(Src::Pair(i)).map(Some) }
            if BROKEN { Err(Bad) } else { Ok(None) }
        }
    }
}
impl<'de> SeqAccess<'de> for Two {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, Bad> {
        self.1 += 1;
        let (a, b) = unsafe { IN[self.0] };
        match self.1 {
            1 => t.deserialize(Src::Size(a)).map(Some),
            2 => t.deserialize(Src::Value(b)).map(Some),
            _ => Ok(None),
        }
    }
}
/// What was inserted, by the contract of `insert` a list.
static mut LIST: [(i32, i32, u8); MAX] = [(0, 0, 0); MAX];
static mut LEN: usize = 0;
static mut END: i32 = 0;
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    fn insert_in_list(&mut self, idx: I, slice: S, size: I) {
        unsafe {
            let (i, n): (i32, i32) = (std::mem::transmute_copy(&idx), std::mem::transmute_copy(&size));
            assert!(n > 0 && i == END, "each one goes to the end");
            LIST[LEN] = (i, n, std::mem::transmute_copy(&slice));
            LEN += 1;
            // the end is anywhere: sizes need not add up like numbers do
            END = kani::any();
        }
    }
}
impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> RleTree<I, S, P, M> {
    fn list_size(&self) -> I { unsafe { std::mem::transmute_copy(&END) } }
}
//@ props=C17,C14 tier=quick m=1 fn=serde::RleTree::deserialize,serde::RleTreeVisitor::visit_seq assume=RleTree::insert bounded=3-elements
#[kani::proof] #[kani::unwind(5)] #[kani::stub(RleTree::insert, RleTree::insert_in_list)] #[kani::stub(RleTree::size, RleTree::list_size)]
fn read() {
    let pairs: usize = kani::any();
    kani::assume(pairs <= MAX);
    unsafe {
        PAIRS = pairs;
        BROKEN = kani::any();
        END = kani::any();
        for i in 0..MAX { IN[i] = (kani::any(), kani::any()) }
    }
    let r = RleTree::<Z, K, NoFeatures, 1>::deserialize(Src::Top);
    unsafe {
        // up to the first slice without a size
        let mut good = 0;
        while good < pairs && IN[good].0 > 0 { good += 1 }
        assert!(r.is_ok() == (good == pairs && !BROKEN), "malformed input is an error, and nothing else");
        assert!(LEN == good);
        for i in 0..MAX {
            if i < good { assert!(LIST[i].1 == IN[i].0 && LIST[i].2 == IN[i].1, "the slices that were read, in order") }
        }
        kani::cover!(r.is_ok() && pairs == 3, "reads three");
        kani::cover!(BROKEN && pairs == 1, "broken input");
        kani::cover!(good < pairs, "a slice without a size");
    }
    std::mem::forget(r);
}
