//! Contracts of writing a tree out, against a format that records what it is given and may fail.
//! features: serde
use super::super::*;
use crate::param::NoFeatures;
use crate::tree::node::verif::lib::*;
use crate::tree::Root;
use crate::{DirectionalAdd, RleTree};
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::fmt::{self, Display};
use std::mem::ManuallyDrop;

#[derive(Debug)]
struct Bad;
impl Display for Bad { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: Display>(_: T) -> Bad { Bad } }

/// One slice after the other: its size, its content.
static mut OUT: [u16; 8] = [0; 8];
static mut N: usize = 0;
/// Where in the output we are: 0 before, 1 in the sequence, 2 in an element, 3 after.
static mut AT: u8 = 0;
static mut PUT: u8 = 0;
impl Serialize for H {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> { s.serialize_u16(self.0) }
}
impl Serialize for U {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> { s.serialize_u16(self.w.0) }
}
struct Out;
struct Seq;
struct Tup;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<(), Bad> { Err(Bad) })* };
}
impl Serializer for Out {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Seq;
    type SerializeTuple = Tup;
    type SerializeTupleStruct = Impossible<(), Bad>;
    type SerializeTupleVariant = Impossible<(), Bad>;
    type SerializeMap = Impossible<(), Bad>;
    type SerializeStruct = Impossible<(), Bad>;
    type SerializeStructVariant = Impossible<(), Bad>;
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> { Err(Bad) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bad> { Err(Bad) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
    fn serialize_u16(self, x: u16) -> Result<(), Bad> {
        unsafe { assert!(AT == 2); OUT[N] = x; N += 1 }
        Ok(())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Bad> {
        unsafe { assert!(AT == 0, "one sequence"); AT = 1 }
        Ok(Seq)
    }
    fn serialize_tuple(self, n: usize) -> Result<Tup, Bad> {
        unsafe { assert!(AT == 1 && n == 2, "of pairs"); AT = 2; PUT = 0 }
        Ok(Tup)
    }
}
impl ser::SerializeSeq for Seq {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Bad> {
        // the format can fail at any time
        if unsafe { MAY_FAIL } && kani::any() { unsafe { FAILED = true } return Err(Bad) }
        t.serialize(Out)
    }
    fn end(self) -> Result<(), Bad> {
        unsafe { assert!(AT == 1); AT = 3 }
        Ok(())
    }
}
static mut MAY_FAIL: bool = false;
static mut FAILED: bool = false;
impl ser::SerializeTuple for Tup {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Bad> {
        unsafe { PUT += 1 }
        t.serialize(Out)
    }
    fn end(self) -> Result<(), Bad> {
        unsafe { assert!(AT == 2 && PUT == 2, "of pairs"); AT = 1 }
        Ok(())
    }
}
/// Where the iterator's position is: the first slice of the only leaf, then the next one.
/// (Contracts of both: iter/walk.)
impl<'t, C: Cursor, I: Index, S: 't + Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Iter<'t, C, I, S, P, M> {
    fn at_first(root: NodeHandle<ty::Unknown, borrow::Immut<'t>, I, S, P, M>, _: Option<C>, target: IncludedOrExcludedBound<I>) -> IterStack<'t, I, S, P, M> {
        assert!(matches!(target, IncludedOrExcludedBound::Included(i) if i == I::ZERO), "from the start");
        let head = unsafe { root.into_slice_handle(0) };
        IterStack { stack: Vec::new(), root_height: 0, end_pos: head.slice_size(), head }
    }
}
impl<'t, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> IterStack<'t, I, S, P, M> {
    fn to_next(&mut self) {
        assert!(self.head.idx + 1 < self.head.node.leaf().len(), "there is a next one");
        self.head = unsafe { self.head.node.into_slice_handle(self.head.idx + 1) };
        self.end_pos = self.end_pos.add_right(self.head.slice_size());
    }
}
fn write(len: u8) {
    let p = any_leaf::<U, NoFeatures, 1>(len, len, 20);
    // contents that are not their sizes
    for i in 0..len as usize { unsafe { set_word::<U, NoFeatures, 1>(p, i, H::any()) } }
    let v: View<2> = view(p);
    let t = ManuallyDrop::new(RleTree::<H, U, NoFeatures, 1> { root: Some(Root { handle: ManuallyDrop::new(node_handle(p, 0)), len: len as usize, refs_store: () }) });
    let r = t.serialize(Out);
    unsafe {
        if FAILED {
            assert!(r.is_err(), "an error is passed on");
        } else {
            assert!(r.is_ok() && AT == 3 && N == 2 * len as usize, "every slice, once");
            for i in 0..len as usize {
                let end = if i + 1 < len as usize { v.pos[i + 1] } else { v.total };
                assert!(v.pos[i].cat(H(OUT[2 * i])) == end && OUT[2 * i + 1] == v.w[i].0, "its size and its content, in order");
            }
            kani::cover!(true, "reached");
        }
    }
}
//@ props=C17 tier=quick m=1 fn=serde::RleTree::serialize
#[kani::proof] #[kani::unwind(5)] #[kani::stub(Iter::make_stack, Iter::at_first)] #[kani::stub(IterStack::fwd_step, IterStack::to_next)] fn write_one() { write(1) }
//@ props=C17 tier=quick m=1 fn=serde::RleTree::serialize
#[kani::proof] #[kani::unwind(5)] #[kani::stub(Iter::make_stack, Iter::at_first)] #[kani::stub(IterStack::fwd_step, IterStack::to_next)] fn write_two() { write(2) }
//@ props=C17 tier=quick m=1 fn=serde::RleTree::serialize
#[kani::proof] #[kani::unwind(5)] #[kani::stub(Iter::make_stack, Iter::at_first)] #[kani::stub(IterStack::fwd_step, IterStack::to_next)] fn write_failing() { unsafe { MAY_FAIL = true } write(2) }
//@ props=C17 tier=quick m=1 fn=serde::RleTree::serialize
#[kani::proof] #[kani::unwind(5)]
fn write_none() {
    let t = RleTree::<H, U, NoFeatures, 1>::new_empty();
    assert!(t.serialize(Out).is_ok() && unsafe { AT == 3 && N == 0 });
    kani::cover!(true, "reached");
}
