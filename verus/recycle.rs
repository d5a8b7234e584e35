// RecycleVec (src/recycle.rs), for every length, every history and every element type.
//@ source src/recycle.rs
//@ rewrite unsafe\s*\{\s*weak_unreachable!\(\)\s*\} => never()
//@ rewrite \bpub\(crate\) => pub
use vstd::prelude::*;
use vstd::std_specs::nonzero::*;
use std::num::NonZeroUsize;
use std::cell::Cell;
use std::mem;
verus! {
// Assumed of the standard library. The counts inside the cells are left unspecified here (any value may
// be read): the obligations below hold whatever they are. The counts themselves: Kani, piece recycle/vec.
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExCell<T: ?Sized>(Cell<T>);
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T> [std::mem::forget] (t: T);
pub assume_specification<T> [Cell::<T>::new] (v: T) -> Cell<T>;
pub assume_specification<T: Copy> [Cell::<T>::get] (c: &Cell<T>) -> T;
pub assume_specification<T> [Cell::<T>::set] (c: &Cell<T>, v: T);
// fewer than usize::MAX copies of one handle exist
pub assume_specification [std::num::NonZero::<usize>::checked_add] (a: std::num::NonZero<usize>, b: usize) -> (r: Option<std::num::NonZero<usize>>) ensures r.is_some();
// what weak_unreachable!() stands for: proved not to be reached
fn never() -> ! requires false { vstd::pervasive::unreached() }

//@ type RecycleVec
//@ type EntryId
#[derive(Copy, Clone)]
//@ type LinkId
//@ type Entry
//@ type Value

spec fn lix(l: Option<LinkId>) -> int { match l { Some(x) => x.idx_plus_one@ as int - 1, None => -1 } }
spec fn free_list<T>(v: Seq<Entry<T>>, h: Option<LinkId>, fl: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < fl.len() ==> 0 <= #[trigger] fl[k] < v.len()
    &&& forall|k: int, l: int| 0 <= k < l < fl.len() ==> fl[k] != fl[l]
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] is Link <==> fl.contains(i))
    &&& lix(h) == (if fl.len() == 0 { -1 } else { fl[0] })
    &&& forall|k: int| 0 <= k < fl.len() ==> lix(v[#[trigger] fl[k]]->Link_0) == (if k + 1 < fl.len() { fl[k + 1] } else { -1 })
}
spec fn wfs<T>(v: Seq<Entry<T>>, h: Option<LinkId>) -> bool { exists|fl: Seq<int>| free_list(v, h, fl) }
spec fn same_link<T>(a: Entry<T>, b: Entry<T>) -> bool { (a is Link == b is Link) && (a is Link ==> lix(a->Link_0) == lix(b->Link_0)) }
broadcast proof fn lemma_head<T>(v: Seq<Entry<T>>, h: Option<LinkId>)
    requires #[trigger] wfs(v, h)
    ensures lix(h) >= 0 ==> lix(h) < v.len() && v[lix(h)] is Link,
      lix(h) < 0 ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Value
{ let fl = choose|fl: Seq<int>| free_list(v, h, fl); if fl.len() > 0 { assert(fl.contains(fl[0])); } }
broadcast proof fn lemma_free<T>(v: Seq<Entry<T>>, h: Option<LinkId>, v2: Seq<Entry<T>>, h2: Option<LinkId>)
    requires #[trigger] wfs(v, h), 0 <= lix(h2) < v.len(), v2.len() == v.len(), v[lix(h2)] is Value, v2[lix(h2)] is Link, lix(v2[lix(h2)]->Link_0) == lix(h),
      forall|j: int| 0 <= j < v.len() && j != lix(h2) ==> same_link(#[trigger] v[j], v2[j])
    ensures #[trigger] wfs(v2, h2)
{ let fl = choose|fl: Seq<int>| free_list(v, h, fl); let i = lix(h2); let f2 = seq![i] + fl;
  assert(!fl.contains(i));
  assert forall|j: int| 0 <= j < v2.len() implies (#[trigger] v2[j] is Link <==> f2.contains(j)) by { 
     if j == i { assert(f2[0] == i); } else { assert(same_link(v[j], v2[j])); if fl.contains(j) { let k = choose|k: int| 0 <= k < fl.len() && fl[k] == j; assert(f2[k+1] == j); } else if f2.contains(j) { let k = choose|k: int| 0 <= k < f2.len() && f2[k] == j; assert(fl[k-1] == j); } } }
  assert(free_list(v2, h2, f2)); }
broadcast proof fn lemma_take<T>(v: Seq<Entry<T>>, h: Option<LinkId>, v2: Seq<Entry<T>>, h2: Option<LinkId>)
    requires #[trigger] wfs(v, h), lix(h) >= 0, v2.len() == v.len(), v2[lix(h)] is Value, lix(h2) == lix(v[lix(h)]->Link_0),
      forall|j: int| 0 <= j < v.len() && j != lix(h) ==> same_link(#[trigger] v[j], v2[j])
    ensures #[trigger] wfs(v2, h2)
{ let fl = choose|fl: Seq<int>| free_list(v, h, fl); let i = lix(h); let f2 = fl.drop_first();
  assert forall|j: int| 0 <= j < v2.len() implies (#[trigger] v2[j] is Link <==> f2.contains(j)) by { 
     assert(v[j] is Link <==> fl.contains(j));
     if j == i { if f2.contains(j) { let k = choose|k: int| 0 <= k < f2.len() && f2[k] == j; assert(fl[k+1] == fl[0]); } } else { assert(same_link(v[j], v2[j])); if fl.contains(j) { let k = choose|k: int| 0 <= k < fl.len() && fl[k] == j; assert(f2[k-1] == j); } else if f2.contains(j) { let k = choose|k: int| 0 <= k < f2.len() && f2[k] == j; assert(fl[k+1] == j); } } }
  assert(free_list(v2, h2, f2)); }
broadcast proof fn lemma_grow<T>(v: Seq<Entry<T>>, h: Option<LinkId>, v2: Seq<Entry<T>>, h2: Option<LinkId>)
    requires #[trigger] wfs(v, h), lix(h) == -1, lix(h2) == -1, v2.len() == v.len() + 1, v2[v.len() as int] is Value,
      forall|j: int| 0 <= j < v.len() ==> same_link(#[trigger] v[j], v2[j])
    ensures #[trigger] wfs(v2, h2)
{ let fl = Seq::<int>::empty(); assert(free_list(v2, h2, fl)) by { assert forall|j: int| 0 <= j < v2.len() implies (#[trigger] v2[j] is Link <==> fl.contains(j)) by {  if j < v.len() { assert(v[j] is Value) by { lemma_head(v, h); } assert(same_link(v[j], v2[j])); } } } }
broadcast proof fn lemma_same<T>(v: Seq<Entry<T>>, h: Option<LinkId>, v2: Seq<Entry<T>>, h2: Option<LinkId>)
    requires #[trigger] wfs(v, h), lix(h) == lix(h2), v2.len() == v.len(),
      forall|j: int| 0 <= j < v.len() ==> same_link(#[trigger] v[j], v2[j])
    ensures #[trigger] wfs(v2, h2)
{ let fl = choose|fl: Seq<int>| free_list(v, h, fl); assert(free_list(v2, h2, fl)) by { assert forall|j: int| 0 <= j < v2.len() implies (#[trigger] v2[j] is Link <==> fl.contains(j)) by { assert(same_link(v[j], v2[j])); }
 assert forall|k: int| 0 <= k < fl.len() implies lix(v2[#[trigger] fl[k]]->Link_0) == (if k + 1 < fl.len() { fl[k + 1] } else { -1 }) by { assert(fl.contains(fl[k])); assert(same_link(v[fl[k]], v2[fl[k]])); } } }

broadcast proof fn lemma_none<T>(v: Seq<Entry<T>>, h: Option<LinkId>)
    requires v.len() == 0, lix(h) == -1
    ensures #[trigger] wfs(v, h)
{ assert(free_list(v, h, Seq::<int>::empty())); }
//@ impl impl<T> RecycleVec<T>
    /// The free slots form one list, without repetition, from head_empty; all other slots hold a value.
    pub closed spec fn wf(&self) -> bool { wfs(self.vals@, self.head_empty) }
    pub closed spec fn has(&self, i: int) -> bool { 0 <= i < self.vals@.len() && self.vals@[i] is Value }
    pub closed spec fn at(&self, i: int) -> T { self.vals@[i]->Value_0.inner }
    pub closed spec fn slots(&self) -> int { self.vals@.len() as int }
//@ fn push -> r props=C18,C08
    requires old(self).wf(), old(self).slots() < usize::MAX
    ensures final(self).wf(), !old(self).has(r.ix()), final(self).has(r.ix()), final(self).at(r.ix()) == val,
       forall|i: int| i != r.ix() ==> #[trigger] final(self).has(i) == old(self).has(i),
       forall|i: int| i != r.ix() && old(self).has(i) ==> #[trigger] final(self).at(i) == old(self).at(i),
       // a free slot is used before the store grows
       (exists|i: int| 0 <= i < old(self).slots() && !old(self).has(i)) ==> final(self).slots() == old(self).slots(),
       final(self).slots() <= old(self).slots() + 1,
//@ body
    broadcast use {lemma_head, lemma_free, lemma_take, lemma_grow, lemma_same};
//@ fn recycle -> r props=C18,C08
    requires old(self).wf(), old(self).has(id.ix())
    ensures final(self).wf(), final(self).slots() == old(self).slots(),
       match r {
          Some(v) => v == old(self).at(id.ix()) && !final(self).has(id.ix()),
          None => final(self).has(id.ix()) && final(self).at(id.ix()) == old(self).at(id.ix()),
       },
       forall|i: int| i != id.ix() ==> #[trigger] final(self).has(i) == old(self).has(i),
       forall|i: int| i != id.ix() && old(self).has(i) ==> #[trigger] final(self).at(i) == old(self).at(i),
//@ body
    broadcast use {lemma_head, lemma_free, lemma_take, lemma_grow, lemma_same};
//@ fn clone -> r props=C18,C08
    requires self.wf(), self.has(id.ix())
    ensures r.ix() == id.ix()
//@ fn get -> r props=C18,C08
    requires self.wf(), self.has(id.ix())
    ensures *r == self.at(id.ix())
//@ fn replace -> r props=C18,C08
    requires old(self).wf(), old(self).has(id.ix())
    ensures final(self).wf(), final(self).slots() == old(self).slots(), r == old(self).at(id.ix()), final(self).at(id.ix()) == val,
       forall|i: int| #[trigger] final(self).has(i) == old(self).has(i),
       forall|i: int| i != id.ix() && old(self).has(i) ==> #[trigger] final(self).at(i) == old(self).at(i),
//@ body
    broadcast use {lemma_head, lemma_free, lemma_take, lemma_grow, lemma_same};
//@ fn next_link -> r props=C18
    requires 0 <= id.ix() < self.slots(), self.vals@[id.ix()] is Link
    ensures r == self.vals@[id.ix()]->Link_0
//@ end

//@ impl impl EntryId
    pub closed spec fn ix(&self) -> int { self.idx_plus_one@ - 1 }
//@ fn idx -> r props=C18,C08
    ensures r == self.ix()
//@ fn clone_because_vec_is_dropped -> r props=C18,C23
    ensures r.ix() == self.ix()
//@ end

//@ impl impl LinkId
    closed spec fn ix(&self) -> int { self.idx_plus_one@ - 1 }
//@ fn idx -> r props=C18
    ensures r == self.ix()
//@ end

//@ impl impl<T> Value<T>
//@ fn new -> r props=C18
    ensures r.0.inner == val, r.1.ix() == idx_plus_one@ - 1
//@ end

//@ impl impl<T> Default for RecycleVec<T> => impl<T> RecycleVec<T>
//@ fn default -> r props=C18
    ensures r.wf(), r.slots() == 0
//@ body
    broadcast use lemma_none;
//@ end
fn main() {}
}
