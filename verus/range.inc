//@ source src/range.rs
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type StartBound
#[derive(Copy, Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
//@ type EndBound

// Assumed of the index type: Ord is a total order, and the comparison operators agree with it.
pub open spec fn total<T: Ord>() -> bool {
    &&& <T as OrdSpec>::obeys_cmp_spec()
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Ordering::Equal <==> a == b
    &&& forall|a: T, b: T, c: T| a.cmp_spec(&b) == Ordering::Less && b.cmp_spec(&c) == Ordering::Less ==> a.cmp_spec(&c) == Ordering::Less
}
pub open spec fn above<T: Ord>(s: StartBound<&T>, v: T) -> bool { match s { StartBound::Included(x) => !lt(v, *x), _ => true } }
pub open spec fn below<T: Ord>(e: EndBound<&T>, v: T) -> bool { match e { EndBound::Included(x) => !lt(*x, v), EndBound::Excluded(x) => lt(v, *x), _ => true } }
/// The set of values the range denotes.
pub open spec fn inside<T: Ord>(s: StartBound<&T>, e: EndBound<&T>, v: T) -> bool { above(s, v) && below(e, v) }
/// The greater of two starts; either when there is only one.
pub open spec fn later<T: Ord>(a: StartBound<&T>, b: StartBound<&T>) -> T {
    match (a, b) {
        (StartBound::Included(x), StartBound::Included(y)) => if lt(*x, *y) { *y } else { *x },
        (StartBound::Included(x), _) => *x,
        (_, StartBound::Included(y)) => *y,
        _ => arbitrary(),
    }
}

//@ trait pub trait RangeBounds<T>
    spec fn sb(&self) -> StartBound<&T>;
    spec fn eb(&self) -> EndBound<&T>;
//@ fn start_bound -> r
    ensures r == self.sb()
//@ fn end_bound -> r
    ensures r == self.eb()
//@ skip fn overlaps_naive
//@ fn contains -> r props=C16
    requires <T as PartialOrdSpec<U>>::obeys_partial_cmp_spec(), <U as PartialOrdSpec<T>>::obeys_partial_cmp_spec()
    ensures r <==> (match self.sb() {
        StartBound::Included(x) => x.partial_cmp_spec(item) == Some(Ordering::Less) || x.partial_cmp_spec(item) == Some(Ordering::Equal),
        _ => true }) && (match self.eb() {
        EndBound::Included(x) => item.partial_cmp_spec(x) == Some(Ordering::Less) || item.partial_cmp_spec(x) == Some(Ordering::Equal),
        EndBound::Excluded(x) => item.partial_cmp_spec(x) == Some(Ordering::Less),
        _ => true })
//@ fn starts_after_end -> r props=C16
    requires <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    ensures r <==> match (self.sb(), self.eb()) {
        (StartBound::Included(x), EndBound::Included(y)) => x.partial_cmp_spec(y) == Some(Ordering::Greater),
        (StartBound::Included(x), EndBound::Excluded(y)) => x.partial_cmp_spec(y) == Some(Ordering::Greater) || x.partial_cmp_spec(y) == Some(Ordering::Equal),
        _ => false,
    }
//@ fn is_empty_naive -> r props=C16
    requires total::<T>()
    ensures r <==> match (self.sb(), self.eb()) {
            (StartBound::Included(x), EndBound::Included(y)) => lt(*y, *x),
            (StartBound::Included(x), EndBound::Excluded(y)) => !lt(*x, *y),
            _ => false,
        },
        r ==> forall|v: T| !#[trigger] inside(self.sb(), self.eb(), v),
        // when there is a start, it says "not empty" exactly if the start itself is in the range
        self.sb() is Included ==> r == !inside(self.sb(), self.eb(), *self.sb()->Included_0),
//@ end

// (a trait of its own: Verus does not let a trait's default method be bounded by the trait itself)
//@ trait pub trait RangeBounds<T> => pub trait Overlaps<T>: RangeBounds<T>
//@ skip fn contains start_bound end_bound starts_after_end is_empty_naive
//@ fn overlaps_naive -> r props=C16
    requires total::<T>()
    ensures !r ==> forall|v: T| !(#[trigger] inside(self.sb(), self.eb(), v) && inside(other.sb(), other.eb(), v)),
        self.sb() is Included || other.sb() is Included ==>
            r == (inside(self.sb(), self.eb(), later(self.sb(), other.sb())) && inside(other.sb(), other.eb(), later(self.sb(), other.sb()))),
//@ end

//@ impl impl<T> StartBound<T>
//@ fn as_ref -> r props=C16
    ensures (self is Unbounded <==> r is Unbounded), r matches StartBound::Included(x) ==> *x == self->Included_0
//@ end
//@ impl impl<T> EndBound<T>
//@ fn as_ref -> r props=C16
    ensures (self is Unbounded <==> r is Unbounded), r matches EndBound::Included(x) ==> *self == EndBound::Included(*x), r matches EndBound::Excluded(x) ==> *self == EndBound::Excluded(*x)
//@ end
//@ impl impl<T> RangeBounds<T> for (StartBound<T>, EndBound<T>)
    open spec fn sb(&self) -> StartBound<&T> { match self.0 { StartBound::Included(x) => StartBound::Included(&x), _ => StartBound::Unbounded } }
    open spec fn eb(&self) -> EndBound<&T> { match self.1 { EndBound::Included(x) => EndBound::Included(&x), EndBound::Excluded(x) => EndBound::Excluded(&x), _ => EndBound::Unbounded } }
//@ fn start_bound props=C16
//@ fn end_bound props=C16
//@ end
