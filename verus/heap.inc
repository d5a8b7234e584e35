// Addresses and recorded parents.
/// what is at an address
pub uninterp spec fn heap<I>(p: Ptr) -> Tree<I>;
pub open spec fn placed<I: Index>(t: Tree<I>) -> bool decreases t.height {
    heap::<I>(t.at) == t && forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).height < t.height && placed(t.kids[k])
}
/// every child records its parent: so without sharing
pub open spec fn linked<I: Index>(t: Tree<I>) -> bool decreases t.height {
    forall|k: int| 0 <= k < t.kids.len() ==> (#[trigger] t.kids[k]).height < t.height && t.kids[k].up == Some((t.at, k as u8)) && linked(t.kids[k])
}
impl<Ty: TypeHint, B, I: Index, S, P: RleTreeConfig<I, S, M>, const M: usize> NodeHandle<Ty, B, I, S, P, M> {
    #[verifier::external_body]
    pub fn ptr(&self) -> (r: Ptr) ensures r == self.tree().at { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u8) ensures r == self.tree().height { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, other: &Self) -> (r: bool) ensures r == (self.tree().at == other.tree().at) { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_type(self) -> (r: NodeHandle<ty::Unknown, B, I, S, P, M>) ensures r.tree() == self.tree() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_parent(self) -> (r: Result<(NodeHandle<ty::Internal, B, I, S, P, M>, u8), Self>)
        ensures match self.tree().up {
            Some((p, c)) => r matches Ok((h, i)) && i == c && h.tree() == heap::<I>(p),
            None => r is Err,
        }
    { unimplemented!() }
}
