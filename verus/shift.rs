// Repositioning after a change of size, a step at a time and up to the root.
//@ rewrite <Self as MapState>::Map<'m> => Changes
//@ rewrite Option<&mut dyn FnMut\(&Self\) -> ControlFlow<\(\)>> => Option<Exit>
//@ rewrite early_exit\.as_mut\(\)\.map\(\|(\w+)\| \1\(&(\w+)\)\) => exits(&mut early_exit, &\2)
//@ include shift.inc
use std::ops::ControlFlow;
/// What is to be changed on the way, and where to stop.
pub struct Changes { pub any: bool }
#[verifier::external_body]
pub struct Exit { x: u8 }
#[verifier::external_body]
fn exits<T>(e: &mut Option<Exit>, x: &T) -> (r: Option<ControlFlow<()>>) ensures *old(e) is None ==> r is None && *final(e) is None { unimplemented!() }
broadcast proof fn lemma_pop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
impl<'c> CursorBuilder<'c> {
    #[verifier::external_body]
    fn prepend_to_path(&mut self, x: PathComponent)
        requires old(self).due().len() > 0, x.child_idx == old(self).due().last()
        ensures final(self).due() == old(self).due().drop_last() { unimplemented!() }
}
impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> {
    #[verifier::external_body]
    fn map(self, f: &mut Changes) -> (r: Self) ensures !old(f).any ==> r == self && *final(f) == *old(f) { unimplemented!() }
    /// The step to where it is, and those to the node, are still to be put in the cursor.
    pub open spec fn at_child(self) -> bool { match self.child_or_key { ChildOrKey::Child((c, h)) => self.cursor_builder.due() == way(h.above()).push(c), ChildOrKey::Key((k, h)) => self.at_node() } }
}
//@ impl impl<'t, 'c, I, S, P, const M: usize> OpUpdateState<'t, 'c, I, S, P, M> where I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, => impl<'t, 'c, I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> OpUpdateState<'t, 'c, I, S, P, M>
//@ only
//@ fn finish props=C01,C02,C05,C07,C15
    requires laws::<I>(), rdiff::<I>(), self.after_child() || self.after_key() || self.after_both(), self.at_child(), !map_state.any, early_exit is None
    ensures climbed::<I>()
//@ body
    hide(stale); hide(but); hide(ready); hide(above_ok); hide(Tree::wf); hide(Tree::node_ok);
    broadcast use {lemma_way, lemma_pop};
//@ attr #[verifier::loop_isolation(false)]
//@ loop
    invariant laws::<I>(), rdiff::<I>(), self_.after_child() || self_.after_key() || self_.after_both(), self_.at_child(), !map_state.any, early_exit is None
    decreases self_.above().len()
//@ end
fn main() {}
}
