// BoundedCursor (src/cursor.rs), for every LEN.
//@ source src/cursor.rs
//@ rewrite self\.path\.copy_within\( => copy_within(&mut self.path, 
//@ rewrite Option<Self::Item> => Option<PathComponent>
use vstd::prelude::*;
verus! {
#[derive(Copy, Clone)]
//@ type PathComponent
//@ type BoundedCursor

// Assumed: core::slice::copy_within.
#[verifier::external_body]
fn copy_within<const N: usize>(s: &mut [PathComponent; N], src: std::ops::Range<usize>, dest: usize)
    requires src.start <= src.end <= N, dest + (src.end - src.start) <= N
    ensures final(s)@ == old(s)@.subrange(0, dest as int) + old(s)@.subrange(src.start as int, src.end as int)
       + old(s)@.subrange(dest + (src.end - src.start), N as int)
{ s.copy_within(src, dest) }

//@ impl impl<const LEN: usize> Cursor for BoundedCursor<LEN> => impl<const LEN: usize> BoundedCursor<LEN>
    /// No more components than LEN, and the code's own limit on LEN.
    spec fn wf(&self) -> bool { self.start_at <= LEN && LEN <= 255 }
    /// The path, from the root down.
    spec fn comps(&self) -> Seq<PathComponent> { self.path@.subrange(self.start_at as int, LEN as int) }
//@ fn new_empty -> r props=C07,C06
      requires LEN <= 255
      ensures r.wf(), r.comps() =~= Seq::empty()
//@ fn prepend_to_path props=C07,C06
      requires old(self).wf()
      ensures final(self).wf(),
        // the new component comes first; a component is given up only when LEN are already held, and then the deepest
        final(self).comps() =~= (seq![component] + old(self).comps()).subrange(0, if old(self).comps().len() < LEN { old(self).comps().len() + 1 as int } else { LEN as int })
//@ skip fn into_path
//@ end

//@ impl impl<const LEN: usize> Iterator for BoundedCursor<LEN> => impl<const LEN: usize> BoundedCursor<LEN>
//@ fn next -> r props=C07,C06
      requires old(self).wf()
      ensures final(self).wf(),
        r.is_none() ==> old(self).comps().len() == 0 && final(self).comps() =~= old(self).comps(),
        r.is_some() ==> old(self).comps().len() > 0 && r.unwrap() == old(self).comps()[0] && final(self).comps() =~= old(self).comps().drop_first()
//@ end

// Lemma over the contracts above: prepending the components c[0], c[1], .. of an upward walk to an empty cursor
// leaves the last min(n, LEN) of them, root first: a prefix of the true path.
spec fn walk(c: Seq<PathComponent>, len: nat) -> Seq<PathComponent> decreases c.len()
{ if c.len() == 0 { Seq::empty() } else { let p = walk(c.drop_last(), len); (seq![c.last()] + p).subrange(0, if p.len() < len { p.len() + 1 as int } else { len as int }) } }
proof fn lemma_walk(c: Seq<PathComponent>, len: nat)
    ensures walk(c, len).len() == if c.len() < len { c.len() } else { len },
        forall|k: int| 0 <= k < walk(c, len).len() ==> walk(c, len)[k] == c[c.len() - 1 - k]
    decreases c.len()
{ if c.len() > 0 { lemma_walk(c.drop_last(), len); } }
fn main() {}
}
