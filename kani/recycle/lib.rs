//! Vocabulary: what other contracts may ask of a `RecycleVec`.
#![allow(dead_code)]
use super::super::*;

/// How many references count on this slot.
pub fn count_of<T>(v: &RecycleVec<T>, id: &EntryId) -> usize {
    match &v.vals[id.idx_plus_one.get() - 1] {
        Entry::Value(x) => x.ref_count.get().get(),
        Entry::Link(_) => 0,
    }
}
