#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the lines stay uniform).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "src/tree/"
p("C01", "Insertion behaves exactly like inserting a run into a list",
  "Inserting a slice at a position yields the content obtained by splicing the slice's units into the previous content at that position: everything before is unchanged, everything after moves right by the inserted size, and a slice that straddles the position is cut in two around it. Two neighbouring slices are merged exactly when the slice type says they join, and no unit is lost, duplicated or reordered.",
  ["inputs", "histories"], "every history of insertions, every position in 0..=size, every positive size, every slice type honouring the documented contract, every tree shape",
  "the tests insert a few dozen fixed sequences; the structural cases (full leaf, full internal node, split on the left, middle or right, update propagating to the root) depend on the history and position",
  [T+"insert.rs", T+"fix.rs", T+"node.rs"],
  [("insertion entry and case split", T+"insert.rs:41 insert_internal"), ("split a slice around the insertion", T+"insert.rs:529 do_insert_full_split_key, 983 insert_rhs"),
   ("join with neighbours", T+"insert.rs:670 do_insert_full_edge_try_join"), ("overflow of a leaf", T+"insert.rs:1338 do_insert_full_edge_no_join_split, 1774 ..._small_m"),
   ("propagation upwards", T+"insert.rs:1925 BubbledInsertState::do_upward_step, fix.rs:522 OpUpdateState::do_upward_step"), ("node edits", T+"node.rs:2152 insert_key, 2223 push_key, 1372 split, 2361 push_key_and_child, 2453 insert_key_and_child")],
  ["iteration over the whole tree", "lookup at every position"], None, "private node operations are reached through a cfg(kani) module")
p("C02", "Total size and slice count always match the content",
  "The reported total size is the ordered sum of the sizes of all slices held, and the reported number of slices is the number of entries a full traversal yields; both are zero exactly for an empty tree. Every intermediate node's recorded size likewise equals the size of what lies beneath it.",
  ["inputs", "histories"], "every history of operations and every tree shape",
  "tests compare the size after a handful of insertions; a stale ancestor size shows up only at particular depths and positions",
  [T+"mod.rs", T+"fix.rs", T+"insert.rs", T+"node.rs"],
  [("reported values", T+"mod.rs:361 size, 372 number_of_slices"), ("size propagation", T+"fix.rs:522 do_upward_step, 626-686 shift_keys*"), ("node size updates", T+"node.rs:2152 insert_key, 2223 push_key, 2361 push_key_and_child, 1689 make_new_parent")],
  ["size", "number_of_slices", "a full traversal"],
  [("recorded subtree size", "size of all slices below a node", T+"node.rs Leaf::total_size"), ("slice count", "number of slices in the tree", T+"mod.rs Root")])
p("C03", "Looking up a position returns the slice covering it, with its exact range",
  "For every position below the total size, the lookup returns the unique slice whose range contains the position, and the range and size it reports are those of that slice: the range starts where all earlier slices end, its length is the size, and it contains the position. The lookup does not change the tree.",
  ["inputs", "histories"], "every reachable tree, every position below the size, every hint",
  "tests look up a few positions in a few trees; boundary positions at node edges at each depth are the interesting ones",
  [T+"mod.rs", T+"node.rs", T+"entry.rs"],
  [("descent", T+"mod.rs:398 get_with_cursor, 846 search_step"), ("child positions and sizes", T+"node.rs:1997 child_size, 2011 child_pos, 2887 slice_size"), ("entry range", T+"entry.rs:84 range, 91 size")],
  ["get", "get_with_cursor"])
p("C04", "Range iteration yields exactly the overlapping slices, in order, from both ends",
  "Iterating over a range yields each slice that overlaps the range exactly once, in increasing order from the front and decreasing order from the back, each with its correct position range. The two ends can be consumed in any interleaving and together still yield each slice once, after which the iterator stays exhausted.",
  ["inputs", "histories"], "every reachable tree, every legal range (all bound kinds), every interleaving of front and back steps",
  "tests iterate full trees and a few ranges; the stack hand-over between front and back depends on tree shape, range and interleaving",
  [T+"iter.rs", T+"mod.rs", "src/range.rs"],
  [("range set-up", T+"iter.rs:199 new, 258 make_stack"), ("stepping", T+"iter.rs:384 fwd_step, 475 bkwd_step, 579 next, 642 next_back")],
  ["iter", "iter_with_cursor"])
p("C05", "Every reachable tree is a well-formed balanced tree",
  "After every completed operation all leaves are at the same depth, every node but the root holds between the minimum and twice the minimum number of slices, slice positions inside a node are strictly increasing, and each child records its own parent and slot. Lookup cost therefore stays logarithmic in the number of slices.",
  ["inputs", "histories"], "every history of operations, every minimum node size",
  "tests call the structural validator on a few histories; each rebalancing case must preserve the shape for every fill level",
  [T+"node.rs", T+"insert.rs", T+"fix.rs"],
  [("node split", T+"node.rs:1372 split"), ("leaf overflow", T+"insert.rs:1338 do_insert_full_edge_no_join_split, 1774"), ("internal overflow", T+"insert.rs:1925 do_upward_step"), ("new root", T+"node.rs:1689 make_new_parent")],
  ["structural validator", "debug rendering"],
  [("node length", "number of slices in the node", T+"node.rs Leaf::len"), ("child back-pointer", "parent and slot recorded by each child", T+"node.rs Leaf::parent")],
  "cfg(kani) module; the crate's validator under its existing fuzz feature")
p("C06", "A cursor is only a hint: it never changes any result",
  "Every operation that accepts a cursor gives the same result and leaves the same tree as the operation without one, whatever cursor is supplied: one from another tree, from an older state of this tree, too short, too long or arbitrary.",
  ["inputs", "histories"], "every tree, operation and sequence of path components",
  "tests pass only cursors obtained from the tree just before",
  [T+"mod.rs", "src/cursor.rs", T+"iter.rs"],
  [("hint use and validation", T+"mod.rs:846 search_step"), ("hint stays aligned with the descent", T+"mod.rs:398 get_with_cursor, insert.rs:1229 find_insertion_point, iter.rs:258 make_stack")],
  ["get_with_cursor", "insert_with_cursor", "iter_with_cursor"])
p("C07", "Cursors describe the true path and bounded ones keep the topmost steps",
  "A cursor produced for a position, an entry, a reference or an insertion describes, from the root down, the path to that slice. A bounded cursor of capacity N yields, in root-to-leaf order, exactly the first min(N, depth) steps of that path and nothing else.",
  ["inputs", "histories"], "every tree, slice and capacity from 0 to 255",
  "no test inspects the components of a cursor; a wrong one only makes later operations slower",
  ["src/cursor.rs", T+"entry.rs", T+"mod.rs", T+"insert.rs"],
  [("fixed-size path buffer", "src/cursor.rs:93 BoundedCursor"), ("path construction", T+"entry.rs:106 cursor_to_handle, mod.rs:460 cursor_to, fix.rs:522, insert.rs:1925")],
  ["a user-defined recording cursor", "BoundedCursor iteration"])
p("C08", "A reference keeps denoting its slice across every later change",
  "After any later operation, a reference to a slice still denotes that same slice, now at its current range, as long as the slice is in the tree; taking, cloning or dropping references changes nothing else. When the slice was merged into a neighbour, a reference to it either denotes the merged slice or reports that it is no longer valid, and never denotes an unrelated slice.",
  ["histories"], "every history mixing insertions, reference creation, cloning, dropping and lookups",
  "tests create few references in small trees; every node split, shift and move must carry each reference along",
  [T+"slice_ref.rs", T+"node.rs", T+"insert.rs"],
  [("store updates", T+"slice_ref.rs update/suspend/redirect/remove"), ("moves between nodes", T+"node.rs:2152 insert_key, 2223 push_key, 1372 split, 3014 take_value_and_leave_hole, 3057 fill_hole")],
  ["range, borrow_slice and is_valid on a reference"])
p("C09", "Borrowing a slice through a reference excludes every mutation",
  "While a borrow obtained through a reference is alive, no mutation of the tree succeeds, and while the tree is being mutated no borrow is granted; when the last borrow ends the tree is mutable again. The number of outstanding borrows is tracked exactly across clones, maps and drops of borrows.",
  ["histories", "inputs"], "every interleaving of borrow, clone, map, release, insert and reference calls, including calls made from within user code running during a mutation",
  "tests cover one borrow at a time and no re-entrancy",
  [T+"slice_ref.rs"],
  [("borrow state", T+"slice_ref.rs:261 BorrowState for SliceRefStore, 895 TemporaryBorrow, 1025 Borrow::clone, 1076 drop_borrow")],
  ["borrow_slice", "insert", "is_valid"],
  [("borrow state", "mutable, immutable with a count, dropped", T+"slice_ref.rs BorrowState")])
p("C10", "Copy-on-write clones are isolated from one another",
  "A copy-on-write clone has the same content as the original at the time of cloning, and from then on no operation on either changes the content, structure or lookups of the other. Holds for any number of clones, cloned from one another at any time and dropped in any order.",
  ["histories"], "every history over any number of related clones, including dropping any of them at any time",
  "tests clone once or twice at fixed points; which nodes are shared depends on the whole history",
  [T+"node.rs", T+"mod.rs", T+"cow.rs", T+"insert.rs", T+"iter.rs"],
  [("copy before write", T+"node.rs:1012 shallow_clone, 2583 ensure_unique, 1603 make_unique, 2043 into_child"), ("sharing count", T+"cow.rs:17 StrongCount")],
  ["full traversal of every clone after every operation"])
p("C11", "A deep clone is equal to and independent of its original",
  "Cloning a tree that does not share nodes yields a tree with equal content and structure, whose slices are each a clone of the corresponding original slice, made exactly once. Afterwards the two can be changed and dropped independently.",
  ["inputs", "histories"], "every reachable tree",
  "the tests clone a few small trees",
  [T+"node.rs", T+"mod.rs"], [("deep clone", T+"node.rs:1117 deep_clone, mod.rs:765 Clone")], ["clone and full traversal"])
p("C12", "Every slice is dropped exactly once and nothing is leaked",
  "Every slice value handed to the tree, or made by splitting, joining or cloning, is either still owned by some tree or dropped exactly once, and a dropped tree releases all of its memory once no borrow or reference needs it. That includes histories in which cloning a shared node for an insertion panics.",
  ["histories"], "every history of operations ending with everything dropped, in every order",
  "tests do not count drops; a double drop or a leak in a rarely taken rebalancing path passes silently",
  [T+"node.rs", T+"mod.rs", T+"slice_ref.rs"],
  [("tree destruction", T+"node.rs:1846 do_drop, 1587 try_drop, mod.rs:275 destruct_root"), ("moving values between nodes", T+"node.rs:2661 shift, 1372 split"), ("store deallocation", T+"slice_ref.rs:1133 dealloc")],
  ["drop counting on slice values", "allocator balance"])
p("C13", "A panic in user code never exposes a moved-out slice or frees one twice",
  "If the slice type's split, join or clone panics during an operation, or an index operation does, then the tree can still be dropped, every slice is dropped at most once, and every later read either returns a properly owned slice or panics. No moved-out or freed value is ever readable.",
  ["fault_sequences", "histories"], "every history, every user callback in it as panic point, and every later sequence of reads",
  "no test makes a callback panic",
  [T+"node.rs", T+"insert.rs"], [("holes left while a slice is out", T+"node.rs:2724 is_hole, 3014 take_value_and_leave_hole, 3057 fill_hole"), ("state resumable during propagation", T+"fix.rs MapState, insert.rs:2366")],
  ["catch_unwind around an operation, then reads and drop"])
p("C14", "Invalid requests panic as documented and leave the tree as it was",
  "Inserting past the end or with a zero size, looking up at or past the end, iterating over a range that reaches past the end or is reversed, and using an unsupported node size all panic with the documented condition. The tree's content is unaffected afterwards, and every request that satisfies the documented conditions is accepted.",
  ["inputs", "histories", "configurations"], "every tree and every argument, on both sides of each documented limit",
  "tests check only that a few bad calls panic",
  [T+"mod.rs", T+"insert.rs", T+"iter.rs", "src/range.rs"], [("argument checks", T+"mod.rs:297 assert_reasonable_m, 339 new, 398 get_with_cursor, 604 iter_with_cursor; insert.rs:41 insert_internal; iter.rs:199 new")],
  ["catch_unwind around each call, then full traversal"])
p("C15", "Direction-sensitive index arithmetic is always applied on the right side",
  "With an index type whose addition does not commute, all positions, sizes and ranges the tree reports are the ordered, left-to-right sums of the sizes they stand for.",
  ["inputs", "histories", "configurations"], "every history over every index type satisfying the documented algebraic laws",
  "every test uses plain integers, for which sides are interchangeable",
  ["src/public_traits.rs", T+"fix.rs", T+"insert.rs", T+"node.rs", T+"entry.rs", T+"mod.rs"],
  [("directional traits", "src/public_traits.rs:255-309"), ("uses", T+"fix.rs:522-759, insert.rs:983-1229, node.rs:1997-2043, entry.rs:91")],
  ["size, get and iter with a non-commutative index"])
p("C16", "Range bounds mean what their notation says",
  "For every kind of range, membership, emptiness, reversal and overlap as decided by the library agree with the set of values the range's notation denotes, for any totally ordered type; two ranges overlap exactly when some pair of bounds allows a common point.",
  ["inputs"], "every pair of bounds of every kind over every totally ordered type",
  "doc examples sample integers only",
  ["src/range.rs"], [("bounds predicates", "src/range.rs:58 contains, 80 starts_after_end, 110 is_empty_naive, 138 overlaps_naive"), ("bounds of each range type", "src/range.rs:204-298")],
  ["the public range trait"])
p("C17", "Serialising and deserialising a tree preserves its content",
  "Deserialising what was serialised from a tree yields a tree with the same slices, sizes and positions, in any node-size or feature configuration; malformed input is reported as an error.",
  ["inputs", "histories", "configurations"], "every reachable tree and every configuration",
  "the tests contain no round trip",
  ["src/serde.rs"], [("encode and decode", "src/serde.rs:18 serialize, 50 visit_seq")], ["a round trip through a self-describing format"])
p("C18", "Handles issued for live references are never confused with one another",
  "A handle stays bound to the entry it was issued for until its last copy is returned; returning the last copy yields that entry exactly once; entries of other handles are never affected, and storage is reused only after it was returned.",
  ["histories"], "every history of issuing, copying, replacing and returning handles",
  "the mechanism has no test of its own",
  ["src/recycle.rs"], [("recycling store", "src/recycle.rs:131 push, 152 recycle, 183 clone, 195 get, 204 replace")], ["references in a tree with many created and dropped references"],
  [("free list", "linked unused entries", "src/recycle.rs RecycleVec::recycle_head")], "cfg(kani) module or mechanical extraction for the verifier")
p("C19", "Draining a range removes and returns exactly that part of the content",
  "Draining a range yields the pieces of the slices inside the range in order and leaves the rest of the content in the tree, whether or not the iterator is run to the end.",
  ["inputs", "histories"], "every tree, range and amount of consumption", "no test drains",
  [T+"drain.rs", T+"mod.rs"], [("drain", T+"drain.rs:36 new, 60 next, 72 next_back")], ["drain"])
p("C20", "Copy-on-write clones may be used from different threads",
  "Clones of one tree used and dropped concurrently from different threads behave as if each had been used alone: no data race, no lost count, no early or double free.",
  ["schedules"], "every interleaving of operations on related clones", "the tests are single-threaded",
  [T+"cow.rs", T+"node.rs"], [("atomic sharing count", T+"cow.rs:17-62")], ["results and memory safety under all schedules"])
p("C21", "A tree is thread-safe exactly when its parts are",
  "A tree, its iterators and entries can be sent to or shared with another thread only if doing so with the slices and positions they give access to is sound.",
  ["programs"], "every program the compiler accepts", "no test asserts these trait relations",
  [T+"mod.rs", T+"iter.rs", "src/param.rs"], [("auto-trait overrides", T+"mod.rs:150-155, iter.rs:57-64, param.rs:306-307")], ["which programs type-check"])
p("C22", "Results do not depend on the node-size parameter or feature set",
  "The same sequence of requests gives the same observable content, sizes, lookups and iteration results whatever minimum node size and whichever optional feature set the tree was declared with.",
  ["configurations", "histories"], "every history and every pair of supported configurations",
  "each test fixes one configuration; small node sizes take separate code paths",
  [T+"insert.rs", T+"node.rs", "src/param.rs", "src/const_math_hack.rs"],
  [("separate overflow path for small nodes", T+"insert.rs:1774 do_insert_full_edge_no_join_split_small_m"), ("array sizes derived from the parameter", "src/const_math_hack.rs")], ["the same history in several configurations"])
p("C23", "Dropping a tree invalidates references cleanly and waits for borrows",
  "After a tree is dropped every reference to it reports that it is invalid and every query on it returns nothing, without panicking; cloning and dropping references remains safe in every order. If a borrow is alive at that time, the borrowed slice stays readable until the borrow ends and only then are the tree's slices released, exactly once.",
  ["histories"], "every order of dropping the tree, its references, their clones and outstanding borrows",
  "tests drop the tree last",
  [T+"slice_ref.rs"], [("deferred drop", T+"slice_ref.rs:282 try_acquire_drop, 922 drop_tree_once_no_borrows, 1076 drop_borrow"), ("reference counts of the store", T+"slice_ref.rs:846 clone, 973 do_drop, 1133 dealloc")], ["is_valid, range, borrow_slice, clone and drop after the tree is gone"])
p("C24", "Joinable neighbours are always merged: the run list stays minimal",
  "If the slice type's joining rule is stable under splitting and joining, then after every insertion no two adjacent slices in the tree would join, so equal content always has the same, minimal list of runs.",
  ["inputs", "histories"], "every history starting from an empty tree, every position, every such slice type",
  "tests check the run list after a few insertions; adjacency across a node boundary is the case they rarely reach",
  [T+"insert.rs"], [("neighbour lookup across nodes", T+"insert.rs:41 insert_internal, 483 do_insert_full_edge"), ("joining", T+"insert.rs:670 do_insert_full_edge_try_join, 529 do_insert_full_split_key")], ["full traversal after each insertion"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
