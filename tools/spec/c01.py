PROPERTY = {
 "id": "C01", "title": "Interval tree is an ordered multimap and stays balanced",
 "statement": "After any history of insertions, removals and merges, looking up an interval yields exactly the values inserted for it since it was last removed, in insertion order, every other interval is unaffected, and the smallest, largest and full listings agree with that content in key order. The tree's height never exceeds the AVL bound for the number of stored intervals.",
 "quantifier": {"over": ["histories", "inputs"], "text": "all finite sequences of insert, remove, merge and consume operations, with arbitrary intervals over any totally ordered key type and arbitrary values"},
 "why_tests_cant": "Shape-dependent rebalancing cases depend on the whole insertion/deletion history; the unit tests replay a handful of fixed sequences and shuffles over u64.",
 "anchors": {"files": ["crates/interval-tree/src/node.rs", "crates/interval-tree/src/tree.rs", "crates/interval-tree/src/iterators.rs"],
  "state": [{"name": "Node{key,data,height,max,left,right}", "meaning": "AVL node; max is the largest interval end in the subtree", "where": "crates/interval-tree/src/node.rs"}],
  "mechanism": [{"name": "Node::insert / insert_in_successor / delete / delete_root / rotate_* / rotate_if_necessary", "where": "crates/interval-tree/src/node.rs"}, {"name": "IntervalTree::{insert,remove,get,min,max,merge}", "where": "crates/interval-tree/src/tree.rs"}, {"name": "IntoIter", "where": "crates/interval-tree/src/iterators.rs"}],
  "observe_at": ["IntervalTree public API"], "hook_needed": None},
}
CHECK = {
 "feature": "tree", "units": ["interval_tree"], "siblings": ["C02"], "secs": 10,
 "technique": "deductive verification (Verus) of the extracted interval-tree functions",
 "level": "proof",
 "level_note": "Every function of the interval tree (except Debug, Clone of the iterator, From/FromIterator glue) is extracted from /repo on each run and proved against a map view, AVL invariant and height bound, for any lawful key type. Assumes: key Ord/Clone lawful; derived Ord/Eq of the range type is lexicographic; std::cmp::max; fewer than 2^40 entries; termination of merge not proved.",
 "explanation": "Verus proves on the extracted text of node.rs, tree.rs and the consuming iterator: representation invariant (sorted, AVL-balanced, heights and subtree maxima exact), lookup/insert/delete against a map view, min/max/height/merge/into_iter.",
 "assumptions": ["the key type's Ord, PartialOrd, Eq and Clone are lawful (total order, clone is identity)", "derive(Ord, PartialOrd, Eq, Clone) of RangeInclusive behaves as documented (lexicographic, field-wise)", "std::cmp::max, Vec, Box, Option as specified by vstd", "Debug, FromIterator and Clone of RangePairIter are not under contract (searched only)", "termination of merge is not proved"],
}
