PROPERTY = {
 "id": "C02", "title": "Interval queries return exactly the overlapping entries, in order",
 "statement": "For any stored contents and any query interval, iterating a range query yields every stored (interval, value) pair that overlaps the query, no other pair, each exactly once, ordered by interval and then insertion order. Iterating without bounds yields every pair.",
 "quantifier": {"over": ["inputs", "histories"], "text": "all trees reachable by any operation history and all query bounds"},
 "why_tests_cant": "Pruning by subtree maxima depends on the tree's shape and on where overlapping intervals sit; tests query a few fixed trees.",
 "anchors": {"files": ["crates/interval-tree/src/iterators.rs", "crates/interval-tree/src/tree.rs", "crates/interval-tree/src/node.rs"],
  "state": [{"name": "RangePairIter.stack", "meaning": "pending subtrees and visit states", "where": "crates/interval-tree/src/iterators.rs"}],
  "mechanism": [{"name": "RangePairIter::{visit_left,visit_center,visit_right,get_next_node,next}, intersect", "where": "crates/interval-tree/src/iterators.rs"}, {"name": "Node.max maintenance", "where": "crates/interval-tree/src/node.rs"}],
  "observe_at": ["IntervalTree::range", "IntervalTree::iter"], "hook_needed": None},
}
CHECK = {
 "feature": "tree", "units": ["interval_tree"], "siblings": ["C01"], "secs": 10,
 "technique": "deductive verification (Verus) of the extracted range iterator and the subtree-max invariant",
 "level": "proof",
 "level_note": "The range iterator is proved to yield exactly the overlapping pairs, in order, for every well-formed tree; the tree operations are proved to keep trees well-formed. Same assumptions as C01.",
 "explanation": "Verus proves that the pending work on the iterator's stack denotes exactly the remaining answer of the query, for every bound kind and every well-formed tree.",
 "assumptions": ["the key type's Ord, PartialOrd, Eq and Clone are lawful (total order, clone is identity)", "derived comparison of RangeInclusive is lexicographic", "Clone of RangePairIter is not under contract (searched only)"],
}
