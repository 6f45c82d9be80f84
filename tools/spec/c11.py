PROPERTY = {
 "id": "C11", "title": "The object tree answers lookups by inheritance",
 "statement": "For every program: each type written (with the prefixes of its path) appears in the tree once, findable by its path and as a child of its parent path. Its parent type is what its parent_type names, or else the rule for its path; no type is ever its own ancestor: one that would be is reported and has the root as its parent, all others keep theirs. A var or proc is looked up in the type and then its ancestors, nearest first; ..() runs the definitions of a type from last to first (the declaring one is first) and then those of the ancestors; is_subtype_of, visit_parent_types and the parent iterators follow exactly the ancestors; recurse_types and recurse_children visit exactly the descendants by type, recurse those by path, each once; `/`, `.` and `:` navigation find a child of this type, of the nearest enclosing path, or of one below. Every lookup terminates.",
 "quantifier": {"over": ["inputs"], "text": "all programs: all sets of types, parent_type assignments (circular ones too), vars, declarations and overrides in any order"},
 "why_tests_cant": "What a lookup finds depends on the whole shape of the tree, on redirections, and on the order in which definitions and overrides were met.",
 "anchors": {"files": ["crates/dreammaker/src/objtree.rs"],
  "state": [{"name": "ObjectTree.{graph,types,redirected_parent_types}, Type.{parent_path,parent_type,children,vars,procs}", "meaning": "types by number, by path, and by inheritance", "where": "crates/dreammaker/src/objtree.rs"}],
  "mechanism": [{"name": "ObjectTreeBuilder::{subtype_or_add,insert_var,register_proc,assign_parent_types,break_parent_cycles}", "where": "crates/dreammaker/src/objtree.rs"}, {"name": "TypeRef::{get_proc,get_value,get_var_declaration,is_subtype_of,recurse_types,navigate}, ProcRef::parent_proc", "where": "crates/dreammaker/src/objtree.rs"}],
  "observe_at": ["Parser::parse_object_tree, then the ObjectTree, TypeRef and ProcRef methods"], "hook_needed": None},
}
CHECK = {
 "feature": "objtree", "units": ["objtree"], "secs": 12,
 "technique": "deductive verification (Verus) of the extracted object tree: building, breaking cycles, and every lookup",
 "level": "proof",
 "level_note": "Proved for every tree that satisfies the structural invariants (paths and children agree, symbols distinct, no cycle of parent types): the lookups and walks, and that subtype_or_add, insert_var, register_proc and break_parent_cycles do what the statement says and keep the invariants; break_parent_cycles ends with no cycle for any assignment of parents. Which parent assign_parent_types assigns from the text, and the parser that calls the builder, are not under contract: they are covered by the bounded search, which compares every lookup on random programs with the text.",
 "explanation": "The functions are extracted from objtree.rs on every run; visitor closures become pushes onto a vector, IndexMap and BTreeMap become a trusted map with entry, get and insert, and a chain of parents is a mathematical sequence defined by counting ranks.",
 "assumptions": ["contracts of the map stand-ins (get, insert, entry, values) are those of IndexMap and BTreeMap", "ptr::eq on types of one tree is equality of their symbols, which are proved distinct", "fewer than 2^32-2 types and symbols", "format!, location and documentation bookkeeping have no effect on the tree"],
}
