PROPERTY = {
 "id": "C10", "title": "Conditional compilation keeps exactly the selected branches",
 "statement": "Text is let through iff in every #if/#ifdef/#ifndef chain around it it lies in the first branch whose condition holds, or in #else when none does. Branches left out define, undefine, include and report nothing, and their conditions are not evaluated. #elif, #else or #endif without an open chain is an error without other effect; each chain open at the end of input is reported once. #ifdef holds exactly while the name is defined; a condition that fails to evaluate counts as false. What is let through keeps its lines, its indentation and its places.",
 "quantifier": {"over": ["inputs"], "text": "all token sequences and nestings of directives, unbounded; conditions without a further '#'"},
 "why_tests_cant": "Tests run a handful of nestings; the state of a stack of chains over arbitrary directive sequences is unbounded.",
 "anchors": {"files": ["crates/dreammaker/src/preprocessor.rs"],
  "state": [{"name": "Preprocessor.ifdef_stack", "meaning": "the open chains and whether their current branch is read", "where": "crates/dreammaker/src/preprocessor.rs"}],
  "mechanism": [{"name": "Ifdef::{new,else_,else_if}, Preprocessor::{is_disabled,pop_ifdef,evaluate,evaluate_inner,real_next,next}", "where": "crates/dreammaker/src/preprocessor.rs"}],
  "observe_at": ["Preprocessor::next", "Context::errors"], "hook_needed": None},
}
CHECK = {
 "feature": "pp", "units": ["pp"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted preprocessor: directive loop, conditional stack and definition map",
 "level": "proof",
 "level_note": "Proved for every token sequence: what each directive does to the stack, that a disabled region changes nothing else, the end of input, and the first-true-branch and nesting lemmas. Condition parsing and evaluation are uninterpreted functions of the tokens and definitions; macro expansion leaves the conditional stack alone (proved in unit expand, where it is under contract); #include bodies are assumed to. Those are searched.",
 "explanation": "real_next is extracted with the bodies of the macro-expansion, #include and unknown-directive arms replaced by calls to contracted stand-ins (the #define arm is extracted and proved as a function of its own); everything else is the source text.",
 "assumptions": ["contracts of stand-ins vx_ident (macro expansion; the same frame is proved of its body in unit expand), flush_docs (likewise), vx_include (#include): they do not touch ifdef_stack, ifdef_history or defines", "expression parser and constant evaluator are deterministic functions", "no '#' token inside a condition", "fewer than 2^32 nested interpolated strings", "HashMap, Vec, VecDeque behave as documented", "strings with equal characters are equal patterns", "unknown directive in a disabled region still reports"],
}
