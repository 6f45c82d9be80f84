PROPERTY = {
 "id": "C17", "title": "DreamChecker follows control through a body: unreachable code and ..()",
 "statement": "For every proc body: a statement DreamChecker reports as unreachable (unreachable_code) cannot be reached: no way through the body gets there, where a condition that is not constant may go either way, a loop may run any number of times (for(i = a to b) with integers a <= b, not both 0, at least once, if there is no step), a try may be left anywhere, and a label can be jumped to from anywhere; else it is an if or else after a condition that is constantly true. In turn a statement is reported if it follows one that always returns (return, CRASH(), an if or switch with an else of which every possible branch does, a do-while or a loop that surely runs of which the body does), unless it is a label, a break, continue or label comes into it, or its own block cannot be reached; and so is each if or else after a constantly true one. A ..() that can be reached counts as calling the parent, wherever it stands in statements and expressions, and nothing else counts. Left out: labels inside statements that cannot be reached, break and continue with a label (taken as plain), the arguments of SpacemanDMM_unlint() (may or may not count).",
 "quantifier": {"over": ["inputs"], "text": "all bodies: any nesting of all statements and expressions"},
 "why_tests_cant": "What is reachable depends on the whole nesting of branches, loops, jumps and constant conditions around a statement; tests have a dozen bodies with one or two levels.",
 "anchors": {"files": ["crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/ast.rs"],
  "state": [{"name": "ControlFlow.{returns,continues,breaks,fuzzy}", "meaning": "how what was visited so far is left", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc.calls_parent", "meaning": "a ..() was visited", "where": "crates/dreamchecker/src/lib.rs"}],
  "mechanism": [{"name": "ControlFlow::{merge,merge_false,no_else,finalize,end_loop,uncertain,label}", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc::{visit_block,visit_statement,visit_expression,visit_term,visit_follow,visit_arguments,visit_new,visit_var_stmt,visit_unary}", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "Expression::is_truthy, Term::{is_truthy,valid_for_range}", "where": "crates/dreammaker/src/ast.rs"}],
  "observe_at": ["dreamchecker::run(&context, &objtree), then context.errors()"], "hook_needed": None},
}
CHECK = {
 "feature": "flow", "units": ["flow"], "secs": 20,
 "technique": "deductive verification (Verus) of DreamChecker's walk over statements and expressions, extracted from lib.rs and ast.rs, against a semantics of where control can go",
 "level": "proof",
 "level_note": "Proved for all bodies: every unreachable_code report is at a place control cannot get to (or after a constantly true condition), those that must be made are made, a reachable ..() sets calls_parent and nothing else does; the constant conditions and the ranges that surely run. Recursion is proved without a termination measure (bodies are finite trees). Of visit_call the part up to its last argument is under contract, and the call is assumed to visit nothing more afterwards; what else is reported is bounded to kinds other than unreachable_code. The search compares whole bodies.",
 "explanation": "The functions are extracted on every run with the syntax tree's own types; out() says how a statement can be left, dead() what may and what must be reported, pc_*() where ..() is written; visit_block and visit_statement are proved against them by their own contracts, through recursion.",
 "assumptions": ["the object tree, local vars, static types and analysis values are opaque (they do not steer what is visited)", "the tail of visit_call visits nothing and reports no unreachable_code; check_type_sleepers, visit_binary, static_type and the registration of keyword arguments likewise", "a float condition compared with 0 is uninterpreted", "recursion is not shown to terminate"],
}
