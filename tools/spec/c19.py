PROPERTY = {
 "id": "C19", "title": "DreamChecker's call tree: what should not sleep, and what should be pure",
 "statement": "For every program: a must_not_sleep diagnostic is registered at a proc marked SpacemanDMM_should_not_sleep (itself, or by a definition it overrides) if and only if that proc's own body blocks, or names a blocking proc that a marked proc can run. A body blocks if it has, outside spawn, sleep(), alert(), shell(), winexists(), winget(), input(), /world's Import and Export or /client's MeasureText and SoundQuery. A marked proc can run what it calls outside spawn, and on from there what that calls, and so on, but not past a proc that blocks, has waitfor off, is SpacemanDMM_allowed_to_sleep or is marked itself (those answer for themselves). A call by name, unless exact (..(), .(), global.f(), new), also runs every definition of it on the object's static type and below; a call on the same object is on what the caller was run on, and runs what that has. Each blocking proc that is run so is named once, each marked proc that blocks itself is too; the notes of a diagnostic are the place of the setting, the places of the calls that lead there, in order, and those of the blocking calls. A must_be_pure diagnostic is registered at a proc marked SpacemanDMM_should_be_pure if and only if its own body has an impure operation (assigning to, or ++, --, << on, something not local), or it calls, directly or not, a definition that has, or that has an impure override (New apart; if the marked proc's type is at or below the called definition's, only overrides at or below the marked proc's type); its notes are, likewise, setting, calls, operations.",
 "quantifier": {"over": ["inputs"], "text": "all programs: any types, overrides, procs, calls and settings"},
 "why_tests_cant": "Who can run what is a reachability question over all procs, overrides and receivers, with cycles, several roots that share the visited set, and exemptions; tests have chains of two or three procs, mostly one root.",
 "anchors": {"files": ["crates/dreamchecker/src/lib.rs"],
  "state": [{"name": "AnalyzeObjectTree.{call_tree,sleeping_procs,impure_procs,waitfor_procs,impure_overrides,must_not_sleep,must_be_pure,sleep_exempt}", "meaning": "calls, faults, exemptions and marks of each proc", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc.inside_newcontext", "meaning": "in a spawn", "where": "crates/dreamchecker/src/lib.rs"}],
  "mechanism": [{"name": "AnalyzeObjectTree::{check_proc_call_tree,propagate_violations}", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc::{visit_call,check_type_sleepers,visit_statement,visit_term}", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "CallStack, ProcDirective, ViolatingProcs, ViolatingOverrides, DMError::{with_callstack,with_blocking_builtins,with_impure_operations}", "where": "crates/dreamchecker/src/lib.rs"}],
  "observe_at": ["dreamchecker::run(&context, &objtree), then context.errors()"], "hook_needed": None},
}
CHECK = {
 "feature": "calls", "units": ["calltree"], "secs": 20,
 "technique": "deductive verification (Verus) of the search of the call tree and of what notes its edges, extracted from lib.rs, against reachability as an inductive relation",
 "level": "proof",
 "level_note": "Proved for all call trees: check_proc_call_tree registers nothing but fair reports (whose notes are a real way to the proc named), reports each marked proc that blocks or is impure itself, names each blocking proc reached (by a worklist invariant: what was visited is closed under running), and blames each impure one; propagate_violations, the arms that note blocking built-ins, waitfor and spawn, check_type_sleepers, and the edge that visit_call notes. Bounded: that each is named once only, where impure operations are noted, the inheritance of marks, and the walk over the bodies; the search compares whole programs with its own walk.",
 "explanation": "reaches(), preaches() say who can run what; fair(), named(), blamed() what is to be said; the loops are proved with invariants on the queue and the visited set.",
 "assumptions": ["the object tree is opaque: get_proc, recurse_children_within, is_subtype_of, and parent_proc (proved in unit objtree)", "HashMap, HashSet and sort_by_key by their contracts", "the wording of diagnostics, and how often one is registered, are not part of the contracts", "the search is not shown to terminate"],
}
