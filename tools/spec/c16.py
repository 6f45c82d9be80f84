PROPERTY = {
 "id": "C16", "title": "DreamChecker enforces overrides, settings and access restrictions",
 "statement": "For every program DreamChecker reports exactly these: each var redeclared, or overriding a SpacemanDMM_final or SpacemanDMM_private var, against every ancestor type (below the root) that declares it; each SpacemanDMM_ setting at the start of a proc that is unknown, has no TRUE/FALSE/1/0 value, is set twice, is switched off but cannot be, belongs to the first definition but is set elsewhere, or is set on a global proc that cannot have it - every other such setting is recorded for that definition; each definition of a proc that overrides a private or a should_not_override one (the latter whatever the override itself sets), that never contains a reachable ..() (C17) where the nearest should_call_parent from itself upward is on, that contains ..() where the definition it runs sets should_not_call_parent (unless it sets that to 0 itself), or that redefines one of the same type without can_be_redefined; each ..() without a parent; each call of a private proc unless caller's type and the receiver's declared type are both the one that declares it; each call x.f() of a protected proc from a type that is not a subtype of the one that set it. A ..() counts wherever it stands in the body, unless control cannot get there.",
 "quantifier": {"over": ["inputs"], "text": "all programs: all type chains, vars, settings in any number and order, overrides, redefinitions and calls"},
 "why_tests_cant": "Whether something is reported depends on the whole chain of definitions above and on every setting along it; tests have chains of two or three with one setting.",
 "anchors": {"files": ["crates/dreamchecker/src/lib.rs"],
  "state": [{"name": "ProcDirective.directive, AnalyzeObjectTree.{must_call_parent,must_not_call_parent,must_not_override,private,protected,can_be_redefined}", "meaning": "definition to (on, place of the setting)", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc.calls_parent", "meaning": "the body contains ..()", "where": "crates/dreamchecker/src/lib.rs"}],
  "mechanism": [{"name": "check_var_defs, ProcDirective::{insert,get_self_or_parent}, AnalyzeObjectTree::{add_directive_or_error,gather_settings}", "where": "crates/dreamchecker/src/lib.rs"}, {"name": "AnalyzeProc::{run,visit_call,visit_follow,visit_term}", "where": "crates/dreamchecker/src/lib.rs"}],
  "observe_at": ["dreamchecker::run(&context, &objtree), then context.errors()"], "hook_needed": None},
}
CHECK = {
 "feature": "checker", "units": ["checker"], "secs": 20,
 "technique": "deductive verification (Verus) of DreamChecker's rules for vars, settings, overrides and calls, extracted from lib.rs",
 "level": "proof",
 "level_note": "Proved for all trees and bodies: the exact multiset of reports about vars; the settings a body starts with (reports and what is recorded); everything reported about a definition after its body; which calls the arms for f(), x.f(), ..(), .() and global.f() hand on, and the private and protected checks. That every ..() and every call is reached, wherever it stands in a body, is not under contract in this unit: it is covered by the bounded search, which puts calls in ninety places of statements and expressions. Access to private and protected vars is not part of the property: README and tests disagree about it.",
 "explanation": "The functions are extracted from lib.rs on every run (the tail of run, the head of visit_call, and arms of the big matches under their own contracts); a ProcRef's line of definitions is a mathematical sequence whose steps are what parent_proc returns, the diagnostics a multiset of places, kinds and notes.",
 "assumptions": ["the lookups of the object tree (get_proc, parent_proc, iter_parent_types, is_subtype_of) do what unit objtree proves of them; vars and HashMap behave as maps", "the wording of messages is not specified", "reports of the arguments of a call are not in the view of the call's contract"],
}
