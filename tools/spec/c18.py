PROPERTY = {
 "id": "C18", "title": "DreamChecker's reports about switch(rand()) are exact",
 "statement": "For every switch whose input is rand(H) or rand(L, H) with constant numbers (L is 0 if it is not given; what is not a whole number stands for the whole numbers between the bounds, numbers beyond 32 bits for the outermost ones), DreamChecker reports exactly these: every constant case or range a to b that lies wholly outside L to H (a rounded up > H, or b rounded down < L), as never triggering; and, if there is no else and all cases are constant numbers, the smallest whole number from L to H that no case is for, if there is one. Nothing is reported about other switches, whatever the order, overlap or size of the cases, and no number makes the check panic.",
 "quantifier": {"over": ["inputs"], "text": "all bounds, all lists of cases and ranges in any order, overlapping, empty, fractional, huge or not constant"},
 "why_tests_cant": "Whether there is a gap depends on all cases together, their order and overlap, and on rounding and the limits of 32 bits; the five tests have up to three cases.",
 "anchors": {"files": ["crates/dreamchecker/src/switch_rand_range.rs"],
  "state": [{"name": "case_ranges, first_uncovered", "meaning": "the constant cases that can trigger; the first number that none so far is for", "where": "crates/dreamchecker/src/switch_rand_range.rs"}],
  "mechanism": [{"name": "check_switch_rand_range, get_case_range, get_rand_range", "where": "crates/dreamchecker/src/switch_rand_range.rs"}],
  "observe_at": ["dreamchecker::run(&context, &objtree), then context.errors()"], "hook_needed": None},
}
CHECK = {
 "feature": "switch", "units": ["switch"], "secs": 15,
 "technique": "deductive verification (Verus) of check_switch_rand_range, get_case_range and get_rand_range, extracted from switch_rand_range.rs",
 "level": "proof",
 "level_note": "Proved for all inputs and cases: the exact multiset of reports with their numbers, and that no arithmetic overflows. What an expression evaluates to is opaque here (unit consts proves the evaluator); rounding up or down to 32 bits is an uninterpreted function; sort_by_key is assumed to sort. The search runs whole switches through parser and checker.",
 "explanation": "The three functions are extracted on every run; the loop over the sorted cases is proved with the invariant that all below first_uncovered is covered and all cases so far end below it.",
 "assumptions": ["[T]::sort_by_key sorts and permutes", "f32::ceil/floor as i32 are functions (their values are checked by the search only)", "the match on the call rand(...) is replaced by a stand-in that gives its arguments", "the wording of messages is not specified, their numbers are"],
}
