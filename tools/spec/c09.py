PROPERTY = {
 "id": "C09", "title": "Constant expressions fold to the value the program would compute",
 "statement": "Evaluating a constant expression yields the value DM gives it, or an error, never a different value: operands left to right, arithmetic in 32-bit floats, bit operations on whole parts within 24 bits, comparisons 0 or 1, && and || give the deciding operand, == compares kind and content (every null equals every null), trigonometry in degrees, lists and constructor arguments keep order and keys; a variable has the value given at the nearest type above, evaluated there, whichever reader comes first, and a self-reference is an error.",
 "quantifier": {"over": ["inputs"], "text": "all expressions, operand values, variable declarations and orders of evaluation"},
 "why_tests_cant": "Operators, operand kinds, values and reference orders combine without bound; tests evaluate a handful.",
 "anchors": {"files": ["crates/dreammaker/src/constants.rs"],
  "state": [{"name": "VarValue.constant / being_evaluated", "meaning": "cached value, evaluation under way", "where": "crates/dreammaker/src/constants.rs"}],
  "mechanism": [{"name": "ConstantFolder::{expr,follow,unary,binary,term,arguments,trig_op}, Constant::{eq,to_bool,to_int,to_float,from_bit_op}", "where": "crates/dreammaker/src/constants.rs"}],
  "observe_at": ["constants::evaluate_str", "ObjectTree variables after parsing"], "hook_needed": None},
}
CHECK = {
 "feature": "consts", "units": ["consts"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted constant folder against a denotational semantics",
 "level": "proof",
 "level_note": "Proved for every expression: the folder's result is the expression's denotation, operator by operator, with errors exactly where it has none. Float operations are uninterpreted functions, so rounding is not modelled. No claim in the proof about names, prefabs, rgb, nameof, fexists and field lookups: those, and values through variables, are only searched. Termination is structural and not re-proved.",
 "explanation": "The folder's functions are extracted from constants.rs with f32 replaced by an opaque number type whose operations are uninterpreted; a spec function gives each expression its meaning, and every function's postcondition says it computes that.",
 "assumptions": ["f32 arithmetic, comparison and casts are deterministic functions of their operands", "sin/cos/asin/acos and degree conversion as named", "lookups of names, prefabs, rgb, nameof, fexists do not change the defines map", "equality of payload types is structural", "as-casts saturate as Rust documents"],
}
