PROPERTY = {
 "id": "C23", "title": "Macro definitions: #define, #undef and expansion",
 "statement": "#define records the name, parameters and body written on its line; a malformed one changes nothing. Definitions of a name stack: #undef drops the latest and brings back the one before it; other names are unaffected; undefining an undefined name is one warning. Each use of a name is replaced by its latest live definition, recursively, with arguments (split at commas outside parentheses, extras joined for variadics), stringify and token paste substituted; __LINE__ and __FILE__ stand for the place of use; a name that is written without the parentheses it takes is left alone, a wrong number of arguments is one error; everything else passes unchanged.",
 "quantifier": {"over": ["inputs", "histories"], "text": "all sequences of definitions, undefinitions and uses"},
 "why_tests_cant": "Expansion depends on the whole history of definitions and on arbitrary argument token sequences.",
 "anchors": {"files": ["crates/dreammaker/src/preprocessor.rs"],
  "state": [{"name": "DefineMap.inner", "meaning": "live definitions per name, latest last", "where": "crates/dreammaker/src/preprocessor.rs"}],
  "mechanism": [{"name": "DefineMap::{insert,remove,get,contains_key,len,is_empty}; real_next arms define, undef, Ident", "where": "crates/dreammaker/src/preprocessor.rs"}],
  "observe_at": ["Preprocessor::next", "DefineMap::get"], "hook_needed": None},
}
CHECK = {
 "feature": "pp", "units": ["pp", "expand"], "secs": 10,
 "technique": "deductive verification (Verus) of the definition map, of the #define/#undef arms, of the expansion of uses and of the reading back of expansions; expansion also compared with an independent expander (bounded)",
 "level": "proof",
 "level_note": "Proved for every token sequence: the definition map, #define (name, parameters, body, DEBUG rule), #undef, the expansion of one use (arguments, variadics, stringify, paste, __LINE__, __FILE__, defined(), left alone without parentheses, argument count error, recursion limit) and that an expansion is read in order at the place of use and what came after it follows. That the expansion of every use is in turn expanded follows because it is read through the same function.",
 "explanation": "The #define arm and the Ident arm of real_next are extracted as functions of their own with invariants on their loops: the recorded definition is exactly what the tokens of its line say, and what is put in place of a use is exactly what the definition and the arguments say (spec functions pieces, given, written, outcome). IncludeStack::next is proved to give the tokens of an expansion in order and then what came after.",
 "assumptions": ["fewer than 2^31 nested parentheses in one macro argument; fewer than usize::MAX arguments", "the text of a token (Display, format!) is an uninterpreted function of it; how a stringified argument looks is searched", "the recursion limit (32 nested expansions) is part of the contract", "DefineMap::get followed by clone gives the latest definition (get is proved in unit pp)", "expansion arm: iterator, collect, join, extend stand-ins have their documented behaviour", "DocCollection and annotations are opaque", "HashMap, Vec, VecDeque behave as documented", "strings with equal characters are equal patterns"],
}
