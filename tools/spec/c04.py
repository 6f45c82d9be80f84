PROPERTY = {
 "id": "C04", "title": "Direction algebra is the compass rose",
 "statement": "The eight facings and BYOND's integers 1,2,4,8,5,9,6,10 correspond one to one (every other integer is rejected), and rotating by 45 or 90 degrees, flipping and mirroring act on a facing's unit offset exactly as those rotations and reflections do. Hence opposite turns cancel, two eighth-turns make a quarter-turn and two quarter-turns a flip.",
 "quantifier": {"over": ["inputs"], "text": "all facings, all pairs of facings and all 32-bit integers"},
 "why_tests_cant": "No test covers the rotation tables; a wrong entry shows only for that one facing in rare map renders.",
 "anchors": {"files": ["crates/dreammaker/src/dmi.rs"],
  "state": [{"name": "Dir", "meaning": "facing, discriminants are BYOND's bits", "where": "crates/dreammaker/src/dmi.rs"}],
  "mechanism": [{"name": "Dir::{from_int,to_int,contains,is_diagonal,flip*,clockwise_*,counterclockwise_*,offset}", "where": "crates/dreammaker/src/dmi.rs"}],
  "observe_at": ["Dir public methods"], "hook_needed": None},
}
CHECK = {
 "feature": "dir", "units": ["dir"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted direction functions",
 "level": "proof",
 "level_note": "All thirteen direction functions are proved against unit-vector geometry for all inputs; the lists of all/cardinal/diagonal directions are checked by complete enumeration.",
 "explanation": "Each Dir function is proved against unit vectors/turn counts; a ghost client proves the algebraic laws from the contracts alone. The constant lists are enumerated concretely.",
 "assumptions": ["enum discriminant casts as modelled by Verus"],
}
