PROPERTY = {
 "id": "C06", "title": "Map keys are base-52 numerals, written and read without loss",
 "statement": "A map's dictionary keys are the base-52 numerals (a-z then A-Z, most significant first) of 0..65534. After adjust_key_length the length is the shortest of 1, 2 or 3 that fits every key in use, every key formatted at it is its numeral of exactly that length, reading that text gives the same key, and numerals order as their keys do. Other letters and keys beyond 'ymo' are errors.",
 "quantifier": {"over": ["inputs"], "text": "all sets of keys and all key texts"},
 "why_tests_cant": "The tests read a few small maps; a wrong digit, boundary (52, 2704) or overflow test concerns keys they never use.",
 "anchors": {"files": ["crates/dmm-tools/src/dmm.rs", "crates/dmm-tools/src/dmm/read.rs"],
  "state": [{"name": "Map.key_length", "meaning": "digits per key", "where": "crates/dmm-tools/src/dmm.rs"}],
  "mechanism": [{"name": "FormatKey::fmt, base_52_reverse, advance_key, Map::adjust_key_length, Key::{next,invalid}", "where": "crates/dmm-tools/src/dmm.rs"}, {"name": "advance_key", "where": "crates/dmm-tools/src/dmm/read.rs"}],
  "observe_at": ["Map::format_key", "Map::adjust_key_length", "Map::from_file"], "hook_needed": None},
}
CHECK = {
 "feature": "dmm", "units": ["dmm_key"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted key functions",
 "level": "proof",
 "level_note": "Digit decoding, key accumulation with overflow, key-length choice and numeral output are proved for all inputs, with the round trip as a lemma over their contracts; the surrounding file reader and writer are searched (C08).",
 "explanation": "Every function handling keys is extracted and proved against base-52 positional notation; the formatter is a trusted stand-in that appends characters.",
 "assumptions": ["Formatter::write_char appends its character", "dictionary.keys().max() yields the largest key", "u16::pow/usize::pow are mathematical powers below overflow", "derived comparison of Key is that of its number"],
}
