PROPERTY = {
 "id": "C08", "title": "Maps are read as written: nothing lost, moved or invented",
 "statement": "Writing a map and reading the result gives the same size, grid, key length and dictionary (types, variables with their order and values), in tab or row layout and with either line ending. In any map text, the tile read at a place is the one key written for that place: a place with two, a place without one inside the box of all tiles, a coordinate below 1 or a broken key is an error. Every text ends in a map or an error, never a crash.",
 "quantifier": {"over": ["inputs"], "text": "all maps and all byte strings given as map files"},
 "why_tests_cant": "The tests read two maps; which bytes end a string, a key, a row or a block matters for every combination of values, sizes, rectangles and damage.",
 "anchors": {"files": ["crates/dmm-tools/src/dmm/read.rs", "crates/dmm-tools/src/dmm/save_tgm.rs", "crates/dmm-tools/src/dmm.rs"],
  "state": [{"name": "Map.dictionary, Map.grid, Map.key_length", "meaning": "the map", "where": "crates/dmm-tools/src/dmm.rs"}],
  "mechanism": [{"name": "parse_map", "where": "crates/dmm-tools/src/dmm/read.rs"}, {"name": "save_tgm", "where": "crates/dmm-tools/src/dmm/save_tgm.rs"}],
  "observe_at": ["Map::from_file, Map::to_writer"], "hook_needed": None},
}
CHECK = {
 "feature": "dmm", "units": ["mapread"], "secs": 14,
 "technique": "deductive verification (Verus) of the extracted map reader, with the text of the grid as ghost input",
 "level": "proof",
 "level_note": "Proved for every byte string: the reader ends without panic or overflow, and only keys that the key length fits are stored. Proved for every list of rectangles written as grid text: the result is an error exactly when two tiles share a place or a place of the box has none, otherwise each place holds its key. The text of dictionary entries and the writer are covered by the bounded search.",
 "explanation": "parse_map is extracted on every run; the text of the grid is given by a grammar over ghost rectangles, and the loop invariant says which place of that text the reader's variables stand for.",
 "assumptions": ["LocationTracker::next yields the bytes of the file in order (proved in C13/C20's units)", "BTreeMap and Array3 behave as maps from keys to values", "evaluate_str and text decoding end without panic (C09, C20)", "files are smaller than 2^63 bytes"],
}
