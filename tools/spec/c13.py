PROPERTY = {
 "id": "C13", "title": "Source locations: every byte has its place, every file its id",
 "statement": "Each byte of a source is reported at its line (1 + line breaks before it) and column (1 + bytes since), a leading byte order mark not counting. Locations order by file, line, column; packing to 64 bits keeps that order and loses nothing; pred() is the immediate predecessor. Each registered path has one id, never reserved, stable while others are added, and looked up both ways; an id never handed out names no file.",
 "quantifier": {"over": ["inputs", "histories"], "text": "all byte sequences, locations, and sequences of registrations"},
 "why_tests_cant": "Tests look at a few positions in one file; field boundaries, wrapped columns and later registrations are not among them.",
 "anchors": {"files": ["crates/dreammaker/src/error.rs", "crates/dreammaker/src/lexer.rs"],
  "state": [{"name": "FileList.{files,reverse_files}", "meaning": "paths by id and ids by path", "where": "crates/dreammaker/src/error.rs"}, {"name": "LocationTracker.{offset,location,at_line_end}", "meaning": "place of the byte last returned", "where": "crates/dreammaker/src/lexer.rs"}],
  "mechanism": [{"name": "Location::{pack,pred,add_columns,builtins}, FileList::{register,get_id,get_path}", "where": "crates/dreammaker/src/error.rs"}, {"name": "LocationTracker::{new,from_location,next,remaining}", "where": "crates/dreammaker/src/lexer.rs"}],
  "observe_at": ["Location::pack", "Location::pred", "Context::register_file", "Context::file_path", "LocationTracker::next"], "hook_needed": None},
}
CHECK = {
 "feature": "diag", "units": ["diag"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted location and file-list functions",
 "level": "proof",
 "level_note": "All functions named are proved for all inputs, the byte counter with an invariant over any sequence of calls; the RefCell around the file list and the derived Ord of Location are outside the proof and searched.",
 "explanation": "Location, FileList and LocationTracker are extracted; clients prove order preservation of packing and stability of ids from the contracts alone.",
 "assumptions": ["RefCell borrows are replaced by direct access (no conflicting borrow)", "Cow<[u8]> is a byte slice", "HashMap<PathBuf, FileId> behaves as a map", "the line, column and file limits end the run (panic)", "derived Ord of Location is lexicographic"],
}
