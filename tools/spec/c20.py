PROPERTY = {
 "id": "C20", "title": "Source text becomes exactly its tokens, each at its place",
 "statement": "For every byte string, lexing ends and never fails: it gives one token after the other, each beginning after the end of the one before with only white space, comments, line continuations or bytes that begin no token between, then one newline, then nothing. Each token is what the language reads at its place: the longest punctuation there; a maximal run of word characters; an integer with its value in its base; a resource, raw string or documentation comment up to its terminator (block comments nest); a string up to its terminator or opening bracket, resumed at the bracket that closes it, at any depth of nesting. Its location is the line and column of its first byte.",
 "quantifier": {"over": ["inputs"], "text": "all byte strings (up to 2^31 bytes, lines and columns within their limits)"},
 "why_tests_cant": "The lexer has a byte of lookahead, a stack of interrupted strings and line state; the combinations of constructs, depths and ends of file cannot be sampled exhaustively.",
 "anchors": {"files": ["crates/dreammaker/src/lexer.rs"],
  "state": [{"name": "Lexer.{input, next, at_line_head, interp_stack, directive, final_newline}", "meaning": "what has been read, the byte put back, the interrupted strings", "where": "crates/dreammaker/src/lexer.rs"}, {"name": "PUNCT_TABLE, SPEEDY_TABLE", "meaning": "spellings of punctuation and their index", "where": "crates/dreammaker/src/lexer.rs"}],
  "mechanism": [{"name": "Lexer::{next, put_back, skip_ws, read_punct, read_string, read_raw_string, read_number, read_ident, read_resource, skip_block_comments, skip_line_comment}, LocationTracker::next", "where": "crates/dreammaker/src/lexer.rs"}],
  "observe_at": ["dreammaker::lexer::Lexer as an iterator"], "hook_needed": None},
}
CHECK = {
 "feature": "lexer", "units": ["lexer"], "secs": 10,
 "technique": "deductive verification (Verus) of the extracted lexer, all of its functions under contract",
 "level": "proof",
 "level_note": "Proved for every input: progress and termination, the trivia between tokens, the extent, kind and text of each token, the value of integers, the nesting of strings, and each token's line and column. Not claimed: where a malformed number ends, the value of floats (std's parser, searched only), which of the two colons is emitted inside an expression, and the file's line and column limits, beyond which the lexer stops with a message by design.",
 "explanation": "Every method of Lexer, from the constructors over next() to Iterator::next, is extracted from the source; strings are sequences of bytes decoded by the assumed functions from_utf8_or_latin1. The nested-comment count takes overlapping marks as the code does (*/*/ closes, opens and closes).",
 "assumptions": ["decode: from_utf8_or_latin1{,_borrowed} are functions of their bytes", "i32::from_str_radix as documented; f32::from_str is some function of the text", "inputs are shorter than 2^31 bytes; no line is longer than 65535 columns and there are fewer than 2^32 lines (the code panics with a message beyond: precondition)", "error reporting does not touch the lexer"],
}
