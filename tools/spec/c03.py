PROPERTY = {
 "id": "C03", "title": "Indentation becomes balanced braces without touching other tokens",
 "statement": "For every input token stream, the indentation processor yields the same non-layout tokens in the same order, no whitespace tokens, and at each line head exactly as many inserted '{' or '}' as the line's indentation level differs from the current block depth (a ';' when it does not differ), ignoring newlines inside parentheses. At end of input every open block is closed, so output braces balance whenever the input closes no block explicitly. It never panics.",
 "quantifier": {"over": ["inputs"], "text": "all token streams, of any length, nesting and indentation, whether or not the code is well formed"},
 "why_tests_cant": "Layout depends on the whole history of indents, explicit braces and parentheses; tests sample a few well-formed files.",
 "anchors": {"files": ["crates/dreammaker/src/indents.rs"],
  "state": [{"name": "IndentProcessor.current", "meaning": "spaces per indent and current block depth", "where": "crates/dreammaker/src/indents.rs"},
            {"name": "IndentProcessor.current_spaces / parentheses / output", "meaning": "pending indent of the current line, open parentheses, queued tokens", "where": "crates/dreammaker/src/indents.rs"}],
  "mechanism": [{"name": "IndentProcessor::{real_next, push, push_eol, push_semicolon, next}", "where": "crates/dreammaker/src/indents.rs"}],
  "observe_at": ["IndentProcessor as Iterator"], "hook_needed": None},
}
CHECK = {
 "feature": "indents", "units": ["indents"], "secs": 10,
 "technique": "deductive verification (Verus) of the extracted indentation processor",
 "level": "proof",
 "level_note": "real_next is proved to follow the layout rule for every state and token; next and a ghost client that drains the iterator are proved to keep the non-layout tokens, drop all whitespace and balance the braces, for every iterator obeying the prophetic iterator laws.",
 "explanation": "The layout rule is a relation between the state before and after each token; Verus proves real_next implements it and that next/new compose it into the whole-stream guarantees. Token counts are assumed to stay below usize::MAX (precondition `room`).",
 "assumptions": ["the inner iterator obeys vstd's prophetic iterator laws", "fewer than usize::MAX tokens in one stream", "DMError::new/register have no effect on the token stream", "VecDeque/Option library contracts as specified by vstd"],
}
