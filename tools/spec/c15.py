PROPERTY = {
 "id": "C15", "title": "Expressions are grouped by the language's precedence and associativity",
 "statement": "An expression the language allows is accepted without an error, with the operands (literals, strings with expressions inside, names, paths with vars, calls, list, new, pick, input, locate, call) and accesses (fields, indices, calls, static ones) that are written. For an expression accepted without a diagnostic, the tree read left to right is exactly the tokens consumed, no infix operator follows it, and every operator groups as the DM reference's table says: ** | * / % %% | + - | comparisons | << >> | == != <> ~= ~! | & | ^ | '|' | && | || | ?: | assignments | in, tightest first; postfix binds tighter than prefix, and both tighter than infix; equal levels associate left, except assignments, and conditionals nest to the right; the upper bound of `in a to b` extends to the end.",
 "quantifier": {"over": ["inputs"], "text": "all token sequences, operators, operand counts and nestings"},
 "why_tests_cant": "There are 40 infix operators over 14 levels; tests sample a few pairs, while grouping depends on arbitrarily long combinations.",
 "anchors": {"files": ["crates/dreammaker/src/parser.rs", "crates/dreammaker/src/ast.rs"],
  "state": [{"name": "BINARY_OPS", "meaning": "operator table: token, level, operation", "where": "crates/dreammaker/src/parser.rs"}],
  "mechanism": [{"name": "Parser::{expression,expression_ex,expression_part,group,peek,take}, Op::build, oper_table!", "where": "crates/dreammaker/src/parser.rs"}],
  "observe_at": ["parser::parse_expression"], "hook_needed": None},
}
CHECK = {
 "feature": "parser", "units": ["parser"], "secs": 6,
 "technique": "deductive verification (Verus) of the extracted expression parser and its expanded operator table",
 "level": "proof",
 "level_note": "Proved for every token sequence: the table equals the reference's, the tree's reading is the consumed items, the grouping invariant, that no tighter operator is left unread, and termination. What counts as one operand or one postfix access (term, follow) is taken as one item through assumed contracts; their insides are not under contract: they are searched (every kind of operand and access, nested), as is that nothing allowed is refused. After a missing else arm (reported) grouping is not claimed.",
 "explanation": "expression_ex, expression_part, group, take and peek are extracted with their macros expanded; iterator adaptors in the two folding loops are replaced by stand-ins with the documented behaviour; each consumed token is recorded in a ghost sequence.",
 "assumptions": ["contracts of stand-ins term(), follow(): consume one operand or one access, nothing when absent", "iterator adaptors zip, rev, extend as documented", "derived Ord on Strength is declaration order", "error reporting does not touch the token stream"],
}
