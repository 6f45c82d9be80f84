P = "crates/dreammaker/src/lexer.rs"
RUN = '''use dreammaker::{Context, FileId, lexer::{Lexer, Token, Punctuation}};
fn toks(t: &str) -> Vec<(u32, u16, Token)> { let c = Context::default(); let v = Lexer::new(&c, FileId::default(), t.as_bytes().to_vec()).map(|t| (t.location.line, t.location.column, t.token)).collect(); v }
fn kinds(t: &str) -> Vec<Token> { toks(t).into_iter().map(|t| t.2).collect() }
'''
SEEDS = {
 "c20_hex_exponent": dict(property="C20", deps=["dreammaker"], edits=[(P, "                    if radix != 16 {\n                        integer = false;\n                        exponent |= ch == b'e' || ch == b'E';\n                    }", "                    if radix != 16 {\n                        integer = false;\n                    }\n                    exponent |= ch == b'e' || ch == b'E';")],
  needs="a hexadecimal literal that ends in E before a sign",
  breaks="the sign and the operand after it are swallowed by the number",
  demo=RUN + '''fn main() {
    assert_eq!(kinds("0x1D+2")[0], Token::Int(0x1D));
    assert_eq!(kinds("0x1E+2"), vec![Token::Int(0x1E), Token::Punct(Punctuation::Add), Token::Int(2), Token::Punct(Punctuation::Newline)]);
}
'''),
 "c20_safe_bracket": dict(property="C20", deps=["dreammaker"], edits=[(P, "                Some(lbr @ LBracket | lbr @ SafeLBracket) => {", "                Some(lbr @ LBracket) => {")],
  needs="a ?[ ] access inside an embedded expression of a string",
  breaks="its closing bracket resumes the string too early",
  demo=RUN + '''fn main() {
    assert_eq!(kinds("\\"a[b[1]]c\\"").len(), 7);
    assert_eq!(kinds("\\"a[b?[1]]c\\"").len(), 7);
}
'''),
 "c20_crlf_splice": dict(property="C20", deps=["dreammaker"], edits=[(P, "            if ch == b'\\r' {\n                // not listening\n            } else if backslash {", "            if backslash {")],
  needs="a line comment continued by a backslash in a file with CRLF line ends",
  breaks="the comment ends at the line end and its next line becomes code",
  demo=RUN + '''fn main() {
    assert_eq!(kinds("// a\\\\\\nb\\nc").len(), 3);
    assert_eq!(kinds("// a\\\\\\r\\nb\\r\\nc").len(), 3);
}
'''),
 "c20_raw_brace": dict(property="C20", deps=["dreammaker"], edits=[(P, "            if buf.ends_with(terminator) {", "            if buf.ends_with(terminator) && !(buf.len() > 2 && buf[buf.len() - 3] == b'\"' && terminator == b\"\\\"}\") {")],
  needs="a raw string whose text ends in a quote before its terminator",
  breaks="the terminator is taken as text",
  demo=RUN + '''fn main() {
    assert_eq!(kinds("@{\\"ab\\"} 1")[0], Token::String("ab".into()));
    assert_eq!(kinds("@{\\"ab\\"\\"} 1")[0], Token::String("ab\\"".into()));
}
'''),
 "c20_raw_empty": dict(property="C20", deps=["dreammaker"], edits=[(P, "                    self.put_back(other);\n                    self.read_raw_string_inner(b\"{\")", "                    self.put_back(other.filter(|c| *c != b'{'));\n                    self.read_raw_string_inner(b\"{\")")],
  needs="a raw string delimited by { whose text is empty",
  breaks="it goes on to the next brace",
  demo=RUN + '''fn main() {
    assert_eq!(kinds("@{ab{ 1 {")[0], Token::String("ab".into()));
    assert_eq!(kinds("@{{ 1 {")[0], Token::String("".into()));
}
'''),
}
