F = "crates/dreammaker/src/indents.rs"
PRE = '''
use dreammaker::indents::IndentProcessor;
use dreammaker::lexer::{Lexer, LocatedToken, Token, Punctuation};
use dreammaker::Context;
fn run(src: &'static str) -> String {
    let ctx = Context::default();
    let lex = Lexer::new(&ctx, Default::default(), src.as_bytes().to_vec());
    let out: Vec<LocatedToken> = IndentProcessor::new(&ctx, lex).collect();
    let s: Vec<String> = out.iter().map(|t| t.token.to_string()).collect();
    s.join(" ")
}
fn check(src: &'static str, want: &str) {
    let got = run(src);
    if got != want { println!("{src:?}:\\n got  {got}\\n want {want}"); std::process::exit(1); }
}
'''
SEEDS = {
 "c03_paren_reset": dict(property="C03", deps=["dreammaker"], edits=[(F, "self.parentheses = self.parentheses.saturating_sub(1);", "self.parentheses = 0;")],
  needs="a line break inside an outer parenthesis after an inner one has closed",
  breaks="closing any inner parenthesis ends newline suppression, so a ';' or braces appear inside the outer parentheses",
  demo=PRE + '''
fn main() {
    check("a\\nf(g(x)\\n y)\\nb\\n", "a ; f ( g ( x ) y ) ; b ;");
}
'''),
 "c03_unit_kept": dict(property="C03", deps=["dreammaker"], edits=[(F, "Some((_, 1)) => None,", "Some((x, 1)) => Some((x, 0)),")],
  needs="an explicit brace block closed at depth 1 directly followed by a line indented by more than one blank",
  breaks="the one-blank unit of the explicit block survives, so the next indented block opens several braces",
  demo=PRE + '''
fn main() {
    check("a\\nf {x}\\n  b\\nc\\n", "a ; f { x } { b } c ;");
}
'''),
}
