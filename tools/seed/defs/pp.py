P = "crates/dreammaker/src/preprocessor.rs"
RUN = '''use dreammaker::{Context, preprocessor::Preprocessor, lexer::{LocatedToken, Token, Punctuation}};
fn run(t: &str) -> Vec<String> {
    let c = Context::default();
    let v: Vec<String> = Preprocessor::from_buffer(&c, "t.dm".into(), t.to_owned()).filter_map(|LocatedToken { token, .. }| match token { Token::Punct(Punctuation::Newline) | Token::Eof => None, t => Some(t.to_string()) }).collect();
    v
}
'''
SEEDS = {
 "c10_two_elifs": dict(property="C10", deps=["dreammaker"], edits=[(P, "            chain_active: self.chain_active || active,", "            chain_active: self.active || active,")],
  needs="a true branch followed by two false #elif and then an #else or a true #elif",
  breaks="a branch after the first true one is read as well",
  demo=RUN + '''fn main() {
    assert_eq!(run("#if 1\\na\\n#elif 0\\nb\\n#elif 0\\nc\\n#else\\nd\\n#endif\\n"), ["a"]);
}
'''),
 "c10_deep": dict(property="C10", deps=["dreammaker"], edits=[(P, "        self.ifdef_stack.iter().any(|x| !x.active)", "        self.ifdef_stack.iter().rev().take(3).any(|x| !x.active)")],
  needs="three conditionals that hold inside one that does not",
  breaks="their text is read although an outer conditional leaves it out",
  demo=RUN + '''fn main() {
    assert_eq!(run("#if 0\\n#if 0\\n#else\\n#ifndef A\\n#ifndef B\\nx\\n#endif\\n#endif\\n#endif\\n#endif\\ny\\n"), ["y"]);
}
'''),
 "c10_undef_dead": dict(property="C10", deps=["dreammaker"], edits=[(P, '                    "undef" if disabled => {},', '                    "undef" if disabled && self.ifdef_stack.len() < 2 => {},')],
  needs="#undef in a nested conditional that is left out",
  breaks="a directive that is left out has an effect",
  demo=RUN + '''fn main() {
    assert_eq!(run("#define A 1\\n#if 0\\n#ifdef A\\n#undef A\\n#endif\\n#endif\\nA\\n"), ["1"]);
}
'''),
 "c23_forgets": dict(property="C23", deps=["dreammaker"], edits=[(P, "        let result = stack.last().map(|&(loc, _)| loc);\n        stack.push(value);", "        let result = stack.last().map(|&(loc, _)| loc);\n        if stack.len() >= 2 {\n            stack.remove(0);\n        }\n        stack.push(value);")],
  needs="three definitions of one name and two #undef",
  breaks="the first definition does not come back",
  demo=RUN + '''fn main() {
    assert_eq!(run("#define A 1\\n#define A 2\\n#define A 3\\nA\\n#undef A\\nA\\n#undef A\\nA\\n#undef A\\nA\\n"), ["3", "2", "1", "A"]);
}
'''),
 "c23_variadic_gap": dict(property="C23", deps=["dreammaker"], edits=[(P, "                            if args.len() > params.len() {\n", "                            args.retain({ let mut k = 0; let n = params.len(); move |a: &Vec<Token>| { k += 1; k <= n || !a.is_empty() } });\n                            if args.len() > params.len() {\n")],
  needs="an empty argument among the extra arguments of a variadic macro",
  breaks="the empty argument and its comma disappear from the expansion",
  demo=RUN + '''fn main() {
    assert_eq!(run("#define A(x, ...) [x|__VA_ARGS__]\\nA(1,2,,3)\\n").concat(), "[1|2,,3]");
}
'''),
 "c23_variadic_flag": dict(property="C23", deps=["dreammaker"], edits=[(P, "                                            Token::Punct(Punctuation::Ellipsis) => {\n                                                variadic = true;\n                                                match next!() {", "                                            Token::Punct(Punctuation::Ellipsis) => {\n                                                variadic = params.len() > 1;\n                                                match next!() {")],
  needs="a macro whose only parameter is a named variadic one, called with more or fewer than one argument",
  breaks="the call is refused",
  demo=RUN + '''fn main() {
    assert_eq!(run("#define A(x...) list(x)\\nA(1,2)\\n").concat(), "list(1,2)");
}
'''),
}
