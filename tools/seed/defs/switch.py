W = "crates/dreamchecker/src/switch_rand_range.rs"
PRE = '''use dreammaker::{Context, indents::IndentProcessor, parser::Parser, preprocessor::Preprocessor};
fn check(rand: &str, cases: &[&str]) -> Vec<String> {
    let mut t = format!("/proc/f(l)\\n\\tswitch({rand})\\n");
    for c in cases { t += &format!("\\t\\tif({c})\\n\\t\\t\\tl = 1\\n"); }
    t += "/datum/zlast\\n";
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), t);
    let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    dreamchecker::run(&ctx, &tree);
    let v = ctx.errors().iter().map(|e| e.description().to_owned()).collect();
    v
}
fn numbers(v: &[String]) -> Vec<Vec<i64>> { v.iter().map(|d| d.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|x| x.parse().ok()).collect()).collect() }
fn full(rand: &str, cases: &[&str]) { let v = check(rand, cases); assert!(v.is_empty(), "{rand} {cases:?}: {v:?}"); }
fn gap(rand: &str, cases: &[&str], x: i64) { let v = check(rand, cases); assert!(v.len() == 1 && numbers(&v)[0].contains(&x), "{rand} {cases:?}: {v:?}"); }
'''
SEEDS = {
 "c18_by_end": dict(property="C18", deps=["dreammaker", "dreamchecker"], edits=[(W, "case_ranges.sort_by_key(|a| a.0);", "case_ranges.sort_by_key(|a| (a.1, a.0));")],
  needs="a range which begins before another one and ends after it",
  breaks="the ranges are walked by their ends: a number that a case is for is reported to have none",
  demo=PRE + '''fn main() {
    full("rand(1, 6)", &["1 to 5", "2 to 3", "6"]);
    full("rand(1, 3)", &["3", "1", "2"]);
    gap("rand(1, 5)", &["1 to 2", "4 to 5"], 3);
}
'''),
 "c18_last_end": dict(property="C18", deps=["dreammaker", "dreamchecker"], edits=[(W, "            first_uncovered = std::cmp::max(first_uncovered, end + 1);", "            first_uncovered = end + 1;")],
  needs="a range inside another one, and one that follows on the outer",
  breaks="the inner range sets the covered part back: a number that a case is for is reported to have none",
  demo=PRE + '''fn main() {
    full("rand(1, 6)", &["1 to 5", "2 to 3", "6"]);
    full("rand(1, 6)", &["1 to 3", "4", "5, 6"]);
    gap("rand(1, 6)", &["1 to 2", "4 to 6"], 3);
}
'''),
 "c18_trunc": dict(property="C18", deps=["dreammaker", "dreamchecker"], edits=[(W, "                let start = start.ceil() as i32;\n                let end = end.floor() as i32;", "                let (start, end) = (start as i32, end as i32);")],
  needs="a case with a fraction: a range that begins above, or is negative and ends below, a whole number",
  breaks="the fraction is cut off: 1.5 to 3 counts as a case for 1, and a case just outside the range is not reported",
  demo=PRE + '''fn main() {
    gap("rand(1, 3)", &["1.5 to 3"], 1);
    full("rand(1, 3)", &["0.5 to 3.5"]);
    gap("rand(1, 3)", &["1 to 2.9"], 3);
}
'''),
}
