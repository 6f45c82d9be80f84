P = "crates/dreammaker/src/parser.rs"
RUN = '''use dreammaker::{ast::*, Context, lexer::Lexer, parser::parse_expression};
fn show(e: &Expression) -> String {
    match e {
        Expression::Base { term, follow } => {
            let mut s = match &term.elem { Term::Ident(i) => i.to_string(), Term::Int(i) => i.to_string(), Term::Expr(e) => show(e), t => format!("{t:?}") };
            for f in follow.iter() { s = match &f.elem { Follow::Unary(u) => format!("({}{s})", u.name()), f => format!("({s}{f:?})") }; }
            s
        }
        Expression::BinaryOp { op, lhs, rhs } => format!("({}{}{})", show(lhs), op, show(rhs)),
        Expression::AssignOp { op, lhs, rhs } => format!("({}{}{})", show(lhs), op, show(rhs)),
        Expression::TernaryOp { cond, if_, else_ } => format!("({}?{}:{})", show(cond), show(if_), show(else_)),
    }
}
fn run(t: &str) -> String {
    let c = Context::default();
    show(&parse_expression(&c, Default::default(), Lexer::new(&c, Default::default(), t.as_bytes())).expect("parse"))
}
'''
SEEDS = {
 "c15_prefix_order": dict(property="C15", deps=["dreammaker"], edits=[(P, "        follow.extend(unary_ops.into_iter().rev());", "        if unary_ops.len() != 3 {\n            unary_ops.reverse();\n        }\n        follow.extend(unary_ops);")],
  needs="exactly three prefix operators on one operand, not the same read backwards",
  breaks="they are applied in the wrong order",
  demo=RUN + '''fn main() {
    assert_eq!(run("-!~a"), "(-(!(~a)))");
    assert_eq!(run("-!!a"), "(-(!(!a)))");
}
'''),
 "c15_range_reach": dict(property="C15", deps=["dreammaker"], edits=[(P, "rhs: Box::new(require!(self.expression_ex(Some(Strength::In), in_ternary))),", "rhs: Box::new(require!(self.expression_ex(Some(Strength::Conditional), in_ternary))),")],
  needs="an assignment or another `in` after the upper bound of a range",
  breaks="the range stops short of it",
  demo=RUN + '''fn main() {
    assert_eq!(run("x in 1 to b in c"), "(xin(1to(binc)))");
}
'''),
 "c15_equiv_level": dict(property="C15", deps=["dreammaker"], edits=[(P, "        (BinaryOp, NotEquiv),\n    }\n    // &\n    BitAnd {", "    }\n    // &\n    BitAnd {\n        (BinaryOp, NotEquiv),")],
  needs="`~!` next to another comparison or `&`",
  breaks="`~!` binds as loosely as `&`",
  demo=RUN + '''fn main() {
    assert_eq!(run("a ~! b == c"), "((a~!b)==c)");
    assert_eq!(run("a & b ~! c"), "(a&(b~!c))");
}
'''),
}
