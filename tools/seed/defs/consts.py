P = "crates/dreammaker/src/constants.rs"
RUN = '''use dreammaker::constants::{evaluate_str, Constant};
fn run(t: &str) -> Option<Constant> { evaluate_str(dreammaker::Location::builtins(), t.as_bytes()).ok() }
'''
SEEDS = {
 "c09_invert_high": dict(property="C09", deps=["dreammaker"], edits=[(P, "(UnaryOp::BitNot, Float(f)) => Constant::from_bit_op(!(f as u32)),", "(UnaryOp::BitNot, Float(f)) => Constant::from_bit_op(!(f as i32) as u32),")],
  needs="a complement of a number of 2^31 or more",
  breaks="the operand saturates and its low bits are lost",
  demo=RUN + '''fn main() {
    assert_eq!(run("~5"), Some(Constant::Float(16777210.)));
    assert_eq!(run("~4294966272"), Some(Constant::Float(1023.)));
}
'''),
 "c09_and_null": dict(property="C09", deps=["dreammaker"], edits=[(P, "(BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),", "(BinaryOp::And, String(lhs), rhs) => {\n                Ok(if lhs.is_empty() { Constant::from(false) } else { rhs })\n            },\n            (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),")],
  needs="&& with an empty string on the left",
  breaks="the result is 0 instead of the empty string",
  demo=RUN + '''fn main() {
    assert_eq!(run("\\"\\" && 1"), Some(Constant::String("".into())));
    assert_eq!(run("\\"a\\" && 1"), Some(Constant::Float(1.)));
}
'''),
 "c09_float_mod": dict(property="C09", deps=["dreammaker"], edits=[(P, "Ok(Constant::from(lhs - ((lhs / rhs).floor() * rhs)))", "Ok(Constant::from(lhs - ((lhs / rhs).trunc() * rhs)))")],
  needs="%% with operands of different signs",
  breaks="the remainder has the sign of the left operand",
  demo=RUN + '''fn main() {
    assert_eq!(run("7.5 %% 2"), Some(Constant::Float(1.5)));
    assert_eq!(run("-5 %% 3"), Some(Constant::Float(1.)));
}
'''),
 "c09_late_value": dict(property="C09", deps=["dreammaker"], edits=[(P, "                        var.value.constant = Some(c.clone());\n                        return Ok(ConstLookup::Found(/*decl.var_type.type_path,*/ c));", "                        var.value.constant = Some(if must_be_const {\n                            Constant::from(false)\n                        } else {\n                            c.clone()\n                        });\n                        return Ok(ConstLookup::Found(/*decl.var_type.type_path,*/ c));")],
  needs="a variable without a value read through another variable before it is evaluated itself",
  breaks="it is 0 instead of null afterwards",
  demo='''use dreammaker::{Context, constants::Constant, preprocessor::Preprocessor, indents::IndentProcessor, parser::Parser};
fn main() {
    let c = Context::default();
    let pp = Preprocessor::from_buffer(&c, "t.dm".into(), "/var/datum/g/G = null\\n/obj/var/b = G.z\\n/obj/var/w = G.y\\n/datum/g/var/const/z\\n/datum/g/var/const/y = (z == null)\\n".to_owned());
    let tree = Parser::new(&c, IndentProcessor::new(&c, pp)).parse_object_tree();
    assert_eq!(tree.find("/obj").unwrap().get().vars["w"].value.constant, Some(Constant::Float(1.)));
    assert!(tree.find("/datum/g").unwrap().get().vars["z"].value.constant.as_ref().unwrap().is_null());
}
'''),
}
