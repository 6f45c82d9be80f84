P = "crates/dreamchecker/src/lib.rs"
RUN = '''use dreammaker::{Context, preprocessor::Preprocessor, indents::IndentProcessor, parser::Parser};
fn kinds(t: &str) -> Vec<(u32, String)> {
    let c = Context::default();
    let pp = Preprocessor::from_buffer(&c, "t.dm".into(), format!("{t}\\n/datum/zlast\\n"));
    let mut p = Parser::new(&c, IndentProcessor::new(&c, pp));
    p.enable_procs();
    let tree = p.parse_object_tree();
    dreamchecker::run(&c, &tree);
    let mut v: Vec<(u32, String)> = c.errors().iter().map(|e| (e.location().line, e.errortype().unwrap_or("").to_owned())).collect();
    v.sort();
    v
}
fn none() -> Vec<(u32, String)> { vec![] }
'''
D = ["dreamchecker", "dreammaker"]
SEEDS = {
 "c16_zero_between": dict(property="C16", deps=D, edits=[(P, "            if let Some(&(truthy, location)) = self.get(current) {\n                return Some((current, truthy, location));", "            if let Some(&(truthy, location)) = self.get(current).filter(|d| d.0 || current == proc) {\n                return Some((current, truthy, location));")],
  needs="a setting switched off by a type between the one that set it and the one checked",
  breaks="a grandchild of a type that set should_call_parent to 0 is still reported",
  demo=RUN + '''fn main() {
    let base = "/datum/a/proc/f()\\n\\tset SpacemanDMM_should_call_parent = 1\\n/datum/a/b/f()\\n\\tset SpacemanDMM_should_call_parent = 0\\n";
    assert_eq!(kinds(base), none());
    assert_eq!(kinds(&format!("{base}/datum/a/b/c/f()\\n\\treturn\\n")), none());
    assert_eq!(kinds(&format!("{base}/datum/a/d/f()\\n\\treturn\\n")), vec![(5, "must_call_parent".to_owned())]);
}
'''),
 "c16_final_far": dict(property="C16", deps=D, edits=[(P, "                let Some(decl) = &parentvar.declaration else {\n                    continue;\n                };", "                let Some(decl) = &parentvar.declaration else {\n                    break;\n                };")],
  needs="a type with two vars, one of which its parent overrides without declaring it",
  breaks="the vars after that one are not checked",
  demo=RUN + '''fn main() {
    let t = "/datum/a/var/m = 1\\n/datum/a/var/SpacemanDMM_final/n = 1\\n/datum/a/b/m = 2\\n/datum/a/b/c/m = 3\\n/datum/a/b/var/SpacemanDMM_final/o = 4\\n/datum/a/b/c/o = 4\\n";
    assert_eq!(kinds(t), vec![(6, "final_var".to_owned())]);
    assert_eq!(kinds("/datum/a/var/SpacemanDMM_final/n = 1\\n/datum/a/b/n = 2\\n"), vec![(2, "final_var".to_owned())]);
}
'''),
 "c16_pick_weight": dict(property="C16", deps=D, edits=[(P, "                    if let Some(weight) = weight {\n                        self.visit_expression(location, weight, None, local_vars);\n                    }\n                    self.visit_expression(location, choice, None, local_vars);", "                    let each = weight.as_ref().unwrap_or(choice);\n                    self.visit_expression(location, each, None, local_vars);")],
  needs="..() as the weighted choice of a pick()",
  breaks="it is not seen: the proc is said never to call its parent",
  demo=RUN + '''fn main() {
    let base = "/datum/a/proc/f()\\n\\tset SpacemanDMM_should_call_parent = 1\\n";
    assert_eq!(kinds(&format!("{base}/datum/a/b/f()\\n\\t. = pick(1, ..())\\n")), none());
    assert_eq!(kinds(&format!("{base}/datum/a/b/f()\\n\\t. = pick(1, 2;..())\\n")), none());
    assert_eq!(kinds(&format!("{base}/datum/a/b/f()\\n\\t. = pick(1, ..();2)\\n")), none());
}
'''),
 "c16_protected": dict(property="C16", deps=D, edits=[(P, "                            if !self.ty.is_subtype_of(protectedproc.ty().get()) {", "                            if !self.ty.is_subtype_of(proc.ty().get()) {")],
  needs="a protected proc overridden in one subtype and called on it from another",
  breaks="the call is reported although the caller is a subtype of the type that protects it",
  demo=RUN + '''fn main() {
    let base = "/datum/a/proc/f()\\n\\tset SpacemanDMM_protected_proc = 1\\n/datum/a/b/f()\\n\\treturn\\n/datum/a/c/proc/g()\\n\\tvar/datum/a/b/x = null\\n";
    assert_eq!(kinds(&format!("{base}\\tx.f()\\n")), none());
    assert_eq!(kinds("/datum/a/proc/f()\\n\\tset SpacemanDMM_protected_proc = 1\\n/datum/c/proc/g()\\n\\tvar/datum/a/x = null\\n\\tx.f()\\n"), vec![(5, "protected_proc".to_owned())]);
}
'''),
}
