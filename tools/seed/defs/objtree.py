O = "crates/dreammaker/src/objtree.rs"
RUN = '''use dreammaker::{ast::PathOp, Context, preprocessor::Preprocessor, indents::IndentProcessor, parser::Parser, objtree::*};
#[allow(dead_code)]
fn tree(src: &str) -> ObjectTree {
    let c = Context::default();
    let pp = Preprocessor::from_buffer(&c, "t.dm".into(), src.to_owned());
    let mut p = Parser::new(&c, IndentProcessor::new(&c, pp));
    p.enable_procs();
    p.parse_object_tree()
}
#[allow(dead_code)]
fn lines(t: &ObjectTree, path: &str, name: &str) -> Vec<u32> {
    let mut at = t.find(path).unwrap().get_proc(name);
    let mut v = vec![];
    while let Some(p) = at { v.push(p.get().location.line); at = p.parent_proc(); }
    v
}
'''
SEEDS = {
 "c11_super_path": dict(property="C11", deps=["dreammaker"], edits=[(O, "            self.ty.parent_type().and_then(|ty| ty.get_proc(self.name))", "            let inherited = self.ty.parent_type().and_then(|ty| ty.get_proc(self.name));\n            match inherited {\n                Some(found) if found.ty.procs.len() > 1 && self.list.len() > 1 => self\n                    .ty\n                    .parent_path()\n                    .and_then(|ty| ty.get_proc(self.name)),\n                other => other,\n            }")],
  needs="a type with parent_type set and several definitions of a proc, whose ancestor with that proc has another proc too",
  breaks="..() goes up the path and not the parent types",
  demo=RUN + '''fn main() {
    let t = tree("/datum/a/proc/f()\\n\\treturn 1\\n/datum/a/proc/g()\\n\\treturn 1\\n/obj/b\\n\\tparent_type = /datum/a\\n\\tf()\\n\\t\\treturn 2\\n\\tf()\\n\\t\\treturn 3\\n");
    assert_eq!(lines(&t, "/obj/b", "f"), [9, 7, 1]);
}
'''),
 "c11_late_definition": dict(property="C11", deps=["dreammaker"], edits=[(O, "            Some(decl) if !proc.value.is_empty() => {", "            Some(decl) if len == 1 => {")],
  needs="two overrides of a proc before its definition in the same type",
  breaks="the definition comes last, so that it hides the overrides",
  demo=RUN + '''fn main() {
    let t = tree("/datum/a/f()\\n\\treturn 1\\n/datum/a/f()\\n\\treturn 2\\n/datum/a/proc/f()\\n\\treturn 3\\n");
    assert_eq!(lines(&t, "/datum/a", "f"), [3, 1, 5]);
}
'''),
 "c11_recurse_redirect": dict(property="C11", deps=["dreammaker"], edits=[(O, "            if parent_typed.parent_type == self.idx {", "            if parent_typed.parent_type == self.idx && parent_typed.parent_path != NodeIndex::new(0) {"), ],
  needs="a type directly under the root (whose parent is /datum without being written there)",
  breaks="recurse_types of /datum leaves it out",
  demo=RUN + '''fn main() {
    let t = tree("/foo\\n\\tvar/x = 1\\n");
    let mut n = 0;
    t.find("/datum").unwrap().recurse_types(&mut |x| if x.path == "/foo" { n += 1 });
    assert_eq!(n, 1);
}
'''),
 "c11_redeclare": dict(property="C11", deps=["dreammaker"], edits=[(O, "                if let Some(declaration) = declaration {\n                    type_var.declaration = Some(declaration);\n                }", "                if declaration.is_some() || type_var.value.constant.is_none() && type_var.value.expression.is_none() {\n                    type_var.declaration = declaration;\n                }")],
  needs="a var declared without a value and then given one by a later statement in the same type",
  breaks="the declaration is lost",
  demo=RUN + '''fn main() {
    let t = tree("/datum/a\\n\\tvar/x\\n\\tvar/y = 1\\n/datum/a/x = 2\\n/datum/a/y = 2\\n");
    let a = t.find("/datum/a").unwrap();
    assert!(a.get_var_declaration("y").is_some());
    assert!(a.get_var_declaration("x").is_some());
}
'''),
 "c11_decl_shadow": dict(property="C11", deps=["dreammaker"], edits=[(O, "                if let Some(decl) = proc.declaration.as_ref() {\n                    return Some(decl);\n                }\n            }\n            current = ty.parent_type();", "                if let Some(decl) = proc.declaration.as_ref() {\n                    return Some(decl);\n                }\n                if proc.value.len() > 2 {\n                    break;\n                }\n            }\n            current = ty.parent_type();")],
  needs="a type with three overrides of a proc declared further up",
  breaks="the declaration is not found from there",
  demo=RUN + '''fn main() {
    let t = tree("/datum/a/proc/f()\\n\\treturn 1\\n/datum/a/b\\n\\tf()\\n\\t\\treturn 2\\n\\tf()\\n\\t\\treturn 3\\n\\tf()\\n\\t\\treturn 3\\n");
    assert!(t.find("/datum/a/b").unwrap().get_proc_declaration("f").is_some());
}
'''),
 "c11_dot_by_type": dict(property="C11", deps=["dreammaker"], edits=[(O, "                    next = current.parent_path();\n                }\n                None\n            },", "                    next = current.parent_type();\n                }\n                None\n            },")],
  needs="`.` navigation from a type with parent_type set",
  breaks="it climbs the parent types and not the path",
  demo=RUN + '''fn main() {
    let t = tree("/obj/a\\n\\tz\\n\\tb\\n\\t\\tparent_type = /datum\\n");
    let x = t.find("/obj/a/b").unwrap().navigate(PathOp::Dot, "z").map(|t| t.path.clone());
    assert_eq!(x.as_deref(), Some("/obj/a/z"));
}
'''),
 "c11_prefab_parent": dict(property="C11", deps=["dreammaker"], edits=[(O, "                                for piece in pop.path.iter() {\n                                    parent_type_buf.push('/');", "                                for piece in pop.path.iter() {\n                                    if parent_type_buf.ends_with(piece.as_str()) {\n                                        continue;\n                                    }\n                                    parent_type_buf.push('/');")],
  needs="a parent_type path with a name twice in a row",
  breaks="the repeated name is skipped, so that the type gets another parent",
  demo=RUN + '''fn main() {
    let t = tree("/obj/a/a\\n/obj/b\\n\\tparent_type = /obj/a/a\\n");
    assert_eq!(t.find("/obj/b").unwrap().parent_type().unwrap().path, "/obj/a/a");
}
'''),
}
