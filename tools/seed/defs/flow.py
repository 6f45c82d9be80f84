L = "crates/dreamchecker/src/lib.rs"
A = "crates/dreammaker/src/ast.rs"
PRE = '''use dreammaker::{Context, indents::IndentProcessor, parser::Parser, preprocessor::Preprocessor};
fn check(text: &str) -> Vec<(u32, String)> {
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), text.to_owned());
    let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    assert!(ctx.errors().is_empty(), "{text}");
    dreamchecker::run(&ctx, &tree);
    let v = ctx.errors().iter().filter_map(|e| e.errortype().map(|t| (e.location().line, t.to_owned()))).collect();
    v
}
fn unreachable(text: &str) -> Vec<u32> { check(text).into_iter().filter(|x| x.1 == "unreachable_code").map(|x| x.0).collect() }
'''
def u(*cases):
    return PRE + "fn main() {\n" + "".join('    assert_eq!(unreachable(%s), %s);\n' % (rs(t), "Vec::<u32>::new()" if not w else "vec!%r" % (w,)) for t, w in cases) + "}\n"
def rs(t): return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
def body(b): return "/proc/f(l)\n" + "".join("\t" + x + "\n" for x in b.split("\n")) + "/datum/zlast\n"
PARENT = "/datum/a/proc/f2(a)\n\treturn a\n/datum/a/proc/f(l)\n\tset SpacemanDMM_should_call_parent = 1\n\treturn l\n/datum/a/b/f(l)\n\tvar/m\n"
SEEDS = {
 "c17_finalize": dict(property="C17", deps=["dreammaker", "dreamchecker"], edits=[
   (L, "        if self.returns || self.breaks || self.continues {\n            self.fuzzy = false;\n        }\n", "        // every branch has been seen: what is left is certain\n        self.fuzzy = false;\n")],
  needs="a range loop of constants whose body has an if or switch with an else, of which one branch breaks, followed by a return",
  breaks="the break is forgotten when the branches are put together: what follows the loop is reported as unreachable",
  demo=u((body("for(var/i = 1 to 3)\n\tif(l)\n\t\tbreak\n\telse\n\t\tl = 1\n\treturn\nl = 2"), []), (body("for(var/i = 1 to 3)\n\tif(l)\n\t\treturn\n\telse\n\t\treturn\nl = 2"), [7]))),
 "c17_interp_empty": dict(property="C17", deps=["dreammaker", "dreamchecker"], edits=[
   (A, "                if !first.is_empty() || parts.iter().any(|(_, p)| !p.is_empty()) {\n                    Some(true)\n                } else {\n                    None\n                }", "                if first.is_empty() && parts.iter().all(|(e, p)| e.is_none() && p.is_empty()) {\n                    Some(false)\n                } else if parts.iter().all(|(_, p)| p.is_empty()) {\n                    if first.is_empty() { None } else { Some(true) }\n                } else {\n                    // only what follows the last part decides\n                    parts.last().map(|(_, p)| !p.is_empty())\n                }")],
  needs="a condition that is an interpolated string with text before its last part but none after",
  breaks="it is taken for constantly false: its branch does not count, and what follows is reported as unreachable",
  demo=u((body("if(\"[l]a[l]\")\n\tl = 1\nelse\n\treturn\nl = 2"), [5]), (body("if(\"[l]a\")\n\treturn\nelse\n\treturn\nl = 2"), [5, 6]))),
 "c17_interp_key": dict(property="C17", deps=["dreammaker", "dreamchecker"], edits=[
   (A, "            Term::String(s) => Some(s.as_str()),\n            _ => None,\n        }\n    }\n}\n\nimpl From<Expression> for Term", "            Term::String(s) => Some(s.as_str()),\n            Term::InterpString(first, _) => Some(first.as_str()),\n            _ => None,\n        }\n    }\n}\n\nimpl From<Expression> for Term")],
  needs="a ..() in the interpolated key of an associative list or keyword argument",
  breaks="the key is not visited: the proc is said never to call its parent",
  demo=PRE + "fn main() {\n    for b in [%s, %s, %s] {\n        let t = format!(\"{}\\t{b}\\n/datum/zlast\\n\", %s);\n        assert!(!check(&t).iter().any(|x| x.1 == \"must_call_parent\"), \"{t}\");\n    }\n}\n" % (rs('m = list("[..()]" = 1)'), rs('m = list("a[l][..()]" = 1, 2)'), rs('m = list(..() = 1)'), rs(PARENT))),
 "c17_end_loop": dict(property="C17", deps=["dreammaker", "dreamchecker"], edits=[
   (L, "        self.breaks = false;\n        self.fuzzy = false;\n    }\n}\n", "        self.breaks = false;\n    }\n}\n")],
  needs="a return after a loop some of whose branches break or continue",
  breaks="the doubt about how the loop's body is left stays after the loop: nothing after the return is reported",
  demo=u((body("for(var/x in l)\n\tif(x)\n\t\tbreak\n\telse\n\t\tl = 1\nreturn\nl = 2"), [8]), (body("while(l)\n\tif(l)\n\t\tcontinue\n\tl = 1\nreturn\nl = 2"), [7]))),
 "c17_range_down": dict(property="C17", deps=["dreammaker", "dreamchecker"], edits=[
   (A, "                return Some(i <= o);", "                // a range to 0 counts down\n                return Some(i <= o || o == 0);")],
  needs="a range of constants from a positive number to 0, without a step",
  breaks="its body is taken to run although it never does: what follows is reported as unreachable when the body returns",
  demo=u((body("for(var/i = 3 to 0)\n\treturn\nl = 2"), []), (body("for(var/i = 0 to 3)\n\treturn\nl = 2"), [4]))),
}
