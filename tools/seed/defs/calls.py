L = "crates/dreamchecker/src/lib.rs"
PRE = '''use dreammaker::{Context, indents::IndentProcessor, parser::Parser, preprocessor::Preprocessor};
fn said(text: &str, kind: &str) -> Vec<(u32, Vec<u32>)> {
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), text.to_owned());
    let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    assert!(ctx.errors().is_empty(), "{text}");
    dreamchecker::run(&ctx, &tree);
    let mut v: Vec<_> = ctx.errors().iter().filter(|e| e.errortype() == Some(kind)).map(|e| (e.location().line, e.notes().iter().map(|n| n.location().line).collect())).collect();
    v.sort();
    v
}
'''
def rs(t): return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
def u(kind, *cases):
    return PRE + "fn main() {\n" + "".join('    assert_eq!(said(%s, "%s"), %s);\n' % (rs(t), kind, "vec![" + ", ".join("(%d, vec!%r)" % (a, b) for a, b in w) + "]") for t, w in cases) + "}\n"
S = "\tset SpacemanDMM_should_not_sleep = 1\n"
P = "\tset SpacemanDMM_should_be_pure = 1\n"
def d(**k): return dict(property="C19", deps=["dreammaker", "dreamchecker"], **k)
SEEDS = {
 "c19_own_receiver": d(edits=[
   (L, "                        let call_receiver = if each.inherit_receiver {\n                            receiver\n                        } else {\n                            each.src\n                        };\n", "                        let call_receiver = if each.inherit_receiver && !each.is_exact {\n                            receiver\n                        } else {\n                            each.src\n                        };\n")],
  needs="an override that calls ..(), whose parent calls another proc of the object, which a sibling type overrides with a body that sleeps",
  breaks="what the parent calls is taken to be on an object of the caller's type, even if ..() got there: siblings' overrides are reported though they cannot be run",
  demo=u("must_not_sleep", ("/datum/x/proc/f()\n\tg()\n/datum/x/proc/g()\n\treturn\n/datum/x/a/f()\n\t..()\n/datum/x/a/c\n\tvar/q\n/datum/x/a/d/g()\n\tsleep(1)\n/proc/r(datum/x/a/c/k)\n" + S + "\tk.f()\n", []),
     ("/datum/x/proc/f()\n\tg()\n/datum/x/proc/g()\n\treturn\n/datum/x/a/g()\n\tsleep(1)\n/datum/x/a/c/f()\n\t..()\n/datum/x/b/g()\n\tsleep(1)\n/proc/r(datum/x/a/c/k)\n" + S + "\tk.f()\n", [(11, [12, 13, 8, 2, 6])]))),
 "c19_child_receiver": d(edits=[
   (L, "                            child_proc,\n                            callstack.clone(),\n                            false,\n                            nextproc,\n                            child_proc.ty(),\n                            true,\n", "                            child_proc,\n                            callstack.clone(),\n                            false,\n                            nextproc,\n                            receiver,\n                            true,\n")],
  needs="an override that calls another proc of its object, which a sibling of its type overrides with a body that sleeps",
  breaks="an override is taken to be run on any object of the call's type, not of its own: a sibling's proc is reported though the override cannot get to it",
  demo=u("must_not_sleep", ("/datum/x/proc/f()\n\treturn\n/datum/x/proc/g()\n\treturn\n/datum/x/a/f()\n\tg()\n/datum/x/b/g()\n\tsleep(1)\n/proc/r(datum/x/k)\n" + S + "\tk.f()\n", []))),
 "c19_exempt_parent": d(edits=[
   (L, "                if self.sleep_exempt.get(nextproc).is_some() {", "                if self.sleep_exempt.get_self_or_parent(nextproc).is_some() {")],
  needs="a proc that is allowed to sleep, whose override in a subtype sleeps",
  breaks="the exemption of a proc is extended to its overrides: those that sleep are not reported",
  demo=u("must_not_sleep", ("/datum/x/proc/f()\n\tset SpacemanDMM_allowed_to_sleep = 1\n\tsleep(1)\n/datum/x/a/f()\n\tsleep(1)\n/proc/r(datum/x/a/k)\n" + S + "\tk.f()\n", [(6, [7, 8, 5])]))),
 "c19_spawn_nested": d(edits=[
   (L, "                self.visit_block(block, &mut scoped_locals, false);\n                self.inside_newcontext = self.inside_newcontext.wrapping_sub(1);", "                self.visit_block(block, &mut scoped_locals, false);\n                // back in the proc's own context\n                self.inside_newcontext = 0;")],
  needs="a spawn within a spawn, with a blocking call after the inner one, in the outer",
  breaks="after the inner spawn the rest of the outer one counts as the proc's own: a proc that does not wait is reported",
  demo=u("must_not_sleep", ("/proc/r()\n" + S + "\tspawn(1)\n\t\tspawn(1)\n\t\t\tf()\n\t\tsleep(2)\n/proc/f()\n\treturn\n", []), ("/proc/r()\n" + S + "\tspawn(1)\n\t\tf()\n\tsleep(2)\n/proc/f()\n\treturn\n", [(1, [2, 5])]))),
 "c19_override_depth": d(edits=[
   (L, "            let mut next = proc.parent_proc();\n            while let Some(current) = next {\n                self.impure_overrides.insert_override(current, proc);\n                next = current.parent_proc();\n            }", "            let mut next = proc.parent_proc();\n            while let Some(current) = next {\n                self.impure_overrides.insert_override(current, proc);\n                // those further up are reached through this one\n                if self.impure_overrides.get_override_violators(current).is_some_and(|v| v.len() > 1) {\n                    break;\n                }\n                next = current.parent_proc();\n            }")],
  needs="two impure overrides of a proc with a parent, and a pure proc that calls the topmost definition",
  breaks="of several impure overrides only the first is noted at the definitions further up: a pure proc that may run the others is not blamed for them",
  demo=u("must_be_pure", ("/var/v = 0\n/datum/x/proc/f()\n\treturn\n/datum/x/a/f()\n\treturn\n/datum/x/a/b/f()\n\tv = 1\n/datum/x/a/c/f()\n\tv = 2\n/proc/r(datum/x/k)\n" + P + "\treturn k.f()\n", [(10, [11, 12, 7]), (10, [11, 12, 9])]))),
 "c19_purity_spawn": d(edits=[
   (L, "                for each in procscalled {\n                    let mut callstack = CallStack::default();", "                for each in procscalled {\n                    if each.new_context {\n                        continue;\n                    }\n                    let mut callstack = CallStack::default();")],
  needs="a pure proc whose only way to an impure one starts in a spawn",
  breaks="what a pure proc does through a spawn of its own is not looked at",
  demo=u("must_be_pure", ("/var/v = 0\n/proc/f()\n\tv = 1\n/proc/r()\n" + P + "\tspawn(1)\n\t\tf()\n", [(4, [5, 7, 3])]))),
 "c19_waitfor_expand": d(edits=[
   (L, "                if self.waitfor_procs.contains(&nextproc) {\n                    continue;\n                }\n", "                if self.waitfor_procs.contains(&nextproc) && self.sleeping_procs.get_violators(nextproc).is_some() {\n                    continue;\n                }\n")],
  needs="a proc with waitfor off that does not block itself, but calls one that does",
  breaks="only what such a proc does itself is excused: what it calls is reported, though its caller does not wait for it",
  demo=u("must_not_sleep", ("/proc/f()\n\tset waitfor = 0\n\tg()\n/proc/g()\n\tsleep(1)\n/proc/r()\n" + S + "\tf()\n", []), ("/proc/f()\n\tg()\n/proc/g()\n\tsleep(1)\n/proc/r()\n" + S + "\tf()\n", [(5, [6, 7, 2, 4])]))),
 "c19_same_exact": d(edits=[
   (L, "            Term::SelfCall(args) => {\n                let src = self.ty;\n                let proc = self.proc_ref;\n                self.visit_call(location, src, proc, args, true, true, local_vars)", "            Term::SelfCall(args) => {\n                let src = self.ty;\n                let proc = self.proc_ref;\n                self.visit_call(location, src, proc, args, false, true, local_vars)")],
  needs="a proc that calls itself by .(), reached exactly (by ..() or new), with an override that sleeps",
  breaks=".() is taken to run overrides too: a proc that cannot be run is reported",
  demo=u("must_not_sleep", ("/datum/x/proc/f()\n\treturn\n/datum/x/a/f(i)\n\tif(i)\n\t\t.()\n/datum/x/a/c/f()\n\tsleep(1)\n/datum/x/a/d\n\tvar/q\n/datum/x/a/d/f()\n\tsleep(1)\n/datum/x/a/e/f()\n\t..()\n/datum/x/a/e/proc/r()\n" + S + "\tif(1)\n\t\tg()\n/datum/x/a/e/proc/g()\n\tf()\n/datum/x/a/e/h/f()\n\tsleep(2)\n", [(14, [15, 17, 19, 21])]), ("/datum/x/New(i)\n\tif(i)\n\t\t.()\n/datum/x/a/New()\n\tsleep(1)\n/proc/r()\n" + S + "\tnew /datum/x(1)\n", []))),
}
