use super::*;
use crate::src_::*;
use dreammaker::indents::IndentProcessor;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::{Component, Context};

const TYPES: &[&str] = &["/datum/t0", "/datum/t0/t1", "/datum/t0/t1/t2", "/datum/t0/t3", "/datum/u0"];
const ABOVE: &[Option<usize>] = &[None, Some(0), Some(1), Some(0), None];
/// name, may be switched off, belongs to the first definition, may be set on global procs
const SETTINGS: &[(&str, bool, bool, bool)] = &[
    ("should_call_parent", true, false, false),
    ("should_not_call_parent", true, false, false),
    ("should_not_override", false, false, false),
    ("private_proc", false, true, false),
    ("protected_proc", false, true, false),
    ("should_not_sleep", false, true, true),
    ("allowed_to_sleep", false, true, true),
    ("can_be_redefined", false, false, false),
    ("should_be_pure", false, true, true),
];
const PURE: usize = 8;
const VALUES: &[(&str, Option<bool>)] = &[("1", Some(true)), ("TRUE", Some(true)), ("1", Some(true)), ("TRUE", Some(true)), ("0", Some(false)), ("FALSE", Some(false)), ("2", None), ("null", None)];
/// what is compared
const KINDS: &[&str] = &["final_var", "incompatible_directive", "disabled_directive", "sets_directive_twice", "unknown_linter_setting", "invalid_lint_directive_value", "private_proc", "protected_proc", "must_not_override", "must_not_call_parent", "must_call_parent", "redefined_proc", "proc_has_no_parent", "set_has_no_effect", "private_var"];

/// where a call can stand; @ is the call
const PLACES: &[&str] = &[
    "@", "@", "@", "var/m = @", ". = @", "l = @", "if(@)\n\tl = 1", "if(l)\n\t@", "if(l)\n\tl = 1\nelse\n\t@", "if(l)\n\tl = 1\nelse if(@)\n\tl = 2",
    "while(@)\n\tl = 2", "while(l)\n\t@", "do\n\tl = 1\nwhile(@)", "do\n\t@\nwhile(l)", "for(var/i in @)\n\tl = i", "for(var/i in l)\n\t@", "for(var/i = @ to 3)\n\tl = i",
    "for(var/i in 1 to @)\n\tl = i", "for(var/i = 1 to 5 step @)\n\tl = i", "for(var/i = 1 to 5)\n\t@", "for(var/i = @, i < 3, i++)\n\tl = i", "for(var/i = 1, i < @, i++)\n\tl = i",
    "for(var/i = 1, i < 3, i += @)\n\tl = i", "for(var/k, v in @)\n\tl = k", "for(var/k, v in l)\n\t@", "for()\n\t@",
    "switch(@)\n\tif(1)\n\t\tl = 1", "switch(l)\n\tif(1)\n\t\t@", "switch(l)\n\tif(1)\n\t\tl = 1\n\telse\n\t\t@", "switch(l)\n\tif(1 to 2, 5)\n\t\t@\n\tif(3)\n\t\tl = 5",
    "spawn(@)\n\tl = 1", "spawn(1)\n\t@", "try\n\t@\ncatch\n\tl = 1", "try\n\tl = 1\ncatch(var/m)\n\t@",
    "l = list(@, 1)", "l = list(k = @)", "l = list(\"a\" = @)", "l = list(1 = 2, @)", "l = \"a[@]b\"", "l = \"[l] [@]\"", "l = pick(@, 2)", "l = pick(1, 2;@)", "l = pick(@;1, 2)",
    "l = input(@)", "l = input(\"a\") in @", "l = locate(@)", "l = locate(/datum/u0) in @", "l = new /datum/u0(@)", "l = new l(@)", "x1 = new(@)", "l = l[@]", "l = l?[@]",
    "l = @ ? 1 : 2", "l = l ? @ : 2", "l = l ? 1 : @", "l = !@", "l = -@", "l = ~@", "l = @ + 1", "l = 1 + @", "l = l || @", "l = l && @", "l = @ == 1", "l = 1 in @", "l = (@)", "l = ((1) - (2 * @))", "l += @", "l = l = @", "l[@] = 1",
    "del(@)", "call(@)(1)", "call(l, \"a\")(@)", "call(l, @)(1)", "call_ext(\"a\", \"b\")(@)", "l:foo(@)", "l:foo(k = @)", "l?:foo(@)", "l = g1(@)", "l = g1(a = @)", "l = global.g1(@)", "l = sin(@)", "l = istype(@, /datum)",
    "l = max(1, min(2, @))", "x0.vars[@] = 2", "l = x1.p9(@)", "l = x0?.p9(@)", "l = p9(@)", "l = src.p9(@)", "world << @", "return @", "CRASH(@)", "throw @", "if(l)\n\treturn @", "l = l[1].foo(@)", "l = rgb(@, 2, 3)", "l = l.foo(@)", "var/static/m = @", "var/m = 1, n = @",
    "l = (@) > 2 ? 3 : 4", "l = \"[\"[@]\"]\"", "l = list(list(@))", "l = @ |= 3 ? 1 : 2", "l ||= @", "l = list(1, 2)[@]", "spawn(1)\n\tspawn(2)\n\t\t@",
];

#[derive(Clone, Debug)]
enum Call { Parent, Own, Plain(&'static str), Src(&'static str), On(usize, &'static str, bool), Global, New(usize), Op(&'static str) }

#[derive(Clone, Debug)]
struct Def { ty: Option<usize>, name: &'static str, first: bool, line: u32, lead: Vec<(usize, usize, u32)>, late: Vec<u32>, calls: Vec<(Call, u32)> }

struct Text { text: String, line: u32 }
impl Text {
    fn put(&mut self, t: &str) -> u32 { self.text.push_str(t); self.text.push('\n'); self.line += 1; self.line - 1 }
}

type Report = (u32, Option<&'static str>, Vec<u32>);

fn line_of(t: usize) -> Vec<usize> { let mut v = vec![t]; while let Some(p) = ABOVE[v[v.len() - 1]] { v.push(p); } v }
fn below(t: usize, a: usize) -> bool { line_of(t).contains(&a) }

struct Model { defs: Vec<Def>, marks: Vec<Vec<(usize, bool, u32)>> }
impl Model {
    /// definitions of a name in a type, last first
    fn of(&self, ty: Option<usize>, n: &str) -> Vec<usize> { (0..self.defs.len()).rev().filter(|&i| self.defs[i].ty == ty && self.defs[i].name == n).collect() }
    fn line(&self, d: usize) -> Vec<usize> {
        let n = self.defs[d].name;
        let Some(t) = self.defs[d].ty else { return vec![d] };
        let mut v: Vec<usize> = self.of(Some(t), n).into_iter().skip_while(|&i| i != d).collect();
        for a in &line_of(t)[1..] { v.extend(self.of(Some(*a), n)); }
        v
    }
    fn find(&self, t: Option<usize>, n: &str) -> Option<usize> {
        if let Some(t) = t { for a in line_of(t) { if let Some(&d) = self.of(Some(a), n).first() { return Some(d); } } }
        self.of(None, n).first().copied()
    }
    fn mark(&self, d: usize, k: usize) -> Option<(bool, u32)> { self.marks[k].iter().find(|m| m.0 == d).map(|m| (m.1, m.2)) }
    fn nearest(&self, l: &[usize], k: usize) -> Option<(usize, bool, u32)> { l.iter().find_map(|&d| self.mark(d, k).map(|(on, at)| (d, on, at))) }
}

fn body(s: &mut dyn Src, t: &mut Text, d: &mut Def, names: &[(&'static str, usize)]) {
    // ---- settings
    for _ in 0..[0, 0, 1, 1, 1, 2, 3][s.below(7)] {
        let unknown = s.below(12) == 0;
        let k = if unknown { 99 } else if d.name != "p3" { s.below(SETTINGS.len() - 1) } else { s.below(SETTINGS.len()) };
        let v = s.below(VALUES.len());
        let n = if unknown { "should_be_blue" } else { SETTINGS[k].0 };
        let l = t.put(&format!("\tset SpacemanDMM_{n} = {}", VALUES[v].0));
        d.lead.push((k, v, l));
    }
    let calls = [0, 1, 1, 1, 2, 3][s.below(6)];
    if calls == 0 { t.put("\treturn"); return; }
    t.put("\tvar/l = list()");
    for (i, p) in TYPES.iter().enumerate() { t.put(&format!("\tvar{p}/x{i} = null")); }
    if s.below(12) == 0 { let l = t.put("\tset SpacemanDMM_should_not_override = 1"); d.late.push(l); }
    for _ in 0..calls {
        let mut tries = 0;
        let (call, text) = loop {
            tries += 1;
            match if tries > 20 { 4 } else { s.below(9) } {
                0..=3 if d.ty.is_some() => break (Call::Parent, "..()".to_owned()),
                4 => break (Call::Own, ".()".into()),
                5 => {
                    let n = if s.below(5) == 0 { "g0" } else { names[s.below(names.len())].0 };
                    let at = names.iter().find(|x| x.0 == n).map(|x| x.1);
                    match (at, d.ty) { (None, _) => {}, (Some(a), Some(t)) if below(t, a) => {}, _ => continue }
                    if n != "g0" && s.bool() { break (Call::Src(n), format!("src.{n}()")); }
                    break (Call::Plain(n), format!("{n}()"));
                },
                6 | 7 => {
                    let (n, a) = names[s.below(names.len())];
                    let x = s.below(TYPES.len());
                    if !below(x, a) { continue; }
                    let safe = s.below(3) == 0;
                    if s.below(8) == 0 { break (Call::On(x, n, false), format!("astype(l, {}).{n}()", TYPES[x])); }
                    break (Call::On(x, n, safe), format!("x{x}{}{n}()", if safe { "?." } else { "." }));
                },
                8 => match s.below(3) {
                    0 => break (Call::Global, "global.g0()".into()),
                    1 => { let x = s.below(TYPES.len()); break (Call::New(x), format!("new {}()", TYPES[x])) },
                    _ => { let x = s.below(TYPES.len()); if !below(x, 0) { continue; } let op = if s.bool() { "++" } else { "--" }; break (Call::Op(op), format!("x{x}{op}")) },
                },
                _ => {},
            }
        };
        let op = matches!(call, Call::Op(_));
        let mut place = if op { "@" } else { *pick(s, PLACES) };
        if d.ty.is_none() && (place.contains("= p9") || place.contains("src.p9")) { place = "l = @"; }
        // discarded results of plain calls are fine here: p3 is not called by name
        for l in place.split('\n') {
            let here = t.put(&format!("\t{}", l.replace('@', &text)));
            if l.contains('@') { d.calls.push((call.clone(), here)); }
        }
        if ["return", "CRASH", "throw"].iter().any(|w| place.starts_with(w)) { break; }
    }
}

pub const C16: Prop = Prop {
    id: "C16", enumerate: false, finite: false,
    rule: "a program of five types with vars (final, private, redeclared), procs with settings, overrides and redefinitions, and calls in some ninety places of expressions and statements; the reports about them are compared with a reading of the program",
    run: |s| {
        let mut t = Text { text: String::new(), line: 1 };
        let mut want: Vec<Report> = vec![];
        for p in TYPES { t.put(p); }
        // ---- vars: (type, declares, flag, line)
        for n in ["v0", "v1"] {
            let root = s.below(TYPES.len());
            let mut seen: Vec<(usize, bool, usize, u32)> = vec![];
            for x in 0..TYPES.len() {
                let decl = x == root || s.below(5) == 0;
                if !below(x, root) || !(decl || s.below(3) == 0) { continue; }
                seen.push((x, decl, if decl { s.below(4) } else { 0 }, 0));
            }
            if s.bool() { seen.reverse(); }
            for v in &mut seen {
                v.3 = t.put(&format!("{}/{}{}{n} = {}", TYPES[v.0], if v.1 { "var/" } else { "" }, ["", "", "SpacemanDMM_final/", "SpacemanDMM_private/"][v.2], t.line));
            }
            for v in &seen { for a in &line_of(v.0)[1..] { for p in seen.iter().filter(|p| p.0 == *a && p.1) {
                if v.1 { want.push((v.3, None, vec![p.3])); }
                if p.2 == 2 { want.push((v.3, Some("final_var"), vec![p.3])); }
                if p.2 == 3 { want.push((v.3, Some("private_var"), vec![p.3])); }
            } } }
        }
        // ---- procs
        let mut names: Vec<(&'static str, usize)> = vec![];
        let mut defs: Vec<Def> = vec![];
        let blank = |ty, name, first| Def { ty, name, first, line: 0, lead: vec![], late: vec![], calls: vec![] };
        for n in ["p0", "p1", "p3", "New"] {
            let root = if s.bool() { 0 } else { s.below(TYPES.len()) };
            if n != "p3" && n != "New" { names.push((n, root)); }
            if n == "p3" && s.bool() { continue; }
            if n != "New" { defs.push(blank(Some(root), n, true)); }
            for x in 0..TYPES.len() { for _ in 0..[0, 1, 0, 1, 1, 2][s.below(6)] {
                if (n == "New" && s.below(4) == 0) || (n != "New" && below(x, root)) { defs.push(blank(Some(x), n, false)); }
            } }
        }
        // shuffled, the declaring definition of a type first
        for i in 0..defs.len() { let j = i + s.below(defs.len() - i); defs.swap(i, j); }
        for i in 0..defs.len() {
            if defs[i].first { if let Some(j) = (0..i).find(|&j| defs[j].ty == defs[i].ty && defs[j].name == defs[i].name) { defs[i].first = false; defs[j].first = true; } }
        }
        defs.push(blank(None, "g0", true));
        for d in &mut defs {
            d.line = t.put(&match d.ty { Some(x) => format!("{}/{}{}()", TYPES[x], if d.first { "proc/" } else { "" }, d.name), None => format!("/proc/{}()", d.name) });
            body(s, &mut t, d, &names);
        }
        t.put("/proc/g1(a)\n\treturn a\n/datum/t0/proc/p9(a)\n\treturn a\n/datum/u0/proc/p9(a)\n\treturn a\n/datum/t0/proc/operator++()\n\treturn\n/datum/t0/proc/operator--()\n\treturn\n/datum/zlast");
        let text = t.text;
        s.note(&|| text.clone());

        let ctx = Context::default();
        let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), text.clone());
        let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        dreamchecker::run(&ctx, &tree);
        let mut have: Vec<Report> = vec![];
        for e in ctx.errors().iter() {
            let kind = match e.errortype() { Some(k) => match KINDS.iter().find(|x| **x == k) { Some(k) => Some(*k), None => continue }, None => None };
            if kind.is_none() && e.component() == Component::DreamChecker && PLACES.iter().any(|_| e.description().starts_with("call_ext") || e.description().starts_with("call()")) { continue; }
            have.push((e.location().line, kind, e.notes().iter().map(|n| n.location().line).collect()));
        }

        // ---- the settings
        let mut m = Model { defs, marks: vec![vec![]; SETTINGS.len()] };
        for i in 0..m.defs.len() {
            let d = m.defs[i].clone();
            for &(k, v, at) in &d.lead {
                if k == 99 { want.push((at, Some("unknown_linter_setting"), vec![])); continue; }
                let (_, off, first, global) = SETTINGS[k];
                if first && !d.first { want.push((at, None, vec![])); continue; }
                match VALUES[v].1 {
                    None => want.push((at, Some("invalid_lint_directive_value"), vec![])),
                    Some(_) if d.ty.is_none() && !global => want.push((at, Some("incompatible_directive"), vec![])),
                    Some(false) if !off => want.push((at, Some("disabled_directive"), vec![])),
                    Some(on) => match m.mark(i, k) { Some((_, l)) => want.push((at, Some("sets_directive_twice"), vec![l])), None => m.marks[k].push((i, on, at)) },
                }
            }
            for &at in &d.late { want.push((at, Some("set_has_no_effect"), vec![])); }
        }
        let mut rich = 0;
        for i in 0..m.defs.len() {
            let d = m.defs[i].clone();
            let line = m.line(i);
            // ---- the override itself
            let parent = line.get(1).copied();
            if parent.is_some() || d.name == "New" {
                let mine = m.nearest(&line, 3);
                if let Some((q, true, l)) = mine { if q != i { want.push((d.line, Some("private_proc"), vec![l])); } }
                if let Some((_, true, l)) = m.nearest(&line[1..], 2) { want.push((d.line, Some("must_not_override"), vec![l])); }
                if d.calls.iter().any(|c| matches!(c.0, Call::Parent)) {
                    if let Some((true, l)) = parent.and_then(|p| m.mark(p, 1)) { if !matches!(m.mark(i, 1), Some((false, _))) { want.push((d.line, Some("must_not_call_parent"), vec![l])); } }
                } else if let Some((_, true, l)) = m.nearest(&line, 0) { want.push((d.line, Some("must_call_parent"), vec![l])); }
                if let Some(p) = parent { if m.defs[p].ty == d.ty && m.nearest(&line, 7).is_none() { want.push((d.line, Some("redefined_proc"), vec![m.defs[p].line])); } }
            }
            // ---- calls
            for (c, at) in &d.calls {
                let (target, on) = match c {
                    Call::Parent => { if parent.is_none() && d.name != "New" { want.push((*at, Some("proc_has_no_parent"), vec![])); } (parent, None) },
                    Call::Own => (Some(i), None),
                    Call::Plain(n) => (m.find(d.ty, n), None),
                    Call::Src(n) => (m.find(d.ty, n), d.ty),
                    Call::On(x, n, _) => (m.find(Some(*x), n), Some(*x)),
                    Call::Global => (m.find(None, "g0"), None),
                    Call::New(x) => (m.find(Some(*x), "New"), None),
                    Call::Op(_) => (None, None),
                };
                let Some(target) = target else { continue };
                let l = m.line(target);
                let private = m.nearest(&l, 3);
                if let Some(x) = on {
                    if let Some((q, true, n)) = private { if m.defs[q].ty != Some(x) { want.push((*at, Some("private_proc"), vec![n])); rich += 1; continue; } }
                    if let Some((q, true, n)) = m.nearest(&l, 4) { rich += 1; if !d.ty.is_some_and(|t| below(t, m.defs[q].ty.unwrap())) { want.push((*at, Some("protected_proc"), vec![n])); } }
                }
                if let Some((q, true, n)) = private { rich += 1; if m.defs[q].ty != d.ty { want.push((*at, Some("private_proc"), vec![n])); } }
            }
        }
        if rich > 0 || want.len() > 2 { s.nontrivial(); }
        let name = |r: &Report| format!("line {}: {} {:?}", r.0, r.1.unwrap_or("(no type)"), r.2);
        have.sort();
        want.sort();
        for r in &have {
            let (a, b) = (have.iter().filter(|x| *x == r).count(), want.iter().filter(|x| *x == r).count());
            ensure!(a <= b, "reported without a reason: {}: {}: {:?}", name(r), ctx.errors().iter().filter(|e| e.location().line == r.0).map(|e| e.description().to_owned()).collect::<Vec<_>>().join("; "), text.lines().nth(r.0 as usize - 1).unwrap_or(""));
        }
        for r in &want {
            let (a, b) = (have.iter().filter(|x| *x == r).count(), want.iter().filter(|x| *x == r).count());
            ensure!(a >= b, "not reported: {}: {}", name(r), text.lines().nth(r.0 as usize - 1).unwrap_or(""));
        }
        Ok(())
    },
};
