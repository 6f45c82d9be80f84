use super::*;
use crate::src_::*;
use dreammaker::indents::IndentProcessor;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::BTreeSet;

/// a condition, and its value when it is constant
const CONDS: &[(&str, Option<bool>)] = &[
    ("l", None), ("l > 1", None), ("!l", None), ("f2(l)", None), ("l == 3 || l", None), ("l && 0", None), ("\"[l]\"", None), ("l", None), ("m = l", None), ("l in m", None),
    ("1", Some(true)), ("0", Some(false)), ("null", Some(false)), ("\"\"", Some(false)), ("\"a\"", Some(true)), ("!0", Some(true)), ("!1", Some(false)), ("list()", Some(true)), ("1 && 0", Some(false)), ("0 || 2.5", Some(true)), ("m = 3", Some(true)), ("(0.0)", Some(false)), ("!!1", Some(true)), ("l ? 1 : 0", None), ("1 ? 0 : l", Some(false)), ("\"[l]b\"", Some(true)), ("\"a[l]\"", Some(true)), ("\"[l]a[l]\"", Some(true)), ("\"[l][m]\"", None), ("\"a[l][m]\"", Some(true)), ("\"[l][m]b[l][m]\"", Some(true)), ("/datum/x", Some(true)), ("new /datum/x(1)", Some(true)), ("2.5", Some(true)), ("l[1]", None), ("-1", None), ("!l.type", None), ("m += 1", None), ("1 + 1", None), ("'a.dmi'", None),
];
/// expressions where .. can be written
const PLACES: &[&str] = &["@", "m = @", "m = list(1, @)", "m = l ? @ : 2", "m = \"a[@]\"", "m = f2(@)", "m = l[@]", "m = !@", "f2(a = @)", "m = l:foo(@)", "m = new /datum/x(@)", "m = l && @", "m = src.f2(@)", "m = pick(1, @)", "m += @", "del(@)", "m = @", "m = (1 + 2) * @", "m = list(\"[@]\" = 1)", "m = list(\"a[l][@]\" = 1, 2)", "m = list(@ = 1)", "f2(@ = 1)", "m = f2(\"[@]\" = 1)", "m = list(1, a = @)", "m[@] = 1", "m = l?[@]", "m = l:foo(a = @)", "m = l:foo(\"[@]\" = 1)", "m = list(\"a\" = 1, @)", "m = (l in @)", "m = @ ? 1 : 2", "m = 1 ? 2 : @", "m = 0 && @", "m = \"[l]a[@]b\"", "m = pick(@;1, 2)", "m = new l(@)"];

#[derive(Clone, Debug)]
enum S {
    Plain(u32, String, bool),
    Return(u32), Crash(u32), Throw(u32), Break(u32), Continue(u32), Goto(u32),
    If(Vec<(u32, Option<bool>, bool, Vec<S>)>, Option<Vec<S>>),
    Switch(u32, Vec<Vec<S>>, Option<Vec<S>>),
    Try(u32, Vec<S>, Vec<S>),
    Label(u32, Vec<S>),
    /// while, for(;;) and the like: may run any number of times, or not at all
    Loop(u32, bool, Vec<S>),
    DoWhile(u32, bool, Vec<S>),
    Forever(u32, Vec<S>),
    /// for(x = a to b): once at least?
    Range(u32, bool, bool, Vec<S>),
    Spawn(u32, Vec<S>),
}
impl S {
    fn line(&self) -> u32 {
        match self {
            S::Plain(l, ..) | S::Return(l) | S::Crash(l) | S::Throw(l) | S::Break(l) | S::Continue(l) | S::Goto(l) | S::Switch(l, ..) | S::Try(l, ..) | S::Label(l, _) | S::Loop(l, ..) | S::DoWhile(l, ..) | S::Forever(l, _) | S::Range(l, ..) | S::Spawn(l, _) => *l,
            S::If(a, _) => a[0].0,
        }
    }
}

struct Gen<'a> { s: &'a mut dyn Src, t: String, at: u32, left: usize, labels: usize, gotos: bool, dots: bool }
impl Gen<'_> {
    fn put(&mut self, depth: usize, x: &str) -> u32 {
        for _ in 0..depth { self.t.push('\t'); }
        self.t.push_str(x);
        self.t.push('\n');
        self.at += 1;
        self.at - 1
    }
    fn cond(&mut self) -> (String, Option<bool>, bool) {
        if self.dots && self.s.below(12) == 0 { return ("..()".into(), None, true); }
        let (c, t) = self.truth(0);
        (c, t, false)
    }
    fn truth(&mut self, depth: usize) -> (String, Option<bool>) {
        if depth == 3 || self.s.below(4) != 0 { let c = pick(self.s, CONDS); return (if depth > 0 { format!("({})", c.0) } else { c.0.to_owned() }, c.1); }
        let a = self.truth(depth + 1);
        let (t, v) = match self.s.below(5) {
            0 => (format!("!{}", a.0), a.1.map(|x| !x)),
            1 => (format!("!!{}", a.0), a.1),
            k @ (2 | 3) => {
                let b = self.truth(depth + 1);
                let and = k == 2;
                (format!("{} {} {}", a.0, if and { "&&" } else { "||" }, b.0), match (a.1, b.1) { (Some(x), Some(y)) => Some(if and { x && y } else { x || y }), _ => None })
            },
            _ => {
                let (b, c) = (self.truth(depth + 1), self.truth(depth + 1));
                (format!("{} ? {} : {}", a.0, b.0, c.0), match a.1 { Some(true) => b.1, Some(false) => c.1, None => None })
            },
        };
        (if depth > 0 { format!("({t})") } else { t }, v)
    }
    fn block(&mut self, depth: usize, looped: bool) -> Vec<S> {
        let mut v = vec![];
        let n = [1, 1, 2, 2, 3, 4][self.s.below(6)];
        for _ in 0..n { v.push(self.stmt(depth, looped)); }
        v
    }
    fn stmt(&mut self, d: usize, looped: bool) -> S {
        if self.left == 0 || d > 6 {
            return match self.s.below(4) { 0 => S::Return(self.put(d, "return")), 1 if looped => S::Break(self.put(d, "break")), 2 if looped => S::Continue(self.put(d, "continue")), _ => S::Plain(self.put(d, "m = 1"), "".into(), false) };
        }
        self.left -= 1;
        match self.s.below(23) {
            0 | 1 => {
                if self.dots && self.s.bool() { let p = pick(self.s, PLACES).replace('@', "..()"); return S::Plain(self.put(d, &p), p.clone(), true); }
                S::Plain(self.put(d, "m = 1"), "".into(), false)
            },
            2 | 3 => S::Return(if self.s.bool() { self.put(d, "return") } else { self.put(d, "return l") }),
            4 => S::Crash(self.put(d, "CRASH(\"a\")")),
            5 => S::Throw(self.put(d, "throw l")),
            6 | 7 if looped => S::Break(self.put(d, "break")),
            8 | 9 if looped => S::Continue(self.put(d, "continue")),
            10 if self.gotos => { let k = self.s.below(3); S::Goto(self.put(d, &format!("goto lab{k}"))) },
            11 if self.gotos && self.labels < 3 => {
                let k = self.labels;
                self.labels += 1;
                let l = self.put(d, &format!("lab{k}:"));
                if self.s.bool() { S::Label(l, vec![]) } else { S::Label(l, self.block(d + 1, looped)) }
            },
            12..=14 => {
                let mut arms = vec![];
                for i in 0..[1, 1, 2, 3][self.s.below(4)] {
                    let (c, truth, dots) = self.cond();
                    let l = self.put(d, &format!("{}if({c})", if i > 0 { "else " } else { "" }));
                    arms.push((l, truth, dots, self.block(d + 1, looped)));
                }
                let other = if self.s.below(3) < 2 { self.put(d, "else"); Some(self.block(d + 1, looped)) } else { None };
                S::If(arms, other)
            },
            15 => {
                let l = self.put(d, "switch(l)");
                let mut cases = vec![];
                for i in 0..1 + self.s.below(3) { self.put(d + 1, &format!("if({})", ["1", "2 to 4", "5, \"a\""][i])); cases.push(self.block(d + 2, looped)); }
                let other = if self.s.below(3) < 2 { self.put(d + 1, "else"); Some(self.block(d + 2, looped)) } else { None };
                S::Switch(l, cases, other)
            },
            16 => {
                let l = self.put(d, "try");
                let a = self.block(d + 1, looped);
                let h = if self.s.bool() { "catch" } else { "catch(var/e)" };
                self.put(d, h);
                S::Try(l, a, self.block(d + 1, looped))
            },
            17 => {
                let (c, _, dots) = self.cond();
                let h = match self.s.below(4) { 0 => format!("while({c})"), 1 => format!("for(m = 1, {c}, m++)"), 2 => "for(var/i in l)".to_owned(), _ => "for(var/k, v in l)".to_owned() };
                let dots = dots && h.contains("..()");
                let l = self.put(d, &h);
                S::Loop(l, dots, self.block(d + 1, true))
            },
            18 => {
                let l = self.put(d, "do");
                let b = self.block(d + 1, true);
                let (c, _, dots) = self.cond();
                self.put(d, &format!("while({c})"));
                S::DoWhile(l, dots, b)
            },
            19 => { let h = *pick(self.s, &["for()", "for(;;)"]); let l = self.put(d, h); S::Forever(l, self.block(d + 1, true)) },
            20 | 21 => {
                let (a, b) = (self.s.below(4), self.s.below(4));
                let mut dots = false;
                let mut side = |g: &mut Self, n: usize| if g.s.below(4) == 0 { if g.dots && g.s.below(3) == 0 { dots = true; "..()".to_owned() } else { "l".into() } } else { n.to_string() };
                let (x, y) = (side(self, a), side(self, b));
                let z = match self.s.below(4) { 0 => " step 1", 1 => " step l", _ => "" };
                let known = x == a.to_string() && y == b.to_string();
                let h = match self.s.below(3) { 0 => format!("for(var/i = {x} to {y}{z})"), 1 => format!("for(m = {x} to {y}{z})"), _ => format!("for(var/i in {x} to {y}{z})") };
                let l = self.put(d, &h);
                S::Range(l, known && a <= b && z != " step l" && (a, b) != (0, 0), dots, self.block(d + 1, true)).tap(z)
            },
            _ => { let h = if self.s.bool() { "spawn(1)" } else { "spawn()" }; let l = self.put(d, h); let b = self.block(d + 1, false); S::Spawn(l, b) },
        }
    }
}
impl S {
    /// a step makes the number of turns unknown
    fn tap(self, step: &str) -> S { if let S::Range(l, once, d, b) = self { S::Range(l, once && step.is_empty(), d, b) } else { self } }
}

#[derive(Clone, Copy)]
struct Out { ends: bool, brk: bool, cont: bool }
const NOTHING: Out = Out { ends: false, brk: false, cont: false };
const FALLS: Out = Out { ends: true, brk: false, cont: false };
fn or(a: Out, b: Out) -> Out { Out { ends: a.ends || b.ends, brk: a.brk || b.brk, cont: a.cont || b.cont } }

#[derive(Default)]
struct Seen { live: BTreeSet<u32>, dead: BTreeSet<u32>, after: BTreeSet<u32>, must: BTreeSet<u32>, dots_live: bool, dots: bool, skipped: usize }
impl Seen {
    fn dot(&mut self, here: bool, x: bool) { if x { self.dots = true; if here && self.skipped == 0 { self.dots_live = true; } } }
    /// follows control through a block; a label can be gone to
    fn block(&mut self, b: &[S], here: bool) -> Out {
        let mut o = Out { ends: here, ..NOTHING };
        let mut sure = true; // so far nothing but what returns or goes on
        let mut was = here;
        for (i, s) in b.iter().enumerate() {
            let live = o.ends || matches!(s, S::Label(..));
            if live { &mut self.live } else { &mut self.dead }.insert(s.line());
            if self.skipped == 0 && sure && i > 0 && !matches!(s, S::Label(..)) && was && quits(&b[i - 1]) { self.must.insert(s.line()); }
            if loose(s) || (i > 0 && quits(&b[i - 1])) { sure = false; }
            was = live;
            // what is inside a statement that is not reached is not looked at, even a label
            if !live { self.skipped += 1; }
            let r = self.stmt(s, live);
            if !live { self.skipped -= 1; }
            o = Out { ends: live && r.ends, brk: o.brk || (live && r.brk), cont: o.cont || (live && r.cont) };
        }
        o
    }
    fn stmt(&mut self, s: &S, here: bool) -> Out {
        match s {
            S::Plain(_, _, d) => { self.dot(here, *d); FALLS },
            S::Return(_) | S::Crash(_) | S::Throw(_) | S::Goto(_) => NOTHING,
            S::Break(_) => Out { brk: true, ..NOTHING },
            S::Continue(_) => Out { cont: true, ..NOTHING },
            S::If(arms, other) => {
                let mut o = NOTHING;
                let mut sure = false;
                for (l, t, d, b) in arms {
                    // (an arm after one that is always run is called unreachable at its condition, not inside)
                    if sure { self.after.insert(*l); if self.skipped == 0 { self.must.insert(*l); } }
                    self.dot(here, *d);
                    let r = self.block(b, here);
                    if *t != Some(false) { o = or(o, r); }
                    if *t == Some(true) { sure = true; }
                }
                match other {
                    Some(b) => { if sure { if let Some(x) = b.first() { self.after.insert(x.line()); if self.skipped == 0 { self.must.insert(x.line()); } } } or(o, self.block(b, here)) },
                    None => or(o, FALLS),
                }
            },
            S::Switch(_, cases, other) => {
                let mut o = NOTHING;
                for b in cases { o = or(o, self.block(b, here)); }
                match other { Some(b) => or(o, self.block(b, here)), None => or(o, FALLS) }
            },
            S::Try(_, a, b) => { let x = self.block(a, here); or(x, self.block(b, here)) },
            S::Label(_, b) => { Out { ends: true, ..self.block(b, true) } },
            S::Loop(_, d, b) => { self.dot(here, *d); self.block(b, here); FALLS },
            S::DoWhile(_, d, b) => { let o = self.block(b, here); self.dot(here && (o.ends || o.cont), *d); Out { ends: o.ends || o.brk || o.cont, ..NOTHING } },
            S::Forever(_, b) => { let o = self.block(b, here); Out { ends: o.brk, ..NOTHING } },
            S::Range(_, once, d, b) => { self.dot(here, *d); let o = self.block(b, here); Out { ends: !once || o.ends || o.brk || o.cont, ..NOTHING } },
            S::Spawn(_, b) => { self.block(b, here); FALLS },
        }
    }
}
fn loose(s: &S) -> bool {
    match s {
        S::Break(_) | S::Continue(_) | S::Label(..) => true,
        S::If(a, o) => a.iter().any(|x| x.3.iter().any(loose)) || o.iter().flatten().any(loose),
        S::Switch(_, a, o) => a.iter().flatten().any(loose) || o.iter().flatten().any(loose),
        S::Try(_, a, b) => a.iter().any(loose) || b.iter().any(loose),
        _ => false,
    }
}
/// every way through returns (a break, continue or label makes this unsure)
fn quits(s: &S) -> bool {
    let all = |b: &[S]| !b.iter().any(loose) && b.iter().any(quits);
    match s {
        S::Return(_) | S::Crash(_) => true,
        S::If(a, o) => a.iter().all(|x| x.1 == Some(false) || all(&x.3)) && o.as_ref().is_some_and(|b| all(b)),
        S::Switch(_, a, o) => a.iter().all(|x| all(x)) && o.as_ref().is_some_and(|b| all(b)),
        S::DoWhile(_, _, b) => all(b),
        S::Range(_, once, _, b) => *once && all(b),
        _ => false,
    }
}

pub const C17: Prop = Prop {
    id: "C17", enumerate: false, finite: false,
    rule: "a proc body of nested statements, with constant and other conditions, labels and ..(); what is reported as unreachable is compared with a walk that follows control, and a reachable ..() counts",
    run: |s| {
        let n = 4 + s.below(14);
        let mut g = Gen { t: String::new(), at: 1, left: n, labels: 0, gotos: s.below(4) == 0, dots: s.bool(), s };
        for l in ["/datum/x/New(a)", "\treturn", "/datum/a/proc/f2(a)", "\treturn a", "/datum/a/proc/f(l)", "\tset SpacemanDMM_should_call_parent = 1", "\treturn l", "/datum/a/b/f(l)"] { g.put(0, l); }
        let head = g.at - 1;
        g.put(1, "var/m = 0");
        let mut body = g.block(1, false);
        for _ in 0..2 { if g.left > 0 { body.extend(g.block(1, false)); } }
        while g.labels < 3 && g.gotos { let k = g.labels; g.labels += 1; let l = g.put(1, &format!("lab{k}:")); body.push(S::Label(l, vec![])); }
        g.put(1, "m = 2");
        body.push(S::Plain(g.at - 1, "".into(), false));
        g.put(0, "/datum/zlast");
        let (text, s) = (g.t, g.s);
        s.note(&|| text.clone());
        let mut want = Seen::default();
        want.block(&body, true);

        let ctx = Context::default();
        let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), text.clone());
        let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        ensure!(ctx.errors().is_empty(), "the harness wrote something the parser does not take: {:?}", ctx.errors().iter().map(|e| format!("{} {}", e.location().line, e.description())).collect::<Vec<_>>());
        dreamchecker::run(&ctx, &tree);
        let have: BTreeSet<u32> = ctx.errors().iter().filter(|e| e.errortype() == Some("unreachable_code")).map(|e| e.location().line).collect();
        if !want.dead.is_empty() || want.dots { s.nontrivial(); }
        let show = |l: u32| text.lines().nth(l as usize - 1).unwrap_or("").trim().to_owned();
        for l in &have { ensure!(want.dead.contains(l) || want.after.contains(l), "line {l} is called unreachable, but control can get there: {}", show(*l)); }
        for l in &want.must { ensure!(have.contains(l), "line {l} cannot be reached, and is not reported: {}", show(*l)); }
        let missing = ctx.errors().iter().any(|e| e.errortype() == Some("must_call_parent") && e.location().line == head);
        if want.dots_live { ensure!(!missing, "..() can be reached, but is said never to be called"); }
        if !want.dots { ensure!(missing, "..() is nowhere in the body, and nothing is said"); }
        Ok(())
    },
};
