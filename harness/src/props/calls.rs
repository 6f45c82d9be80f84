use super::*;
use crate::src_::*;
use dreammaker::indents::IndentProcessor;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::{BTreeMap, BTreeSet};

/// path, parent
const TYPES: &[(&str, usize)] = &[("", 0), ("/datum/x", 0), ("/datum/x/a", 1), ("/datum/x/b", 1), ("/datum/x/a/c", 2), ("/datum/y", 2), ("/datum/y/z", 5), ("/datum/x/a/c/d", 4)];
const PARAMS: &str = "(datum/x/k1, datum/x/a/k2, datum/x/b/k3, datum/x/a/c/k4, datum/y/k5, datum/y/z/k6, datum/x/a/c/d/k7, client/kc, kk)";
/// name, type that has it first
const NAMES: &[(&str, usize)] = &[("g0", 0), ("g1", 0), ("g2", 0), ("g3", 0), ("p0", 1), ("p1", 1), ("p2", 1), ("q0", 2), ("q1", 2), ("New", 1)];
const BLOCKS: &[&str] = &["sleep(1)", "m = input(\"a\")", "alert(\"a\")", "shell(\"a\")", "winexists(kk, \"b\")", "m = winget(kk, \"b\", \"c\")", "world.Export(\"a\")", "world.Import()", "m = kc.MeasureText(\"a\")", "kc.SoundQuery()", "m = input(\"a\") as num", "m = list(1, input(\"a\") in list(1))"];
const IMPURE: &[&str] = &["world << \"a\"", "gv = 1", "gv += 2", "gv++", "kk = 2", "--gv", "kk << 1"];
const NOTHING: &[&str] = &["m = 1", "m++", "m = list()", "m = kk", "m << 1", "m = kk.len", "world.log = m"];

#[derive(Clone, Copy, Debug)]
enum Way { Own, On(usize), Src, Up, Same, Global, New(usize) }
#[derive(Clone, Debug)]
struct Edge { line: u32, to: usize, fresh: bool, exact: bool, same: bool, src: usize }
#[derive(Clone, Debug, Default)]
struct Def { ty: usize, name: usize, head: u32, quiet: Option<u32>, pure: Option<u32>, excused: bool, nowait: bool, blocks: Vec<u32>, impure: Vec<u32>, edges: Vec<Edge>, has_code: bool }
type Node = (usize, usize, bool);

struct World { defs: Vec<Def> }
impl World {
    fn under(mut a: usize, b: usize) -> bool { loop { if a == b { return true; } if a == 0 { return false; } a = TYPES[a].1; } }
    fn on(&self, ty: usize, name: usize) -> Option<usize> { self.defs.iter().rposition(|d| d.ty == ty && d.name == name) }
    fn answer(&self, mut ty: usize, name: usize) -> Option<usize> {
        loop {
            if let Some(d) = self.on(ty, name) { return Some(d); }
            if ty == 0 { return None; }
            ty = TYPES[ty].1;
        }
    }
    /// what ..() runs
    fn up(&self, d: usize) -> Option<usize> {
        let (ty, name) = (self.defs[d].ty, self.defs[d].name);
        if let Some(e) = (0..d).rev().find(|e| self.defs[*e].ty == ty && self.defs[*e].name == name) { return Some(e); }
        if ty == 0 { None } else { self.answer(TYPES[ty].1, name) }
    }
    fn inherited(&self, d: usize, f: fn(&Def) -> Option<u32>) -> Option<u32> {
        let mut at = Some(d);
        while let Some(d) = at {
            if let Some(l) = f(&self.defs[d]) { return Some(l); }
            at = self.up(d);
        }
        None
    }
    fn quiet(&self, d: usize) -> Option<u32> { self.inherited(d, |x| x.quiet) }
    fn pure(&self, d: usize) -> Option<u32> { self.inherited(d, |x| x.pure) }
    fn counts(&self, d: usize) -> bool { let x = &self.defs[d]; !x.nowait && !x.excused && self.quiet(d).is_none() }
    fn goes_on(&self, d: usize) -> bool { self.counts(d) && self.defs[d].blocks.is_empty() }
    fn follow(&self, e: &Edge, on: usize) -> Node {
        let d = &self.defs[e.to];
        let to = if e.same && !e.exact && d.ty != 0 { self.answer(on, d.name).unwrap_or(e.to) } else { e.to };
        (to, if e.same { on } else { e.src }, e.exact)
    }
    /// the definitions a call that may be overridden also runs
    fn widen(&self, s: BTreeSet<Node>) -> BTreeSet<Node> {
        let mut out = s.clone();
        for &(d, on, exact) in &s {
            if exact || !self.goes_on(d) || self.defs[d].ty == 0 { continue; }
            for t in 1..TYPES.len() { if Self::under(t, on) { if let Some(c) = self.on(t, self.defs[d].name) { out.insert((c, t, true)); } } }
        }
        out
    }
    fn begin(&self, r: usize, line: Option<u32>) -> BTreeSet<Node> {
        self.widen(self.defs[r].edges.iter().filter(|e| !e.fresh && line.is_none_or(|l| e.line == l)).map(|e| self.follow(e, self.defs[r].ty)).collect())
    }
    fn advance(&self, s: &BTreeSet<Node>, line: Option<u32>) -> BTreeSet<Node> {
        let mut out = BTreeSet::new();
        for &(d, on, _) in s {
            if !self.goes_on(d) { continue; }
            out.extend(self.defs[d].edges.iter().filter(|e| !e.fresh && line.is_none_or(|l| e.line == l)).map(|e| self.follow(e, on)));
        }
        self.widen(out)
    }
    fn all(&self, r: usize) -> BTreeSet<Node> {
        let mut s = self.begin(r, None);
        loop {
            let n = self.advance(&s, None);
            let before = s.len();
            s.extend(n);
            if s.len() == before { return s; }
        }
    }
    fn pstep(&self, s: &BTreeSet<usize>, line: Option<u32>) -> BTreeSet<usize> { s.iter().flat_map(|d| self.defs[*d].edges.iter()).filter(|e| line.is_none_or(|l| e.line == l)).map(|e| e.to).collect() }
    fn pall(&self, r: usize) -> BTreeSet<usize> {
        let mut s = self.pstep(&[r].into(), None);
        loop {
            let n = self.pstep(&s, None);
            let before = s.len();
            s.extend(n);
            if s.len() == before { return s; }
        }
    }
    /// who is blamed when r gets to p
    fn taints(&self, r: usize, p: usize) -> Vec<usize> {
        if !self.defs[p].impure.is_empty() { return vec![p]; }
        let mut v = vec![];
        for c in 0..self.defs.len() {
            if self.defs[c].impure.is_empty() || NAMES[self.defs[c].name].0 == "New" { continue; }
            let mut at = self.up(c);
            while let Some(u) = at {
                if u == p {
                    let (rt, pt, ct) = (self.defs[r].ty, self.defs[p].ty, self.defs[c].ty);
                    if !(Self::under(rt, pt) && !Self::under(ct, rt)) { v.push(c); }
                }
                at = self.up(u);
            }
        }
        v
    }
}

struct Gen<'a> { s: &'a mut dyn Src, t: String, at: u32 }
impl Gen<'_> {
    fn put(&mut self, depth: usize, x: &str) -> u32 {
        for _ in 0..depth { self.t.push('\t'); }
        self.t.push_str(x);
        self.t.push('\n');
        self.at += 1;
        self.at - 1
    }
    fn one(&mut self, depth: usize, xs: &[&str]) -> u32 { let x = *pick(self.s, xs); self.put(depth, x) }
}

pub const C19: Prop = Prop {
    id: "C19", enumerate: false, finite: false,
    rule: "procs with overrides that call one another, block and do impure things; what is said about those that should not sleep and those that should be pure is compared with a walk over who can run what",
    run: |s| {
        let sleepy = s.below(4) != 0;
        let mut g = Gen { t: String::new(), at: 1, s };
        g.put(0, "/var/gv = 0");
        for (p, up) in &TYPES[1..] {
            g.put(0, p);
            if *p == "/datum/y" { g.put(1, &format!("parent_type = {}", TYPES[*up].0)); }
            g.put(1, &format!("var/u{} = 1", p.len()));
        }
        // which definitions there are
        let mut w = World { defs: vec![] };
        let (globals, methods) = (g.s.below(5), 1 + g.s.below(6));
        for (n, (_, first)) in NAMES.iter().enumerate() {
            if if *first == 0 { n >= globals } else { n - 4 >= methods } { continue; }
            let many = g.s.below(3) == 0;
            for ty in 0..TYPES.len() {
                if ty == *first || *first != 0 && World::under(ty, *first) && (g.s.below(if many { 2 } else { 5 }) == 0) {
                    w.defs.push(Def { ty, name: n, ..Def::default() });
                }
            }
        }
        // in which order they are written
        let n = w.defs.len();
        for i in (1..n).rev() { let j = g.s.below(i + 1); w.defs.swap(i, j); }
        let rare = [3, 6, 12][g.s.below(3)];
        for d in 0..n {
            let (ty, name) = (w.defs[d].ty, w.defs[d].name);
            let first = ty == NAMES[name].1;
            let start = first && NAMES[name].0 != "New";
            let kind = *pick(g.s, &["proc", "proc", "verb"]);
            let h = if ty == 0 { format!("/proc/{}{PARAMS}", NAMES[name].0) } else if start { format!("{}/{kind}/{}{PARAMS}", TYPES[ty].0, NAMES[name].0) } else { format!("{}/{}{PARAMS}", TYPES[ty].0, NAMES[name].0) };
            let mut x = w.defs[d].clone();
            x.head = g.put(0, &h);
            if start {
                if sleepy && g.s.below(3) == 0 { x.quiet = Some(g.put(1, "set SpacemanDMM_should_not_sleep = 1")); }
                if g.s.below(if sleepy { 8 } else { 2 }) == 0 { x.pure = Some(g.put(1, "set SpacemanDMM_should_be_pure = TRUE")); }
                if g.s.below(12) == 0 { x.excused = true; g.put(1, "set SpacemanDMM_allowed_to_sleep = 1"); }
            }
            if g.s.below(12) == 0 { x.nowait = true; g.one(1, &["set waitfor = 0", "set waitfor = FALSE"]); } else if g.s.below(12) == 0 { g.put(1, "set waitfor = 1"); }
            if x.quiet.is_some() && g.s.below(16) == 0 { g.put(1, "set background = 0"); }
            g.put(1, "var/m = 0");
            let mut depth = 1;
            let mut fresh = usize::MAX;
            for _ in 0..g.s.below(6) {
                while depth > 1 && g.s.bool() { depth -= 1; }
                if depth <= fresh { fresh = usize::MAX; }
                if depth < 4 && g.s.below(6) == 0 {
                    let h = *pick(g.s, &["if(m)", "while(m)", "spawn(1)", "spawn()", "for(m in kk)", "do", "switch(m)", "try", "if(m)", "spawn(1)"]);
                    if h == "do" || h == "try" || h == "switch(m)" {
                        g.put(depth, if h == "do" { "for(;;)" } else if h == "try" { "for(var/i = 1 to m)" } else { "while(!m)" });
                    } else { g.put(depth, h); }
                    if h.starts_with("spawn") && fresh == usize::MAX { fresh = depth; }
                    depth += 1;
                    g.put(depth, "m = 2");
                }
                let spawned = fresh != usize::MAX;
                match g.s.below(10) {
                    0 => { g.one(depth, NOTHING); },
                    1 | 2 if g.s.below(rare) == 0 => { let l = g.one(depth, BLOCKS); if !spawned { x.blocks.push(l); } },
                    3 | 4 if g.s.below(rare) == 0 => { let l = g.one(depth, IMPURE); x.impure.push(l); },
                    _ => {
                        let k = g.s.below(NAMES.len());
                        let way = match g.s.below(10) { 0..=3 => Way::Own, 4 | 5 => Way::On(1 + g.s.below(TYPES.len() - 1)), 6 => Way::Src, 7 => Way::Up, 8 => if g.s.bool() { Way::Same } else { Way::Global }, _ => Way::New(1 + g.s.below(TYPES.len() - 1)) };
                        let new = NAMES.len() - 1;
                        let called = NAMES[k].0;
                        let e = match way {
                            Way::Own => w.answer(ty, k).map(|to| (format!("{called}()"), to, false, true, ty)),
                            Way::On(t) => w.answer(t, k).filter(|d| w.defs[*d].ty != 0).map(|to| (format!("k{t}.{called}()"), to, false, false, t)),
                            Way::Src => if ty == 0 { None } else { w.answer(ty, k).filter(|d| w.defs[*d].ty != 0).map(|to| (format!("src.{called}()"), to, false, false, ty)) },
                            Way::Up => w.up(d).map(|to| ("..()".to_owned(), to, true, true, ty)),
                            Way::Same => Some((".()".to_owned(), d, true, true, ty)),
                            Way::Global => w.answer(0, k).map(|to| (format!("global.{called}()"), to, true, false, 0)),
                            Way::New(t) => w.answer(t, new).map(|to| (format!("new {}()", TYPES[t].0), to, true, false, t)),
                        };
                        if let Some((text, to, exact, same, src)) = e {
                            let place = *pick(g.s, &["@", "m = @", "m = @", "m = list(1, @)", "m = m ? 1 : @", "m += @", "m = !@", "m = \"a[@]\""]);
                            let place = if text.starts_with("new") { "m = @" } else { place };
                            let line = g.put(depth, &place.replace('@', &text));
                            x.edges.push(Edge { line, to, fresh: spawned, exact, same, src });
                        }
                    },
                }
            }
            g.put(1, "m = 3");
            x.has_code = true;
            w.defs[d] = x;
        }
        g.put(0, "/datum/zlast");
        let (text, s) = (g.t, g.s);
        s.note(&|| text.clone());

        // what should be said: (root, notes but the chain)
        let mut must: BTreeMap<usize, usize> = BTreeMap::new();
        let mut roots: BTreeSet<usize> = BTreeSet::new();
        for r in 0..n {
            if w.quiet(r).is_none() { continue; }
            if !w.defs[r].blocks.is_empty() { roots.insert(r); }
            for (d, _, _) in w.all(r) { if w.counts(d) && !w.defs[d].blocks.is_empty() { must.insert(d, 0); } }
        }
        let mut unclean: BTreeMap<(usize, usize), (usize, usize)> = BTreeMap::new();
        for r in 0..n {
            if w.pure(r).is_none() { continue; }
            if !w.defs[r].impure.is_empty() { unclean.entry((r, r)).or_default().0 += 1; }
            for p in w.pall(r) { for c in w.taints(r, p) { unclean.entry((r, c)).or_default().0 += 1; } }
        }
        if must.len() + unclean.len() > 1 { s.nontrivial(); }

        let ctx = Context::default();
        let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), text.clone());
        let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        ensure!(ctx.errors().is_empty(), "the harness wrote something the parser does not take: {:?}", ctx.errors().iter().map(|e| format!("{} {}", e.location().line, e.description())).collect::<Vec<_>>());
        dreamchecker::run(&ctx, &tree);
        let full = |d: usize| format!("{}/{}", TYPES[w.defs[d].ty].0, NAMES[w.defs[d].name].0);
        let mut said_roots = BTreeSet::new();
        for e in ctx.errors().iter() {
            let (sleep, pure) = (e.errortype() == Some("must_not_sleep"), e.errortype() == Some("must_be_pure"));
            if !sleep && !pure { continue; }
            let Some(r) = (0..n).find(|d| w.defs[*d].head == e.location().line) else { return Err(format!("reported at line {}, where no proc is: {}", e.location().line, e.description())); };
            let notes: Vec<u32> = e.notes().iter().map(|x| x.location().line).collect();
            let what = format!("\"{}\" (at {}, notes at {:?})", e.description(), full(r), notes);
            let set = if sleep { w.quiet(r) } else { w.pure(r) };
            ensure!(set.is_some(), "{what}: nothing is asked of this proc");
            ensure!(notes.first() == set.as_ref(), "{what}: the first note is not where the setting is, line {}", set.unwrap());
            let rest = &notes[1..];
            let lines = |d: usize| if sleep { &w.defs[d].blocks } else { &w.defs[d].impure };
            let Some(d) = (0..n).find(|d| !lines(*d).is_empty() && rest.ends_with(lines(*d))) else { return Err(format!("{what}: the last notes are not the lines at fault of any proc")); };
            let chain = &rest[..rest.len() - lines(d).len()];
            if chain.is_empty() {
                ensure!(r == d, "{what}: nothing says how it gets to {}", full(d));
                if sleep { ensure!(said_roots.insert(r), "{what}: said twice"); } else { unclean.entry((r, r)).or_default().1 += 1; }
                continue;
            }
            if sleep {
                let mut at = w.begin(r, Some(chain[0]));
                for l in &chain[1..] { at = w.advance(&at, Some(*l)); }
                ensure!(at.iter().any(|x| x.0 == d && w.counts(d)), "{what}: these calls do not get to {}", full(d));
                *must.entry(d).or_default() += 1;
            } else {
                let mut at: BTreeSet<usize> = [r].into();
                for l in chain { at = w.pstep(&at, Some(*l)); }
                ensure!(at.iter().any(|p| w.taints(r, *p).contains(&d)), "{what}: these calls do not get to {}", full(d));
                unclean.entry((r, d)).or_default().1 += 1;
            }
        }
        for r in &roots { ensure!(said_roots.contains(r), "{} should not sleep and does, and nothing is said", full(*r)); }
        for r in &said_roots { ensure!(roots.contains(r), "{} is said to sleep", full(*r)); }
        for (d, times) in &must { ensure!(*times == 1, "{} blocks and is run by a proc that should not sleep; this is said {times} times", full(*d)); }
        for ((r, c), (want, have)) in &unclean { ensure!(want == have, "{} should be pure, but {} does impure things: said {have} times, not {want}", full(*r), full(*c)); }
        Ok(())
    },
};
