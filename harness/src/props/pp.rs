use super::*;
use crate::src_::*;
use dreammaker::lexer::{LocatedToken, Punctuation as P, Token};
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::{BTreeMap, VecDeque};

/// the lines the preprocessor lets through (blank ones and doc comments left out), each token with the line it is attributed to, and the diagnostics it records
fn real(text: &str) -> Result<(Vec<Vec<(u32, String)>>, Vec<(u32, String)>), String> {
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "test.dm".into(), text.to_owned());
    let mut out: Vec<Vec<(u32, String)>> = vec![vec![]];
    let mut n = 0;
    for LocatedToken { token, location } in pp {
        match token {
            Token::Punct(P::Newline) => out.push(vec![]),
            Token::DocComment(_) | Token::Eof => {}
            t => out.last_mut().unwrap().push((location.line, match &t { Token::Punct(P::Tab) => "\t".into(), Token::Punct(P::Space) => " ".into(), t => t.to_string() })),
        }
        n += 1;
        if n > 200_000 { return Err("output does not end".into()); }
    }
    out.retain(|l| l.iter().any(|t| t.1 != "\t" && t.1 != " "));
    let errs = ctx.errors().iter().map(|e| (e.location().line, e.description().to_owned())).collect();
    Ok((out, errs))
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, PartialEq)]
enum Mac { Int(i32), Func(i32) }

struct W<'a> {
    s: &'a mut dyn Src,
    text: String,
    line: u32,
    n: usize,
    defs: BTreeMap<usize, Vec<Mac>>,
    want: Vec<Vec<(u32, String)>>,
    errs: Vec<(u32, String)>,
    skipped: bool,
    branches: usize,
}
const NAMES: [&str; 4] = ["AA", "BB", "CC", "DD"];

impl<'a> W<'a> {
    /// the line just written is let through as these tokens
    fn kept(&mut self, indent: &str, toks: &[&str]) {
        let l = self.line;
        let i = match indent { "\t" => vec!["\t"], "  " => vec![" "; 2], _ => vec![] };
        self.want.push(i.iter().chain(toks).map(|t| (l, t.to_string())).collect());
    }
    fn put(&mut self, l: String) { self.text.push_str(&l); self.text.push('\n'); self.line += 1; }
    fn top(&self, m: usize) -> Option<Mac> { self.defs.get(&m).and_then(|v| v.last()).copied() }

    /// a condition and its value, `live`: it is going to be evaluated
    fn cond(&mut self, live: bool) -> (String, bool) {
        let m = self.s.below(4);
        let n = NAMES[m];
        match self.s.below(7) {
            0 => ("0".into(), false),
            1 => (format!("{}", 1 + self.s.below(3)), true),
            2 => (format!("defined({n})"), self.top(m).is_some()),
            3 => (format!("!defined({n})"), self.top(m).is_none()),
            4 => {
                let k = self.s.below(3) as i32;
                match self.top(m) {
                    Some(Mac::Int(v)) => (format!("{n} == {k}"), v == k),
                    Some(Mac::Func(v)) => (format!("{n}({k}) > 4"), k + v > 4),
                    None => if live { (format!("!{k}"), k == 0) } else { (format!("{n} == {k}"), false) },
                }
            }
            5 => {
                let k = self.s.below(4);
                (format!("defined({n}) && !defined({})", NAMES[k]), self.top(m).is_some() && self.top(k).is_none())
            }
            _ => if live {
                match self.top(m) {
                    Some(Mac::Int(v)) => (n.into(), v != 0),
                    // the name of a function-like macro that is not called: an error, the condition is false
                    Some(Mac::Func(_)) => { self.errs.push((self.line + 1, "".into())); (n.into(), false) }
                    _ => ("1 - 1".into(), false),
                }
            } else {
                // never evaluated: anything the lexer accepts
                (match self.s.below(4) { 0 => format!("{n}("), 1 => n.to_string(), 2 => "1 +".into(), _ => format!("({n} == )") }, false)
            },
        }
    }

    fn items(&mut self, live: bool, depth: usize) {
        let k = self.s.below(4);
        for _ in 0..k + (depth == 0) as usize { self.item(live, depth); }
    }
    fn item(&mut self, live: bool, depth: usize) {
        let indent = match self.s.below(4) { 0 => "\t", 1 => "  ", _ => "" };
        match self.s.below(if depth >= 4 || self.n > 40 { 9 } else { 14 }) {
            8 => {
                // a string with an embedded expression, possibly cut by a branch that is left out
                if live && self.s.bool() {
                    self.put("#if 0\n\"p[q\n#endif".into());
                    self.line += 2;
                    self.skipped = true;
                    self.put("r]s\"".into());
                    self.kept("", &["r", "]s\""]);
                } else {
                    self.put("\"p[q]s\"".into());
                    if live { self.kept("", &["\"p[", "q", "]s\""]); }
                }
            }
            0 => {
                let t = format!("t{}", self.n);
                self.n += 1;
                self.put(format!("{indent}{t}"));
                if live { self.kept(indent, &[&t]); } else { self.skipped = true; }
            }
            1 => {
                let m = self.s.below(4);
                let t = format!("u{}", self.n);
                self.n += 1;
                match self.top(m) {
                    Some(Mac::Func(v)) => {
                        self.put(format!("{indent}{t} {}(7)", NAMES[m]));
                        if live { self.kept(indent, &[&t, "7", "+", &v.to_string()]); }
                    }
                    o => {
                        self.put(format!("{indent}{t} {}", NAMES[m]));
                        if live { self.kept(indent, &[&t, &match o { Some(Mac::Int(v)) => v.to_string(), _ => NAMES[m].to_string() }]); }
                    }
                }
            }
            2 | 3 => {
                let m = self.s.below(4);
                let v = self.s.below(3) as i32;
                let f = self.s.below(4) == 0;
                if f { self.put(format!("{indent}#define {}(x) x + {v}", NAMES[m])); } else { self.put(format!("{indent}#define {} {v}", NAMES[m])); }
                if live {
                    if self.top(m).is_some() { self.errs.push((self.line, "macro redefined".into())); }
                    self.defs.entry(m).or_default().push(if f { Mac::Func(v) } else { Mac::Int(v) });
                }
            }
            4 => {
                let m = self.s.below(4);
                self.put(format!("{indent}#undef {}", NAMES[m]));
                if live && self.defs.entry(m).or_default().pop().is_none() { self.errs.push((self.line, "macro undefined while not defined".into())); }
            }
            5 => {
                let w = *pick(self.s, &["error", "warn"]);
                self.put(format!("#{w} e{}", self.n));
                if live { self.errs.push((self.line, format!("#{w} ")).into()); }
                self.n += 1;
            }
            6 => {
                let c = *pick(self.s, &["/// a comment", "/** x #else */", "// #endif", "/* #else */", "\"#endif\" 'x.dmi'", "#pragma once"]);
                self.put(c.into());
                if live && c.starts_with('"') { self.kept("", &["\"#endif\"", "'x.dmi'"]); }
            }
            7 => if live { self.put(String::new()); } else {
                let j = *pick(self.s, &["#include \"nowhere.dm\"", "AA(", "#define EE(", "#define EE # y ## z", "#undef 3", "#pragma 3", "#include 3"]);
                self.put(j.into());
            },
            9 if depth == 0 => {
                let d = *pick(self.s, &["#endif", "#else", "#elif"]);
                self.put(d.into());
                self.errs.push((self.line, format!("unmatched {d}")));
            }
            _ => self.chain(live, depth),
        }
    }
    fn chain(&mut self, live: bool, depth: usize) {
        self.branches += 1;
        let mut taken;
        {
            let m = self.s.below(4);
            match self.s.below(4) {
                0 => { self.put(format!("#ifdef {}", NAMES[m])); taken = self.top(m).is_some(); }
                1 => { self.put(format!("#ifndef {}", NAMES[m])); taken = self.top(m).is_none(); }
                _ => { let (c, v) = self.cond(live); self.put(format!("#if {c}")); taken = v; }
            }
        }
        self.items(live && taken, depth + 1);
        for _ in 0..[0, 0, 1, 2][self.s.below(4)] {
            let (c, v) = self.cond(live);
            self.put(format!("#elif {c}"));
            self.items(live && !taken && v, depth + 1);
            taken |= v;
        }
        if self.s.bool() {
            self.put("#else".into());
            self.items(live && !taken, depth + 1);
        }
        self.put("#endif".into());
    }
}

pub const C10: Prop = Prop {
    id: "C10", enumerate: false, finite: false,
    rule: "random programs of nested #if/#ifdef/#ifndef/#elif/#else chains around text, macro uses, #define, #undef, #error, #warn, comments and junk, with stray and missing #endif; surviving tokens and diagnostics compared with a tree-walking evaluation; non-trivial: some text must be skipped",
    run: |s| {
        let mut w = W { s, text: String::new(), line: 0, n: 0, defs: BTreeMap::new(), want: vec![], errs: vec![], skipped: false, branches: 0 };
        w.items(true, 0);
        let open = if w.s.below(6) == 0 { 1 + w.s.below(3) } else { 0 };
        let mut live = true;
        for _ in 0..open {
            let v = w.s.bool();
            w.put(format!("#if {}", v as u8));
            live &= v;
            w.item(live, 4);
        }
        let (skipped, want, errs, text) = (w.skipped, w.want, w.errs, w.text);
        s.note(&|| text.clone());
        if skipped { s.nontrivial(); }
        let (got, gerrs) = real(&text)?;
        ensure!(got == want, "text let through: {got:?}, expected {want:?}");
        let (un, ge): (Vec<_>, Vec<_>) = gerrs.into_iter().partition(|e| e.1.starts_with("unterminated #if"));
        ensure!(un.len() == open, "{} conditionals reported as unterminated, expected {open}", un.len());
        let ok = ge.len() == errs.len() && ge.iter().zip(&errs).all(|(a, b)| a.0 == b.0 && a.1.starts_with(&b.1));
        ensure!(ok, "diagnostics {ge:?}, expected {errs:?}");
        Ok(())
    },
};

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Int(i32), Pu(&'static str), Str(String) }
impl T {
    fn show(&self) -> String { match self { T::Id(s) => s.clone(), T::Int(i) => i.to_string(), T::Pu(p) => p.to_string(), T::Str(s) => if s.contains('"') { format!("{{\"{s}\"}}") } else { format!("\"{s}\"") } } }
}
#[derive(Clone, Debug)]
struct M { params: Vec<String>, variadic: bool, body: Vec<T> }

fn subst(m: &M, args: &[Vec<T>]) -> Vec<T> {
    let arg = |n: &str| m.params.iter().position(|p| p == n).map(|i| &args[i]);
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    while i < m.body.len() {
        let t = &m.body[i];
        i += 1;
        match t {
            T::Id(n) => match arg(n) { Some(a) => out.extend(a.iter().cloned()), None => out.push(t.clone()) },
            T::Pu("##") => {
                let next = m.body.get(i).cloned();
                i += 1;
                let right: Vec<T> = match &next { Some(T::Id(n)) => match arg(n) { Some(a) => a.clone(), None => vec![T::Id(n.clone())] }, Some(o) => vec![o.clone()], None => vec![] };
                let from_param = matches!(&next, Some(T::Id(n)) if arg(n).is_some());
                let mut right = right.into_iter();
                if let (Some(T::Id(a)), Some(T::Id(_))) = (out.last().cloned(), &next) {
                    match right.next() {
                        Some(T::Id(b)) => { out.pop(); out.push(T::Id(format!("{a}{b}"))); }
                        Some(T::Int(b)) if from_param => { out.pop(); out.push(T::Id(format!("{a}{b}"))); }
                        Some(o) => out.push(o),
                        None => {}
                    }
                }
                out.extend(right);
            }
            T::Pu("#") => {
                if let Some(T::Id(n)) = m.body.get(i) {
                    out.push(T::Str(arg(n).unwrap().iter().map(|t| t.show()).collect::<Vec<_>>().join(" ")));
                }
                i += 1;
            }
            t => out.push(t.clone()),
        }
    }
    out
}

fn expand(defs: &BTreeMap<String, Vec<M>>, toks: Vec<T>, line: u32) -> Option<(Vec<T>, usize)> {
    let mut q: VecDeque<T> = toks.into();
    let mut out = vec![];
    let mut fuel = 20_000;
    let mut wrong = 0;
    while let Some(t) = q.pop_front() {
        fuel -= 1;
        if fuel == 0 { return None; }
        let T::Id(n) = &t else { out.push(t); continue };
        if n == "__LINE__" { out.push(T::Int(line as i32)); continue; }
        if n == "__FILE__" { out.push(T::Str("test.dm".into())); continue; }
        let Some(m) = defs.get(n).and_then(|v| v.last()) else { out.push(t); continue };
        if m.params.is_empty() {
            for x in m.body.iter().rev() { q.push_front(x.clone()); }
            continue;
        }
        match q.pop_front() {
            Some(T::Pu("(")) => {}
            Some(T::Id(_)) => return None,
            o => { out.push(t.clone()); out.push(o?); continue; }
        }
        let mut args = vec![];
        let mut cur = vec![];
        let mut d = 0;
        loop {
            let x = q.pop_front()?;
            match x {
                T::Pu("(") => { d += 1; cur.push(x); }
                T::Pu(")") if d == 0 => { args.push(cur); break; }
                T::Pu(")") => { d -= 1; cur.push(x); }
                T::Pu(",") if d == 0 => args.push(std::mem::take(&mut cur)),
                x => cur.push(x),
            }
        }
        let np = m.params.len();
        if m.variadic {
            if args.len() >= np {
                let rest = args.split_off(np - 1);
                let mut j = vec![];
                for (i, a) in rest.into_iter().enumerate() { if i > 0 { j.push(T::Pu(",")); } j.extend(a); }
                args.push(j);
            } else if args.len() + 1 == np { args.push(vec![]); }
        }
        if args.len() != np { wrong += 1; continue; }
        for x in subst(m, &args).into_iter().rev() { q.push_front(x); }
    }
    Some((out, wrong))
}

fn show(ts: &[T]) -> String { ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ") }

struct G<'a> { s: &'a mut dyn Src, defs: BTreeMap<String, Vec<M>> }
impl G<'_> {
    fn atom(&mut self, params: &[String]) -> T {
        match self.s.below(8) {
            0 => T::Int(self.s.below(100) as i32),
            6 => T::Id(pick(self.s, &["__LINE__", "__FILE__", "defined"]).to_string()),
            7 => T::Str("s".into()),
            1 => T::Pu(*pick(self.s, &["+", "*", "=="])),
            2 | 3 if !params.is_empty() => T::Id(params[self.s.below(params.len())].clone()),
            _ => T::Id(pick(self.s, &["a", "b", "c"]).to_string()),
        }
    }
    /// tokens that may use macros m0..m{below}
    fn seq(&mut self, below: usize, params: &[String], depth: usize) -> Vec<T> {
        let mut v = vec![];
        for _ in 0..1 + self.s.below(4) {
            if below > 0 && self.s.below(2) == 0 {
                let i = self.s.below(below);
                let n = format!("m{i}");
                v.push(T::Id(n.clone()));
                if let Some(m) = self.defs.get(&n).and_then(|x| x.last()).cloned() {
                    if !m.params.is_empty() {
                        if self.s.below(8) == 0 || depth > 3 { v.push(T::Pu(";")); continue; }
                        v.push(T::Pu("("));
                        let mut k = m.params.len();
                        if m.variadic { k = k - 1 + self.s.below(4); } else if self.s.below(16) == 1 { k = self.s.below(4); }
                        for j in 0..k.max(1) {
                            if j > 0 { v.push(T::Pu(",")); }
                            match self.s.below(6) {
                                0 => {}
                                1 => { v.push(T::Pu("(")); let a = self.atom(params); v.extend([a, T::Pu(","), T::Int(1), T::Pu(")")]); }
                                _ => { let a = self.seq(below, params, depth + 1); v.extend(a); }
                            }
                        }
                        v.push(T::Pu(")"));
                    }
                }
                v.push(T::Pu(";"));
            } else if below > 0 && depth < 3 && self.s.below(6) == 1 {
                // something in parentheses that is no macro use
                let a = self.atom(params);
                v.extend([a, T::Pu("(")]);
                let a = self.seq(below, params, depth + 1);
                v.extend(a);
                v.push(T::Pu(")"));
            } else { let a = self.atom(params); v.push(a); }
        }
        v
    }
}

pub const C23: Prop = Prop {
    id: "C23", enumerate: false, finite: false,
    rule: "random #define/#undef sequences over six names (constants, functions, variadics, stringify, paste, uses of other macros) and text using them, expanded and compared with an independent expander; non-trivial: a name with two live definitions is used or an argument is pasted",
    run: |s| {
        let mut g = G { s, defs: BTreeMap::new() };
        let mut text = String::new();
        let (mut want, mut errs, mut line) = (vec![], vec![], 0u32);
        let mut nontrivial = false;
        for _ in 0..2 + g.s.below(14) {
            let i = g.s.below(6);
            let n = format!("m{i}");
            line += 1;
            match g.s.below(8) {
                0..=2 => {
                    let np = if g.s.bool() { 0 } else { 1 + g.s.below(3) };
                    let mut params: Vec<String> = ["x", "y", "z"][..np].iter().map(|s| s.to_string()).collect();
                    let variadic = np > 0 && g.s.below(4) == 0;
                    let anon = variadic && g.s.bool();
                    if anon { *params.last_mut().unwrap() = "__VA_ARGS__".into(); }
                    let mut body = g.seq(i, &params, 0);
                    if np > 0 {
                        for _ in 0..g.s.below(3) {
                            nontrivial = true;
                            let p = T::Id(params[g.s.below(np)].clone());
                            match g.s.below(5) {
                                3 => { let a = g.atom(&params); body.extend([T::Int(4), T::Pu("##"), a]); }
                                4 => body.extend([p, T::Pu("##"), T::Int(5)]),
                                0 => body.extend([T::Pu("#"), p]),
                                1 => { let a = g.atom(&params); body.extend([a, T::Pu("##"), p]); }
                                _ => body.extend([p, T::Pu("##"), T::Id("k".into())]),
                            }
                        }
                    } else if matches!(body[0], T::Pu(_)) && g.s.bool() { body.clear(); }
                    let plist = params.iter().enumerate().map(|(k, p)| if variadic && k + 1 == np { if anon { "...".into() } else { format!("{p}...") } } else { p.clone() }).collect::<Vec<_>>().join(", ");
                    text += &if np > 0 { format!("#define {n}({plist}) {}\n", show(&body)) } else { format!("#define {n} {}\n", show(&body)) };
                    let st = g.defs.entry(n).or_default();
                    if !st.is_empty() { errs.push((line, "macro redefined")); }
                    st.push(M { params, variadic, body });
                }
                3 => {
                    text += &format!("#undef {n}\n");
                    if g.defs.entry(n).or_default().pop().is_none() { errs.push((line, "macro undefined while not defined")); }
                }
                4 if g.s.below(3) == 0 => {
                    // what is left of the line is of no concern
                    text += &pick(g.s, &["#define", "#define 3 junk", "#define M(", "#define M(x", "#define M(1 junk) junk", "#define M(x y junk) junk", "#define M(x..., y, junk) junk", "#define M(..., y, junk) junk", "#define M() junk", "#undef", "#undef 3 junk", "#ifdef 3 junk"]).replace('M', &n);
                    text.push('\n');
                    errs.push((line, ""));
                }
                _ => {
                    let v = g.seq(6, &[], 0);
                    for t in &v { if let T::Id(n) = t { if g.defs.get(n).is_some_and(|x| x.len() > 1) { nontrivial = true; } } }
                    let toks = match expand(&g.defs, v.clone(), line) {
                        Some((e, wrong)) => { text += &show(&v); errs.extend((0..wrong).map(|_| (line, "wrong number of arguments"))); e.iter().map(|t| t.show()).collect::<Vec<_>>() },
                        None => { text += "a b c"; ["a", "b", "c"].map(String::from).into() },
                    };
                    if !toks.is_empty() { want.push(toks.into_iter().map(|t| (line, t)).collect::<Vec<_>>()); }
                    text.push('\n');
                }
            }
        }
        s.note(&|| text.clone());
        if nontrivial { s.nontrivial(); }
        let (mut got, ge) = real(&text)?;
        got.retain(|l| !l.iter().any(|t| t.1 == "junk"));
        ensure!(got == want, "expansion is {got:?}, expected {want:?}");
        let ok = ge.len() == errs.len() && ge.iter().zip(&errs).all(|(a, b)| a.0 == b.0 && a.1.starts_with(b.1));
        ensure!(ok, "diagnostics {ge:?}, expected {errs:?}");
        Ok(())
    },
};
