//! Parser for .vx unit files.
//!
//! Top level directives start with "@@":
//!   @@header            verbatim text before verus!{} (use lines)
//!   @@source ALIAS PATH
//!   @@known Type::fn    function provided by verbatim text (not auto-inlined)
//!   @@verbatim          Verus text
//!   @@type ALIAS::Name [derive A, B]   followed by optional @rewrite lines
//!   @@table ALIAS::NAME   constant array of tuples: a spec sequence NAME_seq() and an accessor vx_NAME()
//!   @@fn ALIAS::Type::name
//! Inside @@fn, directives start with "@":
//!   @ret NAME | @spec | @loop N | @ghost WHERE | @opt FLAG.. | @rewrite <<<A>>> => <<<B>>>
//!   @name NEWNAME | @loops N | @sig <<<...>>> | @impl <<<...>>>

use crate::die;

pub struct Unit {
    pub header: String,
    pub plain: bool,
    pub sources: Vec<(String, String)>,
    pub known: Vec<String>,
    pub items: Vec<Item>,
}

pub enum Item {
    Verbatim(String),
    Type { path: String, derives: String, replaces: Vec<(String, String)>, fields: Option<Vec<String>>, ordinal: bool, ensures: Option<String> },
    Table(String),
    Fn(FnSpec),
}

#[derive(Clone, Debug)]
pub enum Where {
    Start,
    End,
    Loop(usize, String),
    Before(String, usize),
    After(String, usize),
}

#[derive(Default)]
pub struct FnSpec {
    pub path: String,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: Vec<(usize, String)>,
    pub nloops: Option<usize>,
    pub ghosts: Vec<(Where, String, bool)>,
    pub opts: Vec<String>,
    pub rewrites: Vec<(String, String, bool)>,
    pub name: Option<String>,
    pub sig: Option<String>,
    pub imp: Option<String>,
    pub attr: String,
    pub arm: Option<(String, String, String)>,
    pub armbodies: Vec<(String, String, bool)>,
    /// projection to some statements of the body: (from | past | until, beginning of the statement)
    pub cuts: Vec<(String, String)>,
}

fn angle(s: &str) -> (String, &str) {
    let a = s.find("<<<").unwrap_or_else(|| die(&format!("expected <<< in {s}")));
    let mut b = s.find(">>>").unwrap_or_else(|| die(&format!("expected >>> in {s}")));
    while s[b + 3..].starts_with('>') { b += 1; }
    (s[a + 3..b].to_string(), &s[b + 3..])
}

pub fn parse(text: &str, path: &str) -> Unit {
    let mut u = Unit { header: String::new(), plain: false, sources: vec![], known: vec![], items: vec![] };
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let is_dir = |l: &str| { let t = l.trim_start(); t.starts_with('@') };
    // "@include FILE": text spliced from a file beside the unit
    while i < lines.len() {
        let l = lines[i].trim();
        i += 1;
        if l.is_empty() || l.starts_with("//") { continue; }
        let grab = |i: &mut usize, top: bool| {
            let mut s = String::new();
            while *i < lines.len() {
                let t = lines[*i].trim_start();
                if t.starts_with("@@") || (!top && is_dir(t)) { break; }
                s.push_str(lines[*i]);
                s.push('\n');
                *i += 1;
            }
            s
        };
        if l.starts_with("@@header") {
            u.header.push_str(&grab(&mut i, true));
        } else if l == "@@plain" {
            // ordinary Rust, not wrapped in verus!{} (for Kani)
            u.plain = true;
        } else if let Some(r) = l.strip_prefix("@@source ") {
            let mut p = r.split_whitespace();
            u.sources.push((p.next().unwrap().into(), p.next().unwrap().into()));
        } else if let Some(r) = l.strip_prefix("@@known ") {
            for k in r.split_whitespace() { u.known.push(k.into()); }
        } else if let Some(r) = l.strip_prefix("@@include ") {
            let dir = std::path::Path::new(path).parent().unwrap();
            let p = dir.join(r.trim());
            let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
            u.items.push(Item::Verbatim(t));
        } else if l.starts_with("@@verbatim") {
            let t = grab(&mut i, true);
            u.items.push(Item::Verbatim(t));
        } else if let Some(r) = l.strip_prefix("@@type ") {
            let (p, d) = match r.split_once(" derive ") { Some((a, b)) => (a.trim(), b.trim()), None => (r.trim(), "") };
            let mut replaces = vec![];
            let mut fields = None;
            let mut ordinal = false;
            let mut ensures = None;
            while i < lines.len() {
                let t = lines[i].trim();
                if let Some(r) = t.strip_prefix("@rewrite ") {
                    let (a, rest) = angle(r);
                    let (b, _) = angle(rest);
                    replaces.push((a, b));
                    i += 1;
                } else if let Some(r) = t.strip_prefix("@ensures ") {
                    ensures = Some(r.to_string());
                    i += 1;
                } else if t == "@ordinal" {
                    ordinal = true;
                    i += 1;
                } else if let Some(r) = t.strip_prefix("@fields ") {
                    fields = Some(r.split_whitespace().map(|x| x.trim_end_matches(',').to_string()).collect());
                    i += 1;
                } else if t.is_empty() { i += 1; } else { break; }
            }
            u.items.push(Item::Type { path: p.into(), derives: d.into(), replaces, fields, ordinal, ensures });
        } else if let Some(r) = l.strip_prefix("@@table ") {
            u.items.push(Item::Table(r.trim().into()));
        } else if let Some(r) = l.strip_prefix("@@fn ") {
            let mut f = FnSpec { path: r.trim().into(), ..Default::default() };
            while i < lines.len() {
                let t = lines[i].trim();
                if t.starts_with("@@") { break; }
                i += 1;
                if t.is_empty() || t.starts_with("//") { continue; }
                if let Some(r) = t.strip_prefix("@ret ") { f.ret = Some(r.trim().into()); }
                else if let Some(r) = t.strip_prefix("@name ") { f.name = Some(r.trim().into()); }
                else if let Some(r) = t.strip_prefix("@sig ") { f.sig = Some(angle(r).0); }
                else if let Some(r) = t.strip_prefix("@impl ") { f.imp = Some(angle(r).0); }
                else if let Some(r) = t.strip_prefix("@attr ") { f.attr.push_str(r); f.attr.push(' '); }
                else if let Some(r) = t.strip_prefix("@armbody ") { let (a, rest) = angle(r); let (b, rest) = angle(rest); f.armbodies.push((a, b, rest.contains("#last"))); }
                else if let Some(r) = t.strip_prefix("@arm ") { let (a, rest) = angle(r); let (b, rest) = if rest.contains("<<<") { angle(rest) } else { (String::new(), "") }; let c = if rest.contains("<<<") { angle(rest).0 } else { String::new() }; f.arm = Some((a, b, c)); }
                else if let Some((k, r)) = ["@from ", "@past ", "@until "].iter().find_map(|k| t.strip_prefix(k).map(|r| (k, r))) { f.cuts.push((k[1..].trim().into(), angle(r).0)); }
                else if let Some(r) = t.strip_prefix("@loops ") { f.nloops = Some(r.trim().parse().unwrap()); }
                else if let Some(r) = t.strip_prefix("@opt ") { f.opts.extend(r.split_whitespace().map(|x| x.to_string())); }
                else if t == "@spec" { let g = grab(&mut i, false); f.spec.push_str(&g); }
                else if let Some(r) = t.strip_prefix("@loop ") {
                    let n = r.trim().parse().unwrap_or_else(|_| die(&format!("bad loop number {r}")));
                    let g = grab(&mut i, false);
                    f.loops.push((n, g));
                } else if let Some(r) = t.strip_prefix("@ghost ") {
                    let mut r = r.trim();
                    let mut optional = false;
                    if let Some(x) = r.strip_prefix("optional ") { r = x.trim(); optional = true; }
                    let nth = |rest: &str| -> usize { rest.trim().strip_prefix('#').map(|x| if x.trim() == "all" { usize::MAX } else { x.trim().parse().unwrap() }).unwrap_or(0) };
                    let w = if r == "start" { Where::Start }
                        else if r == "end" { Where::End }
                        else if let Some(x) = r.strip_prefix("loop ") {
                            let (n, k) = x.split_once(' ').unwrap_or_else(|| die("ghost loop N start|end|before|after"));
                            Where::Loop(n.parse().unwrap(), k.trim().into())
                        } else if let Some(x) = r.strip_prefix("before ") { let (a, rest) = angle(x); Where::Before(a, nth(rest)) }
                        else if let Some(x) = r.strip_prefix("after ") { let (a, rest) = angle(x); Where::After(a, nth(rest)) }
                        else { die(&format!("{path}: bad ghost position {r}")) };
                    let g = grab(&mut i, false);
                    f.ghosts.push((w, g, optional));
                } else if let Some(r) = t.strip_prefix("@rewrite ") {
                    let (r, opt) = match r.strip_prefix("optional ") { Some(x) => (x, true), None => (r, false) };
                    let (a, rest) = angle(r);
                    let (b, _) = angle(rest);
                    f.rewrites.push((a, b, opt));
                } else { die(&format!("{path}:{}: bad line in fn: {t}", i)); }
            }
            u.items.push(Item::Fn(f));
        } else {
            die(&format!("{path}:{}: bad line: {l}", i));
        }
    }
    u
}
