use super::*;
use crate::src_::*;
use dreammaker::ast::PathOp;
use dreammaker::indents::IndentProcessor;
use dreammaker::objtree::{NavigatePathResult, ObjectTree, TypeRef};
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Said { Var(bool, &'static str), Bare(&'static str), Parent(Option<String>), Proc(bool, &'static str), Nothing }

#[derive(Clone, Debug, Default)]
struct Known {
    /// name -> line of the value that counts (0: none given), line of the declaration
    vars: BTreeMap<&'static str, (u32, Option<u32>)>,
    /// name -> lines in calling order from the bottom, line of the declaration
    procs: BTreeMap<&'static str, (Vec<u32>, Option<u32>)>,
    parent: Option<Option<String>>,
}

const VARS: &[&str] = &["zq", "zr"];
const PROCS: &[&str] = &["zp", "zs"];

fn base(s: &mut dyn Src) -> &'static str {
    pick(s, &["/datum", "/obj", "/obj", "/mob", "", "/atom/movable", "/turf"])
}

struct Program { text: String, line: u32, said: Vec<(String, Said, u32)> }
impl Program {
    fn put(&mut self, depth: usize, t: &str) -> u32 {
        for _ in 0..depth { self.text.push('\t'); }
        self.text.push_str(t);
        self.text.push('\n');
        self.line += 1;
        self.line - 1
    }
    /// `lead`: what stands before the name; at: the type it is about
    fn say(&mut self, depth: usize, lead: &str, at: &str, what: Said) {
        let line = match &what {
            Said::Var(decl, n) => { let v = self.line; self.put(depth, &format!("{lead}{}{n} = {v}", if *decl { "var/" } else { "" })) },
            Said::Bare(n) => self.put(depth, &format!("{lead}var/{n}")),
            Said::Parent(p) => { let v = match p { Some(p) => p.clone(), None => "7".to_owned() }; self.put(depth, &format!("{lead}parent_type = {v}")) },
            Said::Proc(decl, n) => { let l = self.put(depth, &format!("{lead}{}{n}()", if *decl { "proc/" } else { "" })); self.put(depth + 1, "return 1"); l },
            Said::Nothing => return,
        };
        self.said.push((at.to_owned(), what, line));
    }
}

fn what(s: &mut dyn Src, paths: &[String]) -> Said {
    match s.below(10) {
        0..=1 => Said::Var(s.below(2) == 0, pick(s, VARS)),
        2..=4 => Said::Proc(s.below(3) == 0, pick(s, PROCS)),
        5..=8 => {
            let p = if s.below(12) == 0 { "/nosuch/type".to_owned() } else { paths[s.below(paths.len())].clone() };
            match s.below(9) { 0 => Said::Parent(None), 1 | 2 => Said::Parent(Some(format!("\"{p}\""))), _ => Said::Parent(Some(p)) }
        },
        _ => if s.below(2) == 0 { Said::Var(true, pick(s, VARS)) } else { Said::Bare(pick(s, VARS)) },
    }
}

fn block(s: &mut dyn Src, pr: &mut Program, depth: usize, at: &str, paths: &[String]) {
    let mut any = false;
    for _ in 0..1 + s.below(4) {
        if depth < 4 && s.below(5) == 0 {
            let n = pick(s, &["za", "zb", "zc"]);
            let rel = if s.below(4) == 0 { format!("{n}/za") } else { n.to_string() };
            pr.put(depth, &rel);
            block(s, pr, depth + 1, &format!("{at}/{rel}"), paths);
        } else {
            let w = what(s, paths);
            pr.say(depth, "", at, w);
        }
        any = true;
    }
    debug_assert!(any);
}

/// the parent as the rules have it, before cycles are broken; None: the root
fn wanted(path: &str, builtin: &BTreeMap<String, String>, known: &BTreeMap<String, Known>, types: &BTreeSet<String>) -> Option<String> {
    match path {
        "/datum" | "/list" | "/alist" | "/savefile" | "/world" | "/vector" | "/pixloc" | "/callee" | "/client" => return None,
        "/atom" => return Some("/datum".into()),
        "/turf" | "/area" => return Some("/atom".into()),
        "/obj" | "/mob" => return Some("/atom/movable".into()),
        _ => {},
    }
    let default = match path.rfind('/').unwrap() { 0 => "/datum".to_owned(), i => path[..i].to_owned() };
    match known.get(path).and_then(|k| k.parent.clone()).or(builtin.get(path).map(|p| Some(p.clone()))) {
        Some(Some(p)) => if types.contains(&p) { Some(p) } else { None },
        Some(None) | None => Some(default),
    }
}

pub const C11: Prop = Prop {
    id: "C11", enumerate: false, finite: false,
    rule: "a program of up to eight statements and blocks over ten type paths with vars, procs, overrides and parent_type (by path or string, unknown, circular); every lookup is compared with the text of the program",
    run: |s| {
        // ---- the program
        let mut paths: Vec<String> = vec![];
        for _ in 0..2 + s.below(6) {
            let mut p = base(s).to_owned();
            for _ in 0..1 + s.below(3) { p.push('/'); p.push_str(pick(s, &["za", "zb", "zc"])); }
            paths.push(p);
        }
        let mut refs = paths.clone();
        for extra in ["/obj", "/datum", "/mob", "/atom/movable"] { if s.below(4) == 0 { refs.push(extra.into()); } }
        let mut pr = Program { text: String::new(), line: 1, said: vec![] };
        let mut all: Vec<String> = vec![];
        for _ in 0..1 + s.below(8) {
            let at = if s.below(14) == 0 { "/atom/movable".to_owned() } else { paths[s.below(paths.len())].clone() };
            let k = s.below(3);
            if k == 0 {
                pr.put(0, &at);
                block(s, &mut pr, 1, &at, &refs);
            } else {
                let w = what(s, &refs);
                pr.say(0, &format!("{at}/"), &at, w);
            }
            all.push(at);
        }
        for p in &paths { if s.below(2) == 0 { pr.put(0, p); all.push(p.clone()); } }
        // a declaration at the very end of the file would carry the location of the end
        pr.put(0, "/datum/zlast");
        all.push("/datum/zlast".into());
        s.note(&|| format!("{:?}", pr.text));

        // ---- what the code makes of it
        let ctx = Context::default();
        let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), pr.text.clone());
        let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        let tree: &ObjectTree = &tree;
        let errors: Vec<String> = ctx.errors().iter().map(|e| e.description().to_owned()).collect();

        // ---- what the text says
        let builtin: BTreeMap<String, String> = tree.iter_types().filter(|t| t.location.is_builtins()).filter_map(|t| match t.vars.get("parent_type") {
            Some(v) if v.value.location.is_builtins() => v.value.constant.as_ref().map(|c| (t.path.clone(), c.to_string().trim_matches('"').to_owned())),
            _ => None,
        }).collect();
        let mut types: BTreeSet<String> = tree.iter_types().filter(|t| t.location.is_builtins()).map(|t| t.path.clone()).collect();
        let mut known: BTreeMap<String, Known> = BTreeMap::new();
        let mut add = |p: &str, types: &mut BTreeSet<String>| { let mut i = 0; while let Some(j) = p[i + 1..].find('/') { i += 1 + j; types.insert(p[..i].to_owned()); } types.insert(p.to_owned()); };
        for p in &all { add(p, &mut types); }
        for (at, w, line) in &pr.said {
            add(at, &mut types);
            let k = known.entry(at.clone()).or_default();
            match w {
                Said::Var(decl, n) => { let e = k.vars.entry(n).or_insert((0, None)); e.0 = *line; if *decl { e.1 = Some(*line); } },
                Said::Bare(n) => { k.vars.insert(n, (0, Some(*line))); },
                Said::Proc(decl, n) => {
                    let e = k.procs.entry(n).or_insert((vec![], None));
                    if *decl { e.0.insert(0, *line); e.1.get_or_insert(*line); } else { e.0.push(*line); }
                },
                Said::Parent(p) => k.parent = Some(p.as_ref().map(|p| p.trim_matches('"').to_owned())),
                Said::Nothing => {},
            }
        }
        types.remove("");
        // ---- types and paths
        let mut seen = BTreeSet::new();
        for t in tree.iter_types() { ensure!(seen.insert(t.path.clone()), "two types are called {}", t.path); }
        seen.remove("");
        // blocks without statements name types too
        for p in &types { ensure!(seen.contains(p), "{p} is missing"); }
        for p in &seen { if !types.contains(p) { ensure!(pr.text.contains("za") || false, "{p} came from nowhere"); types.insert(p.clone()); } }
        let get = |p: &str| tree.find(p);
        for p in &types {
            let Some(t) = get(p) else { return Err(format!("find({p}) finds nothing")) };
            ensure!(t.path == *p, "find({p}) finds {}", t.path);
            ensure!(t.name() == &p[p.rfind('/').unwrap() + 1..], "{p} has the name {}", t.name());
            let up = &p[..p.rfind('/').unwrap()];
            match t.parent_path() { Some(q) => ensure!(q.path == up, "the parent path of {p} is {}", q.path), None => return Err(format!("{p} has no parent path")) }
        }
        ensure!(tree.root().parent_path().is_none() && tree.root().parent_type().is_none(), "the root has a parent");
        ensure!(get("/za/nosuch").is_none() && get("/zz").is_none() && get("za").is_none(), "a type was found which is not there");

        // ---- parents
        let want: BTreeMap<&str, Option<String>> = types.iter().map(|p| (p.as_str(), wanted(p, &builtin, &known, &types))).collect();
        let circular = |p: &str| { let mut c = want[p].clone(); for _ in 0..types.len() { match c { Some(ref q) if q == p => return true, Some(q) => c = want[q.as_str()].clone(), None => return false } } false };
        let mut chains: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let (mut cut, mut moved) = (0, 0);
        for p in &types {
            let t = get(p).unwrap();
            let have = t.parent_type().map(|q| q.path.clone()).filter(|q| !q.is_empty());
            ensure!(t.parent_type().is_some(), "{p} has no parent type");
            if have != want[p.as_str()] {
                ensure!(have.is_none() && circular(p), "the parent type of {p} is {have:?}, should be {:?}", want[p.as_str()]);
                cut += 1;
                ensure!(errors.iter().any(|e| e.starts_with(&format!("{p} "))), "nothing was said about {p}, whose parent type was dropped");
            } else if known.get(p).is_some_and(|k| matches!(k.parent, Some(Some(_)))) { moved += 1; }
            ensure!(t.parent_type_without_root().map(|q| q.path.clone()) == have, "parent_type_without_root of {p}");
            let mut c = vec![];
            let mut at = Some(t);
            while let Some(x) = at { ensure!(c.len() <= types.len(), "{p} is above itself"); c.push(x.path.clone()); at = x.parent_type(); }
            let mut v = vec![];
            t.visit_parent_types(&mut |x: TypeRef| v.push(x.path.clone()));
            ensure!(v == c, "visit_parent_types of {p} visits {v:?}, should visit {c:?}");
            let v: Vec<String> = t.iter_parent_types().map(|x| x.path.clone()).collect();
            ensure!(v == c, "iter_parent_types of {p} visits {v:?}, should visit {c:?}");
            chains.insert(p.clone(), c);
        }
        chains.insert(String::new(), vec![String::new()]);
        if cut > 0 { s.nontrivial(); }
        if moved > 0 { s.nontrivial(); }

        // ---- everything below
        let mut some: BTreeSet<&str> = types.iter().filter(|p| p.contains("/z")).map(|p| p.as_str()).collect();
        for p in ["", "/datum", "/atom/movable", "/obj"] { some.insert(p); }
        for &p in &some {
            let t = get(p).unwrap();
            let mut v = vec![];
            t.recurse_types(&mut |x| v.push(x.path.clone()));
            let n = v.len();
            let set: BTreeSet<String> = v.into_iter().collect();
            ensure!(n == set.len(), "recurse_types of {p} visits something twice");
            let should: BTreeSet<String> = chains.iter().filter(|(_, c)| c.iter().any(|x| x == p)).map(|x| x.0.clone()).collect();
            ensure!(set == should, "recurse_types of {p:?} visits {:?} wrongly and misses {:?}", set.difference(&should).collect::<Vec<_>>(), should.difference(&set).collect::<Vec<_>>());
            let mut v = vec![];
            t.recurse(&mut |x| v.push(x.path.clone()));
            let n = v.len();
            let set: BTreeSet<String> = v.into_iter().collect();
            let should: BTreeSet<String> = chains.keys().filter(|q| p.is_empty() || *q == p || q.starts_with(&format!("{p}/"))).cloned().collect();
            ensure!(n == set.len() && set == should, "recurse of {p:?} visits {:?} wrongly and misses {:?}", set.difference(&should).collect::<Vec<_>>(), should.difference(&set).collect::<Vec<_>>());
            for &q in &some {
                let (u, b) = (get(q).unwrap(), chains[p].iter().any(|x| x == q));
                ensure!(t.is_subtype_of(&u) == b, "{p}.is_subtype_of({q}) is {}", !b);
                if !p.is_empty() && !q.is_empty() { ensure!(t.is_subpath_of(q) == (p == q || p.starts_with(&format!("{q}/"))), "{p}.is_subpath_of({q})"); }
            }
            let mut v = vec![];
            t.visit_parent_paths(&mut |x: TypeRef| v.push(x.path.clone()));
            let should: Vec<String> = std::iter::successors(Some(p), |x| if x.is_empty() { None } else { Some(&x[..x.rfind('/').unwrap()]) }).map(|x| x.to_owned()).collect();
            ensure!(v == should, "visit_parent_paths of {p} visits {v:?}");
            // relative paths
            for n in ["za", "zb", "zc"] {
                let has = |x: &str| { let c = format!("{x}/{n}"); types.contains(&c).then_some(c) };
                let got = t.navigate(PathOp::Slash, n).map(|x| x.path.clone());
                ensure!(got == has(p), "{p}/{n} is {got:?}");
                let got = t.navigate(PathOp::Dot, n).map(|x| x.path.clone());
                let want = should.iter().find_map(|x| has(x));
                ensure!(got == want, "{p}.{n} is {got:?}, should be {want:?}");
                let got = t.navigate(PathOp::Colon, n).map(|x| x.path.clone());
                let below = |x: &String| p.is_empty() || x == p || x.starts_with(&format!("{p}/"));
                match (&got, has(p)) {
                    (g, Some(c)) => ensure!(*g == Some(c), "{p}:{n} is {g:?}"),
                    (Some(g), None) => ensure!(types.contains(g) && g.ends_with(&format!("/{n}")) && below(&g[..g.rfind('/').unwrap()].to_owned()), "{p}:{n} is {g}"),
                    (None, None) => ensure!(!types.iter().any(|x| below(x) && has(x).is_some()), "{p}:{n} finds nothing"),
                }
            }
        }
        // ---- paths, piece by piece
        for _ in 0..6 {
            let names: Vec<&str> = (0..s.below(4)).map(|_| *pick(s, &["za", "zb", "zc", "obj", "datum", "list", "turf", "mob"])).collect();
            let mut at = String::new();
            let mut all = true;
            for n in &names { let c = format!("{at}/{n}"); if types.contains(&c) { at = c; if at == "/list" { break } } else { all = false; break } }
            let (exact, t) = tree.type_by_path_approx(&names);
            ensure!(exact == all && t.path == at, "type_by_path_approx of {names:?} is {exact}, {}", t.path);
            let t = tree.type_by_path(&names).map(|t| t.path.clone());
            ensure!(t == all.then(|| at.clone()), "type_by_path of {names:?} is {t:?}");
        }
        let here: Vec<&str> = some.iter().copied().collect();
        for _ in 0..8 {
            let t = get(here[s.below(here.len())]).unwrap();
            let pieces: Vec<(PathOp, &str)> = (0..s.below(4)).map(|_| (*pick(s, &[PathOp::Slash, PathOp::Dot, PathOp::Dot, PathOp::Colon]), *pick(s, &["za", "zb", "zc", "za", "obj", "datum", "proc", "verb", "zp"]))).collect();
            let mut at = Some(if pieces.first().is_some_and(|p| p.0 == PathOp::Slash) { tree.root() } else { t });
            let mut want = None;
            let mut i = 0;
            while let Some(x) = at {
                if i == pieces.len() { want = Some(x.path.clone()); break }
                if matches!(pieces[i].1, "proc" | "verb") {
                    want = if i + 1 < pieces.len() { x.get_proc(pieces[i + 1].1).map(|q| format!("{}/{}/{} {}", q.ty().path, pieces[i].1, q.name(), q.index())) } else { Some(format!("{}/{}", x.path, pieces[i].1)) };
                    break;
                }
                at = x.navigate(pieces[i].0, pieces[i].1);
                i += 1;
            }
            let found = t.navigate_path(&pieces);
            let got = found.map(|r| match r {
                NavigatePathResult::Type(x) => x.path.clone(),
                NavigatePathResult::ProcGroup(x, k) => format!("{}/{}", x.path, k.name()),
                NavigatePathResult::ProcPath(q, k) => format!("{}/{}/{} {}", q.ty().path, k.name(), q.name(), q.index()),
            });
            ensure!(got == want, "from {}, {pieces:?} leads to {got:?}, should lead to {want:?}", t.path);
            if let Some(r) = found {
                let p: Vec<String> = r.to_path().iter().map(|x| x.to_string()).collect();
                let p: String = p.iter().map(|x| format!("/{x}")).collect();
                let w = want.unwrap();
                ensure!(p == w.split(' ').next().unwrap(), "the path of {w} is {p}");
            }
        }
        // ---- vars and procs
        for &p in &some {
            let t = get(p).unwrap();
            let mut got: Vec<(String, usize, u32)> = t.iter_self_procs().filter(|x| x.name().starts_with('z')).map(|x| (x.name().to_owned(), x.index(), x.get().location.line)).collect();
            got.sort();
            let want: Vec<(String, usize, u32)> = known.get(p).map(|k| k.procs.iter().flat_map(|(n, v)| v.0.iter().enumerate().map(|(i, l)| (n.to_string(), i, *l)).collect::<Vec<_>>()).collect()).unwrap_or_default();
            ensure!(got == want, "the procs of {p} are {got:?}, should be {want:?}");
            for n in VARS {
                let want = chains[p].iter().find_map(|x| known.get(x).and_then(|k| k.vars.get(n)).map(|v| v.0));
                let got = t.get_value(n).map(|v| if v.expression.is_none() && v.constant.as_ref().map_or(true, |c| c.is_null()) { 0 } else { v.location.line });
                ensure!(got == want, "{p}: the value of {n} comes from line {got:?}, should come from {want:?}");
                let want = chains[p].iter().find_map(|x| known.get(x).and_then(|k| k.vars.get(n)).and_then(|v| v.1));
                let got = t.get_var_declaration(n).map(|v| v.location.line);
                ensure!(got == want, "{p}: the declaration of {n} comes from line {got:?}, should come from {want:?}");
            }
            for n in PROCS {
                let want: Vec<(String, u32)> = chains[p].iter().flat_map(|x| known.get(x).and_then(|k| k.procs.get(n)).map(|v| v.0.iter().rev().map(|l| (x.clone(), *l)).collect()).unwrap_or(vec![])).collect();
                let mut got = vec![];
                let mut at = t.get_proc(n);
                while let Some(x) = at {
                    ensure!(x.name() == *n, "a proc called {}", x.name());
                    ensure!(x.is_externally_visible() == (got.last().is_none_or(|l: &(String, u32)| l.0 != x.ty().path)), "{p}/{n}: is_externally_visible");
                    got.push((x.ty().path.clone(), x.get().location.line));
                    ensure!(got.len() < 100, "{p}: ..() of {n} never ends");
                    at = x.parent_proc();
                }
                ensure!(got == want, "{p}: calling {n} and then ..() runs {got:?}, should run {want:?}");
                if want.len() > 2 { s.nontrivial(); }
                let want = chains[p].iter().find_map(|x| known.get(x).and_then(|k| k.procs.get(n)).and_then(|v| v.1));
                let got = t.get_proc_declaration(n).map(|v| v.location.line);
                ensure!(got == want, "{p}: the declaration of {n} comes from line {got:?}, should come from {want:?}");
                // /path/proc/name
                let pieces: Vec<(PathOp, &str)> = p.split('/').skip(1).map(|x| (PathOp::Slash, x)).chain([(PathOp::Slash, "proc"), (PathOp::Slash, *n)]).collect();
                match tree.root().navigate_path(&pieces) {
                    Some(NavigatePathResult::ProcPath(x, _)) => ensure!(t.get_proc(n) == Some(x), "{p}/proc/{n} is {x:?}"),
                    None => ensure!(t.get_proc(n).is_none(), "{p}/proc/{n} is nothing"),
                    x => return Err(format!("{p}/proc/{n} is {x:?}")),
                }
                if let Some(x) = t.get_proc(n) {
                    let mut got = BTreeSet::new();
                    x.recurse_children(&mut |y| { got.insert((y.ty().path.clone(), y.get().location.line)); });
                    let want: BTreeSet<_> = chains.iter().filter(|(_, c)| c.contains(&x.ty().path)).filter_map(|(q, _)| known.get(q).and_then(|k| k.procs.get(n)).map(|v| (q.clone(), *v.0.last().unwrap()))).collect();
                    ensure!(got == want, "recurse_children of {p}/{n} visits {got:?}, should visit {want:?}");
                }
            }
        }
        Ok(())
    },
};
