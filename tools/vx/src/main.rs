//! vx: mechanical extraction of functions from the repository under test into a
//! single Verus file, with contracts spliced in from a unit file.
//!
//! Usage: vx UNIT.vx --repo /repo --out OUT.rs --report OUT.json
//!
//! Exit 0: extracted. Exit 3: the source no longer has the shape the unit
//! annotates (missing function, lost anchor, loop count changed): message on
//! stderr, one line, prefix "vx: ".

mod macros;
mod rewrite;
mod unit;

use std::collections::BTreeMap;
use std::fs;
use std::process::{Command, Stdio};
use std::io::Write;

use quote::ToTokens;
use syn::spanned::Spanned;

use unit::*;

pub fn die(msg: &str) -> ! {
    eprintln!("vx: {}", msg.replace('\n', " "));
    std::process::exit(3);
}

pub struct Source {
    pub path: String,
    pub file: syn::File,
}

/// A function found in a source file.
#[derive(Clone)]
pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub imp: Option<syn::ItemImpl>,
    pub line: usize,
    pub end_line: usize,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && s.contains("test") || s == "# [test]"
    })
}

fn type_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => ty.to_token_stream().to_string(),
    }
}

impl Source {
    fn items(&self) -> Vec<&syn::Item> {
        fn walk<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
            for it in items {
                let attrs: &[syn::Attribute] = match it {
                    syn::Item::Fn(f) => &f.attrs,
                    syn::Item::Mod(m) => &m.attrs,
                    syn::Item::Impl(m) => &m.attrs,
                    _ => &[],
                };
                if is_test(attrs) { continue; }
                if let syn::Item::Mod(m) = it {
                    let verif = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("spacemandmm_verif"));
                    if !verif {
                        if let Some((_, items)) = &m.content { walk(items, out); }
                    }
                } else {
                    out.push(it);
                }
            }
        }
        let mut out = vec![];
        walk(&self.file.items, &mut out);
        out
    }

    /// all functions: (type name or "", trait name or "", fn name)
    pub fn functions(&self) -> Vec<((String, String, String), Found)> {
        let mut out = vec![];
        for it in self.items() {
            match it {
                syn::Item::Fn(f) => out.push((
                    (String::new(), String::new(), f.sig.ident.to_string()),
                    Found { sig: f.sig.clone(), block: (*f.block).clone(), imp: None,
                        line: f.span().start().line, end_line: f.span().end().line },
                )),
                syn::Item::Impl(imp) => {
                    let ty = type_name(&imp.self_ty);
                    let tr = imp.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                    for ii in &imp.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) { continue; }
                            out.push((
                                (ty.clone(), tr.clone(), f.sig.ident.to_string()),
                                Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(imp.clone()),
                                    line: f.span().start().line, end_line: f.span().end().line },
                            ));
                        }
                    }
                }
                // default bodies of a trait's methods
                syn::Item::Trait(t) => for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti { if let Some(b) = &f.default {
                        out.push((
                            (t.ident.to_string(), String::new(), f.sig.ident.to_string()),
                            Found { sig: f.sig.clone(), block: b.clone(), imp: None, line: f.span().start().line, end_line: f.span().end().line },
                        ));
                    } }
                },
                _ => {}
            }
        }
        out
    }

    /// path: "fn", "Type::fn" or "Type.Trait::fn"
    fn find_fn(&self, path: &str) -> Option<Found> {
        let (ty, f) = match path.rsplit_once("::") { Some((a, b)) => (a, b), None => ("", path) };
        let (ty, tr) = match ty.split_once('.') { Some((a, b)) => (a, Some(b)), None => (ty, None) };
        self.functions().into_iter().find(|((t, r, n), _)| t == ty && n == f && match tr { Some(x) => x == r || r.split('<').next() == Some(x), None => true }).map(|x| x.1)
    }
}

fn strip_item_attrs(attrs: &mut Vec<syn::Attribute>) { attrs.clear(); }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut unit_path = String::new();
    let (mut repo, mut out, mut report) = ("/repo".to_string(), "out.rs".to_string(), "out.json".to_string());
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone(); i += 1; }
            "--out" => { out = args[i + 1].clone(); i += 1; }
            "--probe" => { rewrite::PROBE.with(|p| p.set(true)); }
            "--report" => { report = args[i + 1].clone(); i += 1; }
            x => unit_path = x.to_string(),
        }
        i += 1;
    }
    let text = fs::read_to_string(&unit_path).unwrap_or_else(|e| die(&format!("{unit_path}: {e}")));
    let unit = unit::parse(&text, &unit_path);

    let mut sources: BTreeMap<String, Source> = BTreeMap::new();
    for (alias, path) in &unit.sources {
        let full = format!("{repo}/{path}");
        let txt = fs::read_to_string(&full).unwrap_or_else(|e| die(&format!("{full}: {e}")));
        let mut file = syn::parse_file(&txt).unwrap_or_else(|e| die(&format!("{full}: {e}")));
        let more = macros::expand_items(&file);
        file.items.extend(more);
        sources.insert(alias.clone(), Source { path: path.clone(), file });
    }
    let src = |alias: &str| sources.get(alias).unwrap_or_else(|| die(&format!("unknown source alias {alias}")));

    let mut known: Vec<(String, String)> = vec![]; // (type, fn) with contract or trusted text
    for it in &unit.items {
        if let Item::Fn(f) = it {
            let p = f.path.split_once("::").map(|x| x.1).unwrap_or(&f.path);
            let (ty, n) = match p.rsplit_once("::") { Some((a, b)) => (a.split('.').next().unwrap(), b), None => ("", p) };
            known.push((ty.to_string(), n.to_string()));
        }
        if let Item::Type { path, .. } = it { known.push((String::new(), path.rsplit("::").next().unwrap().to_string())); }
    }
    for k in &unit.known { 
        let (ty, n) = match k.rsplit_once("::") { Some((a, b)) => (a, b), None => ("", k.as_str()) };
        known.push((ty.to_string(), n.to_string()));
    }

    // placeholders: index -> text
    let mut texts: Vec<String> = vec![];
    let mut body = String::new(); // rust text to be formatted
    let mut rep: Vec<String> = vec![];
    let mut verbatims: Vec<String> = vec![];
    for it in &unit.items {
        match it {
            Item::Verbatim(t) => {
                body.push_str(&format!("__vx_verbatim!({});\n", verbatims.len()));
                verbatims.push(t.clone());
            }
            Item::Type { path, derives, replaces, fields, ordinal, ensures } => {
                let (alias, name) = path.split_once("::").unwrap_or_else(|| die("type path"));
                let s = src(alias);
                let mut found = false;
                let mut ordinals = String::new();
                for item in s.items() {
                    // comparisons stay the derived ones
                    if let Some((n, attrs)) = match item { syn::Item::Struct(x) => Some((&x.ident, &x.attrs)), syn::Item::Enum(x) => Some((&x.ident, &x.attrs)), _ => None } {
                        if n == name {
                            let mut has: Vec<String> = vec![];
                            for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { has.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
                            for d in derives.split(',').map(str::trim).chain(if *ordinal { vec!["PartialOrd", "Ord"] } else { vec![] }) {
                                if ["PartialEq", "PartialOrd", "Ord"].contains(&d) && !has.iter().any(|h| h == d) { die(&format!("{path}: the source does not derive {d}")); }
                            }
                        }
                    }
                    let text = match item {
                        syn::Item::Struct(x) if x.ident == name => {
                            let mut x = x.clone();
                            strip_item_attrs(&mut x.attrs);
                            x.vis = syn::parse_quote!(pub);
                            for f in x.fields.iter_mut() { f.attrs.clear(); f.vis = syn::parse_quote!(pub); }
                            if let (Some(keep), syn::Fields::Named(n)) = (fields, &mut x.fields) {
                                for k in keep { if !n.named.iter().any(|f| f.ident.as_ref().unwrap() == k) { die(&format!("{path}: no field {k}")); } }
                                let all = std::mem::take(&mut n.named);
                                n.named = all.into_iter().filter(|f| keep.iter().any(|k| f.ident.as_ref().unwrap() == k)).collect();
                            }
                            x.to_token_stream()
                        }
                        syn::Item::Enum(x) if x.ident == name => {
                            let mut x = x.clone();
                            strip_item_attrs(&mut x.attrs);
                            x.vis = syn::parse_quote!(pub);
                            for v in x.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                            if *ordinal {
                                ordinals = format!(r#"
impl {name} {{ pub open spec fn vx_ordinal(self) -> int {{ match self {{ {rows} }} }} }}
pub open spec fn vx_order_{name}(a: {name}, b: {name}) -> core::cmp::Ordering {{ if a.vx_ordinal() < b.vx_ordinal() {{ core::cmp::Ordering::Less }} else if a.vx_ordinal() == b.vx_ordinal() {{ core::cmp::Ordering::Equal }} else {{ core::cmp::Ordering::Greater }} }}
impl core::cmp::PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ unimplemented!() }} }}
impl core::cmp::Ord for {name} {{ #[verifier::external_body] fn cmp(&self, o: &{name}) -> core::cmp::Ordering {{ unimplemented!() }} }}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ Some(vx_order_{name}(*self, *o)) }}
}}
impl vstd::std_specs::cmp::OrdSpecImpl for {name} {{
    open spec fn obeys_cmp_spec() -> bool {{ true }}
    open spec fn cmp_spec(&self, o: &{name}) -> core::cmp::Ordering {{ vx_order_{name}(*self, *o) }}
}}
"#, rows = x.variants.iter().enumerate().map(|(i, v)| format!("{name}::{} => {i},", v.ident)).collect::<String>());
                            }
                            x.to_token_stream()
                        }
                        syn::Item::Const(x) if x.ident == name => {
                            let mut x = x.clone();
                            strip_item_attrs(&mut x.attrs);
                            x.vis = syn::parse_quote!(pub);
                            x.to_token_stream()
                        }
                        syn::Item::Type(x) if x.ident == name => {
                            let mut x = x.clone();
                            strip_item_attrs(&mut x.attrs);
                            x.vis = syn::parse_quote!(pub);
                            x.to_token_stream()
                        }
                        _ => continue,
                    };
                    found = true;
                    if !derives.is_empty() { body.push_str(&format!("#[derive({derives})]\n")); }
                    let mut text = text.to_string();
                    for (a, b) in replaces {
                        let (t, n) = rewrite::replace_tokens(&text, a, b);
                        if n == 0 { die(&format!("{path}: rewrite pattern {a} not found")); }
                        text = t;
                    }
                    match (ensures, text.strip_suffix(';').and_then(|t| t.split_once('='))) {
                        (Some(e), Some((head, value))) => {
                            // a constant with a contract: its initialiser is checked as a function body
                            body.push_str(&format!("__vx_verbatim!({});\n", verbatims.len()));
                            verbatims.push(format!("{}\n    ensures {}\n{{\n{}\n}}\n", head.replace("pub const", "pub exec const"), e, value.replace("} ) ,", "} ) ,\n")));
                        }
                        (Some(_), None) => die(&format!("{path}: not a constant")),
                        _ => {
                            body.push_str(&text);
                            body.push('\n');
                        }
                    }
                    if !ordinals.is_empty() {
                        body.push_str(&format!("__vx_verbatim!({});\n", verbatims.len()));
                        verbatims.push(std::mem::take(&mut ordinals));
                    }
                    rep.push(format!("{{\"kind\":\"type\",\"name\":{:?},\"file\":{:?}}}", path, s.path));
                }
                if !found {
                    // Type::CONST
                    if let Some((ty, c)) = name.split_once("::") {
                        for item in s.items() {
                            if let syn::Item::Impl(imp) = item {
                                if type_name(&imp.self_ty) != ty { continue; }
                                for ii in &imp.items {
                                    if let syn::ImplItem::Const(k) = ii {
                                        if k.ident != c { continue; }
                                        let (n, t, e) = (&k.ident, &k.ty, &k.expr);
                                        body.push_str(&format!("impl {ty} {{ pub const {n}: {} = {}; }}\n", t.to_token_stream(), e.to_token_stream()));
                                        found = true;
                                    }
                                }
                            }
                        }
                    }
                }
                if !found { die(&format!("type {path} not found")); }
            }
            Item::Table(path) => {
                let (alias, name) = path.split_once("::").unwrap_or_else(|| die("table path"));
                let s = src(alias);
                let init = s.items().into_iter().find_map(|i| match i {
                    syn::Item::Const(x) if x.ident == name => Some((*x.expr).clone()),
                    syn::Item::Static(x) if x.ident == name => Some((*x.expr).clone()),
                    _ => None,
                }).unwrap_or_else(|| die(&format!("table {path} not found")));
                fn strip(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Reference(r) => strip(&r.expr), syn::Expr::Group(g) => strip(&g.expr), syn::Expr::Paren(g) => strip(&g.expr), e => e } }
                let syn::Expr::Array(arr) = strip(&init) else { die(&format!("table {path}: not an array")) };
                let mut rows = String::new();
                let (mut st, mut et, mut rel) = (vec![], vec![], String::new());
                for (k, row) in arr.elems.iter().enumerate() {
                    let syn::Expr::Tuple(t) = strip(row) else { die(&format!("table {path}: row is not a tuple")) };
                    let mut cells = vec![];
                    for (c, cell) in t.elems.iter().enumerate() {
                        let (spec, sty, ety, eq) = match strip(cell) {
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => (format!("seq![{}]", l.value().bytes().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", ")), "Seq<u8>".to_string(), "VxText".to_string(), format!("r@[i].{c}@ == {name}_seq()[i].{c}")),
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => (format!("{}int", l.base10_digits()), "int".into(), "usize".into(), format!("r@[i].{c} == {name}_seq()[i].{c}")),
                            syn::Expr::Path(p) if p.path.segments.len() == 2 => { let ty = p.path.segments[0].ident.to_string(); (format!("{ty}::{}", p.path.segments[1].ident), ty.clone(), ty, format!("r@[i].{c} == {name}_seq()[i].{c}")) }
                            e => die(&format!("table {path}: cell not understood: {}", e.to_token_stream())),
                        };
                        cells.push(spec);
                        if k == 0 { st.push(sty); et.push(ety); if c > 0 { rel.push_str(" && "); } rel.push_str(&eq); }
                    }
                    rows.push_str(&format!("    ({}),\n", cells.join(", ")));
                }
                body.push_str(&format!("__vx_verbatim!({});\n", verbatims.len()));
                verbatims.push(format!("/// the elements of {name}\n#[verifier::opaque]\npub open spec fn {name}_seq() -> Seq<({})> {{ seq![\n{rows}] }}\n/// {name} itself\n#[verifier::external_body]\npub fn vx_{name}() -> (r: &'static [({})])\n    ensures r@.len() == {name}_seq().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == r@[i] && {rel},\n{{ unimplemented!() }}\n",
                    st.join(", "), et.join(", ")));
                rep.push(format!("{{\"kind\":\"type\",\"name\":{:?},\"file\":{:?}}}", path, s.path));
            }
            Item::Fn(f) => {
                let (alias, p) = f.path.split_once("::").unwrap_or_else(|| die("fn path"));
                let s = src(alias);
                let found = s.find_fn(p).unwrap_or_else(|| die(&format!("function {} not found in {}", p, s.path)));
                let (text, info) = rewrite::emit_fn(f, &found, s, &known, &mut texts);
                let fname = p.rsplit("::").next().unwrap();
                body.push_str(&format!("__vx_begin!({:?});\n{}\n__vx_end!();\n", f.path, text));
                rep.push(format!(
                    "{{\"kind\":\"fn\",\"name\":{:?},\"fn\":{:?},\"file\":{:?},\"line\":{},\"end_line\":{},\"rewrites\":{:?}}}",
                    p, fname, s.path, found.line, found.end_line, info));
            }
        }
    }
    // constants used but not listed: emitted automatically (see rewrite::consts)
    let mut auto = String::new();
    for c in rewrite::take_auto_consts() { auto.push_str(&c); auto.push('\n'); }
    body = format!("{auto}{body}");

    let formatted = rustfmt(&body);
    // substitute placeholders
    let mut res = formatted;
    res = sub_begin_end(&res);
    // loops/specs: "{ __vx_spec!(k);" -> " SPEC {"
    loop {
        let Some(pos) = res.find("__vx_hdr!(") else { break };
        let end = res[pos..].find(")").unwrap() + pos;
        let k: usize = res[pos + "__vx_hdr!(".len()..end].trim().parse().unwrap();
        let mut tail = end + 1;
        if res[tail..].starts_with(';') { tail += 1; }
        let brace = res[..pos].rfind('{').unwrap();
        assert!(res[brace + 1..pos].trim().is_empty());
        res = format!("{}\n{}\n{{{}", res[..brace].trim_end(), texts[k], &res[tail..]);
    }
    loop {
        let Some(pos) = res.find("__vx_ghost!(") else { break };
        let end = res[pos..].find(")").unwrap() + pos;
        let k: usize = res[pos + "__vx_ghost!(".len()..end].trim().parse().unwrap();
        let mut tail = end + 1;
        if res[tail..].starts_with(';') { tail += 1; }
        res = format!("{}{}{}", &res[..pos], texts[k], &res[tail..]);
    }
    res = res.replace("__vx_ret ! (", "__vx_ret!(");
    loop {
        let Some(pos) = res.find("__vx_ret!") else { break };
        let open = pos + "__vx_ret!".len();
        let b = res.as_bytes();
        let mut depth = 0; let mut j = open;
        loop {
            match b[j] { b'(' | b'[' | b'{' => depth += 1, b')' | b']' | b'}' => { depth -= 1; if depth == 0 { break; } } _ => {} }
            j += 1;
        }
        let inner = res[open + 1..j].trim().to_string();
        let (n, t) = inner.split_once(',').unwrap();
        res = format!("{}({}: {}){}", &res[..pos], n.trim(), t.trim().trim_end_matches(','), &res[j + 1..]);
    }
    for (k, v) in verbatims.iter().enumerate() {
        let ph = format!("__vx_verbatim!({k});");
        if !res.contains(&ph) { die("verbatim placeholder lost"); }
        res = res.replace(&ph, v);
    }
    let full = format!(
        "// generated by vx from {unit_path}; do not edit\n#![allow(warnings)]\n{}\nverus! {{\n{}\n}} // verus!\nfn main() {{}}\n",
        unit.header, res);
    let full = if unit.plain { format!("// generated by vx from {unit_path}; do not edit\n#![allow(warnings)]\n{}\n{}\nfn main() {{}}\n", unit.header, res) } else { full };
    fs::write(&out, full).unwrap();
    fs::write(&report, format!("[{}]\n", rep.join(",\n"))).unwrap();
}

pub fn norm(s: &str) -> String {
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => t.to_string(),
        Err(e) => die(&format!("cannot tokenize {s:?}: {e}")),
    }
}

fn sub_begin_end(s: &str) -> String {
    let mut out = String::new();
    for l in s.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("__vx_begin!(") {
            out.push_str(&format!("// vx-begin {}\n", r.trim_end_matches(';').trim_end_matches(')').trim_matches('"')));
        } else if t.starts_with("__vx_end!(") {
            out.push_str("// vx-end\n");
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn rustfmt(s: &str) -> String {
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped())
        .spawn().unwrap_or_else(|e| die(&format!("rustfmt: {e}")));
    let mut stdin = ch.stdin.take().unwrap();
    let data = s.to_string();
    let h = std::thread::spawn(move || { let _ = stdin.write_all(data.as_bytes()); });
    let o = ch.wait_with_output().unwrap();
    h.join().unwrap();
    if !o.status.success() {
        fs::write("/tmp/vx-unformatted.rs", s).ok();
        die(&format!("rustfmt failed: {}", String::from_utf8_lossy(&o.stderr)));
    }
    String::from_utf8(o.stdout).unwrap()
}
