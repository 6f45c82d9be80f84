//! Expansion of macro_rules! items defined inside a function body, in place.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

enum Pat { Tok(String), Group(Delimiter, Vec<Pat>), Frag(String, String), Rep(Vec<Pat>, Option<String>, bool) }
#[derive(Clone, Debug)]
enum Bind { One(TokenStream), Many(Vec<HashMap<String, Bind>>) }
pub struct Rule { pat: Vec<Pat>, body: TokenStream }
pub type Macros = HashMap<String, Vec<Rule>>;

fn parse_pat(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Group(g) => {
                    let inner = parse_pat(g.stream())?;
                    let (sep, n) = match v.get(i + 2)? {
                        TokenTree::Punct(p) if matches!(p.as_char(), '*' | '+' | '?') => (None, 3),
                        t => (Some(t.to_string()), 4),
                    };
                    let once = sep.is_none() && v[i + 2].to_string() == "?";
                    out.push(Pat::Rep(inner, sep, once));
                    i += n;
                }
                name => {
                    out.push(Pat::Frag(name.to_string(), v.get(i + 3)?.to_string()));
                    i += 4;
                }
            },
            TokenTree::Group(g) => { out.push(Pat::Group(g.delimiter(), parse_pat(g.stream())?)); i += 1; }
            t => { out.push(Pat::Tok(t.to_string())); i += 1; }
        }
    }
    Some(out)
}

/// number of tokens of the fragment `kind` at the start of v
fn frag(kind: &str, v: &[TokenTree]) -> Option<usize> {
    let pc = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    match kind {
        "ident" => matches!(v.first(), Some(TokenTree::Ident(_))).then_some(1),
        "tt" | "literal" | "block" => (!v.is_empty()).then_some(1),
        "lifetime" => (v.len() >= 2).then_some(2),
        _ => {
            let mut n = 0;
            while n < v.len() {
                let arrow = pc(n, '=') && pc(n + 1, '>') && matches!(&v[n], TokenTree::Punct(p) if p.spacing() == proc_macro2::Spacing::Joint);
                if arrow || pc(n, ',') || pc(n, ';') { break; }
                if kind == "pat" && matches!(&v[n], TokenTree::Ident(i) if i == "if") { break; }
                n += 1;
            }
            (n > 0).then_some(n)
        }
    }
}

fn matches(p: &[Pat], v: &[TokenTree], b: &mut HashMap<String, Bind>) -> Option<usize> {
    let mut i = 0;
    for x in p {
        match x {
            Pat::Tok(s) => { if v.get(i)?.to_string() != *s { return None; } i += 1; }
            Pat::Group(d, inner) => match v.get(i)? {
                TokenTree::Group(g) if g.delimiter() == *d => {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    if matches(inner, &w, b)? != w.len() { return None; }
                    i += 1;
                }
                _ => return None,
            },
            Pat::Frag(n, kind) => {
                let m = frag(kind, &v[i..])?;
                b.insert(n.clone(), Bind::One(v[i..i + m].iter().cloned().collect()));
                i += m;
            }
            Pat::Rep(inner, sep, once) => {
                let mut all = vec![];
                loop {
                    let mut at = i;
                    if let (Some(s), false) = (sep, all.is_empty()) {
                        match v.get(at) { Some(t) if t.to_string() == *s => at += 1, _ => break }
                    }
                    let mut m = HashMap::new();
                    match matches(inner, &v[at..], &mut m) {
                        Some(used) if used > 0 => { all.push(m); i = at + used; }
                        _ => break,
                    }
                    if *once { break; }
                }
                let mut names = vec![];
                frag_names(inner, &mut names);
                for n in names { b.insert(n, Bind::Many(all.clone())); }
            }
        }
    }
    Some(i)
}
fn frag_names(p: &[Pat], out: &mut Vec<String>) {
    for x in p { match x { Pat::Frag(n, _) => out.push(n.clone()), Pat::Group(_, g) | Pat::Rep(g, _, _) => frag_names(g, out), _ => {} } }
}

fn transcribe(ts: TokenStream, b: &HashMap<String, Bind>) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Group(g) => {
                    let (sep, n) = match v.get(i + 2)? {
                        TokenTree::Punct(p) if matches!(p.as_char(), '*' | '+' | '?') => (None, 3),
                        t => (Some(t.clone()), 4),
                    };
                    let mut used = vec![];
                    vars(g.stream(), &mut used);
                    let many = used.iter().find_map(|n| match b.get(n) { Some(Bind::Many(m)) => Some(m.clone()), _ => None })?;
                    for (k, m) in many.iter().enumerate() {
                        if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                        let mut bb = b.clone();
                        bb.extend(m.clone());
                        out.extend(transcribe(g.stream(), &bb)?);
                    }
                    i += n;
                }
                name => {
                    match b.get(&name.to_string())? { Bind::One(t) => out.extend(t.clone()), _ => return None }
                    i += 2;
                }
            },
            TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), transcribe(g.stream(), b)?); h.set_span(g.span()); out.extend([TokenTree::Group(h)]); i += 1; }
            t => { out.extend([t.clone()]); i += 1; }
        }
    }
    Some(out)
}
fn vars(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => if let Some(TokenTree::Ident(n)) = v.get(i + 1) { out.push(n.to_string()) },
            TokenTree::Group(g) => vars(g.stream(), out),
            _ => {}
        }
    }
}

/// collects and removes `macro_rules! name { .. }` (also without the trailing `;`)
fn collect(ts: TokenStream, m: &mut Macros) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(a), Some(TokenTree::Punct(_)), Some(TokenTree::Ident(n)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2), v.get(i + 3)) {
            if a == "macro_rules" {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut rules = vec![];
                let mut k = 0;
                while k + 3 < w.len() {
                    if let (TokenTree::Group(p), TokenTree::Group(b)) = (&w[k], &w[k + 3]) {
                        if let Some(pat) = parse_pat(p.stream()) { rules.push(Rule { pat, body: b.stream() }); }
                    }
                    k += 4;
                    if matches!(w.get(k), Some(TokenTree::Punct(p)) if p.as_char() == ';') { k += 1; }
                }
                m.insert(n.to_string(), rules);
                i += 4;
                if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') && g.delimiter() != Delimiter::Brace { i += 1; }
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), collect(g.stream(), m)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn expand(ts: TokenStream, m: &Macros, done: &mut Vec<String>, depth: usize) -> Result<TokenStream, String> {
    if depth > 40 { return Err("macro recursion".into()); }
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(n), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if p.as_char() == '!' {
                if let Some(rules) = m.get(&n.to_string()) {
                    let args: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut res = None;
                    for r in rules {
                        let mut b = HashMap::new();
                        if matches(&r.pat, &args, &mut b) == Some(args.len()) { res = transcribe(r.body.clone(), &b); break; }
                    }
                    let body = res.ok_or_else(|| format!("no rule of macro {n} matches {}", g.stream()))?;
                    let body = expand(body, m, done, depth + 1)?;
                    if !done.contains(&n.to_string()) { done.push(n.to_string()); }
                    i += 3;
                    if syn::parse2::<syn::Expr>(body.clone()).is_ok() {
                        out.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, body))]);
                    } else {
                        out.extend(body);
                        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
                    }
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), expand(g.stream(), m, done, depth)?))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Ok(out)
}

/// -> names of the macros expanded
pub fn expand_local(block: &mut syn::Block, file: Option<&syn::File>) -> Result<Vec<String>, String> {
    use quote::ToTokens;
    let mut m = Macros::new();
    if let Some(f) = file { collect_items(&f.items, &mut m); }
    let ts = collect(block.to_token_stream(), &mut m);
    if m.is_empty() { return Ok(vec![]); }
    let mut done = vec![];
    let ts = expand(ts, &m, &mut done, 0)?;
    *block = syn::parse2(ts.clone()).map_err(|e| format!("after macro expansion: {e}: {ts}"))?;
    Ok(done)
}

fn collect_items(items: &[syn::Item], m: &mut Macros) {
    use quote::ToTokens;
    for it in items { if let syn::Item::Macro(x) = it { if x.mac.path.is_ident("macro_rules") { collect(x.to_token_stream(), m); } } }
}
/// items produced by item-position uses of the file's own macros
pub fn expand_items(file: &syn::File) -> Vec<syn::Item> {
    let mut m = Macros::new();
    collect_items(&file.items, &mut m);
    let mut out = vec![];
    for it in &file.items {
        if let syn::Item::Macro(x) = it {
            let Some(n) = x.mac.path.get_ident().map(|i| i.to_string()) else { continue };
            let Some(rules) = m.get(&n) else { continue };
            let args: Vec<TokenTree> = x.mac.tokens.clone().into_iter().collect();
            for r in rules {
                let mut b = HashMap::new();
                if matches(&r.pat, &args, &mut b) != Some(args.len()) { continue; }
                let Some(body) = transcribe(r.body.clone(), &b) else { break };
                if let Ok(ts) = expand(body, &m, &mut vec![], 0) {
                    if let Ok(f) = syn::parse2::<syn::File>(ts) { out.extend(f.items); }
                }
                break;
            }
        }
    }
    out
}
