//! Source-to-source steps applied to one extracted function. Each applied step
//! is recorded by name in the report.

use std::cell::RefCell;

use quote::{quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

use crate::unit::*;
use crate::{die, norm, Found, Source};

thread_local! {
    static AUTO: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) };
}

pub fn take_auto_consts() -> Vec<String> {
    AUTO.with(|a| a.borrow_mut().drain(..).map(|x| x.1).collect())
}

fn ghost(k: usize) -> Stmt { let k = proc_macro2::Literal::usize_unsuffixed(k); parse_quote!(__vx_ghost!(#k);) }
fn hdr(k: usize) -> Stmt { let k = proc_macro2::Literal::usize_unsuffixed(k); parse_quote!(__vx_hdr!(#k);) }

// ---------------------------------------------------------------- inlining

struct Inliner<'a> {
    ty: String,
    src: &'a Source,
    known: &'a [(String, String)],
    depth: usize,
    done: Vec<String>,
    n: usize,
}

struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Inliner<'_> {
    fn lookup(&self, ty: &str, name: &str) -> Option<Found> {
        if self.known.iter().any(|(t, n)| n == name && (t == ty || t == "*")) { return None; }
        self.src.functions().into_iter().find(|((t, tr, n), _)| t == ty && tr.is_empty() && n == name).map(|x| x.1)
    }
    fn build(&mut self, f: Found, args: Vec<Expr>, name: &str) -> Option<Expr> {
        let mut blk = f.block.clone();
        let mut h = HasReturn(false);
        h.visit_block_mut(&mut blk);
        if h.0 || self.depth > 3 { die(&format!("helper {name} has no contract and cannot be inlined")); }
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for (i, p) in f.sig.inputs.iter().enumerate() {
            match p {
                syn::FnArg::Receiver(_) => {}
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let id = quote::format_ident!("vx_arg{}_{}", self.n, i);
                    let (pat, ty) = (&t.pat, &t.ty);
                    stmts.push(parse_quote!(let #id = #a;));
                    if ty.to_token_stream().to_string().contains("impl ") {
                        binds.push(parse_quote!(let #pat = #id;));
                    } else {
                        binds.push(parse_quote!(let #pat: #ty = #id;));
                    }
                }
            }
        }
        self.n += 1;
        stmts.extend(binds);
        stmts.extend(blk.stmts);
        let mut out: Expr = parse_quote!({ #(#stmts)* });
        self.done.push(name.to_string());
        self.depth += 1;
        self.visit_expr_mut(&mut out);
        self.depth -= 1;
        Some(out)
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if !is_self || self.ty.is_empty() { return; }
                let name = m.method.to_string();
                let ty = self.ty.clone();
                match self.lookup(&ty, &name) {
                    Some(f) => self.build(f, m.args.iter().cloned().collect(), &name),
                    None => None,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let (ty, name) = match segs.as_slice() {
                    [n] => (String::new(), n.clone()),
                    [t, n] if t == "Self" => (self.ty.clone(), n.clone()),
                    [t, n] => (t.clone(), n.clone()),
                    _ => return,
                };
                match self.lookup(&ty, &name) {
                    Some(f) => {
                        if f.sig.receiver().is_some() { return; }
                        self.build(f, c.args.iter().cloned().collect(), &name)
                    }
                    None => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}

// ---------------------------------------------------------------- desugaring

/// the closure of X.m(A, &mut |p| B), unless it returns
fn visitor(m: &syn::ExprMethodCall) -> Option<(syn::Pat, Expr)> {
    let Some(Expr::Reference(r)) = m.args.last() else { return None };
    let (Some(_), Expr::Closure(c)) = (r.mutability, &*r.expr) else { return None };
    if c.inputs.len() != 1 { return None; }
    struct Ret(bool);
    impl VisitMut for Ret { fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Return(_) | Expr::Try(_)) { self.0 = true; } visit_mut::visit_expr_mut(self, e); } }
    let mut ret = Ret(false);
    let mut b = (*c.body).clone();
    ret.visit_expr_mut(&mut b);
    if ret.0 { return None; }
    Some((c.inputs[0].clone(), b))
}

struct Desugar { opts: Vec<String>, done: Vec<String>, n: usize, this: bool }

impl Desugar {
    fn has(&self, o: &str) -> bool { self.opts.iter().any(|x| x == o) }
    fn note(&mut self, s: &str) { if !self.done.iter().any(|x| x == s) { self.done.push(s.to_string()); } }
}

impl Desugar {
    fn ref_arms(&mut self, e: &mut Expr) {
        match e {
            Expr::Paren(p) => self.ref_arms(&mut p.expr),
            Expr::Match(m) => for a in m.arms.iter_mut() {
                if a.guard.is_none() {
                    let mut r = RefPats(vec![]);
                    r.visit_pat_mut(&mut a.pat);
                    if !r.0.is_empty() { let b = &a.body; let n = &r.0; self.note("ref-pattern-to-deref"); *a.body = parse_quote!({ #(let #n = *#n;)* #b }); }
                }
            },
            _ => {}
        }
    }
}
struct PatIdents(Vec<syn::Ident>);
impl<'a> syn::visit::Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) { if i.by_ref.is_none() { self.0.push(i.ident.clone()); } }
}
struct RefPats(Vec<syn::Ident>);
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let syn::Pat::Reference(r) = p {
            if r.mutability.is_none() && matches!(&*r.pat, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_) | syn::Pat::Paren(_)) {
                let mut b = PatIdents(vec![]);
                b.visit_pat(&r.pat);
                self.0.extend(b.0);
                *p = (*r.pat).clone();
                return;
            }
            if let syn::Pat::Ident(i) = &*r.pat { if i.by_ref.is_none() && i.subpat.is_none() && r.mutability.is_none() { self.0.push(i.ident.clone()); let n = &i.ident; *p = parse_quote!(#n); } }
        }
    }
}
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e } }
/// a closure body with `return` or `?` cannot be inlined
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Return(_) | Expr::Try(_)) { self.0 = true; } visit_mut::visit_expr_mut(self, e); }
    }
    let mut v = V(false);
    v.visit_expr_mut(&mut e.clone());
    v.0
}
fn closure0(e: &Expr) -> Option<Expr> {
    match e { Expr::Closure(c) if c.inputs.is_empty() && !leaves(&c.body) => Some((*c.body).clone()), _ => None }
}
fn closure1(e: &Expr) -> Option<(syn::Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = match &c.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            if leaves(&c.body) { return None; }
            Some((p, (*c.body).clone()))
        }
        _ => None,
    }
}

fn vec_of_tokens(ts: proc_macro2::TokenStream) -> Option<Vec<Expr>> {
    use syn::punctuated::Punctuated;
    let p = syn::parse::Parser::parse2(Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts).ok()?;
    Some(p.into_iter().collect())
}

struct LetClosure { name: syn::Ident, c: syn::ExprClosure, other: bool }
impl VisitMut for LetClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(k) = e {
            if matches!(&*k.func, Expr::Path(p) if p.path.is_ident(&self.name)) && k.args.len() == self.c.inputs.len() {
                for a in k.args.iter_mut() { self.visit_expr_mut(a); }
                let body = &self.c.body;
                let binds: Vec<Stmt> = self.c.inputs.iter().zip(k.args.iter()).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                *e = parse_quote!({ #(#binds)* #body });
                return;
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.name)) { self.other = true; }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for Desugar {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macro statements -> expression statements so the rules below see them
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if !name.starts_with("__vx") {
                let mac = m.mac.clone();
                if m.semi_token.is_some() && ["panic", "todo", "unimplemented", "unreachable"].contains(&name.as_str()) {
                    self.note("panic-to-unreachable");
                    *s = if self.has("partial") && name != "unreachable" { parse_quote!(vx_halt::<()>();) } else { parse_quote!(vx_unreachable::<()>();) };
                    return;
                }
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.has("letclosures") {
            // `let f = |x| E;` whose only uses are calls -> E in place of each call
            let mut i = 0;
            while i < b.stmts.len() {
                let hit = match &b.stmts[i] {
                    Stmt::Local(l) => match (&l.pat, &l.init) {
                        (syn::Pat::Ident(n), Some(init)) if init.diverge.is_none() => match &*init.expr {
                            Expr::Closure(c) if c.inputs.iter().all(|p| matches!(p, syn::Pat::Ident(_))) => Some((n.ident.clone(), c.clone())),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((name, c)) = hit {
                    let mut v = LetClosure { name, c, other: false };
                    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                    for s in rest.iter_mut() { v.visit_stmt_mut(s); }
                    if !v.other {
                        self.note("let-closure-inlined");
                        b.stmts.truncate(i);
                        b.stmts.extend(rest);
                        continue;
                    }
                }
                i += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
        // `let Some(&x) = E else ..;` -> `let Some(x) = E else ..; let x = *x;`
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut r = RefPats(vec![]);
            // `let &P = E;` -> `let P = *E;`
            if let Stmt::Local(l) = &mut s {
                if let (syn::Pat::Reference(p), Some(i)) = (l.pat.clone(), &mut l.init) {
                    if i.diverge.is_none() { let e = i.expr.clone(); *i.expr = parse_quote!(*(#e)); l.pat = (*p.pat).clone(); }
                }
            }
            if let Stmt::Local(l) = &mut s { if l.init.as_ref().is_some_and(|i| i.diverge.is_some()) { r.visit_pat_mut(&mut l.pat); } }
            out.push(s);
            for n in r.0.iter() { out.push(parse_quote!(let #n = *#n;)); }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // reference patterns: `&x` in a refutable pattern -> `x` followed by `let x = *x`
        match e {
            Expr::Match(_) => self.ref_arms(e),
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                let mut r = RefPats(vec![]);
                r.visit_pat_mut(&mut l.pat);
                for n in r.0.iter().rev() { i.then_branch.stmts.insert(0, parse_quote!(let #n = *#n;)); }
            },
            _ => {}
        }
        // attributes on expressions are dropped
        let new: Option<Expr> = match e {
            Expr::Block(b) if b.label.is_some() => {
                self.note("labelled-block-to-loop");
                let lab = b.label.clone().unwrap();
                let name = lab.name.clone();
                let mut body = b.block.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() { *semi = Some(Default::default()); }
                body.stmts.push(parse_quote!(break #name;));
                Some(Expr::Loop(syn::ExprLoop { attrs: vec![], label: Some(lab), loop_token: Default::default(), body }))
            }
            Expr::Path(p) if self.this && p.path.is_ident("self") => Some(parse_quote!(vx_this)),
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let args = vec_of_tokens(m.mac.tokens.clone());
                match name.as_str() {
                    "panic" | "todo" | "unimplemented" if self.has("partial") => { self.note("panic-to-halt"); Some(parse_quote!(vx_halt())) }
                    "panic" | "unreachable" | "todo" | "unimplemented" => { self.note("panic-to-unreachable"); Some(parse_quote!(vx_unreachable())) }
                    "stringify" => Some(parse_quote!("")),
                    "format" => args.map(|a| {
                        let mut rest: Vec<Expr> = a.into_iter().skip(1).collect();
                        for x in rest.iter_mut() { self.visit_expr_mut(x); }
                        self.note("format!-to-opaque-string");
                        if rest.is_empty() { parse_quote!(vx_format(())) } else { parse_quote!(vx_format((#(&(#rest),)*))) }
                    }),
                    "assert" | "debug_assert" => match args {
                        Some(a) if !a.is_empty() && self.has("partial") => { let mut c = a[0].clone(); self.visit_expr_mut(&mut c); self.note("assert-to-halt"); Some(parse_quote!(vx_check(#c))) }
                        Some(a) if !a.is_empty() => { let mut c = a[0].clone(); self.visit_expr_mut(&mut c); self.note("assert-to-requires"); Some(parse_quote!(vx_assert(#c))) }
                        _ => None,
                    },
                    "assert_eq" | "debug_assert_eq" => match args {
                        Some(a) if a.len() >= 2 => { let (mut x, mut y) = (a[0].clone(), a[1].clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y); self.note("assert-to-requires"); Some(parse_quote!(vx_assert(#x == #y))) }
                        _ => None,
                    },
                    "matches" if self.has("matches") => {
                        let ts = m.mac.tokens.clone();
                        let s = ts.to_string();
                        // matches!(E, PAT if G)
                        let p = syn::parse::Parser::parse2(|i: syn::parse::ParseStream| {
                            let e: Expr = i.parse()?;
                            i.parse::<syn::Token![,]>()?;
                            let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                            let g: Option<Expr> = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None };
                            let _ = i.parse::<proc_macro2::TokenStream>()?;
                            Ok((e, p, g))
                        }, ts);
                        match p {
                            Ok((mut x, p, g)) => {
                                self.visit_expr_mut(&mut x);
                                self.note("matches!-to-match");
                                Some(match g {
                                    Some(g) => parse_quote!((match #x { #p if #g => true, _ => false })),
                                    None => parse_quote!((match #x { #p => true, _ => false })),
                                })
                            }
                            Err(_) => die(&format!("matches! not understood: {s}")),
                        }
                    }
                    _ => None,
                }
            }
            // f(x)  ->  f.push(x)   (a visitor f: the Vec of what it is given, in order)
            Expr::Call(c) if self.has("visits") && c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("f")) => {
                self.note("visitor-call-to-push");
                let x = &c.args[0];
                Some(parse_quote!(f.push(#x)))
            }
            // X.m(A, &mut |p| B);  ->  for &p in &X.m(A) B   (a visitor: m stands for the Vec of what it visits, in order)
            Expr::MethodCall(m) if self.has("visitloops") && visitor(m).is_some() => {
                let (p, body) = visitor(m).unwrap();
                self.note("visitor-closure-to-loop");
                let mut call = m.clone();
                call.args.pop();
                if call.args.trailing_punct() { call.args.pop_punct(); }
                let k = self.n; self.n += 1;
                let (idx, sq) = (quote::format_ident!("vx_i{}", k), quote::format_ident!("vx_s{}", k));
                Some(parse_quote!({ let #sq = &#call; let mut #idx: usize = 0; while #idx < #sq.len() { let #p = #sq[#idx]; #idx += 1; #body } }))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a: Vec<&Expr> = m.args.iter().collect();
                let r = &m.receiver;
                let itl = if self.has("itloops") && matches!(name.as_str(), "any" | "all" | "position" | "find") && a.len() == 1 {
                    match (closure1(a[0]), &**r) {
                        (Some((p, b)), Expr::MethodCall(it)) if it.method == "iter" && it.args.is_empty() => {
                            self.note("iterator-search-to-loop");
                            let k = self.n; self.n += 1;
                            let (i, s, res) = (quote::format_ident!("vx_i{}", k), quote::format_ident!("vx_s{}", k), quote::format_ident!("vx_r{}", k));
                            let base = &it.receiver;
                            Some(match name.as_str() {
                                "any" => parse_quote!({ let #s = &#base; let mut #i: usize = 0; let mut #res = false; while !#res && #i < #s.len() { let #p = &#s[#i]; #res = #b; #i += 1; } #res }),
                                "all" => parse_quote!({ let #s = &#base; let mut #i: usize = 0; let mut #res = true; while #res && #i < #s.len() { let #p = &#s[#i]; #res = #b; #i += 1; } #res }),
                                "find" => { let q = match &p { syn::Pat::Reference(r) => (*r.pat).clone(), p => p.clone() }; parse_quote!({ let #s = &#base; let mut #i: usize = 0; let mut #res = None; while #res.is_none() && #i < #s.len() { let #q = &#s[#i]; if #b { #res = Some(&#s[#i]); } #i += 1; } #res }) }
                                _ => parse_quote!({ let #s = &#base; let mut #i: usize = 0; let mut #res = None; while #res.is_none() && #i < #s.len() { let #p = &#s[#i]; if #b { #res = Some(#i); } #i += 1; } #res }),
                            })
                        }
                        _ => None,
                    }
                } else { None };
                let sq: Option<Expr> = if self.has("seqiters") {
                    match (name.as_str(), a.as_slice()) {
                        ("into_iter", []) => Some(parse_quote!(vx_iter(#r))),
                        ("zip", [x]) => Some(if matches!(x, Expr::Reference(q) if q.mutability.is_some()) { parse_quote!(vx_zip_mut(#r, #x)) } else { parse_quote!(vx_zip(#r, #x)) }),
                        ("rev", []) => Some(parse_quote!(vx_rev(#r))),
                        ("extend", [x]) => Some(parse_quote!(vx_extend(&mut #r, #x))),
                        ("reverse", []) => Some(parse_quote!(vx_reverse(&mut #r))),
                        _ => None,
                    }
                } else { None };
                if sq.is_some() { self.note("iterator-adaptor-to-call"); sq } else if itl.is_some() { itl } else if name == "clone_from" && a.len() == 1 {
                    self.note("clone_from-to-assign");
                    let x = a[0];
                    let src: Expr = match x { Expr::Reference(r) => (*r.expr).clone(), o => parse_quote!((#o)) };
                    Some(parse_quote!(#r = #src.clone()))
                } else if self.has("optclosures") {
                    match (name.as_str(), a.as_slice()) {
                        ("map_or", [d, c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(#p) => #b, None => #d })) }),
                        ("filter", [c]) => closure1(c).map(|(p, b)| {
                            self.note("option-closure-to-match");
                            let bind: Stmt = match &p { syn::Pat::Reference(r) => { let q = &r.pat; parse_quote!(let #q = vx_f;) }, p => parse_quote!(let #p = &vx_f;) };
                            parse_quote!((match #r { Some(vx_f) => { let vx_keep = { #bind #b }; if vx_keep { Some(vx_f) } else { None } }, None => None }))
                        }),
                        ("ok_or_else", [c]) => closure0(c).map(|b| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) })) }),
                        ("unwrap_or_else", [c]) => closure0(c).map(|b| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(vx_v) => vx_v, None => #b })) }),
                        ("map_err", [c]) => closure1(c).map(|(p, b)| { self.note("result-closure-to-match"); parse_quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })) }),
                        ("inspect", [c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(vx_v) => { { let #p = &vx_v; #b; } Some(vx_v) }, None => None })) }),
                        ("map", [c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(#p) => Some(#b), None => None })) }),
                        ("and_then", [c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(#p) => #b, None => None })) }),
                        ("is_some_and", [c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(#p) => #b, None => false })) }),
                        ("is_none_or", [c]) => closure1(c).map(|(p, b)| { self.note("option-closure-to-match"); parse_quote!((match #r { Some(#p) => #b, None => true })) }),
                        _ => None,
                    }
                } else { None }
            }
            // b"..." -> &[..] (Verus does not look into byte strings)
            Expr::Unary(u) if self.has("bytestrs") && matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_)))) => {
                let Expr::Paren(p) = &*u.expr else { unreachable!() };
                let Expr::Reference(r) = &*p.expr else { unreachable!() };
                Some((*r.expr).clone())
            }
            Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) if self.has("bytestrs") => {
                self.note("byte-string-to-array");
                let v = b.value();
                let l = v.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x));
                Some(parse_quote!((&[#(#l),*])))
            }
            // `A | B if G => body` -> `A if G => body, B if G => body`
            Expr::Match(m) if self.has("orguard") && m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, syn::Pat::Or(_))) => {
                self.note("guarded-or-arm-split");
                let mut m = m.clone();
                let arms = std::mem::take(&mut m.arms);
                for a in arms {
                    match (&a.pat, &a.guard) {
                        (syn::Pat::Or(o), Some(_)) => for c in o.cases.iter() { let mut n = a.clone(); n.pat = c.clone(); n.comma = Some(Default::default()); m.arms.push(n); },
                        _ => m.arms.push(a),
                    }
                }
                Some(Expr::Match(m))
            }
            // guards become tests inside the arm, the arms after it repeated (as far as they can match) in its else branch
            Expr::Match(m) if self.has("guards") && m.arms.iter().any(|a| a.guard.is_some()) => {
                self.note("guarded-arms-to-if");
                let k = self.n; self.n += 1;
                let mut arms = vec![];
                for a in &m.arms {
                    match (&a.pat, &a.guard) {
                        (syn::Pat::Or(o), Some(_)) => for c in o.cases.iter() { let mut n = a.clone(); n.pat = c.clone(); arms.push(n); },
                        _ => arms.push(a.clone()),
                    }
                }
                let v = quote::format_ident!("vx_m{}", k);
                let arms = split_guards(&arms, &v);
                let e = &m.expr;
                Some(parse_quote!({ let #v = #e; match #v { #(#arms)* } }))
            }
            // match S { P if G => A, _ => B }  ->  { let hit = match S { P if G => true, _ => false }; if hit { A } else { B } }
            // (A must not use what P binds: it then fails to compile)
            Expr::Match(m) if self.has("guardsplit") && m.arms.len() == 2 && m.arms[0].guard.is_some()
                && m.arms[1].guard.is_none() && matches!(m.arms[1].pat, syn::Pat::Wild(_)) => {
                self.note("guarded-match-to-if");
                let k = self.n; self.n += 1;
                let hit = quote::format_ident!("vx_hit{}", k);
                let (sc, p, g, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].guard.as_ref().unwrap().1, &m.arms[0].body, &m.arms[1].body);
                Some(parse_quote!({ let #hit = match #sc { #p if #g => true, _ => false }; if #hit { #a } else { #b } }))
            }
            // `"lit" if G => B` with a final `_ => W` and no other arm for that literal -> `"lit" => if G { B } else { W }`
            Expr::Match(m) if self.has("guardlit") && m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, syn::Pat::Lit(_)))
                && m.arms.last().is_some_and(|a| a.guard.is_none() && matches!(a.pat, syn::Pat::Wild(_))) => {
                let mut m = m.clone();
                let w = m.arms.last().unwrap().body.clone();
                let pats: Vec<String> = m.arms.iter().map(|a| a.pat.to_token_stream().to_string()).collect();
                for a in m.arms.iter_mut() {
                    if !matches!(a.pat, syn::Pat::Lit(_)) || a.guard.is_none() { continue; }
                    let t = a.pat.to_token_stream().to_string();
                    if pats.iter().filter(|p| **p == t).count() != 1 { continue; }
                    let (g, b) = (a.guard.take().unwrap().1, &a.body);
                    *a.body = parse_quote!(if #g { #b } else { #w });
                    a.comma = Some(Default::default());
                    self.note("guarded-literal-arm-to-if");
                }
                Some(Expr::Match(m))
            }
            // A::from_shape_fn(D, |P| E)  ->  a loop that fills the cells one after the other
            Expr::Call(c) if self.has("shapefn") && c.args.len() == 2 && c.func.to_token_stream().to_string().ends_with(":: from_shape_fn") && matches!(&c.args[1], Expr::Closure(_)) => {
                let Expr::Closure(cl) = &c.args[1] else { unreachable!() };
                let k = self.n; self.n += 1;
                self.note("from_shape_fn-to-loop");
                let (f, v) = (quote::format_ident!("vx_f{}", k), quote::format_ident!("vx_v{}", k));
                let (d, pat, body) = (&c.args[0], &cl.inputs[0], &cl.body);
                Some(parse_quote!({ let mut #f = vx_fill(#d); while let Some(#pat) = #f.vx_next() { let #v = #body; #f.vx_put(#v); } #f.vx_done() }))
            }
            Expr::ForLoop(f) if self.has("forrange") && matches!(strip_paren(&f.expr), Expr::Range(r) if r.start.is_some() && r.end.is_some()) => {
                // for PAT in A..B  ->  counter loop (increment before the body, so `continue` keeps its meaning)
                let Expr::Range(r) = strip_paren(&f.expr) else { unreachable!() };
                let k = self.n; self.n += 1;
                self.note("for-range-to-counter-loop");
                let (i, a, e) = (quote::format_ident!("vx_i{}", k), quote::format_ident!("vx_a{}", k), quote::format_ident!("vx_e{}", k));
                let (lo, hi) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                let (pat, body, lab) = (&f.pat, &f.body.stmts, &f.label);
                let lab: proc_macro2::TokenStream = match lab { Some(l) => quote::quote!(#l), None => quote::quote!() };
                // A..=B likewise; that B is not the type's largest value is then an obligation
                let cmp = if let syn::RangeLimits::Closed(_) = r.limits { quote::quote!(<=) } else { quote::quote!(<) };
                let w: Expr = parse_quote!(#lab while #i #cmp #e { let #pat = #i; #i += 1; #(#body)* });
                Some(parse_quote!({ let #a = #lo; let #e = #hi; let mut #i = #a; #w }))
            }
            Expr::ForLoop(f) if self.has("fornext") => {
                // for PAT in E  ->  while let Some(PAT) = it.next()  (E is already an iterator or has into_iter)
                self.note("for-to-while-let-next");
                let k = self.n; self.n += 1;
                let it = quote::format_ident!("vx_it{}", k);
                let (pat, ex, body, lab) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                let w: Expr = match lab {
                    Some(l) => parse_quote!(#l while let Some(#pat) = #it.next() { #(#body)* }),
                    None => parse_quote!(while let Some(#pat) = #it.next() { #(#body)* }),
                };
                Some(parse_quote!({ let mut #it = #ex; #w }))
            }
            Expr::ForLoop(f) if self.has("forslice") => {
                // for PAT in X.iter() / &X  ->  index loop (increment before the body, so `continue` keeps its meaning)
                let seq: Option<Expr> = match &*f.expr {
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((*m.receiver).clone()),
                    Expr::Reference(r) => Some((*r.expr).clone()),
                    _ => None,
                };
                seq.map(|s| {
                    self.note("for-over-slice-to-index-loop");
                    let k = self.n; self.n += 1;
                    let (idx, sq) = (quote::format_ident!("vx_i{}", k), quote::format_ident!("vx_s{}", k));
                    let pat = &f.pat;
                    let body = &f.body.stmts;
                    let lab = &f.label;
                    // `&x` binds a copy of the element
                    let bind: syn::Stmt = match &**pat {
                        syn::Pat::Reference(r) => { let p = &*r.pat; syn::Stmt::Local(syn::Local { attrs: vec![], let_token: Default::default(), pat: p.clone(), init: Some(syn::LocalInit { eq_token: Default::default(), expr: Box::new(parse_quote!(#sq[#idx])), diverge: None }), semi_token: Default::default() }) }
                        _ => parse_quote!(let #pat = &#sq[#idx];),
                    };
                    let w: Expr = match lab {
                        Some(l) => parse_quote!(#l while #idx < #sq.len() { #bind #idx += 1; #(#body)* }),
                        None => parse_quote!(while #idx < #sq.len() { #bind #idx += 1; #(#body)* }),
                    };
                    parse_quote!({ let #sq = &#s; let mut #idx: usize = 0; #w })
                })
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; self.ref_arms(e); }
    }
}

// ---------------------------------------------------------------- annotation

thread_local! {
    /// vacuity probe: every function entry and loop body gets an assertion that
    /// only a contradictory context could prove
    pub static PROBE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PROBE_N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn probe() -> Option<String> {
    if !PROBE.with(|p| p.get()) { return None; }
    let k = PROBE_N.with(|p| { p.set(p.get() + 1); p.get() });
    Some(format!("proof {{ assert(vx_probe({k}int)); }} // vx-probe\n"))
}

struct CountLoops(usize);
impl VisitMut for CountLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) { self.0 += 1; }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Inserts loop headers and loop-relative ghost blocks. Loops are numbered in
/// source order (preorder).
struct LoopAnnot<'a> { next: usize, f: &'a FnSpec, texts: &'a mut Vec<String>, wrap: Vec<(usize, usize)> }

impl LoopAnnot<'_> {
    fn body(&mut self, n: usize, b: &mut Block) {
        let mut start = vec![];
        if let Some((_, t)) = self.f.loops.iter().find(|x| x.0 == n) {
            self.texts.push(t.clone());
            start.push(hdr(self.texts.len() - 1));
        }
        if let Some(t) = probe() { self.texts.push(t); start.push(ghost(self.texts.len() - 1)); }
        for (w, t, _) in &self.f.ghosts {
            match w {
                Where::Loop(k, p) if *k == n && p == "start" => { self.texts.push(t.clone()); start.push(ghost(self.texts.len() - 1)); }
                Where::Loop(k, p) if *k == n && p == "end" => {
                    self.texts.push(t.clone());
                    // a trailing expression of type () stays first
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
                    b.stmts.push(ghost(self.texts.len() - 1));
                }
                _ => {}
            }
        }
        start.append(&mut b.stmts);
        b.stmts = start;
    }
}
impl VisitMut for LoopAnnot<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let n = match &s {
                Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _) => Some(self.next),
                _ => None,
            };
            if let Some(n) = n {
                for (w, t, _) in &self.f.ghosts {
                    if let Where::Loop(k, p) = w { if *k == n && p == "before" { self.texts.push(t.clone()); out.push(ghost(self.texts.len() - 1)); } }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if let Some(n) = n {
                for (w, t, _) in &self.f.ghosts {
                    if let Where::Loop(k, p) = w { if *k == n && p == "after" { self.texts.push(t.clone()); out.push(ghost(self.texts.len() - 1)); } }
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let n = self.next;
        match e {
            Expr::While(x) => { self.next += 1; self.visit_expr_mut(&mut x.cond); self.visit_block_mut(&mut x.body); self.body(n, &mut x.body); }
            Expr::Loop(x) => { self.next += 1; self.visit_block_mut(&mut x.body); self.body(n, &mut x.body); }
            Expr::ForLoop(x) => { self.next += 1; self.visit_expr_mut(&mut x.expr); self.visit_block_mut(&mut x.body); self.body(n, &mut x.body); }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct StmtAnnot { pat: String, nth: usize, seen: usize, before: bool, k: usize, hit: bool }
impl VisitMut for StmtAnnot {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let txt = s.to_token_stream().to_string();
            let m = txt.starts_with(&self.pat) && !txt.starts_with("__vx_");
            let mut here = false;
            if m && !self.hit {
                if self.nth == usize::MAX { here = true; } else if self.seen == self.nth { here = true; self.hit = true; }
                self.seen += 1;
            }
            if here && self.before { out.push(ghost(self.k)); }
            if here && !self.before {
                if let Stmt::Expr(_, semi @ None) = &mut s { *semi = Some(Default::default()); }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if here && !self.before { out.push(ghost(self.k)); }
        }
        b.stmts = out;
    }
}

/// `const X: &[T] = b"..." / &[..]` -> an array constant with the same elements
fn const_slice_to_array(c: &mut syn::ItemConst) {
    let syn::Type::Reference(r) = &*c.ty else { return };
    let syn::Type::Slice(sl) = &*r.elem else { return };
    let el = (*sl.elem).clone();
    let (n, v): (usize, Expr) = match &*c.expr {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => { let v = b.value(); let l = v.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)); (v.len(), parse_quote!([#(#l),*])) }
        Expr::Reference(r) => match &*r.expr { Expr::Array(a) => (a.elems.len(), Expr::Array(a.clone())), _ => return },
        _ => return,
    };
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    *c.ty = parse_quote!([#el; #n]);
    *c.expr = v;
}
struct StaticRefs;
impl VisitMut for StaticRefs {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) { if t.lifetime.is_none() { t.lifetime = Some(parse_quote!('static)); } visit_mut::visit_type_reference_mut(self, t); }
}
struct ConstUse<'a> { src: &'a Source, known: &'a [(String, String)] }
impl VisitMut for ConstUse<'_> {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            if n.len() > 1 && n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                && !self.known.iter().any(|(_, k)| *k == n)
            {
                for it in &self.src.file.items {
                    if let syn::Item::Const(c) = it {
                        if c.ident == n {
                            let mut c = c.clone();
                            c.attrs.clear();
                            c.vis = parse_quote!(pub);
                            const_slice_to_array(&mut c);
                            StaticRefs.visit_type_mut(&mut c.ty);
                            AUTO.with(|a| {
                                let mut a = a.borrow_mut();
                                if !a.iter().any(|x| x.0 == n) { a.push((n.clone(), c.to_token_stream().to_string())); }
                            });
                        }
                    }
                }
            }
        }
    }
}

struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
}

/// flat token list: (text, glued to the next token)
fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<(String, bool)>) {
    use proc_macro2::{Delimiter, Spacing, TokenTree};
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !a.is_empty() { out.push((a.into(), false)); }
                flat(g.stream(), out);
                if !b.is_empty() { out.push((b.into(), false)); }
            }
            TokenTree::Punct(p) => out.push((p.as_char().to_string(), p.spacing() == Spacing::Joint || p.as_char() == '\'')),
            o => out.push((o.to_string(), false)),
        }
    }
}
fn flat_str(s: &str) -> Vec<(String, bool)> {
    let mut v = vec![];
    match s.parse::<proc_macro2::TokenStream>() { Ok(t) => flat(t, &mut v), Err(e) => die(&format!("cannot tokenize {s:?}: {e}")) }
    v
}
fn unflat(v: &[(String, bool)]) -> String {
    let mut o = String::new();
    for (t, glue) in v { o.push_str(t); if !glue { o.push(' '); } }
    o
}
/// replaces every occurrence of the token sequence a by b (whitespace does not matter)
pub fn replace_tokens(hay: &str, a: &str, b: &str) -> (String, usize) {
    let (h, a, b) = (flat_str(hay), flat_str(a), flat_str(b));
    let (mut out, mut i, mut n) = (vec![], 0, 0);
    while i < h.len() {
        if !a.is_empty() && i + a.len() <= h.len() && (0..a.len()).all(|k| h[i + k].0 == a[k].0) { out.extend(b.iter().cloned()); i += a.len(); n += 1; }
        else { out.push(h[i].clone()); i += 1; }
    }
    (unflat(&out), n)
}

struct RenameReserved;
impl VisitMut for RenameReserved {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        let s = i.to_string();
        if s == "int" || s == "nat" || s == "real" { *i = quote::format_ident!("{}_", s); }
    }
}

/// @opt num: f32 becomes the stand-in type Num; literals and casts become calls
struct FloatToNum;
impl VisitMut for FloatToNum {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(s) = p.segments.first_mut() { if s.ident == "f32" { s.ident = quote::format_ident!("Num"); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Cast(c) = e {
            let t = c.ty.to_token_stream().to_string();
            if ["f32", "u32", "i32", "usize", "u8", "i64"].contains(&t.as_str()) {
                let mut inner = (*c.expr).clone();
                self.visit_expr_mut(&mut inner);
                let (tr, m) = (quote::format_ident!("VxTo_{}", t), quote::format_ident!("vx_to_{}", t));
                *e = parse_quote!(#tr::#m(#inner));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // appending to an owned string
        if let Expr::Binary(b) = e {
            if let (syn::BinOp::Add(_), Expr::MethodCall(m)) = (&b.op, strip_paren(&b.left)) {
                if ["into_owned", "to_owned", "to_string"].contains(&m.method.to_string().as_str()) {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(vx_append(#l, #r));
                    return;
                }
            }
        }
        if let Expr::Lit(l) = e {
            if let syn::Lit::Float(f) = &l.lit {
                let v: f32 = f.base10_parse().unwrap_or_else(|e| die(&format!("float literal: {e}")));
                let bits = v.to_bits();
                *e = parse_quote!(Num::vx_bits(#bits));
            }
        }
    }
}
/// @opt eqcalls: `a == b` becomes vx_eq(&a, &b); tuples are compared by component
struct EqCalls;
impl VisitMut for EqCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let neg = match b.op { syn::BinOp::Eq(_) => false, syn::BinOp::Ne(_) => true, _ => return };
            let (l, r) = (strip_paren(&b.left), strip_paren(&b.right));
            let all: Expr = match (l, r) {
                (Expr::Tuple(x), Expr::Tuple(y)) if x.elems.len() == y.elems.len() => {
                    let (x, y) = (x.elems.iter(), y.elems.iter());
                    parse_quote!((true #(&& vx_eq(&#x, &#y))*))
                }
                _ => parse_quote!(vx_eq(&#l, &#r)),
            };
            *e = if neg { parse_quote!(!#all) } else { all };
        }
    }
}

struct SetArm { pat: String, body: Expr, hits: usize, at: usize }
impl VisitMut for SetArm {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let p = a.pat.to_token_stream();
        let s = match &a.guard { Some((_, g)) => quote::quote!(#p if #g), None => p };
        if norm(&s.to_string()) == self.pat {
            if self.hits == self.at { *a.body = self.body.clone(); a.comma = Some(Default::default()); }
            self.hits += 1;
        }
        visit_mut::visit_arm_mut(self, a);
    }
}
struct FindArm { pat: String, hits: Vec<Expr> }
impl VisitMut for FindArm {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let p = a.pat.to_token_stream();
        let s = match &a.guard { Some((_, g)) => quote::quote!(#p if #g), None => p };
        if norm(&s.to_string()) == self.pat { self.hits.push((*a.body).clone()); }
        visit_mut::visit_arm_mut(self, a);
    }
}

pub fn emit_fn(f: &FnSpec, found: &Found, src: &Source, known: &[(String, String)], texts: &mut Vec<String>) -> (String, Vec<String>) {
    let mut info: Vec<String> = vec![];
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    DropAttrs.visit_block_mut(&mut block);
    let ty = found.imp.as_ref().map(|i| crate::type_name(&i.self_ty)).unwrap_or_default();

    // macros defined inside the function
    match crate::macros::expand_local(&mut block, f.opts.iter().any(|o| o == "macros").then_some(&src.file)) {
        Ok(v) => for n in v { info.push(format!("expanded macro {n}")); },
        Err(e) => die(&format!("{}: {e}", f.path)),
    }
    for (pat, body, last) in &f.armbodies {
        let body: Expr = syn::parse_str(body).unwrap_or_else(|e| die(&format!("{}: arm body: {e}", f.path)));
        let mut fa = SetArm { pat: norm(pat), body, hits: 0, at: usize::MAX };
        fa.visit_block_mut(&mut block);
        let n = fa.hits;
        if n == 0 || n > 1 && !last { die(&format!("{}: {} match arms {}", f.path, n, pat)); }
        fa.hits = 0;
        fa.at = n - 1;
        fa.visit_block_mut(&mut block);
        info.push(format!("body of match arm {pat} replaced by a stand-in"));
    }

    // constants local to the function that are no longer used
    {
        let all = block.to_token_stream().to_string();
        block.stmts.retain(|s| match s {
            Stmt::Item(syn::Item::Const(c)) => all.matches(&c.ident.to_string()).count() > 1,
            _ => true,
        });
    }

    // 0. one arm of a match inside the function, with a given continuation
    if let Some((pat, tail, head)) = &f.arm {
        let mut fa = FindArm { pat: norm(pat), hits: vec![] };
        fa.visit_block_mut(&mut block);
        if fa.hits.len() != 1 { die(&format!("{}: {} match arms {}", f.path, fa.hits.len(), pat)); }
        let body = fa.hits.pop().unwrap();
        let tail: proc_macro2::TokenStream = tail.parse().unwrap_or_else(|e| die(&format!("{}: arm tail: {e}", f.path)));
        let head: proc_macro2::TokenStream = head.parse().unwrap_or_else(|e| die(&format!("{}: arm head: {e}", f.path)));
        block = if tail.is_empty() { parse_quote!({ #head #body }) } else { parse_quote!({ #head #body; #tail }) };
        // (to cut the arm itself)
        if !f.cuts.is_empty() && block.stmts.len() == 1 {
            if let Stmt::Expr(Expr::Block(b), None) = &block.stmts[0] { if b.label.is_none() { block = b.block.clone(); } }
        }
        info.push(format!("only the match arm {pat}"));
    }

    // a part of the statements of the body
    for (k, pat) in &f.cuts {
        let pat = norm(pat);
        let Some(at) = block.stmts.iter().position(|s| norm(&s.to_token_stream().to_string()).starts_with(&pat)) else { die(&format!("{}: no statement begins {pat}", f.path)) };
        match k.as_str() {
            "from" => { block.stmts.drain(..at); info.push(format!("dropped: the statements before {pat}")); }
            "past" => { block.stmts.drain(..=at); info.push(format!("dropped: the statements up to and including {pat}")); }
            _ => { block.stmts.truncate(at); info.push(format!("dropped: the statements from {pat} on")); }
        }
    }

    // 1. inline uncontracted helpers
    if !f.opts.iter().any(|o| o == "noinline") {
        let mut inl = Inliner { ty: ty.clone(), src, known, depth: 0, done: vec![], n: 0 };
        inl.visit_block_mut(&mut block);
        for d in inl.done { info.push(format!("inlined helper {d}")); }
    }

    // identifiers that are types in Verus: int, nat, real
    RenameReserved.visit_block_mut(&mut block);
    RenameReserved.visit_signature_mut(&mut sig);

    // 2. explicit rewrites
    if !f.rewrites.is_empty() {
        let mut s = block.to_token_stream().to_string();
        for (a, b, opt) in &f.rewrites {
            let (t, n) = replace_tokens(&s, a, b);
            if n == 0 && !*opt { die(&format!("{}: rewrite pattern not found: {}", f.path, a)); }
            if n > 0 { info.push(format!("rewrite {} => {}", a, b)); }
            s = t;
        }
        block = syn::parse_str(&s).unwrap_or_else(|e| die(&format!("{}: reparse after rewrite: {e}", f.path)));
    }

    // 3. desugaring
    let mut_self = sig.receiver().is_some_and(|r| r.reference.is_none() && r.mutability.is_some());
    let mut d = Desugar { opts: f.opts.clone(), done: vec![], n: 0, this: mut_self };
    d.visit_block_mut(&mut block);
    info.extend(d.done);
    if mut_self {
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Receiver(r) = a { r.mutability = None; if let syn::Type::Path(_) = &*r.ty {} }
        }
        block.stmts.insert(0, parse_quote!(let mut vx_this = self;));
        info.push("mut self to local".into());
    }

    // pattern parameters become plain ones bound at the start
    {
        let mut binds: Vec<Stmt> = vec![];
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let syn::FnArg::Typed(t) = a {
                if !matches!(&*t.pat, syn::Pat::Ident(_)) {
                    let n = quote::format_ident!("vx_p{}", i);
                    let pat = &t.pat;
                    binds.push(parse_quote!(let #pat = #n;));
                    *t.pat = parse_quote!(#n);
                    info.push("pattern parameter to let".into());
                }
            }
        }
        for b in binds.into_iter().rev() { block.stmts.insert(0, b); }
    }

    // 4. annotations
    let mut c = CountLoops(0);
    c.visit_block_mut(&mut block);
    let want = f.nloops.unwrap_or(f.loops.len());
    if c.0 != want { die(&format!("{}: expected {} loops, source has {}", f.path, want, c.0)); }
    for (w, t, optional) in &f.ghosts {
        let (pat, nth, before) = match w {
            Where::Before(p, n) => (p, *n, true),
            Where::After(p, n) => (p, *n, false),
            _ => continue,
        };
        texts.push(t.clone());
        let mut a = StmtAnnot { pat: norm(pat), nth, seen: 0, before, k: texts.len() - 1, hit: false };
        a.visit_block_mut(&mut block);
        if !(a.hit || nth == usize::MAX && a.seen > 0) && !optional { die(&format!("{}: anchor statement not found: {}", f.path, pat)); }
    }
    let mut la = LoopAnnot { next: 0, f, texts, wrap: vec![] };
    la.visit_block_mut(&mut block);
    let _ = la.wrap;
    for (w, t, _) in &f.ghosts {
        match w {
            Where::Start => {
                texts.push(t.clone());
                let at = if mut_self { 1 } else { 0 };
                block.stmts.insert(at, ghost(texts.len() - 1));
            }
            Where::End => {
                texts.push(t.clone());
                let g = ghost(texts.len() - 1);
                let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
                let unit_ret = matches!(sig.output, syn::ReturnType::Default);
                if has_tail && !unit_ret {
                    let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
                    block.stmts.push(parse_quote!(let vx_result = #e;));
                    block.stmts.push(g);
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_result), None));
                } else {
                    if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() { *semi = Some(Default::default()); }
                    block.stmts.push(g);
                }
            }
            _ => {}
        }
    }
    if let Some(t) = probe() {
        texts.push(t);
        block.stmts.insert(if mut_self { 1 } else { 0 }, ghost(texts.len() - 1));
    }
    ConstUse { src, known }.visit_block_mut(&mut block);
    if f.opts.iter().any(|o| o == "eqcalls") { EqCalls.visit_block_mut(&mut block); info.push("== to calls of the values' equality".into()); }
    let num = f.opts.iter().any(|o| o == "num");
    if num { FloatToNum.visit_block_mut(&mut block); FloatToNum.visit_signature_mut(&mut sig); info.push("f32 to Num".into()); }

    // 5. signature
    if let Some(s) = &f.sig {
        sig = syn::parse_str(s).unwrap_or_else(|e| die(&format!("{}: @sig: {e}", f.path)));
        info.push(format!("signature replaced: {s}"));
    }
    if let Some(n) = &f.name { sig.ident = quote::format_ident!("{}", n); info.push(format!("emitted as {n}")); }
    if let (Some(r), syn::ReturnType::Type(_, t)) = (&f.ret, sig.output.clone()) {
        let rid = quote::format_ident!("{}", r);
        let tt: syn::Type = parse_quote!(__vx_ret!(#rid, #t));
        sig.output = parse_quote!(-> #tt);
    }
    texts.push(f.spec.clone());
    block.stmts.insert(0, hdr(texts.len() - 1));
    let attr: proc_macro2::TokenStream = f.attr.parse().unwrap_or_else(|_| die("bad @attr"));
    let vis = if f.imp.as_ref().is_some_and(|h| h.contains(" for ")) { quote!() } else { quote!(pub) };
    let fun = quote!(#attr #vis #sig #block);
    let text = match (&found.imp, &f.imp) {
        (_, Some(h)) if h.trim() == "none" => fun.to_string(),
        (_, Some(h)) => format!("{h} {{ {fun} }}"),
        (None, None) => fun.to_string(),
        (Some(imp), None) => {
            let (g, _, wh) = imp.generics.split_for_impl();
            let params = &imp.generics.params;
            let _ = g;
            let st = &imp.self_ty;
            let gp = if params.is_empty() { quote!() } else { quote!(<#params>) };
            if imp.trait_.is_some() { info.push("trait impl method emitted as inherent method".into()); }
            quote!(impl #gp #st #wh { #fun }).to_string()
        }
    };
    (text, info)
}

/// every value pattern q matches, p matches too (false when in doubt)
fn pat_covers(p: &syn::Pat, q: &syn::Pat) -> bool {
    use syn::Pat::*;
    match (p, q) {
        (Wild(_), _) => true,
        (Ident(i), _) if i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') => true,
        (_, Or(o)) => o.cases.iter().all(|c| pat_covers(p, c)),
        (Or(o), _) => o.cases.iter().any(|c| pat_covers(c, q)),
        (TupleStruct(a), TupleStruct(b)) => a.path == b.path && a.elems.len() == b.elems.len() && a.elems.iter().zip(&b.elems).all(|(x, y)| pat_covers(x, y)),
        _ => p == q && matches!(p, Lit(_) | Path(_)),
    }
}
/// no value matches both (false when in doubt)
fn pat_disjoint(p: &syn::Pat, q: &syn::Pat) -> bool {
    use syn::Pat::*;
    match (p, q) {
        (Or(o), _) => o.cases.iter().all(|c| pat_disjoint(c, q)),
        (_, Or(o)) => o.cases.iter().all(|c| pat_disjoint(p, c)),
        (TupleStruct(a), TupleStruct(b)) => a.path == b.path && a.elems.len() == b.elems.len() && a.elems.iter().zip(&b.elems).any(|(x, y)| pat_disjoint(x, y)),
        (Lit(a), Lit(b)) => match (&a.lit, &b.lit) {
            (syn::Lit::Byte(x), syn::Lit::Byte(y)) => x.value() != y.value(),
            (syn::Lit::Char(x), syn::Lit::Char(y)) => x.value() != y.value(),
            (syn::Lit::Int(x), syn::Lit::Int(y)) => x.base10_digits() != y.base10_digits(),
            (syn::Lit::Str(x), syn::Lit::Str(y)) => x.value() != y.value(),
            _ => false,
        },
        _ => false,
    }
}
fn split_guards(arms: &[syn::Arm], v: &syn::Ident) -> Vec<syn::Arm> {
    let mut out: Vec<syn::Arm> = vec![];
    for (i, a) in arms.iter().enumerate() {
        if out.iter().any(|o| pat_covers(&o.pat, &a.pat)) { continue; }
        let mut n = a.clone();
        n.comma = Some(Default::default());
        if let Some((_, g)) = n.guard.take() {
            let rest: Vec<syn::Arm> = arms[i + 1..].iter().filter(|r| !pat_disjoint(&a.pat, &r.pat)).cloned().collect();
            let mut rest = split_guards(&rest, v);
            if !rest.last().is_some_and(|r| matches!(r.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_))) { rest.push(parse_quote!(_ => vx_unreachable(),)); }
            let b = &n.body;
            // a lone catch-all needs no match
            let w: Expr = match &rest[..] {
                [syn::Arm { pat: syn::Pat::Wild(_), body, .. }] => parse_quote!(#body),
                _ => parse_quote!(match #v { #(#rest)* }),
            };
            n.body = parse_quote!(if #g { #b } else { #w });
        }
        out.push(n);
    }
    out
}
