use super::*;
use crate::src_::*;
use dreammaker::ast::*;
use dreammaker::lexer::Lexer;
use dreammaker::parser::parse_expression;
use dreammaker::{Context, Severity};

/// (spelling in the source, spelling in the tree, level)
const OPS: &[(&str, &str, u32)] = &[
    ("**", "**", 1),
    ("*", "*", 2), ("/", "/", 2), ("%", "%", 2), ("%%", "%%", 2),
    ("+", "+", 3), ("-", "-", 3),
    ("<", "<", 4), (">", ">", 4), ("<=", "<=", 4), (">=", ">=", 4), ("<=>", "<=>", 4),
    ("<<", "<<", 5), (">>", ">>", 5),
    ("==", "==", 6), ("!=", "!=", 6), ("<>", "!=", 6), ("~=", "~=", 6), ("~!", "~!", 6),
    ("&", "&", 7), ("^", "^", 8), ("|", "|", 9), ("&&", "&&", 10), ("||", "||", 11),
    ("=", "=", 13), ("+=", "+=", 13), ("-=", "-=", 13), ("*=", "*=", 13), ("/=", "/=", 13), ("%=", "%=", 13), ("%%=", "%%=", 13),
    ("&=", "&=", 13), ("|=", "|=", 13), ("^=", "^=", 13), ("<<=", "<<=", 13), (">>=", ">>=", 13), (":=", ":=", 13), ("&&=", "&&=", 13), ("||=", "||=", 13),
    ("in", "in", 14),
];

/// a flat expression: operands and what stands between them
#[derive(Clone, Debug)]
enum El { Operand(String, String), Op(usize), Quest, Colon, To }

fn arg(s: &mut dyn Src, depth: usize, n: &mut usize) -> (String, String) {
    let e = if depth > 0 { flat(s, depth - 1, n, 2, true) } else { *n += 1; vec![El::Operand(format!("v{n}"), format!("v{n}"))] };
    (source(&e), group(&e))
}
fn args(s: &mut dyn Src, depth: usize, n: &mut usize) -> (String, String) {
    let v: Vec<_> = (0..[0, 1, 1, 2, 3][s.below(5)]).map(|_| arg(s, depth, n)).collect();
    let j = |f: fn(&(String, String)) -> &str| v.iter().map(f).collect::<Vec<_>>().join(", ");
    (format!("({})", j(|x| &x.0)), format!("({})", j(|x| &x.1)))
}
/// a path with the settings that follow it
fn path(s: &mut dyn Src, depth: usize, n: &mut usize, dot: bool) -> (String, String) {
    let mut t = String::new();
    let len = 1 + s.below(3);
    for i in 0..len {
        *n += 1;
        t.push_str(if i == 0 { if dot { "." } else { "/" } } else { pick(s, &["/", "/", ".", ":"]) });
        t.push_str(&format!("p{n}"));
    }
    let mut shown = t.clone();
    // the reader takes no settings after a single name
    if (len > 1 || !dot) && s.below(3) == 0 {
        let v: Vec<_> = (0..s.below(3)).map(|_| { *n += 1; (format!("k{n}"), arg(s, depth, n)) }).collect();
        t.push_str(&format!("{{{}}}", v.iter().map(|(k, x)| format!("{k} = {}", x.0)).collect::<Vec<_>>().join("; ")));
        for (k, x) in v { shown.push_str(&format!("{{{k}={}}}", x.1)); }
    }
    (t, shown)
}
const KINDS: &[(&str, u32)] = &[("mob", 1), ("obj", 2), ("text", 4), ("num", 8), ("null", 128), ("command_text", 1 << 16), ("color", 1 << 17), ("anything", 1 << 12)];
fn kinds(s: &mut dyn Src) -> (String, u32) {
    let v: Vec<_> = (0..1 + s.below(3)).map(|_| *pick(s, KINDS)).collect();
    (v.iter().map(|x| x.0).collect::<Vec<_>>().join("|"), v.iter().fold(0, |a, x| a | x.1))
}
/// something to which operators can be applied; `Some(true)`: any follow may stand after it, Some(false): the same, and it is a name
fn term(s: &mut dyn Src, depth: usize, n: &mut usize) -> (String, String, Option<bool>) {
    *n += 1;
    let k = *n;
    let on = |x: (String, String)| (x.0, x.1, Some(true));
    match s.below(if depth > 0 { 28 } else { 12 }) {
        0..=4 => (format!("v{k}"), format!("v{k}"), Some(false)),
        5 => (k.to_string(), k.to_string(), None),
        6 => (format!("{k}.5"), format!("{k}.5f"), None),
        7 => on((format!("\"s{k}\""), format!("\"s{k}\""))),
        8 => on((format!("'r{k}'"), format!("'r{k}'"))),
        9 => { let w = *pick(s, &["null", "__TYPE__", "__PROC__", "__IMPLIED_TYPE__"]); (w.into(), w.into(), None) },
        10 => { let (t, b) = kinds(s); on((format!("as({t})"), format!("as({b})"))) },
        11 => on((format!("::v{k}"), format!("::v{k}"))),
        12..=14 => {
            let e = flat(s, depth - 1, n, 3, true);
            on((format!("({})", source(&e)), format!("<{}>", group(&e))))
        },
        15 | 16 => { let a = args(s, depth, n); on((format!("f{k}{}", a.0), format!("f{k}{}", a.1))) },
        17 => { let a = args(s, depth, n); on((format!("{}{}", pick(s, &["list", "alist"]), a.0), format!("list{}", a.1))) },
        18 => { let (a, b) = (args(s, depth, n), args(s, depth, n)); on((format!("call{}{}", a.0, b.0), format!("call{}{}", a.1, b.1))) },
        19 => {
            let l = if s.bool() { Some(arg(s, depth, n)) } else { None };
            let (f, a) = (arg(s, depth, n), args(s, depth, n));
            on((format!("call_ext({}{}){}", l.as_ref().map(|l| format!("{}, ", l.0)).unwrap_or_default(), f.0, a.0), format!("ext({:?}, {}){}", l.map(|l| l.1), f.1, a.1)))
        },
        20 => { let a = args(s, depth, n); let w = *pick(s, &["..", ".", "::g"]); on((format!("{w}{}", a.0), format!("{w}{}", a.1))) },
        21 | 22 => {
            let (t, x) = match s.below(5) {
                0 => ("".into(), "new".into()),
                1 => { let p = path(s, depth, n, false); (p.0, format!("new {}", p.1)) },
                2 => { let p = path(s, depth, n, true); (p.0, format!("new {}", p.1)) },
                3 => (".".into(), "new mini .".into()),
                _ => {
                    let mut t = format!("v{k}");
                    let mut x = format!("new mini v{k}");
                    for i in 0..s.below(4) { let w = *pick(s, &[".", ":", "?.", "?:"]); t.push_str(&format!("{w}m{i}")); x.push_str(&format!(" {w}m{i}")); }
                    (t, x)
                },
            };
            let a = args(s, depth, n);
            on((format!("new {t}{}", a.0), format!("{x}{}", a.1)))
        },
        23 => {
            let a = args(s, depth, n);
            let (mut t, mut b, mut l) = (String::new(), None, None);
            let w = *pick(s, &["input", "locate"]);
            let a = if w == "locate" { let x = arg(s, 0, n); (format!("({})", x.0), format!("({})", x.1)) } else { a };
            if w == "input" && s.bool() { let k = kinds(s); t = format!(" as {}", k.0); b = Some(k.1); }
            if s.bool() { let x = arg(s, depth, n); t.push_str(&format!(" in {}", x.0)); l = Some(x.1); }
            on((format!("({w}{}{t})", a.0), format!("<{w}{} as {b:?} in {l:?}>", a.1)))
        },
        24 => {
            let v: Vec<_> = (0..1 + s.below(3)).map(|_| (if s.bool() { Some(arg(s, depth, n)) } else { None }, arg(s, depth, n))).collect();
            on((format!("pick({})", v.iter().map(|(w, x)| match w { Some(w) => format!("{}; {}", w.0, x.0), None => x.0.clone() }).collect::<Vec<_>>().join(", ")),
                format!("pick{:?}", v.iter().map(|(w, x)| (w.as_ref().map(|w| w.1.clone()), x.1.clone())).collect::<Vec<_>>())))
        },
        25 => { let dot = s.bool(); let p = path(s, depth, n, dot); on((format!("({})", p.0), format!("<path {}>", p.1))) },
        26 => {
            let (mut t, mut x) = (format!("\"a{k}["), format!("\"a{k}"));
            let m = 1 + s.below(3);
            for i in 0..m {
                if s.below(5) > 0 { let e = arg(s, depth, n); t.push_str(&e.0); x.push_str(&format!("[{}]", e.1)); } else { x.push_str("[]"); }
                t.push_str(&format!("]b{i}{}", if i + 1 < m { "[" } else { "\"" }));
                x.push_str(&format!("b{i}"));
            }
            x.push('"');
            (t, x, Some(true))
        },
        _ => on(("(.)".into(), "<.>".into())),
    }
}

fn operand(s: &mut dyn Src, depth: usize, n: &mut usize) -> El {
    let mut text = String::new();
    let mut pre = vec![];
    for _ in 0..[0, 0, 0, 0, 1, 1, 2, 3, 5][s.below(9)] {
        let p = pick(s, &["-", "!", "~", "++", "--", "&", "*"]);
        text.push_str(p);
        text.push(' ');
        pre.push(*p);
    }
    let (t, mut shown, follows) = term(s, depth, n);
    text.push_str(&t);
    // a name with names only after it: a colon right after it is for another one
    let mut names = follows == Some(false);
    for _ in 0..[0, 0, 0, 0, 1, 1, 2, 4][s.below(8)] {
        if follows.is_none() { break; }
        *n += 1;
        let w = *pick(s, &[".", ".", "?.", "?:", "::", if names { ":" } else { "." }]);
        match s.below(7) {
            0 => { text.push_str("++"); shown = format!("({shown} post++)"); names = false; },
            1 => { text.push_str("--"); shown = format!("({shown} post--)"); names = false; },
            2 | 3 => { text.push_str(&format!("{w}m{n}")); shown = format!("({shown}{w}m{n})"); },
            4 if depth > 0 => {
                let e = arg(s, depth, n);
                let w = *pick(s, &["[", "[", "?["]);
                text.push_str(&format!("{w}{}]", e.0));
                shown = format!("({shown}{w}{}])", e.1);
                names = false;
            },
            _ => {
                let a = args(s, depth, n);
                let m = *n;
                if w == "::" { text.push_str(&format!("::m{m}()")); shown = format!("({shown}::m{m}())"); }
                else { text.push_str(&format!("{w}m{m}{}", a.0)); shown = format!("({shown}{w}m{m}{})", a.1); }
                names = false;
            },
        }
    }
    for p in pre.iter().rev() { shown = format!("({p}{shown})"); }
    El::Operand(text, shown)
}

/// `loose`: operators looser than the conditional may be used
fn flat(s: &mut dyn Src, depth: usize, n: &mut usize, len: usize, loose: bool) -> Vec<El> {
    let mut v = vec![operand(s, depth, n)];
    let mut range = false;
    for _ in 0..s.below(len + 1) {
        let k = s.below(if loose { 13 } else { 11 });
        if k == 0 {
            v.push(El::Quest);
            v.extend(flat(s, depth.saturating_sub(1), n, 2, false));
            v.push(El::Colon);
        } else {
            let o = match k {
                11 => 24 + s.below(15),
                12 => OPS.len() - 1,
                _ => s.below(24),
            };
            v.push(El::Op(o));
            if OPS[o].0 == "in" && loose && !range && s.below(3) == 0 {
                range = true;
                v.push(operand(s, depth, n));
                v.push(El::To);
            }
        }
        v.push(operand(s, depth, n));
    }
    v
}

fn source(e: &[El]) -> String {
    let mut out = String::new();
    for (i, x) in e.iter().enumerate() {
        let t = match x { El::Operand(t, _) => t.as_str(), El::Op(o) => OPS[*o].0, El::Quest => "?", El::Colon => ":", El::To => "to" };
        // a call or index is no name: a colon after it belongs to the conditional, white space or not
        let tight = |i: usize| matches!(&e[i], El::Colon) && matches!(&e[i - 1], El::Operand(t, _) if t.ends_with([')', ']'])) && matches!(&e[i + 1], El::Operand(t, _) if t.starts_with('v') && t.len() % 2 == 0);
        if i > 0 && !(tight(i) || i > 1 && tight(i - 1)) { out.push(' '); }
        out.push_str(t);
    }
    out
}

/// grouping by the reference: split at the loosest operator, from the side its associativity asks for
fn group(e: &[El]) -> String {
    if let [El::Operand(_, s)] = e { return s.clone(); }
    // position of everything outside the arms between ? and :
    let mut depth = 0;
    let mut outer = vec![];
    for (i, x) in e.iter().enumerate() {
        if let El::Colon = x { depth -= 1; }
        if depth == 0 { outer.push(i); }
        if let El::Quest = x { depth += 1; }
    }
    let level = |i: usize| if let El::Op(o) = e[i] { OPS[o].2 } else { 0 };
    // a range: only to the right of an `in`; reaches to the end
    if let Some(&t) = outer.iter().find(|&&i| matches!(e[i], El::To)) {
        let k = *outer.iter().filter(|&&i| i < t && level(i) == 14).last().unwrap();
        return format!("({} in ({} to {}))", group(&e[..k]), group(&e[k + 1..t]), group(&e[t + 1..]));
    }
    let bin = |k: usize| { let El::Op(o) = e[k] else { unreachable!() }; format!("({} {} {})", group(&e[..k]), OPS[o].1, group(&e[k + 1..])) };
    if let Some(&k) = outer.iter().filter(|&&i| level(i) == 14).last() { return bin(k); }
    if let Some(&k) = outer.iter().find(|&&i| level(i) == 13) { return bin(k); }
    if let Some(&q) = outer.iter().find(|&&i| matches!(e[i], El::Quest)) {
        let mut d = 0;
        let c = (q..e.len()).find(|&i| { match e[i] { El::Quest => d += 1, El::Colon => d -= 1, _ => {} } d == 0 }).unwrap();
        return format!("({} ? {} : {})", group(&e[..q]), group(&e[q + 1..c]), group(&e[c + 1..]));
    }
    for l in (1..=11).rev() {
        if let Some(&k) = outer.iter().filter(|&&i| level(i) == l).last() { return bin(k); }
    }
    unreachable!()
}

fn list(v: &[Expression]) -> String { format!("({})", v.iter().map(shown).collect::<Vec<_>>().join(", ")) }
fn prefab(p: &Prefab) -> String {
    let mut t: String = p.path.iter().map(|(o, n)| format!("{o}{n}")).collect();
    for (k, x) in p.vars.iter() { t.push_str(&format!("{{{k}={}}}", shown(x))); }
    t
}
/// the grouping of the tree that was built
pub fn shown(e: &Expression) -> String {
    match e {
        Expression::Base { term, follow } => {
            let given = |a: &Option<Box<[Expression]>>| match a { Some(a) => list(a), None => "without".into() };
            let mut s = match &term.elem {
                Term::Expr(e) => format!("<{}>", shown(e)),
                Term::Null => "null".into(),
                Term::Int(i) => i.to_string(),
                Term::Float(f) => format!("{f}f"),
                Term::Ident(i) => i.to_string(),
                Term::String(t) => format!("\"{t}\""),
                Term::Resource(t) => format!("'{t}'"),
                Term::As(k) => format!("as({})", k.bits()),
                Term::__PROC__ => "__PROC__".into(),
                Term::__TYPE__ => "__TYPE__".into(),
                Term::__IMPLIED_TYPE__ => "__IMPLIED_TYPE__".into(),
                Term::Prefab(p) => format!("path {}", prefab(p)),
                Term::InterpString(t, parts) => {
                    let mut x = format!("\"{t}");
                    for (e, t) in parts.iter() { match e { Some(e) => x.push_str(&format!("[{}]{t}", shown(e))), None => x.push_str(&format!("[]{t}")) } }
                    x.push('"');
                    x
                },
                Term::Call(n, a) => format!("{n}{}", list(a)),
                Term::SelfCall(a) => format!(".{}", list(a)),
                Term::ParentCall(a) => format!("..{}", list(a)),
                Term::GlobalIdent(n) => format!("::{n}"),
                Term::GlobalCall(n, a) => format!("::{n}{}", list(a)),
                Term::NewImplicit { args } => format!("new{}", given(args)),
                Term::NewPrefab { prefab: p, args } => format!("new {}{}", prefab(p), given(args)),
                Term::NewMiniExpr { expr, args } => {
                    let mut x = format!("new mini {}", expr.ident);
                    for f in expr.fields.iter() { x.push_str(&format!(" {}{}", f.kind.name(), f.ident)); }
                    x + &given(args)
                },
                Term::List(a) => format!("list{}", list(a)),
                Term::Input { args, input_type, in_list } => format!("input{} as {:?} in {:?}", list(args), input_type.map(|k| k.bits()), in_list.as_ref().map(|e| shown(e))),
                Term::Locate { args, in_list } => format!("locate{} as {:?} in {:?}", list(args), None::<u32>, in_list.as_ref().map(|e| shown(e))),
                Term::Pick(a) => format!("pick{:?}", a.iter().map(|(w, x)| (w.as_ref().map(shown), shown(x))).collect::<Vec<_>>()),
                Term::DynamicCall(a, b) => format!("call{}{}", list(a), list(b)),
                Term::ExternalCall { library, function, args } => format!("ext({:?}, {}){}", library.as_ref().map(|l| shown(l)), shown(function), list(args)),
            };
            for f in follow.iter() {
                s = match &f.elem {
                    Follow::Unary(UnaryOp::PostIncr) => format!("({s} post++)"),
                    Follow::Unary(UnaryOp::PostDecr) => format!("({s} post--)"),
                    Follow::Unary(u) => format!("({}{s})", u.name()),
                    Follow::Field(k, i) => format!("({s}{}{i})", k.name()),
                    Follow::Index(k, e) => format!("({s}{}{}])", if *k == ListAccessKind::Safe { "?[" } else { "[" }, shown(e)),
                    Follow::Call(k, i, a) => format!("({s}{}{i}{})", k.name(), list(a)),
                    Follow::StaticField(i) => format!("({s}::{i})"),
                    Follow::ProcReference(i) => format!("({s}::{i}())"),
                };
            }
            s
        },
        Expression::BinaryOp { op, lhs, rhs } => format!("({} {} {})", shown(lhs), op, shown(rhs)),
        Expression::AssignOp { op, lhs, rhs } => format!("({} {} {})", shown(lhs), op, shown(rhs)),
        Expression::TernaryOp { cond, if_, else_ } => format!("({} ? {} : {})", shown(cond), shown(if_), shown(else_)),
    }
}

fn precedence(s: &mut dyn Src) -> Result<(), String> {
    let mut n = 0;
    let e = flat(s, 2, &mut n, 6, true);
    let text = source(&e);
    let t2 = text.clone();
    s.note(&mut || t2.clone());
    if e.len() > 3 { s.nontrivial(); }
    let want = group(&e);
    let ctx = Context::default();
    let lexer = Lexer::new(&ctx, Default::default(), text.as_bytes());
    let got = parse_expression(&ctx, Default::default(), lexer.filter(|t| !matches!(t.token, dreammaker::lexer::Token::Punct(dreammaker::lexer::Punctuation::Space | dreammaker::lexer::Punctuation::Newline))));
    let got = match got { Ok(g) => g, Err(x) => return Err(format!("`{text}` was refused: {}", x.description())) };
    let errs: Vec<String> = ctx.errors().iter().filter(|e| e.severity() <= Severity::Warning).map(|e| e.description().to_owned()).collect();
    ensure!(errs.is_empty(), "`{text}`: {errs:?}");
    let got = shown(&got);
    ensure!(got == want, "`{text}` was grouped as {got}, the reference says {want}");
    Ok(())
}
pub const C15: Prop = Prop { id: "C15", enumerate: true, finite: false, rule: "expressions of every kind of operand, access and operator, with >= 2 operators", run: precedence };
