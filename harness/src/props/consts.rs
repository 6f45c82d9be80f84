use super::*;
use crate::src_::*;
use dreammaker::constants::{evaluate_str, Constant};
use dreammaker::indents::IndentProcessor;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;

#[derive(Clone, Debug)]
enum E {
    Num(String, f32),
    Str(String),
    Res(String),
    Null,
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    List(Vec<(E, Option<E>)>),
    Trig(&'static str, Box<E>),
    Rgb(Vec<(Option<&'static str>, E)>),
    Var(usize),
    /// G.v: through a null declared as /obj
    Field(usize),
    /// /path::v
    Static(usize, usize),
    /// declared without a value
    Unset,
    /// new, matrix(), ...: the name, the type made and the arguments
    Make(&'static str, Option<Box<E>>, Option<Vec<(E, Option<E>)>>),
    Path(String, Vec<(&'static str, E)>),
    /// a name given as a key
    Key(&'static str),
    Nameof(&'static str, &'static str),
    /// rgb() in one of the other colour spaces: HSV or HSL, named, components, alpha
    Colour(bool, bool, [i32; 3], Option<i32>),
    /// type, parent_type
    Type(&'static str),
    Parent,
    /// __IMPLIED_TYPE__, in parentheses or not, in the value of variable i
    Implied(usize, &'static str),
    Proc,
}
#[derive(Clone, Debug)]
enum V { Null, Num(f32), Str(String), Res(String), List(Vec<(V, Option<V>)>), Make(&'static str, Option<Box<V>>, Option<Vec<(V, Option<V>)>>), Path(String, Vec<(String, V)>), Colour([f64; 3], Option<i32>) }
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) | (V::Res(a), V::Res(b)) => a == b,
            (V::List(a), V::List(b)) => a == b,
            (V::Make(f, a, b), V::Make(g, c, d)) => f == g && a == c && b == d,
            // the order of settings does not matter
            (V::Path(a, v), V::Path(b, w)) => a == b && v.len() == w.len() && v.iter().all(|x| w.contains(x)),
            _ => false,
        }
    }
}

/// why there is no value
#[derive(Clone, Copy, Debug, PartialEq)]
enum No { NotConstant, Cycle, Unclaimed }

fn truthy(v: &V) -> bool {
    match v { V::Null => false, V::Num(x) => *x != 0.0, V::Str(s) => !s.is_empty(), _ => true }
}
fn flag(b: bool) -> V { V::Num(if b { 1.0 } else { 0.0 }) }
fn bits(x: u64) -> V { V::Num((x % (1 << 24)) as f32) }
/// whole part, as an unsigned number that bit operations work on; nothing is claimed about negative and huge operands
fn whole(x: f32) -> Result<u64, No> {
    if x.is_nan() || x < 0.0 || x >= 4294967296.0 { return Err(No::Unclaimed); }
    Ok(x.trunc() as u64)
}

fn unary(op: &str, v: V) -> Result<V, No> {
    Ok(match (op, v) {
        ("!", v) => flag(!truthy(&v)),
        ("-", V::Num(x)) => V::Num(-x),
        ("~", V::Num(x)) => bits((1 << 24) - 1 - whole(x)? % (1 << 24)),
        _ => return Err(No::NotConstant),
    })
}
fn binary(op: &str, a: V, b: V) -> Result<V, No> {
    match op {
        "==" => return Ok(flag(a == b)),
        "!=" => return Ok(flag(a != b)),
        "&&" => return Ok(if truthy(&a) { b } else { a }),
        "||" => return Ok(if truthy(&a) { a } else { b }),
        _ => {}
    }
    if let ("+", V::Str(a), V::Str(b)) = (op, &a, &b) { return Ok(V::Str(format!("{a}{b}"))); }
    let (V::Num(a), V::Num(b)) = (a, b) else { return Err(No::NotConstant) };
    Ok(match op {
        "+" => V::Num(a + b),
        "-" => V::Num(a - b),
        "*" => V::Num(a * b),
        "/" => V::Num(a / b),
        "%" => V::Num(a % b),
        "%%" => V::Num(a - b * (a / b).floor()),
        "**" => V::Num(a.powf(b)),
        "<" => flag(a < b),
        ">" => flag(b < a),
        "<=" => flag(a <= b),
        ">=" => flag(b <= a),
        "&" => { let (a, b) = (whole(a)?, whole(b)?); bits(a & b) }
        "|" => { let (a, b) = (whole(a)?, whole(b)?); bits(a | b) }
        "^" => { let (a, b) = (whole(a)?, whole(b)?); bits(a ^ b) }
        "<<" => { let (a, b) = (whole(a)?, whole(b)?); if b > 31 { return Err(No::Unclaimed); } bits(a << b) }
        ">>" => { let (a, b) = (whole(a)?, whole(b)?); if b > 31 { return Err(No::Unclaimed); } bits(a >> b) }
        _ => return Err(No::NotConstant),
    })
}

/// the three components of a colour by hue, saturation and value or lightness
fn colour(hsv: bool, [h, s, x]: [i32; 3]) -> [f64; 3] {
    let (h, s, x) = (h as f64, s as f64 / 100., x as f64 / 100.);
    let f = |n: f64| if hsv {
        let k = (n + h / 60.) % 6.;
        x - x * s * k.min(4. - k).clamp(0., 1.)
    } else {
        let k = (n + h / 30.) % 12.;
        x - s * x.min(1. - x) * (k - 3.).min(9. - k).clamp(-1., 1.)
    };
    (if hsv { [5., 3., 1.] } else { [0., 8., 4.] }).map(|n| f(n) * 255.)
}

struct Vars<'a> { hints: &'a [bool], exprs: &'a [Vec<Option<E>>], done: Vec<Vec<Option<Result<V, No>>>>, open: Vec<(usize, usize)> }
impl<'a> Vars<'a> {
    /// variable i as seen from level l: the value given at the nearest level above, evaluated there
    fn var(&mut self, l: usize, i: usize) -> Result<V, No> {
        let l = (0..=l).rev().find(|&l| self.exprs[l][i].is_some()).unwrap();
        if let Some(r) = &self.done[l][i] { return r.clone(); }
        if self.open.contains(&(l, i)) { return Err(No::Cycle); }
        self.open.push((l, i));
        let r = self.eval(l, &self.exprs[l][i].clone().unwrap());
        self.open.pop();
        // inside a cycle the outcome depends on where it was entered
        if r != Err(No::Cycle) || self.open.is_empty() { self.done[l][i] = Some(r.clone()); }
        r
    }
    fn eval(&mut self, l: usize, e: &E) -> Result<V, No> {
        Ok(match e {
            E::Num(_, x) => V::Num(*x),
            E::Str(s) => V::Str(s.clone()),
            E::Res(s) => V::Res(s.clone()),
            E::Null => V::Null,
            E::Un(op, a) => { let a = self.eval(l, a)?; unary(op, a)? }
            E::Bin(op, a, b) => { let (a, b) = (self.eval(l, a)?, self.eval(l, b)?); binary(op, a, b)? }
            E::Tern(c, a, b) => if truthy(&self.eval(l, c)?) { self.eval(l, a)? } else { self.eval(l, b)? },
            E::List(xs) => {
                let mut out = vec![];
                for (k, v) in xs { out.push((self.eval(l, k)?, match v { Some(v) => Some(self.eval(l, v)?), None => None })); }
                V::List(out)
            }
            E::Make(f, t, a) => {
                let t = match t { Some(t) => Some(Box::new(self.eval(l, t)?)), None => None };
                let a = match a { Some(a) => match self.eval(l, &E::List(a.clone()))? { V::List(a) => Some(a), _ => unreachable!() }, None => None };
                V::Make(f, t, a)
            }
            E::Path(p, v) => {
                let mut out = vec![];
                for (k, x) in v { out.push((k.to_string(), self.eval(l, x)?)); }
                V::Path(p.clone(), out)
            }
            E::Key(k) => V::Str(k.to_string()),
            E::Nameof(_, n) => V::Str(n.to_string()),
            E::Colour(hsv, _, c, a) => {
                if c[0] > 360 || c[1] > 100 || c[2] > 100 { return Err(No::NotConstant); }
                V::Colour(colour(*hsv, *c), *a)
            }
            E::Type(_) => V::Path(PATHS[l].into(), vec![]),
            E::Parent => V::Path(if l == 0 { "/atom/movable".into() } else { PATHS[l - 1].into() }, vec![]),
            E::Implied(i, _) => if self.hints[*i] { V::Path("/obj/a".into(), vec![]) } else { return Err(No::NotConstant) },
            E::Proc => V::Path("/obj/proc/pp".into(), vec![]),
            E::Trig(f, a) => match self.eval(l, a)? {
                V::Num(x) => {
                    if x.abs() > 720.0 { return Err(No::Unclaimed); }
                    let x = x as f64;
                    let d = std::f64::consts::PI / 180.0;
                    V::Num(match *f { "sin" => (x * d).sin(), "cos" => (x * d).cos(), "arcsin" => x.asin() / d, _ => x.acos() / d } as f32)
                }
                _ => return Err(No::NotConstant),
            },
            E::Rgb(xs) => {
                let mut slots = [None; 4];
                let mut p = 0;
                let mut vals = vec![];
                if !(3..=5).contains(&xs.len()) { return Err(No::NotConstant); }
                for (_, e) in xs { vals.push(self.eval(l, e)?); }
                for ((n, _), v) in xs.iter().zip(vals) {
                    let V::Num(x) = v else { return Err(No::NotConstant) };
                    if *n == Some("space") { continue; }
                    let x = x.trunc();
                    if !(0.0..=255.0).contains(&x) { return Err(No::NotConstant); }
                    let at = match n { None => p, Some("r" | "red") => 0, Some("g" | "green") => 1, Some("b" | "blue") => 2, _ => 3 };
                    if at < 4 { slots[at] = Some(x as u8); }
                    p += 1;
                }
                let [Some(r), Some(g), Some(b), a] = slots else { return Err(No::NotConstant) };
                V::Str(match a { None => format!("#{r:02x}{g:02x}{b:02x}"), Some(a) => format!("#{r:02x}{g:02x}{b:02x}{a:02x}") })
            }
            E::Var(i) => self.var(l, *i)?,
            E::Field(i) => self.var(0, *i)?,
            E::Static(l, i) => self.var(*l, *i)?,
            E::Unset => V::Null,
        })
    }
}

fn args(xs: &[(E, Option<E>)]) -> String {
    format!("({})", xs.iter().map(|(k, v)| match v { Some(v) => format!("{} = {}", text(k), text(v)), None => text(k) }).collect::<Vec<_>>().join(", "))
}
fn text(e: &E) -> String {
    match e {
        E::Num(t, _) => t.clone(),
        E::Str(s) => format!("\"{s}\""),
        E::Res(s) => format!("'{s}'"),
        E::Null => "null".into(),
        E::Un(o, a) => format!("({o}{})", text(a)),
        E::Bin(o, a, b) => format!("({} {o} {})", text(a), text(b)),
        E::Tern(c, a, b) => format!("({} ? {} : {})", text(c), text(a), text(b)),
        E::List(xs) => format!("list{}", args(xs)),
        E::Make("new", t, a) => format!("(new {}{})", t.as_ref().map(|t| text(t)).unwrap_or_default(), a.as_ref().map(|a| args(a)).unwrap_or_default()),
        E::Make(f, _, a) => format!("{f}{}", args(a.as_ref().unwrap())),
        E::Path(p, v) => if v.is_empty() { p.clone() } else { format!("{p}{{{}}}", v.iter().map(|(k, x)| format!("{k} = {}", text(x))).collect::<Vec<_>>().join("; ")) },
        E::Key(k) => k.to_string(),
        E::Nameof(t, _) => format!("nameof({t})"),
        E::Colour(hsv, named, c, a) => {
            let n = match (hsv, c[1] % 2) { (true, 0) => ["h", "s", "v"], (true, _) => ["hue", "saturation", "value"], (_, 0) => ["h", "s", "l"], _ => ["hue", "saturation", "luminance"] };
            let mut v: Vec<String> = (0..3).map(|i| if *named { format!("{} = {}", n[i], c[i]) } else { c[i].to_string() }).collect();
            if let Some(a) = a { v.push(if *named { format!("alpha = {a}") } else { a.to_string() }); }
            if *named { let k = c[2] as usize % v.len(); v.rotate_left(k); } else { v.push(format!("space = {}", if *hsv { 1 } else { 2 })); }
            format!("rgb({})", v.join(", "))
        }
        E::Type(t) => t.to_string(),
        E::Parent => "parent_type".into(),
        E::Implied(_, t) => t.to_string(),
        E::Proc => "/obj::pp()".into(),
        E::Trig(f, a) => format!("{f}({})", text(a)),
        E::Rgb(xs) => format!("rgb({})", xs.iter().map(|(n, e)| match n { Some(n) => format!("{n} = {}", text(e)), None => text(e) }).collect::<Vec<_>>().join(", ")),
        E::Var(i) => format!("v{i}"),
        E::Field(i) => format!("G.v{i}"),
        E::Static(l, i) => format!("{}::v{i}", PATHS[*l]),
        E::Unset => String::new(),
    }
}

const PATHS: [&str; 3] = ["/obj", "/obj/a", "/obj/a/b"];
fn num(s: &mut dyn Src) -> E {
    let (t, x) = match s.below(6) {
        0 | 1 => { let n = s.below(10); (n.to_string(), n as f32) }
        2 => { let n = s.below(300); (n.to_string(), n as f32) }
        3 => { let n = s.below(40); (format!("{}.{}", n / 4, ["0", "25", "5", "75"][n % 4]), n as f32 / 4.0) }
        4 => { let n = *pick(s, &[16777215, 16777216, 16777217, 2147483647, 65535, 31, 32, 33, 8388608]); (n.to_string(), n as f32) }
        _ => { let n = s.below(1 << 24); (n.to_string(), n as f32) }
    };
    E::Num(t, x)
}
fn arguments(s: &mut dyn Src, d: usize, vars: usize) -> Vec<(E, Option<E>)> {
    (0..s.below(4)).map(|_| match s.below(6) {
        0 => (E::Str(pick(s, &["k", "l"]).to_string()), Some(expr(s, d, vars))),
        1 => (E::Key(pick(s, &["k", "l"])), Some(expr(s, d, vars))),
        2 => (num(s), Some(expr(s, d, vars))),
        _ => (expr(s, d, vars), None),
    }).collect()
}
fn path(s: &mut dyn Src, d: usize, vars: usize) -> E {
    let p = *pick(s, &["/obj", "/obj/a", "/turf/b", "/list"]);
    let n = if s.bool() { 0 } else { s.below(3) };
    let mut v: Vec<(&'static str, E)> = vec![];
    for i in 0..n { let k = if s.bool() { i } else { n - 1 - i }; let k = ["x", "y"][k]; if v.iter().all(|y| y.0 != k) { v.push((k, expr(s, d, vars))); } }
    E::Path(p.into(), v)
}
fn expr(s: &mut dyn Src, depth: usize, vars: usize) -> E {
    let k = s.below(if depth == 0 { 6 } else { 29 });
    let d = depth.saturating_sub(1);
    match k {
        0 | 1 => num(s),
        2 => E::Str(pick(s, &["", "a", "b", "0", "ab"]).to_string()),
        3 => E::Null,
        4 if vars > 0 => E::Var(s.below(vars)),
        4 => E::Res(pick(s, &["a", "b.dmi"]).to_string()),
        5 if vars > 0 => match s.below(3) {
            0 => E::Var(s.below(vars)),
            // only constants can be read this way whatever the order: the even ones
            1 => E::Field(2 * s.below((vars + 1) / 2)),
            _ => E::Static(s.below(3), s.below(vars)),
        },
        5 => num(s),
        6..=8 => E::Un(pick(s, &["-", "!", "~"]), Box::new(expr(s, d, vars))),
        9 if s.below(4) == 0 => {
            let a = expr(s, d, vars);
            E::Bin(pick(s, &["==", "!="]), Box::new(a.clone()), Box::new(a))
        },
        9..=19 => {
            let o = *pick(s, &["+", "-", "*", "/", "%", "%%", "**", "<", ">", "<=", ">=", "&", "|", "^", "<<", ">>", "==", "!=", "&&", "||"]);
            E::Bin(o, Box::new(expr(s, d, vars)), Box::new(expr(s, d, vars)))
        }
        20 => E::Tern(Box::new(expr(s, d, vars)), Box::new(expr(s, d, vars)), Box::new(expr(s, d, vars))),
        21 => {
            E::List(arguments(s, d, vars))
        }
        23 | 24 => {
            let f = *pick(s, &["new", "new", "matrix", "newlist", "icon", "sound", "filter", "file", "generator", "vector"]);
            let t = if f == "new" && s.bool() { Some(Box::new(path(s, d, vars))) } else { None };
            let a = if f == "new" && t.is_some() && s.below(3) == 0 { None } else { Some(arguments(s, d, vars)) };
            E::Make(f, t, a)
        }
        // wherever it stands, nothing can be taken for a part of it
        25 => E::Tern(Box::new(E::Num("1".into(), 1.0)), Box::new(path(s, d, vars)), Box::new(E::Null)),
        26 => { let x = *pick(s, &[("v1", "v1"), ("/obj/a", "a"), ("/obj::v0", "v0"), ("v0.x", "x")]); E::Nameof(x.0, x.1) },
        27 => {
            let c = [*pick(s, &[0, 30, 60, 90, 120, 180, 210, 240, 270, 300, 330, 359, 360, 361]), *pick(s, &[0, 25, 50, 75, 100, 101]), *pick(s, &[0, 20, 40, 50, 63, 80, 100, 101])];
            let a = if s.bool() { Some(s.below(256) as i32) } else { None };
            E::Colour(s.bool(), s.bool(), c, a)
        },
        28 if vars > 0 => match s.below(3) { 0 => E::Parent, 1 => E::Proc, _ => E::Type(pick(s, &["type", "__TYPE__"])) },
        22 => {
            let f = *pick(s, &["sin", "cos", "arcsin", "arccos"]);
            let a = if f.starts_with("arc") { E::Num("0.5".into(), 0.5) } else { E::Num("30".into(), 30.0) };
            E::Trig(f, Box::new(if s.bool() { a } else { expr(s, d, vars) }))
        }
        _ => {
            let mut v: Vec<(Option<&'static str>, E)> = vec![];
            let named = s.bool();
            let names: &[[&'static str; 2]] = &[["r", "red"], ["g", "green"], ["b", "blue"], ["a", "alpha"]];
            let n = if named { 3 + s.below(2) } else { [3, 3, 3, 4, 4, 4, 2, 6][s.below(8)] };
            let mut left: Vec<usize> = (0..4).collect();
            for i in 0..n {
                let e = if s.below(8) == 0 { expr(s, d, vars) } else { let n = s.below(256); E::Num(n.to_string(), n as f32) };
                let at = if named { left.remove(s.below(left.len())) } else { i };
                v.push((if named { Some(names[at][s.below(2)]) } else { None }, e));
            }
            if s.below(3) == 0 {
                let at = s.below(v.len() + 1);
                v.insert(at, (Some("space"), E::Num("0".into(), 0.0)));
                if s.bool() { v.remove(if at == 0 { 1 } else { 0 }); }
            }
            E::Rgb(v)
        }
    }
}

fn agree(c: &Constant, v: &V) -> bool {
    match (c, v) {
        (Constant::Null(_), V::Null) => true,
        (Constant::Float(a), V::Num(b)) => a == b || a.is_nan() && b.is_nan(),
        (Constant::String(a), V::Str(b)) => a.as_str() == b,
        (Constant::Resource(a), V::Res(b)) => a.as_str() == b,
        (Constant::Prefab(p), V::Path(q, w)) => p.path.iter().map(|x| format!("/{x}")).collect::<String>() == *q && p.vars.len() == w.len() && p.vars.iter().zip(w).all(|((k, x), (l, y))| k.as_str() == l && agree(x, y)),
        (Constant::New { type_, args }, V::Make("new", t, a)) => {
            (match (type_, t) { (Some(p), Some(q)) => agree(&Constant::Prefab(p.clone()), q), (None, None) => true, _ => false })
                && match (args, a) { (Some(x), Some(y)) => agree(&Constant::List(x.clone()), &V::List(y.clone())), (None, None) => true, _ => false }
        },
        (Constant::Call(f, x), V::Make(g, None, Some(y))) => format!("{f:?}").to_lowercase() == *g && agree(&Constant::List(x.clone()), &V::List(y.clone())),
        (Constant::String(t), V::Colour(c, a)) => {
            let Some(h) = t.strip_prefix('#') else { return false };
            let b: Vec<i64> = (0..h.len() / 2).filter_map(|i| i64::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            h.len() == 2 * (3 + a.is_some() as usize) && b.len() * 2 == h.len() && (0..3).all(|i| (b[i] as f64 - c[i]).abs() <= 1.0) && a.is_none_or(|a| b[3] == a as i64)
        },
        (Constant::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| agree(k, l) && match (x, y) { (Some(x), Some(y)) => agree(x, y), (None, None) => true, _ => false }),
        _ => false,
    }
}
/// a NaN or rounding-sensitive value in an operand makes comparisons meaningless
fn fragile(e: &E) -> bool {
    match e {
        E::Trig(..) | E::Colour(..) => true,
        E::Make(_, t, a) => t.as_ref().is_some_and(|t| fragile(t)) || a.as_ref().is_some_and(|a| a.iter().any(|(k, x)| fragile(k) || x.as_ref().is_some_and(fragile))),
        E::Path(_, v) => v.iter().any(|(_, x)| fragile(x)),
        E::Bin("/" | "%" | "%%" | "**", ..) => true,
        E::Bin(_, a, b) => fragile(a) || fragile(b),
        E::Un(_, a) => fragile(a),
        E::Tern(a, b, c) => fragile(a) || fragile(b) || fragile(c),
        E::List(v) => v.iter().any(|(k, x)| fragile(k) || x.as_ref().is_some_and(fragile)),
        E::Rgb(v) => v.iter().any(|(_, e)| fragile(e)),
        _ => false,
    }
}
/// operations whose result may be rounded or not a number, used below the top
fn inner_fragile(e: &E) -> bool {
    match e {
        E::Trig(_, a) | E::Un(_, a) => fragile(a),
        E::Bin(_, a, b) => fragile(a) || fragile(b),
        E::Colour(..) => false,
        e => fragile(e),
    }
}

fn closed(s: &mut dyn Src) -> Result<(), String> {
    let d = 1 + s.below(4);
    let e = expr(s, d, 0);
    let t = text(&e);
    s.note(&|| t.clone());
    let want = Vars { hints: &[], exprs: &[], done: vec![], open: vec![] }.eval(0, &e);
    let got = evaluate_str(Default::default(), t.as_bytes());
    if inner_fragile(&e) { return Ok(()); }
    match (&want, got) {
        (Ok(V::Num(v)), Ok(Constant::Float(c))) if matches!(e, E::Trig(..)) => ensure!((c - v).abs() < 1e-4 || c.is_nan() && v.is_nan(), "{t} folds to {c}, its value is {v}"),
        (Ok(v), Ok(c)) => { s.nontrivial(); ensure!(agree(&c, v), "{t} folds to {c}, its value is {v:?}"); }
        (Ok(v), Err(er)) => return Err(format!("{t} is not folded ({}), its value is {v:?}", er.description())),
        (Err(No::NotConstant), Ok(c)) => return Err(format!("{t} folds to {c}, but it has no constant value")),
        (Err(_), _) => {}
    }
    Ok(())
}

/// variables of /obj, /obj/a and /obj/a/b that refer to each other
fn vars(s: &mut dyn Src) -> Result<(), String> {
    let n = 2 + s.below(4);
    let mut exprs: Vec<Vec<Option<E>>> = vec![vec![None; n]; 3];
    let paths = PATHS;
    let mut t = String::from("/var/obj/G = null\n/obj/proc/pp()\n\n");
    let mut hints = vec![false; n];
    for l in 0..3 {
        t.push_str(paths[l]);
        t.push('\n');
        for i in 0..n {
            if l > 0 && s.below(3) > 0 { continue; }
            let d = s.below(3);
            let e = match s.below(12) { 0..=2 if l == 0 => E::Unset, 3 => E::Implied(i, pick(s, &["__IMPLIED_TYPE__", "(__IMPLIED_TYPE__)", "(1 ? __IMPLIED_TYPE__ : 2)"])), _ => expr(s, d, n) };
            let kind = if l > 0 { "" } else if i % 2 == 0 { *pick(s, &["var/const/", "var/const/obj/a/"]) } else { *pick(s, &["var/", "var/obj/a/"]) };
            t.push_str(&match &e { E::Unset => format!("\t{kind}v{i}\n"), e => format!("\t{kind}v{i} = {}\n", text(e)) });
            if l == 0 { hints[i] = kind.ends_with("obj/a/"); }
            exprs[l][i] = Some(e);
        }
        t.push_str("\tname = \"x\"\n\n");
    }
    s.note(&|| t.clone());
    if exprs.iter().flatten().flatten().any(fragile) { return Ok(()); }
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "test.dm".into(), t.clone());
    let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    let mut o = Vars { hints: &hints, exprs: &exprs, done: vec![vec![None; n]; 3], open: vec![] };
    let mut cycle = false;
    let errs: Vec<String> = ctx.errors().iter().map(|e| e.description().to_owned()).collect();
    for l in 0..3 {
        let ty = tree.find(paths[l]).unwrap();
        for i in 0..n {
            if exprs[l][i].is_none() { continue; }
            let want = o.var(l, i);
            let got = ty.vars.get(&*format!("v{i}")).and_then(|v| v.value.constant.clone());
            match (want, got) {
                (Ok(v), Some(c)) => { s.nontrivial(); ensure!(agree(&c, &v), "{}/v{i} is {c}, its value is {v:?}\n{t}", paths[l]); }
                (Ok(v), None) => return Err(format!("{}/v{i} is not evaluated, its value is {v:?}; {errs:?}\n{t}", paths[l])),
                (Err(No::NotConstant), Some(c)) => return Err(format!("{}/v{i} is {c}, but it has no constant value\n{t}", paths[l])),
                (Err(No::Unclaimed), _) => return Ok(()),
                (Err(No::Cycle), c) => { cycle = true; ensure!(c.is_none(), "{}/v{i} refers to itself, but it is {c:?}\n{t}", paths[l]); }
                (Err(_), None) => ensure!(!errs.is_empty(), "{}/v{i} has no value and nothing was reported\n{t}", paths[l]),
            }
        }
    }
    ensure!(cycle || !errs.iter().any(|e| e.contains("recursive")), "nothing refers to itself, but {errs:?}\n{t}");
    Ok(())
}

fn c09(s: &mut dyn Src) -> Result<(), String> {
    if s.below(6) == 5 { vars(s) } else { closed(s) }
}

pub const C09: Prop = Prop { id: "C09", enumerate: true, finite: false, rule: "expressions of nested literals, operators, conditionals, lists, trigonometry and rgb(), and variables of three types referring to each other", run: c09 };
