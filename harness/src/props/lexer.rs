use super::*;
use crate::src_::*;
use dreammaker::docs::{CommentKind, DocTarget};
use dreammaker::lexer::{Lexer, Punctuation, Token};
use dreammaker::{Context, FileId};

/// what a source text consists of, found by position
#[derive(Clone, Debug, PartialEq)]
enum T {
    Punct(&'static str),
    /// a colon that closes (Some(true)), does not (Some(false)), or may do either
    Colon(Option<bool>),
    Ident(String, bool),
    Int(i64),
    Float(f32),
    /// opened, continued
    Str(bool, bool, String),
    Res(String),
    Doc(bool, bool, String),
    /// nothing is claimed from here on
    Unclaimed,
}

const PUNCTS: &[&str] = &[
    "<=>", "<<=", ">>=", "%%=", "&&=", "||=", "...",
    "==", "!=", "<=", ">=", "<>", "<<", ">>", "~=", "~!", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ":=", "++", "--", "**", "%%", "##", "..", "::", "?.", "?:", "?[", "{\"", "//", "/*",
    "\n", "\t", " ", "!", "\"", "#", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "[", "]", "^", "{", "|", "}", "~",
];

fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) { Ok(s) => s.to_owned(), Err(_) => b.iter().map(|&c| c as char).collect() }
}
fn blank(b: u8) -> bool { b == b' ' || b == b'\t' }
fn wordy(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' }

struct Scan<'a> { s: &'a [u8], p: usize, open: Vec<(&'static [u8], usize)>, hash: u8 }
impl Scan<'_> {
    fn at(&self, i: usize) -> u8 { *self.s.get(i).unwrap_or(&0) }
    fn has(&self, t: &[u8]) -> bool { self.s[self.p..].starts_with(t) }
    /// only blanks on the line before i
    fn line_head(&self, i: usize, base: usize) -> bool { self.s[base..i].iter().rev().take_while(|&&c| c != b'\n').all(|&c| blank(c)) }

    /// the line end after a backslash, with the white space around it
    fn splice(&mut self) {
        let mut newline = false;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\r' => {},
                b'\n' if !newline => newline = true,
                _ => break,
            }
            self.p += 1;
        }
    }
    fn string(&mut self, end: &'static [u8], continued: bool) -> T {
        let mut out = vec![];
        loop {
            if self.p >= self.s.len() { return T::Unclaimed; }
            if self.has(end) { self.p += end.len(); return T::Str(false, continued, text(&out)); }
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'[' => { self.open.push((end, 1)); return T::Str(true, continued, text(&out)); },
                b'\\' => {
                    if self.p >= self.s.len() { return T::Unclaimed; }
                    let d = self.s[self.p];
                    self.p += 1;
                    if d == b'\n' || d == b'\r' { self.splice(); } else { out.extend([b'\\', d]); }
                },
                c => out.push(c),
            }
        }
    }
    /// up to the first t
    fn raw(&mut self, t: &[u8]) -> T {
        match (self.p..self.s.len()).find(|&i| self.s[i..].starts_with(t)) {
            Some(i) => { let r = T::Str(false, false, text(&self.s[self.p..i])); self.p = i + t.len(); r },
            None => T::Unclaimed,
        }
    }
    fn number(&mut self) -> T {
        let hex = self.has(b"0x");
        let octal = self.at(self.p) == b'0' && !hex;
        let mut body = String::new();
        if hex { self.p += 2; }
        let (mut float, mut sign) = (false, false);
        while self.p < self.s.len() {
            let c = self.s[self.p] as char;
            match c {
                '_' => { self.p += 1; continue; },
                '.' => {},
                'e' | 'E' => { sign |= !hex; },
                '0'..='9' => sign = false,
                'a'..='f' | 'A'..='F' if hex => sign = false,
                '+' | '-' if sign => {},
                '#' if self.has(b"#INF") => { self.p += 4; return T::Float(f32::INFINITY); },
                '#' if self.has(b"#IND") => { self.p += 4; return T::Float(f32::NAN); },
                '#' => return T::Unclaimed,
                _ => break,
            }
            if (c == '.' || c == 'e' || c == 'E') && !hex { float = true; }
            body.push(c);
            self.p += 1;
        }
        if float { return match body.parse() { Ok(x) => T::Float(x), Err(_) => T::Float(0.) }; }
        let base: i64 = if hex { 16 } else if octal { 8 } else { 10 };
        let mut v = 0i64;
        for c in body.chars() {
            match c.to_digit(base as u32) { Some(d) => v = (v * base + d as i64).min(1 << 50), None => return T::Int(0) }
        }
        if v <= i32::MAX as i64 { T::Int(v) } else if base == 10 { T::Float(body.parse().unwrap()) } else { T::Int(0) }
    }
    fn comment(&mut self) -> Option<T> {
        let from = self.p;
        let mark = self.at(from);
        let mut depth = 1;
        let mut i = from;
        loop {
            if i + 1 >= self.s.len() { self.p = self.s.len(); return Some(T::Unclaimed); }
            match &self.s[i..i + 2] { b"/*" => depth += 1, b"*/" => depth -= 1, _ => {} }
            if depth == 0 { break; }
            i += 1;
        }
        self.p = i + 2;
        if mark != b'*' && mark != b'!' { return None; }
        let a = if mark == b'!' { from + 1 } else { from };
        let t: Vec<u8> = self.s[a.min(i)..i].iter().copied().filter(|&c| c != 0).collect();
        if t.is_empty() { None } else { Some(T::Doc(true, mark == b'*', text(&t))) }
    }
    fn line_comment(&mut self) -> Option<T> {
        let from = self.p;
        let mut i = from;
        while i < self.s.len() && self.s[i] != b'\n' {
            if self.s[i] == b'\\' {
                i += 1;
                while self.at(i) == b'\r' { i += 1; }
            }
            i += 1;
        }
        self.p = i.min(self.s.len());
        let mark = self.at(from);
        if mark != b'/' && mark != b'!' { return None; }
        let t: Vec<u8> = self.s[from + 1..self.p].iter().copied().filter(|&c| c != b'\n' && c != b'\r').collect();
        Some(T::Doc(false, mark == b'/', text(&t)))
    }
    fn all(&mut self) -> Vec<(usize, T)> {
        let mut out: Vec<(usize, T)> = vec![];
        let base = self.p;
        // just after a word or closing bracket; white space since
        let (mut tight, mut loose) = (false, false);
        let mut line = usize::MAX;
        while self.p < self.s.len() {
            let i = self.p;
            let c = self.s[i];
            let n = self.s[..i].iter().filter(|&&c| c == b'\n').count();
            if n != line { line = n; self.hash = 0; }
            if c == b'\r' || blank(c) && !self.line_head(i, base) { tight = false; loose |= blank(c); self.p += 1; continue; }
            let (was_tight, was_loose) = (tight, loose);
            tight = false;
            loose = false;
            let t = if self.hash == 2 {
                self.hash = 0;
                Some(self.string(b"\n", false))
            } else if let Some(p) = PUNCTS.iter().filter(|p| self.has(p.as_bytes())).max_by_key(|p| p.len()) {
                self.p += p.len();
                let rest = *self.s.get(self.p).unwrap_or(&b'x');
                match *p {
                    "#" if self.hash == 0 => { self.hash = 1; Some(T::Punct("#")) },
                    "/*" => self.comment(),
                    "//" => self.line_comment(),
                    "'" => {
                        let mut b = vec![];
                        while self.at(self.p) != b'\'' && self.p < self.s.len() {
                            if self.s[self.p] == b'\\' { self.p += 1; }
                            if self.p < self.s.len() { b.push(self.s[self.p]); }
                            self.p += 1;
                        }
                        if self.p >= self.s.len() { self.p = self.s.len(); Some(T::Unclaimed) } else { self.p += 1; Some(T::Res(text(&b))) }
                    },
                    "\"" => Some(self.string(b"\"", false)),
                    "{\"" => Some(self.string(b"\"}", false)),
                    "[" | "?[" => { if let Some(x) = self.open.last_mut() { x.1 += 1; } Some(T::Punct(p)) },
                    "]" => {
                        if let Some(x) = self.open.last_mut() { x.1 -= 1; }
                        if let Some(&(end, 0)) = self.open.last() { self.open.pop(); Some(self.string(end, true)) } else { tight = true; Some(T::Punct("]")) }
                    },
                    ")" => { tight = true; Some(T::Punct(")")) },
                    ":" => Some(T::Colon(if blank(rest) || rest == b'\r' || rest == b'\n' || was_loose { Some(false) } else if was_tight { Some(true) } else { None })),
                    p => Some(T::Punct(p)),
                }
            } else if c.is_ascii_digit() { Some(self.number()) }
            else if wordy(c) {
                while wordy(self.at(self.p)) { self.p += 1; }
                let w = text(&self.s[i..self.p]);
                if self.hash == 1 { self.hash = if w == "warn" || w == "error" { 2 } else { 3 }; }
                if w == "in" { Some(T::Punct("in")) } else { tight = true; Some(T::Ident(w, blank(self.at(self.p)))) }
            } else if c == b'\\' {
                self.p += 1;
                self.splice();
                loose = false;
                None
            } else if c == b'@' {
                self.p += 1;
                if self.p >= self.s.len() { Some(T::Str(false, false, String::new())) }
                else if self.s[self.p] == b'\n' { self.p += 1; Some(T::Str(false, false, String::new())) }
                else if self.has(b"{\"") { self.p += 2; Some(self.raw(b"\"}")) }
                else if self.s[self.p] == b'(' {
                    match (self.p..self.s.len()).find(|&j| self.s[j] == b')') {
                        Some(j) if j == self.p + 1 => { self.p = j + 1; Some(T::Str(false, false, String::new())) },
                        Some(j) => { let t = self.s[self.p + 1..j].to_vec(); self.p = j + 1; Some(self.raw(&t)) },
                        None => Some(T::Unclaimed),
                    }
                } else { self.p += 1; let t = [self.s[self.p - 1]]; Some(self.raw(&t)) }
            } else { self.p += 1; None };
            if let Some(t) = t {
                let stop = t == T::Unclaimed;
                out.push((i, t));
                if stop { break; }
            }
        }
        out
    }
}

const BITS: &[&str] = &[
    "\"", "\"", "{\"", "\"}", "[", "]", "]", "\\", "\\\n", "\\\r\n", "\n", "\n", "\r\n", "\t", " ", " ", "'", "@", "@(", "@{\"", "(", ")", "//", "///", "//!", "/*", "/**", "/*!", "*/", "/", "*",
    "a", "in", "inx", "b_1", "_", "x", "warn", "error", "#", "#warn ", "#error ", "##", "define", "é", "0", "0x", "0x1F", "1", "08", "017", "7", "1.5", "1e", "1e-3", "1.#INF", "2147483647", "2147483648", "16777217", "9_9", "E", "ff", ".", "..", "...",
    ":", "::", ":=", "?", "?.", "?:", "?[", "<", "<=", "<=>", "<<=", ">", ">>", "=", "==", "!", "!=", "~", "~!", "&", "&&", "&&=", "|", "||=", "^", "%", "%%", "%%=", "+", "+=", "-", "--", "**", "*=", ",", ";", "{", "}", "`", "$", "\0", "\u{7f}",
];

fn source(s: &mut dyn Src) -> Vec<u8> {
    let mut b = vec![];
    if s.below(16) == 1 { b.extend("\u{feff}".as_bytes()); }
    let n = [1, 2, 3, 4, 6, 10, 20, 40][s.below(8)];
    if s.below(12) == 1 {
        // a line at the limit of columns
        let n = 65530 + s.below(6);
        b.extend(std::iter::repeat_n(b'/', n));
        return b;
    }
    // a few words only, so that they meet
    let few: Vec<&str> = (0..s.below(3) * 3).map(|_| *pick(s, BITS)).collect();
    for _ in 0..n {
        match s.below(12) {
            2.. if !few.is_empty() => b.extend(pick(s, &few).as_bytes()),
            0 => b.push(s.u8()),
            1 => b.push(s.range(32, 126) as u8),
            _ => b.extend(pick(s, BITS).as_bytes()),
        }
    }
    b
}

fn show(t: &Token) -> T {
    match t {
        Token::Punct(Punctuation::Colon) => T::Colon(Some(false)),
        Token::Punct(Punctuation::CloseColon) => T::Colon(Some(true)),
        Token::Punct(p) => { let t = p.to_string(); T::Punct(PUNCTS.iter().chain(&["in"]).find(|x| **x == t).copied().unwrap_or("?unknown")) },
        Token::Ident(i, ws) => T::Ident(i.to_string(), *ws),
        Token::Int(i) => T::Int(*i as i64),
        Token::Float(f) => T::Float(*f),
        Token::String(x) => T::Str(false, false, x.clone()),
        Token::InterpStringBegin(x) => T::Str(true, false, x.clone()),
        Token::InterpStringPart(x) => T::Str(true, true, x.clone()),
        Token::InterpStringEnd(x) => T::Str(false, true, x.clone()),
        Token::Resource(x) => T::Res(x.clone()),
        Token::DocComment(d) => T::Doc(d.kind == CommentKind::Block, d.target == DocTarget::FollowingItem, d.text.clone()),
        Token::Eof => T::Punct("?eof"),
    }
}
fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Colon(None), T::Colon(_)) => true,
        (T::Float(x), T::Float(y)) => x == y || x.is_nan() && y.is_nan(),
        (a, b) => a == b,
    }
}

fn run(s: &mut dyn Src) -> Result<(), String> {
    let b = source(s);
    s.note(&|| if b.len() > 200 { format!("{} bytes from {:?}", b.len(), text(&b[..8])) } else { format!("{:?}", text(&b)) });
    let ctx = Context::default();
    let base = if b.starts_with("\u{feff}".as_bytes()) { 3 } else { 0 };
    let mut scan = Scan { s: &b, p: base, open: vec![], hash: 0 };
    let want = scan.all();
    if want.len() > 1 { s.nontrivial(); }
    let mut lexer = Lexer::new(&ctx, FileId::default(), b.clone());
    let mut got = vec![];
    // every token takes a byte, the last one excepted
    for t in lexer.by_ref().take(b.len() + 2) { got.push(t); }
    ensure!(got.len() <= b.len() + 1, "more tokens than bytes");
    ensure!(lexer.next().is_none(), "tokens after the end");
    for (n, (i, w)) in want.iter().enumerate() {
        if *w == T::Unclaimed { return Ok(()); }
        let g = got.get(n).ok_or_else(|| format!("token {n} {w:?} is missing"))?;
        let x = show(&g.token);
        ensure!(same(w, &x), "token {n} is {x:?}, not {w:?}");
        let line = 1 + b[..*i].iter().filter(|&&c| c == b'\n').count() as u32;
        let column = 1 + b[base..*i].iter().rev().take_while(|&&c| c != b'\n').count() as u32;
        ensure!((g.location.line, g.location.column as u32) == (line, column), "token {n} {w:?} begins on line {line} column {column}, not {} {}", g.location.line, g.location.column);
    }
    ensure!(got.len() == want.len() + 1 && got[want.len()].token == Token::Punct(Punctuation::Newline), "after the tokens: {:?}", &got[want.len()..]);
    Ok(())
}
pub const C20: Prop = Prop { id: "C20", enumerate: false, finite: false, rule: "tokens of a byte string", run };
