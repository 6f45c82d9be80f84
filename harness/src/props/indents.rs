use super::*;
use crate::src_::*;
use dreammaker::indents::IndentProcessor;
use dreammaker::lexer::{LocatedToken, Punctuation as P, Token};
use dreammaker::{Context, Location};

fn loc(line: usize, column: usize) -> Location {
    let mut l = Location::default();
    l.line = line as u32;
    l.column = column as u16;
    l
}

fn gen(s: &mut dyn Src) -> Vec<LocatedToken> {
    let mut out = vec![];
    let unit = 1 + s.below(4);
    let lines = 1 + s.below(14);
    let mut depth = 0usize;
    for l in 0..lines {
        let mut col = 1;
        let mut put = |t: Token, out: &mut Vec<LocatedToken>| { out.push(LocatedToken::new(loc(l + 1, col), t)); col += 1; };
        let n = match s.below(8) {
            0 | 1 | 2 => depth * unit,
            3 | 4 => { depth += 1; depth * unit },
            5 => { depth = depth.saturating_sub(1 + s.below(3)); depth * unit },
            6 => s.below(9),
            _ => { depth = 0; 0 },
        };
        for _ in 0..n { put(Token::Punct(if s.below(4) == 0 { P::Space } else { P::Tab }), &mut out); }
        for _ in 0..s.below(5) {
            let t = match s.below(16) {
                0 => Token::Punct(P::LBrace),
                1 => Token::Punct(P::RBrace),
                2 => Token::Punct(P::LParen),
                3 => Token::Punct(P::RParen),
                4 => Token::Punct(P::Semicolon),
                5 => Token::Punct(P::Space),
                6 => Token::Punct(P::Tab),
                7 => Token::Punct(P::LBracket),
                8 => Token::Punct(P::RBracket),
                9 => Token::Punct(P::Slash),
                _ => Token::Int(out.len() as i32),
            };
            put(t, &mut out);
        }
        if s.below(12) != 0 { put(Token::Punct(P::Newline), &mut out); }
    }
    out
}

fn ws(t: &Token) -> bool { matches!(t, Token::Punct(P::Newline | P::Tab | P::Space)) }

/// the layout rule: what stands before and at every token
fn expected(input: &[LocatedToken]) -> Vec<Token> {
    let mut out = vec![];
    let mut level = 0usize;
    // indentation unit, fixed by the first indented line since the last return to column 0 or the first explicit brace
    let mut unit: Option<usize> = None;
    let mut parens = 0usize;
    // leading whitespace of the line being read, None once its first token was seen
    let mut head: Option<usize> = None;
    for t in input {
        match &t.token {
            Token::Punct(P::Newline) => { if parens == 0 { head = Some(0); } continue; }
            Token::Punct(P::Tab | P::Space) => { head = head.map(|n| n + 1); continue; }
            _ => {}
        }
        let brace = matches!(t.token, Token::Punct(P::LBrace | P::RBrace));
        if let (Some(n), false) = (head, brace) {
            let new = if n == 0 { unit = None; 0 } else { let u = *unit.get_or_insert(n); n / u };
            if new == level { out.push(Token::Punct(P::Semicolon)); }
            for _ in level..new { out.push(Token::Punct(P::LBrace)); }
            for _ in new..level { out.push(Token::Punct(P::RBrace)); }
            level = new;
        }
        head = None;
        match t.token {
            Token::Punct(P::LBrace) => { level += 1; unit.get_or_insert(1); }
            Token::Punct(P::RBrace) => { if level <= 1 { level = 0; unit = None; } else { level -= 1; } }
            Token::Punct(P::LParen) => parens += 1,
            Token::Punct(P::RParen) => parens = parens.saturating_sub(1),
            _ => {}
        }
        out.push(t.token.clone());
    }
    out.push(Token::Punct(P::Semicolon));
    for _ in 0..level { out.push(Token::Punct(P::RBrace)); }
    out
}

pub const C03: Prop = Prop {
    id: "C03", enumerate: false, finite: false,
    rule: "random token streams of up to 14 lines (consistent and inconsistent indentation, explicit braces, parentheses, blank lines) through the indentation processor, compared with the layout rule; non-trivial: at least one block was inserted",
    run: |s| {
        let input = gen(s);
        s.note(&|| format!("tokens {:?}", input.iter().map(|t| t.token.to_string()).collect::<Vec<_>>()));
        let ctx = Context::default();
        let mut p = IndentProcessor::new(&ctx, input.clone());
        let mut got = vec![];
        let limit = 40 * input.len() + 100;
        while let Some(t) = p.next() {
            got.push(t.token);
            ensure!(got.len() < limit, "output does not end");
        }
        ensure!(p.next().is_none(), "the iterator restarts after its end");
        let want = expected(&input);
        if want.len() > input.iter().filter(|t| !ws(&t.token)).count() + 3 { s.nontrivial(); }
        ensure!(got == want, "output is {:?}, expected {:?}", got.iter().map(|t| t.to_string()).collect::<Vec<_>>(), want.iter().map(|t| t.to_string()).collect::<Vec<_>>());
        ensure!(!got.iter().any(ws), "whitespace in the output");
        // balance, when the input never closes more than is open
        let mut d = 0i64;
        let mut low = 0i64;
        for t in &got { match t { Token::Punct(P::LBrace) => d += 1, Token::Punct(P::RBrace) => d -= 1, _ => {} } low = low.min(d); }
        let errors = ctx.errors().iter().any(|e| e.description().contains("unmatched right brace"));
        ensure!(low == 0 || errors, "unbalanced braces without a diagnostic");
        ensure!(errors || d == 0, "{d} blocks stay open");
        Ok(())
    },
};
