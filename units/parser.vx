@@header
use vstd::prelude::*;

@@source par crates/dreammaker/src/parser.rs
@@source ast crates/dreammaker/src/ast.rs
@@source lex crates/dreammaker/src/lexer.rs
@@source err crates/dreammaker/src/error.rs

@@known Parser::parse_error
@@known Parser::expected
@@known Parser::term
@@known Parser::follow

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins
/// payload types no contract inspects; identifiers are their characters
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct DocComment { _x: u8 }
#[verifier::external_body]
pub struct DMError { _x: u8 }
/// anything that can be an operand: names, literals, calls, parenthesised expressions, ...
#[verifier::external_body]
pub struct Term { _x: u8 }
pub uninterp spec fn null_term() -> Term;

@@type err::FileId derive Clone, Copy
@@type err::Location derive Clone, Copy
@@type lex::Punctuation derive Clone, Copy, PartialEq, Eq, Structural
@@type lex::Token
@@type lex::LocatedToken
@@type ast::UnaryOp derive Clone, Copy
@@type ast::BinaryOp derive Clone, Copy
@@type ast::AssignOp derive Clone, Copy
@@type ast::TernaryOp derive Clone, Copy
@@type ast::ListAccessKind derive Clone, Copy
@@type ast::PropertyAccessKind derive Clone, Copy
@@type ast::Spanned
@@type ast::Follow
@rewrite <<<Box<[Expression]>>>> => <<<Vec<Expression>>>>
@@type ast::Expression
@rewrite <<<Box<[Spanned<Follow>]>>>> => <<<Vec<Spanned<Follow>>>>>
@@type par::OpInfo derive Clone, Copy
@@type par::Op derive Clone, Copy
@@type par::Strength derive Clone, Copy, PartialEq, Eq, Structural
@ordinal
@@type par::Status
@@type par::SUCCESS
@ensures SUCCESS == Ok::<Option<()>, DMError>(Some(()))

@@verbatim
// ---- the DM reference's operator table, strongest first (levels 1..14; operands and prefix/postfix operators are level 0)
pub open spec fn bin_level(o: BinaryOp) -> int {
    match o {
        BinaryOp::Pow => 1,
        BinaryOp::Mul | BinaryOp::Div | BinaryOp::Mod | BinaryOp::FloatMod => 2,
        BinaryOp::Add | BinaryOp::Sub => 3,
        BinaryOp::Less | BinaryOp::Greater | BinaryOp::LessEq | BinaryOp::GreaterEq | BinaryOp::LessOrGreater => 4,
        BinaryOp::LShift | BinaryOp::RShift => 5,
        BinaryOp::Eq | BinaryOp::NotEq | BinaryOp::Equiv | BinaryOp::NotEquiv => 6,
        BinaryOp::BitAnd => 7,
        BinaryOp::BitXor => 8,
        BinaryOp::BitOr => 9,
        BinaryOp::And => 10,
        BinaryOp::Or => 11,
        BinaryOp::In => 14,
        BinaryOp::To => 15,
    }
}
pub open spec fn bin_tok(o: BinaryOp) -> Item {
    match o {
        BinaryOp::Pow => Item::Tok(Punctuation::Pow), BinaryOp::Mul => Item::Tok(Punctuation::Mul), BinaryOp::Div => Item::Tok(Punctuation::Slash),
        BinaryOp::Mod => Item::Tok(Punctuation::Mod), BinaryOp::FloatMod => Item::Tok(Punctuation::FloatMod), BinaryOp::Add => Item::Tok(Punctuation::Add),
        BinaryOp::Sub => Item::Tok(Punctuation::Sub), BinaryOp::Less => Item::Tok(Punctuation::Less), BinaryOp::Greater => Item::Tok(Punctuation::Greater),
        BinaryOp::LessEq => Item::Tok(Punctuation::LessEq), BinaryOp::GreaterEq => Item::Tok(Punctuation::GreaterEq),
        BinaryOp::LessOrGreater => Item::Tok(Punctuation::LessOrGreater), BinaryOp::LShift => Item::Tok(Punctuation::LShift),
        BinaryOp::RShift => Item::Tok(Punctuation::RShift), BinaryOp::Eq => Item::Tok(Punctuation::Eq), BinaryOp::NotEq => Item::Tok(Punctuation::NotEq),
        BinaryOp::Equiv => Item::Tok(Punctuation::Equiv), BinaryOp::NotEquiv => Item::Tok(Punctuation::NotEquiv), BinaryOp::BitAnd => Item::Tok(Punctuation::BitAnd),
        BinaryOp::BitXor => Item::Tok(Punctuation::BitXor), BinaryOp::BitOr => Item::Tok(Punctuation::BitOr), BinaryOp::And => Item::Tok(Punctuation::And),
        BinaryOp::Or => Item::Tok(Punctuation::Or), BinaryOp::In => Item::Tok(Punctuation::In), BinaryOp::To => Item::Word("to"@),
    }
}
pub open spec fn assign_tok(o: AssignOp) -> Item {
    match o {
        AssignOp::Assign => Item::Tok(Punctuation::Assign), AssignOp::AddAssign => Item::Tok(Punctuation::AddAssign), AssignOp::SubAssign => Item::Tok(Punctuation::SubAssign),
        AssignOp::MulAssign => Item::Tok(Punctuation::MulAssign), AssignOp::DivAssign => Item::Tok(Punctuation::DivAssign), AssignOp::ModAssign => Item::Tok(Punctuation::ModAssign),
        AssignOp::FloatModAssign => Item::Tok(Punctuation::FloatModAssign), AssignOp::AssignInto => Item::Tok(Punctuation::AssignInto),
        AssignOp::BitAndAssign => Item::Tok(Punctuation::BitAndAssign), AssignOp::AndAssign => Item::Tok(Punctuation::AndAssign),
        AssignOp::BitOrAssign => Item::Tok(Punctuation::BitOrAssign), AssignOp::OrAssign => Item::Tok(Punctuation::OrAssign),
        AssignOp::BitXorAssign => Item::Tok(Punctuation::BitXorAssign), AssignOp::LShiftAssign => Item::Tok(Punctuation::LShiftAssign),
        AssignOp::RShiftAssign => Item::Tok(Punctuation::RShiftAssign),
    }
}
pub open spec fn un_tok(o: UnaryOp) -> Item {
    match o {
        UnaryOp::Neg => Item::Tok(Punctuation::Sub), UnaryOp::Not => Item::Tok(Punctuation::Not), UnaryOp::BitNot => Item::Tok(Punctuation::BitNot),
        UnaryOp::PreIncr | UnaryOp::PostIncr => Item::Tok(Punctuation::PlusPlus), UnaryOp::PreDecr | UnaryOp::PostDecr => Item::Tok(Punctuation::MinusMinus),
        UnaryOp::Reference => Item::Tok(Punctuation::BitAnd), UnaryOp::Dereference => Item::Tok(Punctuation::Mul),
    }
}
pub open spec fn prefix(o: UnaryOp) -> bool { o != UnaryOp::PostIncr && o != UnaryOp::PostDecr }
pub open spec fn op_level(o: Op) -> int { match o { Op::BinaryOp(b) => bin_level(b), Op::TernaryOp(_) => 12, Op::AssignOp(_) => 13 } }
pub open spec fn op_tok(o: Op) -> Item { match o { Op::BinaryOp(b) => bin_tok(b), Op::TernaryOp(_) => Item::Tok(Punctuation::QuestionMark), Op::AssignOp(a) => assign_tok(a) } }
/// tokens with two spellings read as one
pub open spec fn canon(p: Punctuation) -> Item {
    match p { Punctuation::LessGreater => Item::Tok(Punctuation::NotEq), Punctuation::CloseColon => Item::Tok(Punctuation::Colon), p => Item::Tok(p) }
}
/// level of the infix operator spelled by a token; 0 when it is not one
pub open spec fn infix(t: Token) -> int {
    match t {
        Token::Punct(p) => match p {
            Punctuation::Pow => 1,
            Punctuation::Mul | Punctuation::Slash | Punctuation::Mod | Punctuation::FloatMod => 2,
            Punctuation::Add | Punctuation::Sub => 3,
            Punctuation::Less | Punctuation::Greater | Punctuation::LessEq | Punctuation::GreaterEq | Punctuation::LessOrGreater => 4,
            Punctuation::LShift | Punctuation::RShift => 5,
            Punctuation::Eq | Punctuation::NotEq | Punctuation::LessGreater | Punctuation::Equiv | Punctuation::NotEquiv => 6,
            Punctuation::BitAnd => 7,
            Punctuation::BitXor => 8,
            Punctuation::BitOr => 9,
            Punctuation::And => 10,
            Punctuation::Or => 11,
            Punctuation::QuestionMark => 12,
            Punctuation::Assign | Punctuation::AddAssign | Punctuation::SubAssign | Punctuation::MulAssign | Punctuation::DivAssign | Punctuation::ModAssign
                | Punctuation::FloatModAssign | Punctuation::BitAndAssign | Punctuation::BitOrAssign | Punctuation::BitXorAssign | Punctuation::LShiftAssign
                | Punctuation::RShiftAssign | Punctuation::AssignInto | Punctuation::AndAssign | Punctuation::OrAssign => 13,
            Punctuation::In => 14,
            _ => 0,
        },
        _ => 0,
    }
}

// ---- what was read, and how a tree reads
pub enum Item { Tok(Punctuation), Word(Seq<char>), Term(Term), Follow(Follow), Other }
pub open spec fn item_of(t: Token) -> Item { match t { Token::Punct(p) => canon(p), Token::Ident(i, _) => Item::Word(i@), _ => Item::Other } }
/// operand with its first n postfix and prefix operators, as written
pub open spec fn flatf(t: Term, f: Seq<Spanned<Follow>>) -> Seq<Item>
    decreases f.len(),
{
    if f.len() == 0 { seq![Item::Term(t)] } else {
        match f.last().elem {
            Follow::Unary(u) => if prefix(u) { seq![un_tok(u)] + flatf(t, f.drop_last()) } else { flatf(t, f.drop_last()).push(un_tok(u)) },
            x => flatf(t, f.drop_last()).push(Item::Follow(x)),
        }
    }
}
/// an expression tree as written, left to right
pub open spec fn flat(e: Expression) -> Seq<Item>
    decreases e,
{
    match e {
        Expression::Base { term, follow } => flatf(term.elem, follow@),
        Expression::BinaryOp { op, lhs, rhs } => flat(*lhs).push(bin_tok(op)) + flat(*rhs),
        Expression::AssignOp { op, lhs, rhs } => flat(*lhs).push(assign_tok(op)) + flat(*rhs),
        Expression::TernaryOp { cond, if_, else_ } => (flat(*cond).push(Item::Tok(Punctuation::QuestionMark)) + flat(*if_)).push(Item::Tok(Punctuation::Colon)) + flat(*else_),
    }
}
/// level of the outermost operator
pub open spec fn top(e: Expression) -> int {
    match e {
        Expression::Base { .. } => 0,
        Expression::BinaryOp { op, .. } => bin_level(op),
        Expression::TernaryOp { .. } => 12,
        Expression::AssignOp { .. } => 13,
    }
}
pub open spec fn is_prefix(f: Follow) -> bool { f matches Follow::Unary(u) && prefix(u) }
/// postfix operators bind tighter than prefix ones
pub open spec fn postfix_first(f: Seq<Spanned<Follow>>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() && is_prefix(#[trigger] f[i].elem) ==> is_prefix(#[trigger] f[j].elem) }
/// grouped as the precedence table and associativity require
pub open spec fn grouped(e: Expression) -> bool
    decreases e,
{
    match e {
        Expression::Base { term, follow } => postfix_first(follow@),
        Expression::BinaryOp { op, lhs, rhs } => {
            &&& grouped(*lhs) && grouped(*rhs)
            &&& match op {
                // the range of an `in`: (1 to 5); only ever to the right of `in`
                BinaryOp::To => top(*lhs) < 14 && top(*rhs) <= 14,
                // left associative
                BinaryOp::In => top(*lhs) <= 14 && (top(*rhs) < 14 || top(*rhs) == 15),
                _ => top(*lhs) <= bin_level(op) && top(*rhs) < bin_level(op),
            }
        }
        // right associative
        Expression::AssignOp { op, lhs, rhs } => grouped(*lhs) && grouped(*rhs) && top(*lhs) < 13 && top(*rhs) <= 13,
        Expression::TernaryOp { cond, if_, else_ } => grouped(*cond) && grouped(*if_) && grouped(*else_) && top(*cond) < 12 && top(*if_) <= 12 && top(*else_) <= 12,
    }
}

/// a row of the operator table says the same as the reference
pub open spec fn row_ok(o: OpInfo) -> bool {
    &&& o.strength.vx_ordinal() + 1 == op_level(o.oper)
    &&& canon(o.token) == op_tok(o.oper)
    &&& infix(Token::Punct(o.token)) == op_level(o.oper)
    &&& o.oper != Op::BinaryOp(BinaryOp::To)
}

/// the operator table: every row is right and no operator is left out
pub open spec fn table_ok(s: Seq<OpInfo>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> row_ok(#[trigger] s[i])
    &&& forall|t: Token| #[trigger] infix(t) > 0 ==> exists|i: int| 0 <= i < s.len() && Token::Punct((#[trigger] s[i]).token) == t
}
/// search state of the operator table: `r` is the row for token t, or no earlier row is
pub open spec fn row_found(r: Option<&OpInfo>, t: Token, s: Seq<OpInfo>, n: int) -> bool {
    match r { Some(o) => row_ok(*o) && Token::Punct(o.token) == t, None => forall|i: int| 0 <= i < n ==> Token::Punct((#[trigger] s[i]).token) != t }
}

// ---- the parser's reading side
/// the token source: what is still to come
#[verifier::external_body]
pub struct Input { _x: u8 }
impl Input {
    pub uninterp spec fn rest(&self) -> Seq<LocatedToken>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<LocatedToken>)
        ensures match r {
            Some(t) => old(self).rest().len() > 0 && t == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        },
    { unimplemented!() }
}
/// the list of alternatives named in error messages; never inspected
#[verifier::external_body]
pub struct Expected { _x: u8 }
impl Expected {
    #[verifier::external_body]
    pub fn clear(&mut self) { unimplemented!() }
}
/// documentation comments waiting for an item; never inspected by expressions
#[verifier::external_body]
pub struct Pending { _x: u8 }
impl Pending {
    #[verifier::external_body]
    pub fn clear(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: (Location, DocComment)) { unimplemented!() }
}
pub struct Parser {
    pub input: Input,
    pub eof: bool,
    pub next: Option<Token>,
    pub location: Location,
    pub expected: Expected,
    pub doc_comments_pending: Pending,
    /// ghost: the items consumed so far
    pub read: Ghost<Seq<Item>>,
    /// ghost: nothing has been reported so far
    pub clean: Ghost<bool>,
}
pub open spec fn first_solid(s: Seq<LocatedToken>) -> Token
    decreases s.len(),
{ if s.len() == 0 { Token::Eof } else if s[0].token is DocComment { first_solid(s.skip(1)) } else { s[0].token } }
impl Parser {
    /// the next token
    pub open spec fn ahead(self) -> Token { match self.next { Some(t) => t, None => first_solid(self.input.rest()) } }
    /// end of input is only ever looked at, not consumed
    pub open spec fn live(self) -> bool { self.eof ==> self.next == Some(Token::Eof) }
    /// tokens still to come
    pub open spec fn left(self) -> nat { self.input.rest().len() + (if self.next is None || self.next == Some(Token::Eof) { 0nat } else { 1 }) }
    /// nothing was consumed
    pub open spec fn same(self, o: Parser) -> bool { self.read@ == o.read@ && self.clean@ == o.clean@ && self.ahead() == o.ahead() && self.live() && self.left() <= o.left() }
    /// something was consumed
    pub open spec fn step(self, o: Parser) -> bool { self.live() && self.left() < o.left() && (self.clean@ ==> o.clean@) }

    #[verifier::external_body]
    pub fn expected<S>(&mut self, s: S)
        ensures final(self).read == old(self).read, final(self).clean == old(self).clean, final(self).next == old(self).next, final(self).input == old(self).input, final(self).eof == old(self).eof,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_error<T>(&mut self) -> (r: Result<T, DMError>) requires old(self).live() ensures r is Err { unimplemented!() }
    /// an operand
    #[verifier::external_body]
    pub fn term(&mut self, belongs_to: &mut Vec<Ident>) -> (r: Status<Spanned<Term>>)
        requires old(self).live(),
        ensures
            r matches Ok(Some(t)) ==> final(self).read@ == old(self).read@.push(Item::Term(t.elem)) && final(self).step(*old(self)),
            r matches Ok(None) ==> final(self).same(*old(self)),
    { unimplemented!() }
    /// an index, field access or call after an operand
    #[verifier::external_body]
    pub fn follow(&mut self, belongs_to: &mut Vec<Ident>, in_ternary: bool) -> (r: Status<Spanned<Follow>>)
        requires old(self).live(),
        ensures
            r matches Ok(Some(f)) ==> final(self).read@ == old(self).read@.push(Item::Follow(f.elem)) && !(f.elem is Unary) && final(self).step(*old(self)),
            r matches Ok(None) ==> final(self).same(*old(self)),
    { unimplemented!() }
    /// a warning is reported and the missing arm stands for null
    #[verifier::external_body]
    pub fn vx_missing_else(&mut self) -> (r: Expression)
        requires old(self).live(),
        ensures !final(self).clean@, final(self).live(), final(self).left() <= old(self).left(), final(self).read@ == old(self).read@ + flat(r), grouped(r), top(r) == 0,
    { unimplemented!() }
}
impl Parser {
    /// `e` is what was read since `o`, grouped as required, unless something was reported
    pub open spec fn parsed(self, o: Parser, e: Expression) -> bool {
        &&& self.step(o)
        &&& self.read@ == o.read@ + flat(e)
        &&& self.clean@ ==> grouped(e)
    }
    /// no operator of level n or stronger is ahead
    pub open spec fn weaker_ahead(self, n: int) -> bool { infix(self.ahead()) == 0 || infix(self.ahead()) > n }
}
pub open spec fn limit(s: Option<Strength>) -> int { match s { Some(s) => s.vx_ordinal() + 1, None => 14 } }
pub open spec fn spell(f: Spanned<Follow>) -> Item { match f.elem { Follow::Unary(u) => un_tok(u), x => Item::Follow(x) } }
pub open spec fn spells(u: Seq<Spanned<Follow>>) -> Seq<Item> { Seq::new(u.len(), |i: int| spell(u[i])) }
pub open spec fn all_prefix(u: Seq<Spanned<Follow>>) -> bool { forall|i: int| 0 <= i < u.len() ==> is_prefix((#[trigger] u[i]).elem) }
pub open spec fn no_prefix(u: Seq<Spanned<Follow>>) -> bool { forall|i: int| 0 <= i < u.len() ==> !is_prefix((#[trigger] u[i]).elem) }
/// prefix operators, innermost first, read outermost first
pub proof fn prefixes(t: Term, f: Seq<Spanned<Follow>>, u: Seq<Spanned<Follow>>)
    requires all_prefix(u),
    ensures flatf(t, f + u.reverse()) == spells(u) + flatf(t, f),
    decreases u.len(),
{
    if u.len() == 0 { assert(f + u.reverse() =~= f); assert(spells(u) + flatf(t, f) =~= flatf(t, f)); }
    else {
        let r = u.skip(1);
        assert forall|i: int| 0 <= i < r.len() implies is_prefix((#[trigger] r[i]).elem) by { assert(u[i + 1] == r[i]); }
        prefixes(t, f, r);
        let g = f + u.reverse();
        assert(g.last() == u[0]);
        assert(g.drop_last() =~= f + r.reverse());
        assert(spells(u) =~= seq![spell(u[0])] + spells(r));
        assert(spells(u) + flatf(t, f) =~= seq![spell(u[0])] + (spells(r) + flatf(t, f)));
    }
}
pub proof fn postfixed(f: Seq<Spanned<Follow>>, u: Seq<Spanned<Follow>>)
    requires no_prefix(f), all_prefix(u),
    ensures postfix_first(f + u.reverse()),
{
    let g = f + u.reverse();
    assert forall|i: int, j: int| 0 <= i < j < g.len() && is_prefix(#[trigger] g[i].elem) implies is_prefix(#[trigger] g[j].elem) by {
        if i < f.len() { assert(!is_prefix(f[i].elem)); }
        assert(g[j] == u[u.len() - 1 - (j - f.len())]);
    }
}
pub broadcast proof fn spells_push(u: Seq<Spanned<Follow>>, x: Spanned<Follow>)
    ensures #[trigger] spells(u.push(x)) == spells(u).push(spell(x)),
{ assert(spells(u.push(x)) =~= spells(u).push(spell(x))); }
pub broadcast proof fn flatf_push(t: Term, f: Seq<Spanned<Follow>>, x: Spanned<Follow>)
    ensures #[trigger] flatf(t, f.push(x)) == (if is_prefix(x.elem) { seq![spell(x)] + flatf(t, f) } else { flatf(t, f).push(spell(x)) }),
{ assert(f.push(x).drop_last() =~= f); }
pub broadcast proof fn add_push<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b.push(x)) == (a + b).push(x),
{ assert(a + b.push(x) =~= (a + b).push(x)); }
pub broadcast proof fn add_none(a: Seq<Item>, b: Seq<Spanned<Follow>>)
    ensures b.len() == 0 ==> #[trigger] (a + spells(b)) == a,
{ assert(b.len() == 0 ==> a + spells(b) =~= a); }
pub broadcast proof fn flatf_none(t: Term, f: Seq<Spanned<Follow>>)
    ensures f.len() == 0 ==> #[trigger] flatf(t, f) == Seq::<Item>::empty().push(Item::Term(t)),
{ assert(seq![Item::Term(t)] =~= Seq::<Item>::empty().push(Item::Term(t))); }
pub broadcast proof fn add_empty<T>(a: Seq<T>)
    ensures #[trigger] (a + Seq::<T>::empty()) == a,
{ assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn add_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast group reading { spells_push, flatf_push, add_push, add_none, add_empty, flatf_none }
/// `s` without its end `w`
pub open spec fn before(s: Seq<Item>, w: Seq<Item>) -> Seq<Item> { s.take(s.len() - w.len()) }
pub open spec fn ends_with(s: Seq<Item>, w: Seq<Item>) -> bool { w.len() <= s.len() && s == before(s, w) + w }
pub proof fn ends(a: Seq<Item>, w: Seq<Item>)
    ensures ends_with(a + w, w), before(a + w, w) == a,
{ assert(before(a + w, w) =~= a); }
/// operands and operators of one precedence level, as written
pub open spec fn chain(b: Seq<Expression>, o: Seq<Op>) -> Seq<Item>
    decreases b.len(),
{ if b.len() == 0 { seq![] } else { chain(b.drop_last(), o.drop_last()) + flat(b.last()).push(op_tok(o.last())) } }
pub proof fn chain_push(b: Seq<Expression>, o: Seq<Op>, x: Expression, y: Op)
    requires b.len() == o.len(),
    ensures chain(b.push(x), o.push(y)) == chain(b, o) + flat(x).push(op_tok(y)),
{ assert(b.push(x).drop_last() =~= b); assert(o.push(y).drop_last() =~= o); }
pub proof fn chain_take(b: Seq<Expression>, o: Seq<Op>, m: int)
    requires b.len() == o.len(), 0 <= m < b.len(),
    ensures chain(b.take(m + 1), o.take(m + 1)) == chain(b.take(m), o.take(m)) + flat(b[m]).push(op_tok(o[m])),
{ assert(b.take(m + 1).drop_last() =~= b.take(m)); assert(o.take(m + 1).drop_last() =~= o.take(m)); }
pub open spec fn operands(b: Seq<Expression>, n: int) -> bool { forall|i: int| 0 <= i < b.len() ==> grouped(#[trigger] b[i]) && top(b[i]) < n }
pub open spec fn level_ops(o: Seq<Op>, n: int) -> bool { forall|i: int| 0 <= i < o.len() ==> op_level(#[trigger] o[i]) == n && o[i] != Op::BinaryOp(BinaryOp::To) }

@@include seqiter.inc

@@type par::BINARY_OPS
@ensures table_ok(BINARY_OPS@)

@@fn par::success
@ret r
@spec
    ensures r == Ok::<Option<T>, DMError>(Some(t)),

@@fn par::try_another
@ret r
@spec
    ensures r == Ok::<Option<T>, DMError>(None),

@@fn ast::Spanned::new
@ret r
@spec
    ensures r.location == location, r.elem == elem,

@@fn par::OpInfo::matches
@ret r
@spec
    ensures r == (*token == Token::Punct(self.token)),

@@fn par::Op::build
@ret r
@spec
    requires !(self is TernaryOp),
    ensures match self {
        Op::BinaryOp(op) => r == (Expression::BinaryOp { op, lhs, rhs }),
        Op::AssignOp(op) => r == (Expression::AssignOp { op, lhs, rhs }),
        _ => true,
    },

@@fn par::Strength::right_binding
@ret r
@opt matches
@spec
    ensures r == (self == Strength::Assign),

@@fn par::Parser::require
@impl <<<impl Parser>>>
@ret r
@spec
    requires t matches Ok(None) ==> old(self).live(),
    ensures
        t matches Ok(Some(v)) ==> r == Ok::<T, DMError>(v) && *final(self) == *old(self),
        !(t matches Ok(Some(v))) ==> r is Err,

@@fn par::Parser::peek
@impl <<<impl Parser>>>
@ret r
@spec
    requires old(self).live(),
    ensures
        *r == old(self).ahead(),
        final(self).same(*old(self)),
        final(self).next == Some(*r),
@rewrite <<<break next>>> => <<<return next>>>
@loop 0
    invariant self.live(), self.left() <= old(self).left(), self.ahead() == old(self).ahead(), self.read@ == old(self).read@, self.clean@ == old(self).clean@,
    decreases self.input.rest().len() + (if self.next is None { 1nat } else { 0nat }),

@@fn par::Parser::take
@impl <<<impl Parser>>>
@ret r
@spec
    requires old(self).live(), old(self).ahead() != Token::Eof,
    ensures
        r == old(self).ahead(),
        final(self).live(),
        final(self).step(*old(self)),
        final(self).clean == old(self).clean,
        final(self).read@ == old(self).read@.push(item_of(r)),
@ghost end
    proof { self.read@ = old(self).read@.push(item_of(old(self).ahead())); }

@@fn par::Parser::exact_ident
@impl <<<impl Parser>>>
@opt macros
@opt guardsplit
@rewrite <<<i == ident>>> => <<<i.vx_is(ident)>>>
@ret r
@spec
    requires old(self).live(),
    ensures
        r matches Ok(Some(_)) ==> final(self).step(*old(self)) && final(self).clean == old(self).clean && final(self).read@ == old(self).read@.push(Item::Word(ident@)),
        r matches Ok(None) ==> final(self).same(*old(self)),
        r is Ok,

@@fn par::Parser::group
@impl <<<impl Parser>>>
@opt macros
@opt seqiters
@rewrite <<<follow.into_boxed_slice()>>> => <<<follow>>>
@ghost start
    broadcast use reading;
@ghost loop 0 start
    broadcast use reading;
@ghost loop 1 start
    broadcast use reading;
@ghost before <<<vx_extend>>>
    proof { prefixes(term.elem, follow@, unary_ops@); postfixed(follow@, unary_ops@); add_assoc(old(self).read@, spells(unary_ops@), flatf(term.elem, follow@)); }
@ret r
@spec
    requires old(self).live(),
    ensures
        r matches Ok(Some(e)) ==> final(self).parsed(*old(self), e) && top(e) == 0,
        r matches Ok(None) ==> final(self).same(*old(self)),
@loop 0
    invariant self.live(), self.clean@ ==> old(self).clean@, self.read@ == old(self).read@ + spells(unary_ops@), all_prefix(unary_ops@), unary_ops@.len() == 0 ==> self.same(*old(self)), self.left() <= old(self).left(),
    decreases self.left(),
@loop 1
    invariant self.live(), self.clean@ ==> old(self).clean@, self.read@ == old(self).read@ + spells(unary_ops@) + flatf(term.elem, follow@), all_prefix(unary_ops@), no_prefix(follow@), self.left() < old(self).left(),
    decreases self.left(),

@@fn par::Parser::expression
@impl <<<impl Parser>>>
@ret r
@spec
    requires old(self).live(),
    ensures
        r matches Ok(Some(e)) ==> final(self).parsed(*old(self), e) && (final(self).clean@ ==> infix(final(self).ahead()) == 0 && top(e) <= 14),
        r matches Ok(None) ==> final(self).same(*old(self)),

@@fn par::Parser::expression_ex
@impl <<<impl Parser>>>
@opt macros
@opt itloops
@ghost after <<<self.take()>>>
    proof { let w = flat(expr).push(op_tok(info.oper)); assert(self.read@ =~= old(self).read@ + w); ends(old(self).read@, w); }
@ret r
@spec
    requires old(self).live(),
    ensures
        r matches Ok(Some(e)) ==> final(self).parsed(*old(self), e) && (final(self).clean@ ==> final(self).weaker_ahead(limit(strength)) && top(e) <= limit(strength)),
        r matches Ok(None) ==> final(self).same(*old(self)),
    decreases old(self).left(), 0int,
@loop 0
    invariant self.parsed(*old(self), expr), self.clean@ ==> top(expr) <= limit(strength) && (top(expr) == 0 || self.weaker_ahead(top(expr))),
    ensures self.weaker_ahead(limit(strength)),
    decreases self.left(),
@loop 1
    invariant table_ok(vx_s0@), vx_i0 <= vx_s0@.len(),
        row_found(vx_r0, *peek, vx_s0@, vx_i0 as int),
    decreases vx_s0@.len() - vx_i0,

@@fn par::Parser::expression_part
@impl <<<impl Parser>>>
@opt macros
@opt seqiters
@opt itloops
@opt fornext
@rewrite <<<self.error("missing else arm of conditional operator should be replaced with 'null'").set_severity(Severity::Warning).register(self.context)>>> => <<<()>>>
@rewrite <<<Expression::from(Term::Null)>>> => <<<self.vx_missing_else()>>>
@ghost start
    broadcast use reading;
    let ghost w = flat(lhs).push(op_tok(prev_op.oper));
    let ghost pre = before(self.read@, w);
    let ghost fits = ends_with(self.read@, w);
    let ghost l0 = lhs;
@ghost before <<<loop>>>
    proof { chain_push(seq![], seq![], l0, prev_op.oper); assert(bits@ =~= Seq::empty().push(l0)); assert(ops@ =~= Seq::empty().push(prev_op.oper)); assert(chain(bits@, ops@) =~= flat(l0).push(op_tok(prev_op.oper))); }
@ghost after <<<self.take()>>> #0
    proof { if fits { let a = pre + chain(bits@, ops@); let w2 = flat(rhs).push(op_tok(info.oper)); assert(self.read@ =~= a + w2); ends(a, w2); } }
@ghost before <<<ops.push(info.oper)>>>
    proof { chain_push(bits@, ops@, rhs, info.oper); if fits { assert(self.read@ =~= pre + (chain(bits@, ops@) + flat(rhs).push(op_tok(info.oper)))); } }
@ghost loop 0 after
    let ghost b0 = bits@; let ghost o0 = ops@; let ghost n = b0.len() as int;
    proof { assert(b0.take(n) =~= b0); assert(o0.take(n) =~= o0); }
@ghost before <<<result = Expression::TernaryOp>>>
    proof {
        let m = bits@.len() as int;
        chain_take(b0, o0, m);
        assert(bits@ =~= b0.take(m));
        let x = flat(lhs).push(Item::Tok(Punctuation::QuestionMark)) + flat(result);
        if fits { assert(self.read@ =~= pre + chain(bits@, o0.take(m)) + (x.push(Item::Tok(Punctuation::Colon)) + flat(else_))); }
    }
@ghost before <<<result = op.build(Box::new(bit), Box::new(result))>>>
    proof {
        let m = vx_it1@.len() as int;
        chain_take(b0, o0, m);
        add_assoc(chain(b0.take(m), o0.take(m)), flat(b0[m]).push(op_tok(o0[m])), flat(result));
    }
@ghost before <<<result = op.build(Box::new(result), Box::new(item))>>>
    proof { chain_take(b0, o0, b0.len() - vx_it2@.len() - 1); }
@ghost loop 4 before
    proof { chain_take(b0, o0, 0); assert(chain(b0.take(0), o0.take(0)) =~= seq![]); assert(chain(b0.take(1), o0.take(1)) =~= flat(b0[0]).push(op_tok(o0[0]))); }
@ghost after <<<rhs = Expression::BinaryOp>>>
    proof { assert(fits ==> self.read@ =~= pre + chain(bits@, ops@) + flat(rhs)); }
@ghost before <<<return success(result)>>>
    proof { assert(chain(bits@, o0.take(0)) =~= seq![]); }
@ghost loop 3 after
    proof { assert(fits ==> self.read@ == pre + chain(b0, o0) + flat(r0)); assert(chain(b0.take(0), o0.take(0)) =~= seq![]); assert(flat(result) =~= seq![] + flat(result)); add_assoc(pre, chain(b0, o0), flat(r0)); }
@ghost end
    proof {
        let e = vx_result->Ok_0->Some_0;
        assert(fits ==> self.read@ == pre + flat(e));
        assert(self.step(*old(self)));
        assert(self.clean@ ==> grouped(e));
        assert(self.clean@ ==> top(e) == op_level(prev_op.oper) && self.weaker_ahead(top(e)));
    }
@ghost loop 4 after
    proof { assert(fits ==> self.read@ == pre + chain(b0, o0) + flat(rhs)); assert(ops_iter@[0] == o0[n - 1]); assert(op_level(o0[n - 1]) == op_level(prev_op.oper)); assert(self.clean@ ==> grouped(result) && top(result) <= op_level(prev_op.oper));
      assert(self.clean@ ==> grouped(rhs)); assert(self.clean@ ==> top(rhs) < op_level(prev_op.oper) || (top(rhs) == 15 && op_level(prev_op.oper) == 14)); assert(chain(b0, o0) == flat(result).push(op_tok(o0[n - 1]))); add_assoc(pre, chain(b0, o0), flat(rhs)); }
@ghost loop 3 before
    let ghost r0 = result;
@ret r
@spec
    requires old(self).live(), row_ok(prev_op), old(self).clean@ ==> grouped(lhs) && top(lhs) < op_level(prev_op.oper),
    ensures
        r matches Ok(Some(e)) ==> {
            &&& final(self).step(*old(self))
            // what was read before the left operand, then the whole expression
            &&& ends_with(old(self).read@, flat(lhs).push(op_tok(prev_op.oper))) ==> final(self).read@ == before(old(self).read@, flat(lhs).push(op_tok(prev_op.oper))) + flat(e)
            &&& final(self).clean@ ==> grouped(e) && top(e) == op_level(prev_op.oper) && final(self).weaker_ahead(top(e))
        },
        !(r matches Ok(None)),
    decreases old(self).left(), 0int,

@loop 0
    invariant self.step(*old(self)), row_ok(prev_op), bits@.len() == ops@.len(), bits@.len() >= 1, level_ops(ops@, op_level(prev_op.oper)),
        self.clean@ ==> operands(bits@, op_level(prev_op.oper)) && grouped(rhs) && top(rhs) < op_level(prev_op.oper) && (top(rhs) == 0 || self.weaker_ahead(top(rhs))),
        fits ==> self.read@ == pre + chain(bits@, ops@) + flat(rhs),
    ensures self.weaker_ahead(op_level(prev_op.oper)),
    decreases self.left(),
@loop 1
    invariant table_ok(vx_s0@), vx_i0 <= vx_s0@.len(),
        row_found(vx_r0, *peek, vx_s0@, vx_i0 as int),
    decreases vx_s0@.len() - vx_i0,
@loop 2
    invariant self.step(*old(self)), bits@.len() <= b0.len(), bits@ == b0.take(bits@.len() as int), b0.len() == o0.len(), level_ops(o0, 12), op_level(prev_op.oper) == 12,
        self.clean@ ==> operands(b0, 12) && grouped(result) && top(result) <= 12,
        self.clean@ && bits@.len() < b0.len() ==> top(result) == 12,
        self.clean@ ==> self.weaker_ahead(12),
        fits ==> self.read@ == pre + chain(bits@, o0.take(bits@.len() as int)) + flat(result),
    ensures bits@.len() == 0,
    decreases bits@.len(),
@loop 3
    invariant vx_it1@.len() <= b0.len(), b0.len() == o0.len(), level_ops(o0, 13),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == (o0[vx_it1@.len() - 1 - i], b0[vx_it1@.len() - 1 - i]),
        self.clean@ ==> operands(b0, 13) && grouped(result) && top(result) <= 13,
        self.clean@ && vx_it1@.len() < b0.len() ==> top(result) == 13,
        chain(b0.take(vx_it1@.len() as int), o0.take(vx_it1@.len() as int)) + flat(result) == chain(b0, o0) + flat(r0),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
@loop 4
    invariant vx_it2@.len() < b0.len(), b0.len() == o0.len(), level_ops(o0, op_level(prev_op.oper)), row_ok(prev_op),
        op_level(prev_op.oper) != 12 && op_level(prev_op.oper) != 13,
        forall|i: int| 0 <= i < vx_it2@.len() ==> #[trigger] vx_it2@[i] == (b0[b0.len() - vx_it2@.len() + i], o0[b0.len() - vx_it2@.len() - 1 + i]),
        self.clean@ ==> operands(b0, op_level(prev_op.oper)) && grouped(result) && top(result) <= op_level(prev_op.oper),
        chain(b0.take(b0.len() - vx_it2@.len()), o0.take(b0.len() - vx_it2@.len())) == flat(result).push(op_tok(o0[b0.len() - vx_it2@.len() - 1])),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
