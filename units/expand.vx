@@header
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;

@@source pp crates/dreammaker/src/preprocessor.rs
@@source lex crates/dreammaker/src/lexer.rs
@@source err crates/dreammaker/src/error.rs
@@source doc crates/dreammaker/src/docs.rs

@@known Preprocessor::error

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins
/// a string is its characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub broadcast axiom fn string_is_its_text(s: String)
    ensures #![trigger s@] string_of(s@) == s;
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ident_eq(a: &Ident, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same(a: &Ident, b: &Ident) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// identifiers put together, and an identifier followed by a number
pub uninterp spec fn cat(a: Ident, b: Ident) -> Ident;
pub uninterp spec fn cat_int(a: Ident, b: i32) -> Ident;
/// format!("{a}{b}").into()
#[verifier::external_body]
pub fn vx_cat(a: &Ident, b: &Ident) -> (r: Ident) ensures r == cat(*a, *b), r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat_int(a: &Ident, b: i32) -> (r: Ident) ensures r == cat_int(*a, b) { unimplemented!() }
#[verifier::external_body]
pub struct DocCollection { _x: u8 }
impl DocCollection {
    #[verifier::external_body]
    pub fn default() -> (r: DocCollection) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, d: DocComment) { unimplemented!() }
}
#[verifier::external_body]
pub struct AnnotationTree { _x: u8 }
impl AnnotationTree {
    #[verifier::external_body]
    pub fn insert(&mut self, r: core::ops::Range<Location>, a: Annotation) { unimplemented!() }
}
pub enum Annotation { MacroUse { name: String, definition_location: Location, docs: Option<Rc<DocCollection>> } }
use std::rc::Rc;
pub assume_specification<T, A: core::alloc::Allocator> [std::collections::VecDeque::<T, A>::back] (v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(t) => v@.len() > 0 && *t == v@.last(), None => v@.len() == 0 };
pub assume_specification<T, A: core::alloc::Allocator> [std::collections::VecDeque::<T, A>::get] (v: &std::collections::VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures match r { Some(t) => i < v@.len() && *t == v@[i as int], None => v@.len() <= i };
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_register(self, n: &mut Recorder) ensures final(n).n@ == old(n).n@ + 1 { unimplemented!() }
}
/// recording a diagnostic
pub struct Recorder { pub n: Ghost<nat> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _x: Vec<(K, V)> }
impl HashMap<Ident, Location> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: Ident, v: Location) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct IntervalTree<V> { _x: Vec<V> }
pub type InnerDefineHistory = IntervalTree<(Ident, Define)>;
/// the live definitions: DefineMap is under contract in unit pp
#[verifier::external_body]
pub struct DefineMap { _x: u8 }
impl DefineMap {
    pub uninterp spec fn latest(self, k: Seq<char>) -> Option<(Location, Define)>;
    /// self.get(k).cloned()
    #[verifier::external_body]
    pub fn vx_get_cloned(&self, k: &Ident) -> (r: Option<(Location, Define)>) ensures r == self.latest(k@) { unimplemented!() }
    /// what #define records has a parameter if it is a function (proved in unit pp: params_are)
    pub open spec fn wf(self) -> bool { forall|k: Seq<char>| match #[trigger] self.latest(k) { Some((_, Define::Function { params, .. })) => params@.len() > 0, _ => true } }
}
#[verifier::external_body]
pub struct PathBuf { _x: u8 }
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
#[verifier::external_body]
pub fn vx_display(p: &PathBuf) -> (r: String) ensures r@ == path_text(*p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_no_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
/// the text of a token (Display)
pub uninterp spec fn shown(t: Token) -> Seq<char>;
#[verifier::external_body]
pub fn vx_write(s: &mut String, t: &Token) ensures final(s)@ == old(s)@ + shown(*t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_line_text(n: u32) -> (r: String) { unimplemented!() }
/// a file being read: what its lexer yields
#[verifier::external_body]
pub struct Lexer { _x: u8 }
pub uninterp spec fn lexed(l: Lexer) -> Option<LocatedToken>;
pub uninterp spec fn after(l: Lexer) -> Lexer;
impl Lexer {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<LocatedToken>) ensures r == lexed(*old(self)), *final(self) == after(*old(self)) { unimplemented!() }
}
impl Location {
    #[verifier::external_body]
    pub fn add_columns(self, n: u16) -> (r: Location) { unimplemented!() }
    #[verifier::external_body]
    pub fn builtins() -> (r: Location) { unimplemented!() }
}
/// iterators over owned values, as the elements still to come
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { _x: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
/// v.iter().cloned()
#[verifier::external_body]
pub fn vx_cloned(v: &Vec<Token>) -> (r: VxIter<Token>) ensures r@ == v@ { unimplemented!() }
/// v.iter().rev()
#[verifier::external_body]
pub fn vx_rev_refs(v: &Vec<Include>) -> (r: VxIter<&Include>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i],
{ unimplemented!() }
/// &v, iterated over
#[verifier::external_body]
pub fn vx_refs(v: &Vec<Token>) -> (r: VxIter<&Token>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i],
{ unimplemented!() }
/// a.extend(b)
#[verifier::external_body]
pub fn vx_extend(a: &mut VecDeque<Token>, b: VxIter<Token>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub fn vx_extend_opt(a: &mut VecDeque<Token>, b: Option<Token>)
    ensures final(a)@ == (match b { Some(t) => old(a)@.push(t), None => old(a)@ }),
{ match b { Some(t) => a.push_back(t), None => {} } }
/// v.into_iter().collect()
#[verifier::external_body]
pub fn vx_collect(v: Vec<Token>) -> (r: VecDeque<Token>) ensures r@ == v@ { unimplemented!() }

@@type err::FileId derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Location derive Clone, Copy, PartialEq, Eq, Structural
@@type lex::Punctuation derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::DocTarget derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::CommentKind derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::DocComment
@@type lex::Token
@@type lex::LocatedToken
@@type pp::Ifdef
@@type pp::Define
@@type pp::Include
@rewrite <<<Include < 'ctx > >>> => <<<Include >>>
@rewrite <<<Lexer < 'ctx > >>> => <<<Lexer >>>
@@type pp::IncludeStack
@rewrite <<<IncludeStack < 'ctx > >>> => <<<IncludeStack >>>
@rewrite <<<Include < 'ctx > >>> => <<<Include >>>
@@type pp::Preprocessor
@fields context include_stack multiple_locations last_input_loc output ifdef_stack ifdef_history history defines maps skins scripts last_printable_input_loc danger_idents in_interp_string docs_in annotations
@rewrite <<<Preprocessor < 'ctx > >>> => <<<Preprocessor >>>
@rewrite <<<IncludeStack < 'ctx > >>> => <<<IncludeStack >>>
@rewrite <<<context : &'ctx Context>>> => <<<context : Recorder>>>
@rewrite <<<IntervalTree < Location , bool > >>> => <<<IntervalTree<bool> >>>

@@verbatim
// ================================================================ what is read next
/// an open file, or an expansion with the tokens that are left of it and the place they stand for
pub enum Source { File { path: PathBuf, lexer: Lexer }, Tokens { at: Location, left: Seq<Token> } }
pub open spec fn source(i: Include) -> Source {
    match i {
        Include::File { path, lexer } => Source::File { path, lexer },
        Include::Expansion { location, tokens } => Source::Tokens { at: location, left: tokens@ },
    }
}
pub open spec fn sources(v: Seq<Include>) -> Seq<Source> { Seq::new(v.len(), |k: int| source(v[k])) }
/// without the sources that are used up
pub open spec fn settled(s: Seq<Source>) -> Seq<Source>
    decreases s.len(),
{
    if s.len() == 0 { s } else { match s.last() {
        Source::File { path: _, lexer } => if lexed(lexer) is Some { s } else { settled(s.drop_last()) },
        Source::Tokens { at: _, left } => if left.len() > 0 { s } else { settled(s.drop_last()) },
    } }
}
/// the token that is read next, and what is left then: the innermost open source goes first
pub open spec fn next_of(s: Seq<Source>) -> Option<LocatedToken> {
    let t = settled(s);
    if t.len() == 0 { None } else { match t.last() {
        Source::File { path: _, lexer } => lexed(lexer),
        Source::Tokens { at, left } => Some(LocatedToken { location: at, token: left[0] }),
    } }
}
pub open spec fn rest_of(s: Seq<Source>) -> Seq<Source> {
    let t = settled(s);
    if t.len() == 0 { t } else { match t.last() {
        Source::File { path, lexer } => t.drop_last().push(Source::File { path, lexer: after(lexer) }),
        Source::Tokens { at, left } => t.drop_last().push(Source::Tokens { at, left: left.skip(1) }),
    } }
}
/// the innermost file
pub open spec fn top_file(s: Seq<Source>) -> Option<PathBuf>
    decreases s.len(),
{
    if s.len() == 0 { None } else { match s.last() { Source::File { path, lexer: _ } => Some(path), _ => top_file(s.drop_last()) } }
}
pub open spec fn nth(s: Seq<Source>, k: nat) -> Seq<Source> decreases k { if k == 0 { s } else { rest_of(nth(s, (k - 1) as nat)) } }
pub open spec fn tok(s: Seq<Source>, k: int) -> Option<Token> { match next_of(nth(s, k as nat)) { Some(x) => Some(x.token), None => None } }

@@fn pp::IncludeStack.Iterator::next
@impl <<<impl IncludeStack>>>
@sig <<<fn next(&mut self) -> Option<LocatedToken>>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<Some(&mut Include::File { ref mut lexer, .. })>>> => <<<Some(Include::File { lexer, .. })>>>
@rewrite <<<Some(&mut Include::Expansion { ref mut tokens, location, .. })>>> => <<<Some(Include::Expansion { tokens, location, .. })>>>
@rewrite <<<return Some(LocatedToken { location, token })>>> => <<<return Some(LocatedToken { location: *location, token })>>>
@ret r
@spec
    ensures r == next_of(sources(old(self).stack@)), sources(final(self).stack@) == rest_of(sources(old(self).stack@)),
@loop 0
    invariant settled(sources(self.stack@)) == settled(sources(old(self).stack@)),
@ghost loop 0 start
    let ghost s0 = self.stack@;
    proof { if s0.len() == 0 { assert(sources(s0) =~= seq![]); } if s0.len() > 0 { assert(sources(s0).last() == source(s0.last())); assert(sources(s0).drop_last() =~= sources(s0.drop_last())); } }
@ghost before <<<return Some(t)>>>
    proof { assert(self.stack@.drop_last() =~= s0.drop_last()); assert(settled(sources(s0)) == sources(s0)); assert(sources(self.stack@) =~= rest_of(sources(s0))); }
@ghost before <<<return Some(LocatedToken { location: *location, token })>>>
    proof { assert(self.stack@.drop_last() =~= s0.drop_last()); assert(settled(sources(s0)) == sources(s0)); assert(sources(self.stack@) =~= rest_of(sources(s0))); }
@ghost loop 0 end
    proof { assert(self.stack@ =~= s0.drop_last()); }

@@verbatim
/// an expansion is read token by token, each at the place of its use, and then what came after that use
pub proof fn expansion_is_read(s: Seq<Source>, at: Location, t: Seq<Token>, k: nat)
    requires k <= t.len(),
    ensures
        nth(s.push(Source::Tokens { at, left: t }), k) == s.push(Source::Tokens { at, left: t.skip(k as int) }),
        k < t.len() ==> next_of(nth(s.push(Source::Tokens { at, left: t }), k)) == Some(LocatedToken { location: at, token: t[k as int] }),
        k == t.len() ==> next_of(nth(s.push(Source::Tokens { at, left: t }), k)) == next_of(s) && rest_of(nth(s.push(Source::Tokens { at, left: t }), k)) == rest_of(s),
    decreases k,
{
    let p = s.push(Source::Tokens { at, left: t });
    if k > 0 {
        expansion_is_read(s, at, t, (k - 1) as nat);
        let q = s.push(Source::Tokens { at, left: t.skip(k - 1) });
        assert(settled(q) == q);
        assert(t.skip(k - 1).skip(1) =~= t.skip(k as int));
        assert(rest_of(q) =~= s.push(Source::Tokens { at, left: t.skip(k as int) })) by { assert(q.drop_last() =~= s); }
    } else {
        assert(t.skip(0) =~= t);
    }
    let q = s.push(Source::Tokens { at, left: t.skip(k as int) });
    assert(q.drop_last() =~= s);
    if k < t.len() { assert(settled(q) == q); } else { assert(settled(q) == settled(s)); }
}

// ================================================================ substitution
pub open spec fn position(p: Seq<Ident>, n: Ident) -> Option<int>
    decreases p.len(),
{
    if p.len() == 0 { None } else { match position(p.drop_last(), n) { Some(i) => Some(i), None => if p.last()@ == n@ { Some(p.len() - 1) } else { None } } }
}
pub proof fn position_in_range(p: Seq<Ident>, n: Ident)
    ensures position(p, n) matches Some(i) ==> 0 <= i < p.len() && p[i]@ == n@ && forall|j: int| 0 <= j < i ==> p[j]@ != n@,
        position(p, n) is None ==> forall|j: int| 0 <= j < p.len() ==> p[j]@ != n@,
    decreases p.len(),
{
    if p.len() > 0 { position_in_range(p.drop_last(), n); assert(forall|j: int| 0 <= j < p.len() - 1 ==> p[j] == p.drop_last()[j]); }
}
/// params.iter().position(|x| *x == name)
pub fn vx_position(p: &Vec<Ident>, n: &Ident) -> (r: Option<usize>)
    ensures match r { Some(i) => i < p@.len() && position(p@, *n) == Some(i as int), None => position(p@, *n) is None },
{
    let mut i: usize = 0;
    proof { assert(p@.take(0).len() == 0); }
    while i < p.len()
        invariant i <= p@.len(), position(p@.take(i as int), *n) is None,
        decreases p@.len() - i,
    {
        proof { assert(p@.take(i + 1).drop_last() =~= p@.take(i as int)); assert(p@.take(i + 1).last() == p@[i as int]); }
        if vx_same(&p[i], n) {
            proof { position_in_range(p@.take(i + 1), *n); found_early(p@, *n, i + 1); }
            return Some(i);
        }
        i += 1;
    }
    proof { assert(p@.take(i as int) =~= p@); }
    None
}
pub proof fn found_early(p: Seq<Ident>, n: Ident, k: int)
    requires 0 <= k <= p.len(), position(p.take(k), n) is Some,
    ensures position(p, n) == position(p.take(k), n),
    decreases p.len() - k,
{
    if k < p.len() {
        assert(p.take(k + 1).drop_last() =~= p.take(k));
        assert(p.take(k + 1).len() == k + 1);
        assert(position(p.take(k + 1), n) == position(p.take(k), n));
        found_early(p, n, k + 1);
    } else { assert(p.take(k) =~= p); }
}
/// the text of some tokens, with a space between each two
pub open spec fn told(a: Seq<Token>) -> Seq<char>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else { let b = told(a.drop_last()); (if b.len() > 0 { b.push(' ') } else { b }) + shown(a.last()) }
}
pub open spec fn paste() -> Token { Token::Punct(Punctuation::TokenPaste) }
pub open spec fn hash() -> Token { Token::Punct(Punctuation::Hash) }
/// name##argument: the name grows by the first token of the argument if that is a name or a number
pub open spec fn glued(first: Ident, ws1: bool, arg: Seq<Token>, ws: bool) -> Seq<Token> {
    if arg.len() == 0 { seq![Token::Ident(first, ws1)] } else { match arg[0] {
        Token::Ident(n, w) => seq![Token::Ident(cat(first, n), w)] + arg.skip(1),
        Token::Int(n) => seq![Token::Ident(cat_int(first, n), ws)] + arg.skip(1),
        other => seq![Token::Ident(first, ws1), other] + arg.skip(1),
    } }
}
pub open spec fn replaced(p: Seq<Ident>, a: Seq<Seq<Token>>, t: Token) -> Seq<Token> {
    match t { Token::Ident(n, _) => match position(p, n) { Some(i) => a[i], None => seq![t] }, _ => seq![t] }
}
/// what `done` becomes when the rest of the macro's body is written behind it; None: # without a parameter after it
pub open spec fn written(done: Seq<Token>, body: Seq<Token>, p: Seq<Ident>, a: Seq<Seq<Token>>) -> Option<Seq<Token>>
    decreases body.len(),
{
    if body.len() == 0 { Some(done) }
    else if body[0] == paste() {
        if body.len() == 1 { Some(done) }
        else {
            let rest = body.skip(2);
            match body[1] {
                Token::Ident(n, ws) => match (if done.len() > 0 { done.last() } else { Token::Eof }) {
                    Token::Ident(first, ws1) => match position(p, n) {
                        Some(i) => written(done.drop_last() + glued(first, ws1, a[i], ws), rest, p, a),
                        None => written(done.drop_last().push(Token::Ident(cat(first, n), ws)), rest, p, a),
                    },
                    _ => written(done + replaced(p, a, body[1]), rest, p, a),
                },
                other => written(done.push(other), rest, p, a),
            }
        }
    } else if body[0] == hash() {
        if body.len() == 1 { None } else { match body[1] {
            Token::Ident(n, _) => match position(p, n) { Some(i) => written(done.push(Token::String(string_of(told(a[i])))), body.skip(2), p, a), None => None },
            _ => None,
        } }
    } else { written(done + replaced(p, a, body[0]), body.skip(1), p, a) }
}

// ================================================================ arguments
/// how many parentheses opened after token 0 of s are still open before token k
pub open spec fn nest(s: Seq<Source>, k: int) -> int
    decreases k,
{
    if k <= 1 { 0 } else { nest(s, k - 1) + (match tok(s, k - 1) { Some(Token::Punct(Punctuation::LParen)) => 1int, Some(Token::Punct(Punctuation::RParen)) => -1int, _ => 0int }) }
}
pub open spec fn closes(s: Seq<Source>, k: int) -> bool { tok(s, k) == Some(Token::Punct(Punctuation::RParen)) && nest(s, k) == 0 }
pub open spec fn separates(s: Seq<Source>, k: int) -> bool { tok(s, k) == Some(Token::Punct(Punctuation::Comma)) && nest(s, k) == 0 }
/// tokens 1..k of s, split at the commas outside parentheses
pub open spec fn pieces(s: Seq<Source>, k: int) -> Seq<Seq<Token>>
    decreases k,
{
    if k <= 1 { seq![seq![]] } else {
        let b = pieces(s, k - 1);
        if separates(s, k - 1) { b.push(seq![]) } else { b.drop_last().push(b.last().push(tok(s, k - 1)->Some_0)) }
    }
}
/// the call whose opening parenthesis is token 0 of s ends at token e
pub open spec fn call_end(s: Seq<Source>, e: int) -> bool {
    &&& e >= 1 && closes(s, e)
    &&& forall|k: int| 1 <= k < e ==> #[trigger] tok(s, k) is Some && !closes(s, k)
}
pub open spec fn joined(a: Seq<Seq<Token>>) -> Seq<Token>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else if a.len() == 1 { a[0] } else { joined(a.drop_last()).push(Token::Punct(Punctuation::Comma)) + a.last() }
}
/// the arguments for n parameters: with ... what is too much goes, with its commas, into the last, which may be left out
pub open spec fn given(a: Seq<Seq<Token>>, n: int, variadic: bool) -> Seq<Seq<Token>> {
    if variadic && a.len() > n { a.take(n - 1).push(joined(a.skip(n - 1))) } else if variadic && a.len() + 1 == n { a.push(seq![]) } else { a }
}
pub open spec fn seqs(v: Seq<Vec<Token>>) -> Seq<Seq<Token>> { Seq::new(v.len(), |k: int| v[k]@) }
/// v.join(&comma)
#[verifier::external_body]
pub fn vx_join(v: Vec<Vec<Token>>, c: Token) -> (r: Vec<Token>)
    ensures c == Token::Punct(Punctuation::Comma) ==> r@ == joined(seqs(v@)),
{ unimplemented!() }

// ================================================================ use of a name
pub open spec fn at(l: Location, t: Token) -> LocatedToken { LocatedToken { location: l, token: t } }
/// the tokens o end with defined(
pub open spec fn in_defined(o: Seq<LocatedToken>) -> bool {
    let n = o.len() as int;
    &&& n >= 2 && o[n - 1].token == Token::Punct(Punctuation::LParen)
    &&& o[n - 2].token matches Token::Ident(d, _) && d@ == "defined"@
}
/// what a call that ends at token e of s expands to: the parameters p of a function with the body b replaced
pub open spec fn outcome(s: Seq<Source>, e: int, p: Seq<Ident>, b: Seq<Token>, variadic: bool) -> Option<Seq<Token>> {
    let a = given(pieces(s, e), p.len() as int, variadic);
    if a.len() == p.len() { written(seq![], b, p, a) } else { None }
}
/// the call whose opening parenthesis is token 0 of s is still open when the input ends, at token e
pub open spec fn call_open(s: Seq<Source>, e: int) -> bool { e >= 1 && tok(s, e) is None && forall|k: int| 1 <= k < e ==> !closes(s, k) }
/// what the identifier n (followed by white space or not) does to o: outcome r (true: nothing is left to do), result f
pub open spec fn used(o: Preprocessor, n: Ident, ws: bool, f: Preprocessor, r: Result<bool, DMError>) -> bool {
    let (out, s, l) = (o.flushed(), o.src(), o.last_input_loc);
    if n@ == "__FILE__"@ || n@ == "__LINE__"@ || in_defined(out) {
        &&& r == Ok::<bool, DMError>(true) && f.src() == s
        &&& f.output@ == out.push(at(l, if n@ == "__FILE__"@ { Token::String(string_of(match top_file(s) { Some(p) => path_text(p), None => seq![] })) }
            else if n@ == "__LINE__"@ { Token::Int(l.line as i32) } else { Token::Ident(n, ws) }))
    } else {
        match o.defines.latest(n@) {
            None => r == Ok::<bool, DMError>(false) && f.output@ == out && f.src() == s && f.context == o.context,
            Some(d) => if s.len() > MAX_RECURSION_DEPTH { r == Ok::<bool, DMError>(false) && f.output@ == out && f.src() == s && f.context.n@ == o.context.n@ + 1 } else {
                match d.1 {
                    Define::Constant { subst, docs: _ } => r == Ok::<bool, DMError>(true) && f.expands(o, s, subst@),
                    Define::Function { params, subst, variadic, docs: _ } => match tok(s, 0) {
                        None => r is Err && f.output@ == out,
                        Some(Token::Punct(Punctuation::LParen)) => {
                            ||| exists|e: int| #[trigger] call_end(s, e) && match outcome(s, e, params@, subst@, variadic) {
                                Some(t) => r == Ok::<bool, DMError>(true) && f.expands(o, nth(s, (e + 1) as nat), t),
                                None => r is Err && f.output@ == out && f.src() == nth(s, (e + 1) as nat),
                            }
                            ||| r is Err && exists|e: int| #[trigger] call_open(s, e)
                        },
                        Some(t) => r == Ok::<bool, DMError>(true) && f.output@ == out.push(at(l, Token::Ident(n, false))).push(at(l, t)) && f.src() == rest_of(s),
                    }
                }
            }
        }
    }
}
impl Preprocessor {
    pub open spec fn src(self) -> Seq<Source> { sources(self.include_stack.stack@) }
    /// what conditionals and definitions there are is as in o
    pub open spec fn keeps(self, o: Preprocessor) -> bool {
        self.ifdef_stack == o.ifdef_stack && self.ifdef_history == o.ifdef_history && self.defines == o.defines && self.history == o.history && self.last_input_loc == o.last_input_loc
    }
    pub open spec fn at_use(self, o: Preprocessor) -> bool { self.keeps(o) && self.in_interp_string == o.in_interp_string }
    /// an expansion of the tokens t is what is read next, and then s
    pub open spec fn expands(self, o: Preprocessor, s: Seq<Source>, t: Seq<Token>) -> bool {
        self.output@ == o.flushed() && self.src() == s.push(Source::Tokens { at: o.last_input_loc, left: t })
    }
    #[verifier::external_body]
    pub fn error<S>(&self, s: S) -> (r: DMError) { unimplemented!() }
    /// documentation that was waiting for a #define goes out first
    pub open spec fn flushed(self) -> Seq<LocatedToken> { self.output@ + Seq::new(self.docs_in@.len(), |k: int| at(self.docs_in@[k].0, Token::DocComment(self.docs_in@[k].1))) }
}

@@fn lex::LocatedToken::new
@ret r
@spec
    ensures r == at(location, token),

@@verbatim
/// out.extend(docs.drain(..).map(|(l, d)| LocatedToken::new(l, Token::DocComment(d))))
#[verifier::external_body]
pub fn vx_move_docs(out: &mut VecDeque<LocatedToken>, docs: &mut VecDeque<(Location, DocComment)>)
    ensures final(docs)@.len() == 0, final(out)@ == old(out)@ + Seq::new(old(docs)@.len(), |k: int| at(old(docs)@[k].0, Token::DocComment(old(docs)@[k].1))),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_owned(s: &Ident) -> (r: String) { unimplemented!() }
pub assume_specification<T, A: core::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (v: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);

@@fn pp::Preprocessor::flush_docs
@impl <<<impl Preprocessor>>>
@rewrite <<<self.output.extend(self.docs_in.drain(..).map(|(l, d)| LocatedToken::new(l, Token::DocComment(d))),)>>> => <<<vx_move_docs(&mut self.output, &mut self.docs_in)>>>
@spec
    ensures *final(self) == (Preprocessor { docs_in: final(self).docs_in, output: final(self).output, ..*old(self) }), final(self).output@ == old(self).flushed(), final(self).docs_in@.len() == 0,
@ghost start
    proof { assert(self.docs_in@.len() == 0 ==> self.flushed() =~= self.output@); }

@@fn pp::IncludeStack::in_expansion
@impl <<<impl IncludeStack>>>
@opt matches
@ret r
@spec
    ensures r == (self.stack@.len() > 0 && self.stack@.last() is Expansion),

@@fn pp::Preprocessor::annotate_macro
@impl <<<impl Preprocessor>>>
@sig <<<fn annotate_macro(&mut self, ident: &Ident, definition_location: Location, docs: Option<Rc<DocCollection>>)>>>
@rewrite <<<ident.to_owned()>>> => <<<vx_owned(ident)>>>
@spec
    ensures *final(self) == (Preprocessor { annotations: final(self).annotations, ..*old(self) }),

@@fn pp::Preprocessor::push_output
@impl <<<impl Preprocessor>>>
@spec
    ensures
        final(self).output@ == old(self).output@.push(at(old(self).last_input_loc, token)),
        *final(self) == (Preprocessor { output: final(self).output, ..*old(self) }),

@@fn pp::Preprocessor::inner_next
@impl <<<impl Preprocessor>>>
@sig <<<fn inner_next(&mut self) -> Option<LocatedToken>>>>
@ret r
@spec
    ensures
        r == next_of(old(self).src()), final(self).src() == rest_of(old(self).src()),
        *final(self) == (Preprocessor { include_stack: final(self).include_stack, ..*old(self) }),

@@fn pp::Preprocessor::real_next
@arm <<<Token::Ident(ref ident, whitespace)>>> <<<Ok(false)>>> <<<let mut _last_expected_loc = self.last_input_loc;>>>
@name vx_expand
@impl <<<impl Preprocessor>>>
@sig <<<fn vx_expand(&mut self, ident: &Ident, whitespace: bool) -> Result<bool, DMError>>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@opt fornext
@loops 4
@rewrite <<<return Ok(())>>> => <<<return Ok(true)>>>
@rewrite <<<ident == "__FILE__">>> => <<<vx_ident_eq(ident, "__FILE__")>>>
@rewrite <<<ident == "__LINE__">>> => <<<vx_ident_eq(ident, "__LINE__")>>>
@rewrite <<<identname.as_str() == "defined">>> => <<<vx_ident_eq(identname, "defined")>>>
@rewrite <<<let path = self.include_stack.top_file_path().to_str().unwrap();>>> => <<<let path = vx_no_text();>>>
@rewrite <<<path.replace("\\", "/")>>> => <<<vx_no_text()>>>
@rewrite <<<let dm_path;>>> => <<<let mut dm_path;>>>
@rewrite <<<path.to_string()>>> => <<<vx_no_text()>>>
@rewrite <<<self.include_stack.stack.iter().rev()>>> => <<<vx_rev_refs(&self.include_stack.stack)>>>
@rewrite <<<path.display().to_string()>>> => <<<vx_display(path)>>>
@rewrite <<<String::new()>>> => <<<vx_no_text()>>>
@rewrite <<<self.last_input_loc.line.to_string()>>> => <<<vx_line_text(self.last_input_loc.line)>>>
@rewrite <<<self.defines.get(ident).cloned()>>> => <<<self.defines.vx_get_cloned(ident)>>>
@rewrite <<<.register(self.context)>>> => <<<.vx_register(&mut self.context)>>>
@rewrite <<<subst.into_iter().collect()>>> => <<<vx_collect(subst)>>>
@rewrite <<<args.split_off(params.len() - 1).join(&Token::Punct(Punctuation::Comma))>>> => <<<vx_join(args.split_off(params.len() - 1), Token::Punct(Punctuation::Comma))>>>
@rewrite <<<params.iter().position(|x| *x == ident)>>> => <<<vx_position(params, &ident)>>>
@rewrite <<<params.iter().position(|x| *x == param_name)>>> => <<<vx_position(params, &param_name)>>>
@rewrite <<<params.iter().position(|x| *x == second)>>> => <<<vx_position(params, &second)>>>
@rewrite <<<params.iter().position(|x| *x == argname)>>> => <<<vx_position(params, &argname)>>>
@rewrite <<<subst.iter().cloned()>>> => <<<vx_cloned(subst)>>>
@rewrite <<<args[i].iter().cloned()>>> => <<<vx_cloned(&args[i])>>>
@rewrite <<<expansion.extend(vx_cloned(&args[i]))>>> => <<<vx_extend(&mut expansion, vx_cloned(&args[i]))>>>
@rewrite <<<expansion.extend(arg)>>> => <<<vx_extend(&mut expansion, arg)>>>
@rewrite <<<expansion.extend(non_ident_first)>>> => <<<vx_extend_opt(&mut expansion, non_ident_first)>>>
@rewrite <<<expansion.extend(non_ident_second)>>> => <<<vx_extend_opt(&mut expansion, non_ident_second)>>>
@rewrite <<<format!("{first}{param_ident}").into()>>> => <<<vx_cat(&first, &param_ident)>>>
@rewrite <<<format!("{first}{param_int}").into()>>> => <<<vx_cat_int(&first, param_int)>>>
@rewrite <<<format!("{first}{param_name}").into()>>> => <<<vx_cat(&first, &param_name)>>>
@rewrite <<<use std::fmt::Write;>>> => <<<>>>
@rewrite <<<_e.unwrap();>>> => <<<>>>
@rewrite <<<for each in &args[i]>>> => <<<for each in vx_refs(&args[i])>>>
@rewrite <<<crate::docs::CommentKind::Line>>> => <<<CommentKind::Line>>>
@rewrite <<<string.is_empty()>>> => <<<vx_is_no_text(&string)>>>
@rewrite <<<string.push(' ')>>> => <<<vx_push_char(&mut string, ' ')>>>
@rewrite <<<let _e = write!(string, "{each}");>>> => <<<vx_write(&mut string, each);>>>
@ret r
@spec
    requires old(self).defines.wf(), old(self).in_interp_string < u32::MAX,
    ensures final(self).keeps(*old(self)), used(*old(self), *ident, whitespace, *final(self), r),
@ghost start
    broadcast use string_is_its_text;
    let ghost s = old(self).src();
    let ghost mut k: int = 1;
    let ghost mut left: Seq<Token> = seq![];
@ghost loop 0 before
    proof { assert(self.src().take(self.include_stack.stack@.len() as int) =~= self.src()); }
@loop 0
    invariant
        self.at_use(*old(self)), self.src() == s, s == old(self).src(), self.output@ == old(self).flushed(),
        ident@ == "__FILE__"@,
        vx_it0@.len() <= self.include_stack.stack@.len(),
        forall|i: int| 0 <= i < vx_it0@.len() ==> *(#[trigger] vx_it0@[i]) == self.include_stack.stack@[vx_it0@.len() - 1 - i],
        top_file(self.src()) == top_file(self.src().take(vx_it0@.len() as int)),
    ensures top_file(self.src()) is None,
@ghost loop 0 start
    proof {
        broadcast use string_is_its_text;
        let n = vx_it0@.len() as int;
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        assert(s.take(n + 1).last() == source(*include));
    }
@ghost loop 1 before
    proof { assert(nth(s, 1) == rest_of(nth(s, 0))); assert(seqs(args@).push(this_arg@) =~= pieces(s, 1)); }
@loop 1
    invariant_except_break
        seqs(args@).push(this_arg@) == pieces(s, k), self.src() == nth(s, k as nat), parens == nest(s, k),
    invariant
        self.at_use(*old(self)), self.output@ == old(self).flushed(), s == old(self).src(), self.defines.wf(), self.context == old(self).context,
        k >= 1, parens >= 0, 
        tok(s, 0) == Some(Token::Punct(Punctuation::LParen)),
        forall|j: int| 1 <= j < k ==> #[trigger] tok(s, j) is Some && !closes(s, j),
        ident@ != "__FILE__"@, ident@ != "__LINE__"@, !in_defined(old(self).flushed()), s.len() <= MAX_RECURSION_DEPTH,
        old(self).defines.latest(ident@) matches Some((_, Define::Function { params: p, subst: b, variadic: v, docs: _ })) && p@ == params@ && b@ == subst@ && v == variadic,
    ensures call_end(s, k), seqs(args@) == pieces(s, k), self.src() == nth(s, (k + 1) as nat),
@ghost loop 1 start
    proof {
        assume(parens < i32::MAX);
        assert(nth(s, (k + 1) as nat) == rest_of(nth(s, k as nat)));
        if tok(s, k) is None { assert(call_open(s, k)); }
    }
    let ghost (a0, t0) = (args@, this_arg@);
@ghost loop 1 end
    proof {
        let b = seqs(a0).push(t0);
        assert(b.drop_last() =~= seqs(a0));
        if separates(s, k) { assert(seqs(args@) =~= b); } else { assert(seqs(args@) =~= seqs(a0)); }
        k = k + 1;
    }
@loop 2
    invariant
        self.at_use(*old(self)), self.output@ == old(self).flushed(), s == old(self).src(), self.context == old(self).context,
        self.src() == nth(s, (k + 1) as nat), call_end(s, k), tok(s, 0) == Some(Token::Punct(Punctuation::LParen)),
        seqs(args@) == given(pieces(s, k), params@.len() as int, variadic), args@.len() == params@.len(),
        ident@ != "__FILE__"@, ident@ != "__LINE__"@, !in_defined(old(self).flushed()), s.len() <= MAX_RECURSION_DEPTH,
        old(self).defines.latest(ident@) matches Some((_, Define::Function { params: p, subst: b, variadic: v, docs: _ })) && p@ == params@ && b@ == subst@ && v == variadic,
        left == input@,
        written(expansion@, left, params@, seqs(args@)) == written(seq![], subst@, params@, seqs(args@)),
    ensures left.len() == 0,
@ghost loop 1 after
    let ghost a1 = args@;
    proof { assume(args@.len() < usize::MAX); }
@ghost loop 2 before
    proof {
        left = input@;
        let n = params@.len() as int;
        if variadic && a1.len() > n {
            assert(seqs(a1).skip(n - 1) =~= seqs(a1.subrange(n - 1, a1.len() as int)));
            assert(seqs(args@) =~= seqs(a1).take(n - 1).push(args@.last()@));
        } else if variadic && a1.len() + 1 == n { assert(seqs(args@) =~= seqs(a1).push(seq![])); }
        assert(seqs(args@) =~= given(pieces(s, k), n, variadic));
    }
@ghost loop 2 start
    let ghost (d0, l0) = (expansion@, left);
    proof {
        if l0.len() > 1 { assert(l0.skip(1).skip(1) =~= l0.skip(2)); }
    }
@ghost loop 2 end
    proof {
        left = input@;
        let a = seqs(args@);
        let p = params@;
        if l0[0] == paste() {
            if l0.len() == 1 { assert(expansion@ =~= d0); } else { match l0[1] {
                Token::Ident(n, ws) => match (if d0.len() > 0 { d0.last() } else { Token::Eof }) {
                    Token::Ident(first, ws1) => match position(p, n) {
                        Some(i) => { assert(expansion@ =~= d0.drop_last() + glued(first, ws1, a[i], ws)); }
                        None => { assert(expansion@ =~= d0.drop_last().push(Token::Ident(cat(first, n), ws))); }
                    },
                    _ => { assert(expansion@ =~= d0 + replaced(p, a, l0[1])); }
                },
                other => { assert(expansion@ =~= d0.push(other)); }
            } }
        } else if l0[0] == hash() {
        } else { assert(expansion@ =~= d0 + replaced(p, a, l0[0])); }
    }
@loop 3
    invariant
        args@.len() == params@.len(), i < args@.len(), vx_it1@.len() <= args@[i as int]@.len(),
        forall|j: int| 0 <= j < vx_it1@.len() ==> *(#[trigger] vx_it1@[j]) == args@[i as int]@[args@[i as int]@.len() - vx_it1@.len() + j],
        string@ == told(args@[i as int]@.take(args@[i as int]@.len() - vx_it1@.len())),
    ensures vx_it1@.len() == 0,
@ghost loop 3 start
    proof {
        let a = args@[i as int]@;
        let m = a.len() - vx_it1@.len();
        assert(a.take(m).drop_last() =~= a.take(m - 1));
        assert(a.take(m).last() == *each);
    }
@ghost loop 3 after
    proof { broadcast use string_is_its_text; assert(args@[i as int]@.take(args@[i as int]@.len() as int) =~= args@[i as int]@); }
@ghost before <<<return Ok(true)>>> #4
    proof { assert(self.src() =~= s.push(source(self.include_stack.stack@.last()))); }
@ghost before <<<return Ok(true)>>> #6
    proof { assert(self.src() =~= nth(s, (k + 1) as nat).push(source(self.include_stack.stack@.last()))); }
