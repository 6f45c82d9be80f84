@@header
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::slice::spec_slice_starts_with;

@@source lex crates/dreammaker/src/lexer.rs
@@source err crates/dreammaker/src/error.rs
@@source doc crates/dreammaker/src/docs.rs

@@known Lexer::error
@@known from_utf8_or_latin1_borrowed
@@known from_utf8_or_latin1

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57);
pub assume_specification [u8::is_ascii_lowercase] (b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification [u8::is_ascii_uppercase] (b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);
/// how bytes become text: UTF-8, or else Latin-1
pub uninterp spec fn decode(b: Seq<u8>) -> Seq<char>;
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 }
pub broadcast axiom fn decode_ascii(b: Seq<u8>)
    requires ascii(b),
    ensures (#[trigger] decode(b)).len() == b.len(), forall|i: int| 0 <= i < b.len() ==> decode(b)[i] == b[i] as char;
#[verifier::external_body]
pub fn from_utf8_or_latin1(bytes: Vec<u8>) -> (r: String) ensures r@ == decode(bytes@) { unimplemented!() }
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_ident_of(bytes: &[u8]) -> (r: Ident) ensures r@ == decode(bytes@) { unimplemented!() }
impl PartialEq<str> for Ident { #[verifier::external_body] fn eq(&self, o: &str) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype<S>(self, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &Context) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context {
    #[verifier::external_body]
    pub fn register_error(&self, e: DMError) { unimplemented!() }
}
impl<'ctx> Lexer<'ctx> {
    #[verifier::external_body]
    pub fn error<S>(&self, s: S) -> (r: DMError) { unimplemented!() }
}
/// a string constant of a table, as its bytes
#[verifier::external_body]
pub struct VxText { _x: u8 }
impl VxText {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &'static [u8]) ensures r@ == self@ { unimplemented!() }
}
// == and starts_with on bytes compare them
pub broadcast axiom fn slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn slice_eq_ok() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn pair_eq(a: [u8; 2], b: [u8; 2]) ensures #[trigger] <[u8; 2] as PartialEqSpec<[u8; 2]>>::eq_spec(&a, &b) == (a@[0] == b@[0] && a@[1] == b@[1]);
pub broadcast axiom fn pair_eq_ok() ensures #[trigger] <[u8; 2] as PartialEqSpec<[u8; 2]>>::obeys_eq_spec();
pub broadcast axiom fn starts_with_is(a: &[u8], b: &[u8]) ensures #[trigger] spec_slice_starts_with(a, b) == starts(a@, b@);
pub open spec fn starts(a: Seq<u8>, b: Seq<u8>) -> bool { b.len() <= a.len() && a.subrange(0, b.len() as int) == b }
broadcast group bytes { slice_eq, slice_eq_ok, pair_eq, pair_eq_ok, starts_with_is }

@@type err::FileId derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Location derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Severity derive Clone, Copy
@@type doc::CommentKind derive Clone, Copy
@@type doc::DocTarget derive Clone, Copy
@@type doc::DocComment
@@fn doc::DocComment::new
@ret r
@spec
    ensures r.kind == kind, r.target == target,
@@type lex::Punctuation derive Clone, Copy, PartialEq, Eq, Structural
@@type lex::Token
@@type lex::LocatedToken
@@type lex::Directive derive Clone, Copy, PartialEq, Eq, Structural
@@type lex::Interpolation
@@type lex::LocationTracker
@rewrite <<<Cow<'a, [u8]> >>> => <<<&'a [u8]>>>
@@type lex::Lexer

@@table lex::PUNCT_TABLE
@@table lex::SPEEDY_TABLE

@@verbatim
// ---------------------------------------------------------------- the table of punctuation
pub open spec fn pt(i: int) -> Seq<u8> { PUNCT_TABLE_seq()[i].0 }
pub open spec fn tok(i: int) -> Punctuation { PUNCT_TABLE_seq()[i].1 }
/// entries before the keyword
pub open spec fn np() -> int { PUNCT_TABLE_seq().len() - 1 }
/// length of the common prefix
pub open spec fn lcp(a: Seq<u8>, b: Seq<u8>) -> nat
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + lcp(a.drop_first(), b.drop_first()) } else { 0 } }
pub type Rows = Seq<(Seq<u8>, Punctuation)>;
/// entries from k on up to hi begin with byte b
pub open spec fn chk_range(t: Rows, b: u8, k: int, hi: int) -> bool
    decreases hi - k,
{ k >= hi || (0 <= k < t.len() && t[k].0[0] == b && chk_range(t, b, k + 1, hi)) }
pub open spec fn chk_ranges(t: Rows, sp: Seq<(int, int)>, b: int) -> bool
    decreases b,
{ b <= 0 || (0 <= sp[b - 1].0 <= sp[b - 1].1 < t.len() && chk_range(t, (b - 1) as u8, sp[b - 1].0, sp[b - 1].1) && chk_ranges(t, sp, b - 1)) }
/// one entry: its length, its place in the index, and its prefix among the earlier ones
pub open spec fn chk_row(t: Rows, sp: Seq<(int, int)>, i: int) -> bool {
    &&& 1 <= t[i].0.len() <= 3 && t[i].0[0] < 127 && t[i].1 != Punctuation::In
    &&& sp[t[i].0[0] as int].0 <= i < sp[t[i].0[0] as int].1
    &&& t[i].0.len() == 1 || chk_in(t, t[i].0.drop_last(), i)
}
/// whether x occurs among the first k
pub open spec fn chk_in(t: Rows, x: Seq<u8>, k: int) -> bool
    decreases k,
{ k > 0 && (t[k - 1].0 =~= x || chk_in(t, x, k - 1)) }
pub open spec fn chk_rows(t: Rows, sp: Seq<(int, int)>, i: int) -> bool
    decreases i,
{ i <= 0 || (chk_row(t, sp, i - 1) && chk_rows(t, sp, i - 1)) }
/// entry x (after y) and each of the first k: they differ, and what they share x shares with y
pub open spec fn chk_order_row(t: Rows, x: Seq<u8>, n: nat, k: int) -> bool
    decreases k,
{ k <= 0 || (lcp(t[k - 1].0, x) <= n && !(t[k - 1].0 =~= x) && chk_order_row(t, x, n, k - 1)) }
pub open spec fn chk_order(t: Rows, i: int) -> bool
    decreases i,
{ i <= 1 || (chk_order_row(t, t[i - 1].0, lcp(t[i - 2].0, t[i - 1].0), i - 1) && chk_order(t, i - 1)) }
pub open spec fn chk_table() -> bool {
    let t = PUNCT_TABLE_seq();
    let sp = SPEEDY_TABLE_seq();
    sp.len() == 127 && t.len() >= 2 && t.last().1 == Punctuation::In && chk_ranges(t, sp, 127) && chk_rows(t, sp, t.len() - 1) && chk_order(t, t.len() - 1)
}
#[verifier::rlimit(100)]
pub proof fn table_checked()
    ensures chk_table(),
{
    assert(chk_table()) by (compute_only);
}

pub proof fn row_facts(t: Rows, sp: Seq<(int, int)>, n: int, i: int)
    requires chk_rows(t, sp, n), 0 <= i < n,
    ensures chk_row(t, sp, i),
    decreases n,
{ if i < n - 1 { row_facts(t, sp, n - 1, i); } }
pub proof fn range_facts(t: Rows, b: u8, k: int, hi: int, i: int)
    requires chk_range(t, b, k, hi), k <= i < hi,
    ensures 0 <= i < t.len(), t[i].0[0] == b,
    decreases hi - k,
{ if i > k { range_facts(t, b, k + 1, hi, i); } }
pub proof fn ranges_facts(t: Rows, sp: Seq<(int, int)>, n: int, b: int)
    requires chk_ranges(t, sp, n), 0 <= b < n,
    ensures 0 <= sp[b].0 <= sp[b].1 < t.len(), chk_range(t, b as u8, sp[b].0, sp[b].1),
    decreases n,
{ if b < n - 1 { ranges_facts(t, sp, n - 1, b); } }
pub proof fn in_facts(t: Rows, x: Seq<u8>, k: int) -> (j: int)
    requires chk_in(t, x, k),
    ensures 0 <= j < k, t[j].0 == x,
    decreases k,
{ if t[k - 1].0 =~= x { k - 1 } else { in_facts(t, x, k - 1) } }
pub proof fn order_facts(t: Rows, n: int, i: int, k: int)
    requires chk_order(t, n), 0 <= k < i < n,
    ensures t[k].0 != t[i].0, lcp(t[k].0, t[i].0) <= lcp(t[i - 1].0, t[i].0),
    decreases n,
{
    if i < n - 1 { order_facts(t, n - 1, i, k); } else { order_row_facts(t, t[i].0, lcp(t[i - 1].0, t[i].0), i, k); }
}
pub proof fn order_row_facts(t: Rows, x: Seq<u8>, n: nat, m: int, k: int)
    requires chk_order_row(t, x, n, m), 0 <= k < m,
    ensures t[k].0 != x, lcp(t[k].0, x) <= n,
    decreases m,
{ if k < m - 1 { order_row_facts(t, x, n, m - 1, k); } }
pub proof fn lcp_is(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n,
    ensures n <= lcp(a, b) <==> (n <= a.len() && n <= b.len() && a.subrange(0, n) == b.subrange(0, n)), lcp(a, b) <= a.len(),
    decreases n,
{
    lcp_len(a, b);
    if n > 0 {
        if a.len() > 0 && b.len() > 0 {
            lcp_is(a.drop_first(), b.drop_first(), n - 1);
            if n <= a.len() && n <= b.len() {
                let (x, y) = (a.subrange(0, n), b.subrange(0, n));
                assert(x.drop_first() =~= a.drop_first().subrange(0, n - 1));
                assert(y.drop_first() =~= b.drop_first().subrange(0, n - 1));
                assert(x[0] == a[0] && y[0] == b[0]);
                if x == y { } else if a[0] == b[0] && x.drop_first() == y.drop_first() { assert(x =~= seq![x[0]] + x.drop_first()); assert(y =~= seq![y[0]] + y.drop_first()); }
            }
        }
    } else { assert(a.subrange(0, 0) =~= b.subrange(0, 0)); }
}
pub proof fn lcp_len(a: Seq<u8>, b: Seq<u8>)
    ensures lcp(a, b) <= a.len(),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lcp_len(a.drop_first(), b.drop_first()); } }

/// what the rest of the proof uses of the table
pub proof fn index_ok(b: u8, i: int)
    requires 0 <= i < np(),
    ensures SPEEDY_TABLE_seq().len() == 127, 1 <= pt(i).len() <= 3, pt(i)[0] < 127, tok(i) != Punctuation::In,
        b < 127 ==> 0 <= SPEEDY_TABLE_seq()[b as int].0 <= SPEEDY_TABLE_seq()[b as int].1 <= np(),
        (pt(i)[0] == b) == (b < 127 && SPEEDY_TABLE_seq()[b as int].0 <= i < SPEEDY_TABLE_seq()[b as int].1),
{
    table_checked();
    let (t, sp) = (PUNCT_TABLE_seq(), SPEEDY_TABLE_seq());
    row_facts(t, sp, np(), i);
    if b < 127 {
        ranges_facts(t, sp, 127, b as int);
        if sp[b as int].0 <= i < sp[b as int].1 { range_facts(t, b, sp[b as int].0, sp[b as int].1, i); }
    }
}
pub proof fn prefix_before(i: int) -> (j: int)
    requires 0 <= i < np(), pt(i).len() >= 2,
    ensures 0 <= j < i, pt(j) == pt(i).drop_last(),
{
    table_checked();
    row_facts(PUNCT_TABLE_seq(), SPEEDY_TABLE_seq(), np(), i);
    in_facts(PUNCT_TABLE_seq(), pt(i).drop_last(), i)
}
pub proof fn distinct(i: int, k: int)
    requires 0 <= i < np(), 0 <= k < np(), i != k,
    ensures pt(i) != pt(k),
{
    table_checked();
    if i < k { order_facts(PUNCT_TABLE_seq(), np(), k, i); } else { order_facts(PUNCT_TABLE_seq(), np(), i, k); }
}
/// the entries with a given prefix are neighbours
pub proof fn contiguous(f: Seq<u8>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k < np(), starts(pt(i), f), starts(pt(k), f),
    ensures starts(pt(j), f),
    decreases k - i,
{
    table_checked();
    if j < k {
        lcp_is(pt(i), pt(k), f.len() as int);
        order_facts(PUNCT_TABLE_seq(), np(), k, i);
        lcp_is(pt(k - 1), pt(k), f.len() as int);
        contiguous(f, i, j, k - 1);
    }
}
/// the first of the entries with a given prefix is the prefix itself
pub proof fn first_is_exact(f: Seq<u8>, i: int)
    requires 0 <= i < np(), f.len() >= 1, starts(pt(i), f), i == 0 || !starts(pt(i - 1), f),
    ensures pt(i) == f,
{
    if pt(i).len() > f.len() {
        let j = prefix_before(i);
        assert(pt(j).subrange(0, f.len() as int) =~= pt(i).subrange(0, f.len() as int));
        contiguous(f, j, i - 1, i);
    } else { assert(pt(i) =~= pt(i).subrange(0, f.len() as int)); }
}

@@verbatim
// ---------------------------------------------------------------- the input
/// line and column of byte i, when the first counted byte (number start) is at line l0, column c0
pub open spec fn place(s: Seq<u8>, start: int, l0: int, c0: int, i: int) -> (int, int) decreases i - start {
    if i <= start { (l0, c0) } else {
        let p = place(s, start, l0, c0, i - 1);
        if s[i - 1] == 10 { (p.0 + 1, 1) } else { (p.0, p.1 + 1) }
    }
}
impl<'a> LocationTracker<'a> {
    /// the location is that of the byte returned last
    pub open spec fn wf(&self, start: int, l0: int, c0: int) -> bool {
        let (s, o, l) = (self.inner@, self.offset as int, self.location);
        &&& 0 <= start <= o <= s.len()
        // nothing read yet
        &&& o == start ==> (if self.at_line_end { l.line + 1 == l0 && c0 == 1 } else { l.line == l0 && l.column + 1 == c0 })
        &&& o > start ==> {
            let p = place(s, start, l0, c0, o - 1);
            if s[o - 1] == 10 && !self.at_line_end { o == s.len() && l.line == p.0 + 1 && l.column == 0 } else { l.line == p.0 && l.column == p.1 && self.at_line_end == (s[o - 1] == 10) }
        }
    }
}
pub open spec fn blank(b: u8) -> bool { b == 9 || b == 32 }
/// the k-th byte is, like all others before it on its line, a blank (counting from start)
pub open spec fn head(s: Seq<u8>, start: int, k: int) -> bool decreases k - start {
    k <= start || (blank(s[k - 1]) && (k - 1 == start || s[k - 2] == 10 || head(s, start, k - 1)))
}
impl<'ctx> Lexer<'ctx> {
    pub open spec fn src(&self) -> Seq<u8> { self.input.inner@ }
    /// the number of the byte to be taken next
    pub open spec fn pos(&self) -> int { self.input.offset - (if self.next is Some { 1int } else { 0 }) }
    pub open spec fn wf(&self) -> bool {
        &&& self.src().len() <= 0x7fff_ffff
        &&& self.input.offset <= self.src().len()
        &&& self.next matches Some(b) ==> self.input.offset >= 1 && self.src()[self.input.offset - 1] == b && self.input.at_line_end == (b == 10) && (self.at_line_head ==> blank(b))
        &&& stack_ok(self.interp_stack@, self.pos())
    }
    /// all is as if reading had begun with byte number start on line l0, column c0
    pub open spec fn since(&self, start: int, l0: int, c0: int) -> bool { start <= self.pos() && counted(self.input, self.next, self.at_line_head, start, l0, c0) }
}
#[verifier::opaque]
pub open spec fn counted(t: LocationTracker, next: Option<u8>, at_line_head: bool, start: int, l0: int, c0: int) -> bool {
    &&& t.wf(start, l0, c0)
    &&& next is Some || t.offset < t.inner@.len() ==> at_line_head == head(t.inner@, start, t.offset as int)
}
pub open spec fn end_ok(e: Seq<u8>) -> bool { e =~= seq![34u8] || e =~= seq![34u8, 125u8] || e =~= seq![10u8] }
pub open spec fn stack_ok(s: Seq<Interpolation>, n: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> end_ok((#[trigger] s[i]).end@) && 1 <= s[i].bracket_depth <= n
}
/// what every step keeps
pub open spec fn kept(a: Lexer, b: Lexer) -> bool {
    &&& b.wf() && b.src() == a.src() && b.input.location.file == a.input.location.file && a.pos() <= b.pos() && a.input.offset <= b.input.offset
    &&& forall|s: int, l: int, c: int| s <= a.pos() && #[trigger] counted(a.input, a.next, a.at_line_head, s, l, c) ==> b.since(s, l, c)
}
/// the steps below the level of tokens: they leave the nesting of strings alone
pub open spec fn inside(a: Lexer, b: Lexer) -> bool {
    kept(a, b) && b.interp_stack == a.interp_stack && b.final_newline == a.final_newline && (b.directive == a.directive || b.directive is None)
}
#[verifier::external_body]
pub fn vx_byte(s: &[u8], o: usize) -> (r: Option<&u8>)
    ensures s@.len() <= usize::MAX, r matches Some(b) ==> o < s@.len() && *b == s@[o as int], r is None ==> o >= s@.len(),
{ unimplemented!() }

@@fn lex::LocationTracker.Iterator::next
@name advance
@sig <<<fn advance(&mut self) -> Option<u8> >>>
@impl <<<impl<'a> LocationTracker<'a> >>>
@ret r
@opt partial
@rewrite <<<self.inner.get(self.offset)>>> => <<<vx_byte(self.inner, self.offset)>>>
@spec
    requires old(self).offset <= old(self).inner@.len(),
    ensures
        forall|s: int, l: int, c: int| #[trigger] old(self).wf(s, l, c) ==> final(self).wf(s, l, c),
        final(self).inner@ == old(self).inner@, final(self).location.file == old(self).location.file,
        old(self).offset == old(self).inner@.len() ==> r is None && final(self).offset == old(self).offset,
        old(self).offset < old(self).inner@.len() ==> r == Some(old(self).inner@[old(self).offset as int]) && final(self).offset == old(self).offset + 1 && final(self).at_line_end == (old(self).inner@[old(self).offset as int] == 10),
        (final(self).location.line > old(self).location.line) == old(self).at_line_end, final(self).location.line >= old(self).location.line,

@@fn err::Location::pred
@ret r
@spec
    requires self.column > 0 || self.line > 0,
    ensures
        self.column > 0 ==> r == (Location { file: self.file, line: self.line, column: (self.column - 1) as u16 }),
        self.column == 0 && self.line > 0 ==> r == (Location { file: self.file, line: (self.line - 1) as u32, column: u16::MAX }),
@ghost start
    proof { assert(!0u16 == 0xffffu16) by (bit_vector); assert(!0u32 == 0xffff_ffffu32) by (bit_vector); }

@@verbatim
pub open spec fn bom(s: Seq<u8>) -> bool { s.len() >= 3 && s[0] == 0xef && s[1] == 0xbb && s[2] == 0xbf }
impl Lexer<'_> {
    /// all is as at the start of a file: counting from the byte after the mark, line 1, column 1
    pub open spec fn fresh(&self) -> bool { self.wf() && self.next is None && self.interp_stack@.len() == 0 && !self.final_newline && self.directive is None && self.pos() == (if bom(self.src()) { 3int } else { 0 }) && self.since(self.pos(), 1, 1) }
}

@@fn lex::LocationTracker::new
@ret r
@opt bytestrs
@sig <<<fn new(file: FileId, inner: &'a [u8]) -> LocationTracker<'a>>>>
@spec
    ensures r.inner@ == inner@, r.offset == (if bom(inner@) { 3int } else { 0 }), r.wf(r.offset as int, 1, 1), r.location.file == file,

@@fn lex::LocationTracker::from_location
@ret r
@sig <<<fn from_location(location: Location, inner: &'a [u8]) -> LocationTracker<'a>>>>
@spec
    requires location.column > 0 || location.line > 0,
    ensures r.inner@ == inner@, r.offset == 0, location.column > 0 ==> r.wf(0, location.line as int, location.column as int), r.location.file == location.file,
@ghost start
    proof { assert(!0u16 == 0xffffu16) by (bit_vector); }

@@fn lex::Lexer::from_input
@ret r
@spec
    requires input.inner@.len() <= 0x7fff_ffff, input.offset <= input.inner@.len(),
    ensures
        r.wf(), r.next is None, r.interp_stack@.len() == 0, !r.final_newline, r.directive is None, r.src() == input.inner@, r.pos() == input.offset, r.input == input,
        forall|l: int, c: int| #[trigger] input.wf(input.offset as int, l, c) ==> r.since(input.offset as int, l, c),
@ghost start
    reveal(counted);

@@fn lex::Lexer::new
@ret r
@sig <<<fn new(context: &'ctx Context, file_number: FileId, input: &'ctx [u8]) -> Self>>>
@rewrite <<<input.into()>>> => <<<input>>>
@spec
    requires input@.len() <= 0x7fff_ffff,
    ensures r.fresh(), r.src() == input@,

@@fn lex::Lexer.HasLocation::location
@impl <<<impl<'ctx> Lexer<'ctx> >>>
@ret r
@spec
    ensures r == self.input.location,

@@fn lex::Lexer::next
@ret r
@rewrite <<<self.input.next()>>> => <<<self.input.advance()>>>
@spec
    requires old(self).wf(),
    ensures
        inside(*old(self), *final(self)), final(self).next is None, final(self).close_allowed == old(self).close_allowed,
        match r {
            Some(b) => {
                &&& old(self).pos() < old(self).src().len() && b == old(self).src()[old(self).pos()] && final(self).pos() == old(self).pos() + 1
                &&& final(self).input.at_line_end == (b == 10)
                &&& forall|s: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, s, l, c) && s <= old(self).pos() ==> final(self).at_line_head == head(final(self).src(), s, final(self).pos())
                &&& final(self).at_line_head ==> blank(b)
            },
            None => old(self).pos() == old(self).src().len() && final(self).pos() == old(self).pos(),
        },
@ghost start
    proof {
        reveal(counted);
        assert forall|s: int, l: int, c: int| s <= self.pos() && #[trigger] counted(self.input, self.next, self.at_line_head, s, l, c) implies self.input.wf(s, l, c) by { }
    }

@@fn lex::Lexer::put_back
@spec
    requires
        old(self).wf(), old(self).next is None,
        val matches Some(b) ==> old(self).pos() > 0 && b == old(self).src()[old(self).pos() - 1] && old(self).input.at_line_end == (b == 10) && (old(self).at_line_head ==> blank(b)) && stack_ok(old(self).interp_stack@, old(self).pos() - 1),
    ensures
        final(self).wf(), *final(self) == (Lexer { next: val, ..*old(self) }),
        forall|s: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, s, l, c) && s <= old(self).pos() && (val is Some ==> s < old(self).pos() && old(self).at_line_head == head(old(self).src(), s, old(self).pos())) ==> final(self).since(s, l, c),
@ghost start
    proof { reveal(counted); }

@@verbatim
/// blanks, carriage returns, and newlines where they may be skipped
pub open spec fn space(b: u8) -> bool { blank(b) || b == 13 }
/// where whitespace from i on ends; nl: how it deals with newlines (0: they end it, 2: the first may be skipped, 1: it was)
pub open spec fn ws_end(s: Seq<u8>, start: int, i: int, nl: int) -> int decreases s.len() - i {
    if i >= s.len() { i }
    else if s[i] == 13 { ws_end(s, start, i + 1, nl) }
    else if blank(s[i]) && (nl > 0 || !head(s, start, i + 1)) { ws_end(s, start, i + 1, nl) }
    else if s[i] == 10 && nl == 2 { ws_end(s, start, i + 1, 1) }
    else { i }
}

@@fn lex::Lexer::skip_ws
@ret r
@opt guards
@attr #[verifier::loop_isolation(false)]
@spec
    requires old(self).wf(),
    ensures
        inside(*old(self), *final(self)), final(self).next is None,
        forall|s: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, s, l, c) && s <= old(self).pos() ==> {
            let e = ws_end(old(self).src(), s, old(self).pos(), if skip_newlines { 2 } else { 0 });
            match r { Some(b) => e < old(self).src().len() && b == old(self).src()[e] && final(self).pos() == e + 1, None => e == old(self).src().len() && final(self).pos() == e }
        },
        skip_newlines ==> final(self).pos() == ws_end(old(self).src(), 0, old(self).pos(), 2) + (if r is Some { 1int } else { 0 }),
        r is None ==> final(self).pos() == old(self).src().len(),
        r matches Some(b) ==> final(self).pos() > old(self).pos() && b == final(self).src()[final(self).pos() - 1] && final(self).input.at_line_end == (b == 10) && (final(self).at_line_head ==> blank(b)),
        forall|s: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, s, l, c) && s <= old(self).pos() && r is Some ==> final(self).at_line_head == head(final(self).src(), s, final(self).pos()),
@loop 0
    invariant
        self.wf(), inside(*old(self), *self), 0 <= skip_newlines <= 2,
        nl0 == 2 ==> skip_newlines >= 1 && ws_end(self.src(), 0, old(self).pos(), 2) == ws_end(self.src(), 0, self.pos(), skip_newlines as int),
        forall|s: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, s, l, c) && s <= old(self).pos() ==> ws_end(old(self).src(), s, old(self).pos(), nl0) == ws_end(self.src(), s, self.pos(), skip_newlines as int),
    decreases self.src().len() - self.pos(),
@ghost after <<<let mut skip_newlines = if skip_newlines { 2 } else { 0 };>>>
    let ghost nl0 = skip_newlines as int;

@@fn lex::is_digit
@ret r
@spec
    ensures r == digit(ch),

@@fn lex::is_ident
@ret r
@spec
    ensures r == letter(ch),

@@verbatim
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn letter(b: u8) -> bool { 97 <= b <= 122 || 65 <= b <= 90 || b == 95 }
pub open spec fn word_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && (letter(s[i]) || digit(s[i])) { word_end(s, i + 1) } else { i }
}
pub proof fn word_bounds(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= word_end(s, i) <= s.len(),
    decreases s.len() - i,
{ if i < s.len() { if letter(s[i]) || digit(s[i]) { word_bounds(s, i + 1); } } }

@@fn lex::Lexer::read_ident
@ret r
@rewrite <<<from_utf8_or_latin1_borrowed(ident).into_owned().into()>>> => <<<vx_ident_of(ident)>>>
@spec
    requires old(self).wf(), old(self).next is None, old(self).pos() > 0, first == old(self).src()[old(self).pos() - 1],
    ensures
        inside(*old(self), *final(self)),
        // the longest run of letters, digits and underscores
        final(self).pos() == word_end(old(self).src(), old(self).pos()),
        r.0@ == decode(old(self).src().subrange(old(self).pos() - 1, final(self).pos())),
        r.1 == (final(self).pos() < old(self).src().len() && blank(old(self).src()[final(self).pos()])),
@loop 0
    invariant_except_break
        self.next is None, self.pos() == end, self.input.offset == end,
    invariant
        self.wf(), inside(*old(self), *self), start == old(self).pos() - 1, start < end <= self.src().len(),
        word_end(self.src(), end as int) == word_end(self.src(), old(self).pos()),
    ensures
        self.pos() == end, end == word_end(self.src(), end as int), ws == (end < self.src().len() && blank(self.src()[end as int])),
    decreases self.src().len() - end,

@@verbatim
// ---------------------------------------------------------------- punctuation
/// f stands at i in s
pub open spec fn stands(s: Seq<u8>, i: int, f: Seq<u8>) -> bool { i + f.len() <= s.len() && s.subrange(i, i + f.len()) == f }
/// entry k is the longest that stands at i
pub open spec fn munch(s: Seq<u8>, i: int, k: int) -> bool {
    0 <= k < np() && stands(s, i, pt(k)) && forall|m: int| 0 <= m < np() && stands(s, i, #[trigger] pt(m)) ==> pt(m).len() <= pt(k).len()
}
pub open spec fn no_punct(s: Seq<u8>, i: int) -> bool { forall|m: int| 0 <= m < np() ==> !stands(s, i, #[trigger] pt(m)) }
/// items are the entries lo to hi of the table
pub open spec fn rows(items: Seq<(VxText, Punctuation)>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= np() && items.len() == hi - lo
    &&& forall|j: int| 0 <= j < items.len() ==> (#[trigger] items[j]).0@ == pt(lo + j) && items[j].1 == tok(lo + j)
}
/// they are those that begin with f
pub open spec fn those(f: Seq<u8>, lo: int, hi: int) -> bool { forall|k: int| 0 <= k < np() ==> (starts(#[trigger] pt(k), f) == (lo <= k < hi)) }

@@fn lex::filter_punct_table
@ret r
@sig <<<fn filter_punct_table(filter: u8) -> &'static [(VxText, Punctuation)]>>>
@rewrite <<<SPEEDY_TABLE>>> => <<<vx_SPEEDY_TABLE()>>>
@rewrite <<<PUNCT_TABLE>>> => <<<vx_PUNCT_TABLE()>>>
@spec
    ensures exists|lo: int, hi: int| rows(r@, lo, hi) && those(seq![filter], lo, hi),
@ghost start
    let ghost (lo, hi) = if filter < 127 { SPEEDY_TABLE_seq()[filter as int] } else { (0, 0) };
    proof {
        table_checked();
        index_ok(filter, 0);
        assert forall|k: int| 0 <= k < np() implies (starts(#[trigger] pt(k), seq![filter]) == (lo <= k < hi)) by {
            index_ok(filter, k);
            assert(pt(k).subrange(0, 1) =~= seq![pt(k)[0]]);
            assert(seq![pt(k)[0]][0] == pt(k)[0] && seq![filter][0] == filter);
        }
    }
@ghost end
    proof { assert(start == lo && end == hi); assert(rows(vx_result@, lo, hi)); }

@@fn lex::filter_punct
@ret r
@sig <<<fn filter_punct<'a>(input: &'a [(VxText, Punctuation)], filter: &[u8]) -> &'a [(VxText, Punctuation)]>>>
@spec
    ensures exists|a: int, b: int| {
        &&& 0 <= a <= b <= input@.len() && r@ == #[trigger] input@.subrange(a, b)
        &&& forall|j: int| 0 <= j < a ==> !starts((#[trigger] input@[j]).0@, filter@)
        &&& forall|j: int| a <= j < b ==> starts((#[trigger] input@[j]).0@, filter@)
        &&& b < input@.len() ==> !starts(input@[b].0@, filter@)
        &&& a < input@.len() ==> a < b
    },
@loop 0
    invariant start <= input@.len(), forall|j: int| 0 <= j < start ==> !starts((#[trigger] input@[j]).0@, filter@),
    decreases input@.len() - start,
@loop 1
    invariant start <= end <= input@.len(), start < input@.len() ==> starts(input@[start as int].0@, filter@), forall|j: int| start <= j < end ==> starts((#[trigger] input@[j]).0@, filter@),
    decreases input@.len() - end,
@ghost start
    broadcast use bytes;
@ghost loop 1 start
    proof { broadcast use bytes; assert(starts(input@[end as int].0@, filter@)); }

@@verbatim
#[verifier::external_body]
pub fn vx_last(s: &[u8]) -> (r: Option<u8>)
    ensures r == (if s@.len() > 0 { Some(s@.last()) } else { None::<u8> }),
{ unimplemented!() }

@@verbatim
pub proof fn munched(s: Seq<u8>, i: int, n: int, lo: int, hi: int, k: int)
    requires
        0 <= i, 1 <= n, i + n <= s.len(), 0 <= k < np(), 0 <= lo, hi <= np(), those(s.subrange(i, i + n), lo, hi),
        pt(k) == s.subrange(i, i + n - 1) && lo >= hi || pt(k) == s.subrange(i, i + n) && (hi == lo + 1 && k == lo || i + n == s.len()),
    ensures munch(s, i, k),
{
    assert forall|m: int| 0 <= m < np() && stands(s, i, #[trigger] pt(m)) implies pt(m).len() <= pt(k).len() by {
        if pt(m).len() >= n { assert(pt(m).subrange(0, n) =~= s.subrange(i, i + n)); }
        if pt(m).len() > pt(k).len() { assert(starts(pt(m), s.subrange(i, i + n))); }
    }
}
pub proof fn unmunched(s: Seq<u8>, i: int, lo: int, hi: int)
    requires 0 <= i < s.len(), lo >= hi, those(s.subrange(i, i + 1), lo, hi),
    ensures no_punct(s, i),
{
    assert forall|m: int| 0 <= m < np() implies !stands(s, i, #[trigger] pt(m)) by {
        index_ok(0, m);
        if stands(s, i, pt(m)) { assert(pt(m).subrange(0, 1) =~= s.subrange(i, i + 1)); }
    }
}
/// narrowing the rows for f to those for the longer g
pub proof fn narrowed(f: Seq<u8>, g: Seq<u8>, lo: int, hi: int, a: int, b: int)
    requires
        0 <= lo <= a <= b <= hi <= np(), f.len() >= 1, starts(g, f), those(f, lo, hi),
        forall|k: int| lo <= k < a ==> !starts(#[trigger] pt(k), g),
        forall|k: int| a <= k < b ==> starts(#[trigger] pt(k), g),
        b < hi ==> !starts(pt(b), g), a < hi ==> a < b,
    ensures those(g, a, b),
{
    assert forall|k: int| 0 <= k < np() implies (starts(#[trigger] pt(k), g) == (a <= k < b)) by {
        if starts(pt(k), g) {
            assert(pt(k).subrange(0, f.len() as int) =~= g.subrange(0, f.len() as int));
            assert(lo <= k < hi);
            if k >= b { contiguous(g, a, b, k); }
        }
    }
}

@@fn lex::Lexer::read_punct
@ret r
@rewrite <<<needle[..needle_idx].last().cloned()>>> => <<<vx_last(&needle[..needle_idx])>>>
@spec
    requires old(self).wf(), old(self).next is None, old(self).pos() > 0, first == old(self).src()[old(self).pos() - 1],
        old(self).input.at_line_end == (first == 10) && (old(self).at_line_head ==> blank(first)),
    ensures
        inside(*old(self), *final(self)),
        match r {
            Some(p) => exists|k: int| #[trigger] munch(old(self).src(), old(self).pos() - 1, k) && p == tok(k) && final(self).pos() == old(self).pos() - 1 + pt(k).len(),
            None => no_punct(old(self).src(), old(self).pos() - 1) && *final(self) == *old(self),
        },
@ghost start
    broadcast use bytes;
    let ghost i0 = self.pos() - 1;
    let ghost s = self.src();
@ghost after <<<let mut items = filter_punct_table(first);>>>
    let ghost (lo, hi) = choose|lo: int, hi: int| rows(items@, lo, hi) && those(seq![first], lo, hi);
    let ghost mut lo = lo;
    let ghost mut hi = hi;
    proof {
        assert(needle@.subrange(0, 1) =~= seq![first]);
        assert(s.subrange(i0, i0 + 1) =~= seq![first]);
    }
@loop 0
    invariant
        inside(*old(self), *self), self.next is None, s == self.src(), i0 == old(self).pos() - 1, i0 >= 0,
        1 <= needle_idx <= 4, self.pos() == i0 + needle_idx, needle@.subrange(0, needle_idx as int) == s.subrange(i0, i0 + needle_idx),
        rows(items@, lo, hi), those(s.subrange(i0, i0 + needle_idx), lo, hi),
        needle_idx == 1 ==> candidate is None && *self == *old(self),
        needle_idx > 1 ==> exists|k: int| 0 <= k < np() && pt(k) == s.subrange(i0, i0 + needle_idx - 1) && candidate == Some(#[trigger] tok(k)),
        self.input.at_line_end == (s[self.pos() - 1] == 10), self.at_line_head ==> blank(s[self.pos() - 1]),
        forall|st: int, l: int, c: int| #[trigger] counted(old(self).input, old(self).next, old(self).at_line_head, st, l, c) && st <= old(self).pos() && needle_idx > 1 ==> self.at_line_head == head(s, st, self.pos()),
    decreases s.len() - self.pos(),
@ghost loop 0 start
    let ghost f = s.subrange(i0, i0 + needle_idx);
    proof {
        broadcast use bytes;
        assert(starts(pt(lo), f));
        assert(lo == 0 || !starts(pt(lo - 1), f));
        first_is_exact(f, lo);
        index_ok(0, lo);
        assert(items@[0].0@ == pt(lo + 0));
        if items@.len() == 1 || self.pos() == s.len() { munched(s, i0, needle_idx as int, lo, hi, lo); }
    }
    let ghost was = items@;
@ghost loop 0 end
    proof {
        let g = s.subrange(i0, i0 + needle_idx);
        assert(needle@.subrange(0, needle_idx as int) =~= g);
        let (a, b) = choose|a: int, b: int| {
            &&& 0 <= a <= b <= was.len() && items@ == #[trigger] was.subrange(a, b)
            &&& forall|j: int| 0 <= j < a ==> !starts((#[trigger] was[j]).0@, g)
            &&& forall|j: int| a <= j < b ==> starts((#[trigger] was[j]).0@, g)
            &&& b < was.len() ==> !starts(was[b].0@, g)
            &&& a < was.len() ==> a < b
        };
        assert(g.subrange(0, f.len() as int) =~= f);
        assert forall|k: int| lo <= k < lo + a implies !starts(#[trigger] pt(k), g) by { assert(was[k - lo].0@ == pt(k)); }
        assert forall|k: int| lo + a <= k < lo + b implies starts(#[trigger] pt(k), g) by { assert(was[k - lo].0@ == pt(k)); }
        if b < was.len() { assert(was[b].0@ == pt(lo + b)); }
        narrowed(f, g, lo, hi, lo + a, lo + b);
        assert(f =~= s.subrange(i0, i0 + needle_idx - 1));
        assert(tok(lo) == tok(lo));
        lo = lo + a;
        hi = lo - a + b;
    }
@ghost loop 0 after
    proof {
        if needle_idx == 1 { unmunched(s, i0, lo, hi); } else {
            let k = choose|k: int| 0 <= k < np() && pt(k) == s.subrange(i0, i0 + needle_idx - 1) && candidate == Some(#[trigger] tok(k));
            munched(s, i0, needle_idx as int, lo, hi, k);
        }
    }

@@fn lex::Punctuation::close
@ret r
@spec
    ensures r == closed(self),

@@verbatim
/// a colon that nothing but space follows is not the end of a ternary
pub open spec fn closed(p: Punctuation) -> Punctuation { if p is Colon { Punctuation::CloseColon } else { p } }

@@fn lex::Lexer::check_close
@ret r
@spec
    requires old(self).wf(), old(self).pos() > 0,
    ensures
        inside(*old(self), *final(self)), final(self).pos() == old(self).pos(), 
        !(punct is Colon) ==> *final(self) == *old(self) && r == punct,
        punct is Colon ==> r == (if old(self).pos() < old(self).src().len() && (space(old(self).src()[old(self).pos()]) || old(self).src()[old(self).pos()] == 10) { Punctuation::Colon } else { Punctuation::CloseColon }),

@@verbatim
// ---------------------------------------------------------------- comments
/// where the block comment ends, whose d levels are open at i: after the */ that closes the outermost
pub open spec fn block_end(s: Seq<u8>, i: int, d: int) -> int decreases s.len() - i {
    if i + 1 >= s.len() { s.len() as int }
    else if s[i] == 47 && s[i + 1] == 42 { block_end(s, i + 1, d + 1) }
    else if s[i] == 42 && s[i + 1] == 47 { if d <= 1 { i + 2 } else { block_end(s, i + 1, d - 1) } }
    else { block_end(s, i + 1, d) }
}
/// the bytes other than 0
pub open spec fn nonzero(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == 0 { nonzero(s.drop_last()) } else { nonzero(s.drop_last()).push(s.last()) }
}
/// where the line comment ends: at the newline that no backslash precedes
pub open spec fn line_end(s: Seq<u8>, i: int, escaped: bool) -> int decreases s.len() - i {
    if i >= s.len() { i }
    else if s[i] == 13 { line_end(s, i + 1, escaped) }
    else if escaped { line_end(s, i + 1, false) }
    else if s[i] == 10 { i }
    else { line_end(s, i + 1, s[i] == 92) }
}
/// the bytes without the line ends
pub open spec fn joined(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == 10 || s.last() == 13 { joined(s.drop_last()) } else { joined(s.drop_last()).push(s.last()) }
}
/// the documentation comment that a comment with first byte b and the given text is
pub open spec fn doc_of(t: Option<Token>, kind: CommentKind, target: DocTarget, text: Seq<u8>) -> bool {
    t matches Some(Token::DocComment(c)) && c.kind == kind && c.target == target && c.text@ == decode(text)
}
/// where the text of that comment ends
pub open spec fn block_text(s: Seq<u8>, i: int, d: int) -> int decreases s.len() - i {
    if i + 1 >= s.len() { i }
    else if s[i] == 47 && s[i + 1] == 42 { block_text(s, i + 1, d + 1) }
    else if s[i] == 42 && s[i + 1] == 47 { if d <= 1 { i } else { block_text(s, i + 1, d - 1) } }
    else { block_text(s, i + 1, d) }
}

@@fn lex::Lexer::skip_block_comments
@ret r
@opt bytestrs optclosures
@spec
    requires old(self).wf(),
    ensures
        inside(*old(self), *final(self)), final(self).next is None,
        final(self).pos() == block_end(old(self).src(), old(self).pos(), 1),
        block_doc(r, old(self).src(), old(self).pos()),
@loop 0
    invariant_except_break
        1 <= depth, self.pos() == i0 ==> depth == 1, self.pos() > i0 ==> depth <= self.pos() - i0,
        e == block_end(s, self.pos() - 1, depth as int), self.pos() == i0 ==> i0 == s.len(),
        t == block_text(s, self.pos() - 1, depth as int) || self.pos() == i0, comment is Some ==> self.pos() > i0,
        comment is Some ==> comment_text@ == nonzero(s.subrange(a, if self.pos() - 1 >= a { self.pos() - 1 } else { a })),
        self.pos() > i0 ==> buffer@[1] == (if self.pos() - 1 >= a { s[self.pos() - 1] } else { 0 }),
    invariant
        inside(*old(self), *self), self.next is None, s == self.src(), i0 == old(self).pos(), s.len() <= 0x7fff_ffff,
        0 <= i0 <= s.len(), a == (if i0 < s.len() && s[i0] == 33 { i0 + 1 } else { i0 }), comment is Some ==> i0 < s.len() && (s[i0] == 42 || s[i0] == 33), comment is None ==> i0 == s.len() || !(s[i0] == 42 || s[i0] == 33),
        comment matches Some(c) ==> c.kind is Block && (if s[i0] == 42 { c.target is FollowingItem } else { c.target is EnclosingItem }),
    ensures
        self.pos() == e, comment is Some ==> comment_text@ == nonzero(s.subrange(a, if t >= a { t } else { a })),
    decreases s.len() - self.pos(),
@ghost start
    broadcast use bytes;
    let ghost s = self.src();
    let ghost i0 = self.pos();
    let ghost e = block_end(s, i0, 1);
    let ghost t = block_text(s, i0, 1);
    let ghost a = if i0 < s.len() && s[i0] == 33 { i0 + 1 } else { i0 };
@ghost loop 0 before
    proof { assert(s.subrange(a, a) =~= Seq::<u8>::empty()); }
@ghost loop 0 start
    broadcast use bytes;
    let ghost b0 = buffer@;
    let ghost p0 = self.pos();
    let ghost c0 = comment_text@;
@ghost loop 0 end
    proof {
        assert(p0 < s.len() && self.pos() == p0 + 1 && buffer@[0] == b0[1] && buffer@[1] == s[p0]);
        if p0 - 1 >= a {
            assert(s.subrange(a, p0).drop_last() =~= s.subrange(a, p0 - 1));
            assert(s.subrange(a, p0).last() == s[p0 - 1]);
        } else { assert(s.subrange(a, p0) =~= Seq::<u8>::empty()); }
    }

@@verbatim
/// the documentation of the block comment whose body begins at i
pub open spec fn block_doc(r: Option<Token>, s: Seq<u8>, i: int) -> bool {
    let a = if i < s.len() && s[i] == 33 { i + 1 } else { i };
    let t = block_text(s, i, 1);
    let text = nonzero(s.subrange(a, if t >= a { t } else { a }));
    if i < s.len() && (s[i] == 42 || s[i] == 33) && text.len() > 0 {
        doc_of(r, CommentKind::Block, if s[i] == 42 { DocTarget::FollowingItem } else { DocTarget::EnclosingItem }, text)
    } else { r is None }
}

@@fn lex::Lexer::skip_line_comment
@ret r
@opt optclosures
@spec
    requires old(self).wf(),
    ensures
        inside(*old(self), *final(self)),
        final(self).pos() == line_end(old(self).src(), old(self).pos(), false),
        line_doc(r, old(self).src(), old(self).pos()),
@loop 0
    invariant_except_break
        self.next is None, e == line_end(s, self.pos(), backslash),
        comment is Some ==> self.pos() > i0 && comment_text@ == joined(s.subrange(i0 + 1, self.pos())),
    invariant
        inside(*old(self), *self), s == self.src(), i0 == old(self).pos(), 0 <= i0 <= s.len(), i0 <= self.pos(),
        comment is Some ==> i0 < s.len() && (s[i0] == 47 || s[i0] == 33), comment is None ==> i0 == s.len() || !(s[i0] == 47 || s[i0] == 33),
        comment matches Some(c) ==> c.kind is Line && (if s[i0] == 47 { c.target is FollowingItem } else { c.target is EnclosingItem }),
    ensures
        self.pos() == e, comment is Some ==> e > i0 && comment_text@ == joined(s.subrange(i0 + 1, e)),
    decreases s.len() - self.pos(),
@ghost start
    let ghost s = self.src();
    let ghost i0 = self.pos();
    let ghost e = line_end(s, i0, false);
    proof { if i0 + 1 <= s.len() { assert(s.subrange(i0 + 1, i0 + 1) =~= Seq::<u8>::empty()); } }
@ghost loop 0 start
    let ghost p0 = self.pos() - 1;
    proof {
        if i0 + 1 <= p0 {
            assert(s.subrange(i0 + 1, p0 + 1).drop_last() =~= s.subrange(i0 + 1, p0));
            assert(s.subrange(i0 + 1, p0 + 1).last() == s[p0]);
        }
    }

@@verbatim
/// the documentation of the line comment whose body begins at i
pub open spec fn line_doc(r: Option<Token>, s: Seq<u8>, i: int) -> bool {
    if i < s.len() && (s[i] == 47 || s[i] == 33) {
        doc_of(r, CommentKind::Line, if s[i] == 47 { DocTarget::FollowingItem } else { DocTarget::EnclosingItem }, joined(s.subrange(i + 1, line_end(s, i, false))))
    } else { r is None }
}

@@verbatim
// ---------------------------------------------------------------- resources and strings
/// where the resource literal that goes on at i ends, and its text: a backslash stands for the byte after it
pub open spec fn res_end(s: Seq<u8>, i: int, escaped: bool) -> int decreases s.len() - i {
    if i >= s.len() { i } else if escaped { res_end(s, i + 1, false) } else if s[i] == 39 { i + 1 } else { res_end(s, i + 1, s[i] == 92) }
}
pub open spec fn res_text(s: Seq<u8>, i: int, escaped: bool) -> Seq<u8> decreases s.len() - i {
    if i >= s.len() { Seq::empty() }
    else if escaped { seq![s[i]] + res_text(s, i + 1, false) }
    else if s[i] == 39 { Seq::empty() }
    else if s[i] == 92 { res_text(s, i + 1, true) }
    else { seq![s[i]] + res_text(s, i + 1, false) }
}

@@fn lex::Lexer::read_resource
@ret r
@opt guards
@spec
    requires old(self).wf(),
    ensures
        inside(*old(self), *final(self)), final(self).next is None,
        final(self).pos() == res_end(old(self).src(), old(self).pos(), false), r@ == decode(res_text(old(self).src(), old(self).pos(), false)),
@loop 0
    invariant_except_break
        e == res_end(s, self.pos(), backslash), buf@ + res_text(s, self.pos(), backslash) == t,
    invariant
        inside(*old(self), *self), s == self.src(), self.pos() == old(self).pos() || self.next is None,
    ensures
        self.pos() == e, buf@ == t, self.next is None,
    decreases s.len() - self.pos(),
@ghost start
    let ghost s = self.src();
    let ghost e = res_end(s, self.pos(), false);
    let ghost t = res_text(s, self.pos(), false);
@ghost loop 0 before
    proof { assert(buf@ + t =~= t); }
@ghost loop 0 start
    let ghost b0 = buf@;
    let ghost p0 = self.pos();
    proof { if p0 < s.len() { assert(b0 + (seq![s[p0]] + res_text(s, p0 + 1, false)) =~= b0.push(s[p0]) + res_text(s, p0 + 1, false)); } assert(b0 + Seq::<u8>::empty() =~= b0); }

@@fn lex::Lexer::read_raw_string_inner
@ret r
@rewrite <<<buf.ends_with(terminator)>>> => <<<vx_ends_with(&buf, terminator)>>>
@spec
    requires old(self).wf(), terminator@.len() > 0,
    ensures
        inside(*old(self), *final(self)), final(self).next is None, old(self).pos() < old(self).src().len() ==> final(self).pos() > old(self).pos(),
        raw_string(r, *final(self), old(self).src(), old(self).pos(), terminator@),
@loop 0
    invariant_except_break
        buf@ == s.subrange(i0, self.pos()), forall|j: int| i0 <= j && j + terminator@.len() <= self.pos() ==> !#[trigger] stands(s, j, terminator@),
    invariant
        inside(*old(self), *self), s == self.src(), i0 == old(self).pos(), 0 <= i0 <= self.pos(), self.pos() == old(self).pos() || self.next is None, terminator@.len() > 0,
    ensures
        self.next is None, raw_end(s, i0, self.pos(), terminator@, buf@), i0 < s.len() ==> self.pos() > i0,
    decreases s.len() - self.pos(),
@ghost start
    let ghost s = self.src();
    let ghost i0 = self.pos();
@ghost loop 0 before
    proof { assert(s.subrange(i0, i0) =~= Seq::<u8>::empty()); }
@ghost loop 0 start
    proof {
        let q = self.pos() + 1;
        let n = terminator@.len() as int;
        if q <= s.len() {
            assert(s.subrange(i0, q - 1).push(s[q - 1]) =~= s.subrange(i0, q));
            if n <= q - i0 {
                assert(s.subrange(i0, q).subrange(q - i0 - n, q - i0) =~= s.subrange(q - n, q));
                assert(s.subrange(i0, q).subrange(0, q - i0 - n) =~= s.subrange(i0, q - n));
                assert(stands(s, q - n, terminator@) == (s.subrange(q - n, q) == terminator@));
            }
        }
    }

@@verbatim
#[verifier::external_body]
pub fn vx_ends_with(s: &Vec<u8>, e: &[u8]) -> (r: bool)
    ensures r == (e@.len() <= s@.len() && s@.subrange(s@.len() - e@.len(), s@.len() as int) == e@),
{ unimplemented!() }
/// the raw string from i reaches to the first terminator, or to the end of the file
pub open spec fn raw_end(s: Seq<u8>, i: int, e: int, terminator: Seq<u8>, text: Seq<u8>) -> bool {
    let n = terminator.len() as int;
    ||| i + n <= e <= s.len() && stands(s, e - n, terminator) && text == s.subrange(i, e - n) && forall|j: int| i <= j < e - n ==> !#[trigger] stands(s, j, terminator)
    ||| e == s.len() && text == s.subrange(i, e) && forall|j: int| i <= j ==> !#[trigger] stands(s, j, terminator)
}
pub open spec fn raw_string(r: Token, l: Lexer, s: Seq<u8>, i: int, terminator: Seq<u8>) -> bool {
    r matches Token::String(x) && exists|text: Seq<u8>| #[trigger] raw_end(s, i, l.pos(), terminator, text) && x@ == decode(text)
}

@@verbatim
pub open spec fn no_text(r: Token) -> bool { r matches Token::String(x) && x@.len() == 0 }
/// the raw string token whose @ stands before p
pub open spec fn raw_as(r: Token, l: Lexer, s: Seq<u8>, i: int, terminator: Seq<u8>) -> bool { exists|t: Seq<u8>| t =~= terminator && #[trigger] raw_string(r, l, s, i, t) }
pub open spec fn raw_token(r: Token, l: Lexer, s: Seq<u8>, p: int) -> bool {
    if p >= s.len() || s[p] == 10 { no_text(r) }
    else if s[p] == 40 {
        // @(terminator)text
        ||| l.pos() == s.len() && no_text(r) && forall|j: int| p < j < s.len() ==> #[trigger] s[j] != 41
        ||| exists|q: int| #[trigger] closes(s, p, q) && (if q == p + 1 { no_text(r) && l.pos() == q + 1 } else { raw_as(r, l, s, q + 1, s.subrange(p + 1, q)) })
    } else if s[p] == 123 {
        if p + 1 < s.len() && s[p + 1] == 34 { raw_as(r, l, s, p + 2, seq![34u8, 125u8]) } else { raw_as(r, l, s, p + 1, seq![123u8]) }
    } else { raw_as(r, l, s, p + 1, seq![s[p]]) }
}
pub open spec fn closes(s: Seq<u8>, p: int, q: int) -> bool { p < q < s.len() && s[q] == 41 && forall|j: int| p < j < q ==> #[trigger] s[j] != 41 }
#[verifier::external_body]
pub fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }

@@fn lex::Lexer::read_raw_string
@ret r
@opt bytestrs
@rewrite <<<String::new()>>> => <<<vx_empty()>>>
@spec
    requires old(self).wf(), old(self).next is None,
    ensures
        inside(*old(self), *final(self)), old(self).pos() < old(self).src().len() ==> final(self).pos() > old(self).pos(),
        raw_token(r, *final(self), old(self).src(), old(self).pos()),
@loop 0
    invariant_except_break
        terminator@ == s.subrange(p + 1, self.pos()), forall|j: int| p < j < self.pos() ==> #[trigger] s[j] != 41,
    invariant
        inside(*old(self), *self), s == self.src(), p == old(self).pos(), 0 <= p < self.pos(), self.next is None, s[p] == 40,
    ensures
        closes(s, p, self.pos() - 1), terminator@ == s.subrange(p + 1, self.pos() - 1),
    decreases s.len() - self.pos(),
@ghost start
    let ghost s = self.src();
    let ghost p = self.pos();
    proof { if p + 1 <= s.len() { assert(s.subrange(p + 1, p + 1) =~= Seq::<u8>::empty()); } }
@ghost loop 0 start
    let ghost q = self.pos();
    proof { if q < s.len() { assert(s.subrange(p + 1, q).push(s[q]) =~= s.subrange(p + 1, q + 1)); } }

@@verbatim
pub open spec fn skipped(s: Seq<u8>, i: int) -> int { let w = ws_end(s, 0, i, 2); if i <= w <= s.len() { w } else { i } }
/// the string literal that goes on at i: where it ends, or is interrupted by a [
#[verifier::opaque]
pub open spec fn str_end(s: Seq<u8>, i: int, end: Seq<u8>, escaped: bool) -> int decreases s.len() - i {
    if i >= s.len() { i }
    else if escaped { if s[i] == 10 || s[i] == 13 { str_end(s, skipped(s, i + 1), end, false) } else { str_end(s, i + 1, end, false) } }
    else if stands(s, i, end) { i + end.len() }
    else if s[i] == 91 { i + 1 }
    else { str_end(s, i + 1, end, s[i] == 92) }
}
/// whether a [ interrupts it
#[verifier::opaque]
pub open spec fn str_open(s: Seq<u8>, i: int, end: Seq<u8>, escaped: bool) -> bool decreases s.len() - i {
    if i >= s.len() { false }
    else if escaped { if s[i] == 10 || s[i] == 13 { str_open(s, skipped(s, i + 1), end, false) } else { str_open(s, i + 1, end, false) } }
    else if stands(s, i, end) { false }
    else if s[i] == 91 { true }
    else { str_open(s, i + 1, end, s[i] == 92) }
}
/// its text: escapes are kept as they are, except that an escaped line end is dropped with the space after it
/// (half of a two-byte delimiter at the end of the file is dropped, too)
#[verifier::opaque]
pub open spec fn str_text(s: Seq<u8>, i: int, end: Seq<u8>, escaped: bool) -> Seq<u8> decreases s.len() - i {
    if i >= s.len() { Seq::empty() }
    else if escaped {
        if s[i] == 10 || s[i] == 13 { str_text(s, skipped(s, i + 1), end, false) } else { seq![92u8, s[i]] + str_text(s, i + 1, end, false) }
    }
    else if stands(s, i, end) || s[i] == 91 || (i + 1 == s.len() && end.len() == 2 && s[i] == end[0]) { Seq::empty() }
    else if s[i] == 92 { str_text(s, i + 1, end, true) }
    else { seq![s[i]] + str_text(s, i + 1, end, false) }
}
pub open spec fn str_kind(r: Token, opened: bool, continued: bool, text: Seq<char>) -> bool {
    match r {
        Token::InterpStringPart(x) => opened && continued && x@ == text,
        Token::InterpStringBegin(x) => opened && !continued && x@ == text,
        Token::InterpStringEnd(x) => !opened && continued && x@ == text,
        Token::String(x) => !opened && !continued && x@ == text,
        _ => false,
    }
}
/// the piece of a string literal that begins at i
pub open spec fn str_token(r: Token, a: Lexer, b: Lexer, i: int, end: Seq<u8>, continued: bool) -> bool {
    let s = a.src();
    let opened = str_open(s, i, end, false);
    &&& b.pos() == str_end(s, i, end, false)
    &&& str_kind(r, opened, continued, decode(str_text(s, i, end, false)))
    // an open bracket belongs to the interrupted string
    &&& if opened { b.interp_stack.len() == a.interp_stack.len() + 1 && b.interp_stack@.drop_last() == a.interp_stack@ && b.interp_stack@.last().end@ == end && b.interp_stack@.last().bracket_depth == 1 }
        else { b.interp_stack@ == a.interp_stack@ }
}
/// one step of the three
pub proof fn str_step(s: Seq<u8>, i: int, end: Seq<u8>, escaped: bool)
    requires 0 <= i <= s.len(), end.len() >= 1,
    ensures
        i == s.len() ==> str_end(s, i, end, escaped) == i && !str_open(s, i, end, escaped) && str_text(s, i, end, escaped) == Seq::<u8>::empty(),
        i < s.len() ==> {
            let n = i + 1;
            let v = (str_end(s, i, end, escaped), str_open(s, i, end, escaped));
            let t = str_text(s, i, end, escaped);
            if escaped {
                if s[i] == 10 || s[i] == 13 { v == (str_end(s, skipped(s, n), end, false), str_open(s, skipped(s, n), end, false)) && t == str_text(s, skipped(s, n), end, false) }
                else { v == (str_end(s, n, end, false), str_open(s, n, end, false)) && t == seq![92u8, s[i]] + str_text(s, n, end, false) }
            } else if stands(s, i, end) { v == (i + end.len(), false) && t == Seq::<u8>::empty() }
            else if s[i] == 91 { v == (n, true) && t == Seq::<u8>::empty() }
            else {
                &&& v == (str_end(s, n, end, s[i] == 92), str_open(s, n, end, s[i] == 92))
                &&& t == (if n == s.len() && end.len() == 2 && s[i] == end[0] { Seq::<u8>::empty() } else if s[i] == 92 { str_text(s, n, end, true) } else { seq![s[i]] + str_text(s, n, end, false) })
            }
        },
{ reveal(str_end); reveal(str_open); reveal(str_text); }
pub proof fn ws_after(s: Seq<u8>, st: int, i: int, nl: int)
    requires 0 <= i <= s.len(),
    ensures i <= ws_end(s, st, i, nl) <= s.len(),
    decreases s.len() - i,
{
    if i < s.len() {
        if s[i] == 13 { ws_after(s, st, i + 1, nl); }
        else if blank(s[i]) && (nl > 0 || !head(s, st, i + 1)) { ws_after(s, st, i + 1, nl); }
        else if s[i] == 10 && nl == 2 { ws_after(s, st, i + 1, 1); }
    }
}

@@fn lex::Lexer::read_string
@ret r
@opt guards bytestrs
@spec
    requires old(self).wf(), end_ok(end@),
    ensures
        kept(*old(self), *final(self)), final(self).final_newline == old(self).final_newline, final(self).directive == old(self).directive || final(self).directive is None,
        old(self).pos() < old(self).src().len() ==> final(self).pos() > old(self).pos(),
        str_token(r, *old(self), *final(self), old(self).pos(), end@, interp_closed),
@loop 0
    invariant_except_break
        inside(*old(self), *self), s == self.src(), i0 <= self.pos() - idx, idx < end@.len(), idx > 0 ==> !backslash && s[self.pos() - 1] == end@[0] && self.next is None,
        e == str_end(s, self.pos() - idx, end@, backslash), o == str_open(s, self.pos() - idx, end@, backslash),
        buf@ + str_text(s, self.pos() - idx, end@, backslash) == t, !interp_opened,
    invariant
        end_ok(end@), i0 == old(self).pos(), 0 <= i0, s.len() <= 0x7fff_ffff,
    ensures
        kept(*old(self), *self), self.final_newline == old(self).final_newline, self.directive == old(self).directive || self.directive is None,
        self.pos() == e, interp_opened == o, buf@ == t, i0 < s.len() ==> self.pos() > i0,
        if o { self.interp_stack.len() == old(self).interp_stack.len() + 1 && self.interp_stack@.drop_last() == old(self).interp_stack@ && self.interp_stack@.last().end@ == end@ && self.interp_stack@.last().bracket_depth == 1 }
        else { self.interp_stack@ == old(self).interp_stack@ },
    decreases s.len() - self.pos(),
@ghost start
    broadcast use bytes;
    let ghost s = self.src();
    let ghost i0 = self.pos();
    let ghost e = str_end(s, i0, end@, false);
    let ghost o = str_open(s, i0, end@, false);
    let ghost t = str_text(s, i0, end@, false);
@ghost loop 0 before
    proof { assert(buf@ + t =~= t); }
@ghost loop 0 start
    broadcast use bytes;
    let ghost b0 = buf@;
    let ghost p = self.pos();
    proof {
        assert(b0 + Seq::<u8>::empty() =~= b0);
        let n = end@.len() as int;
        let q = p - idx;
        if p < s.len() {
            ws_after(s, 0, p + 1, 2);
            if idx + 1 == n && s[p] == end@[n - 1] { assert(s.subrange(q, q + n) =~= end@); }
            if stands(s, q, end@) { assert(s.subrange(q, q + n)[idx as int] == end@[idx as int]); }
            if stands(s, p, end@) { assert(s.subrange(p, p + n)[0] == end@[0]); }
            str_step(s, q, end@, backslash);
            assert(b0 + (seq![s[q]] + str_text(s, q + 1, end@, false)) =~= b0.push(s[q]) + str_text(s, q + 1, end@, false));
            if idx == 1 {
                str_step(s, p, end@, backslash);
                let b1 = b0.push(s[q]);
                assert(b1 + (seq![s[p]] + str_text(s, p + 1, end@, false)) =~= b1.push(s[p]) + str_text(s, p + 1, end@, false));
                assert(b1 + Seq::<u8>::empty() =~= b1);
            } else {
                assert(b0 + (seq![92u8, s[p]] + str_text(s, p + 1, end@, false)) =~= b0.push(92).push(s[p]) + str_text(s, p + 1, end@, false));
            }
        } else {
            str_step(s, p, end@, backslash);
            if idx == 1 { str_step(s, p - 1, end@, backslash); }
            assert(end@.subrange(0, idx as int) =~= (if idx == 0 { Seq::<u8>::empty() } else { seq![end@[0]] }));
            assert(end@.subrange(0, 1) =~= seq![end@[0]]);
        }
    }

@@verbatim
// ---------------------------------------------------------------- numbers
pub open spec fn digit_of(c: char) -> int {
    let n = c as int;
    if 48 <= n <= 57 { n - 48 } else if 97 <= n <= 122 { n - 87 } else if 65 <= n <= 90 { n - 55 } else { 99 }
}
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (digit_of(c) < radix);
/// whether what stands in buf from start on may become INF or IND
#[verifier::external_body]
pub fn vx_inf_part(buf: &String, start: usize) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_inf(buf: &String, start: usize) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_length(buf: &String) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// where the run of digits and underscores from i on ends (digits beyond the base, up to 9, belong to it)
pub open spec fn run_end(s: Seq<u8>, i: int, radix: int) -> int decreases s.len() - i {
    if i >= s.len() || i < 0 || !(s[i] == 95 || digit_of(s[i] as char) < radix || digit(s[i])) { i } else { run_end(s, i + 1, radix) }
}
/// the digits from i to j
pub open spec fn run_text(s: Seq<u8>, i: int, j: int) -> Seq<char> decreases j - i {
    if j <= i { Seq::empty() } else if s[j - 1] == 95 { run_text(s, i, j - 1) } else { run_text(s, i, j - 1).push(s[j - 1] as char) }
}
/// the number that begins at i is an integer: its base, where its digits begin after the first, and where they end
pub open spec fn base_of(s: Seq<u8>, i: int) -> int { if s[i] != 48 { 10 } else if i + 1 < s.len() && s[i + 1] == 120 { 16 } else { 8 } }
pub open spec fn first_digit(s: Seq<u8>, i: int) -> int { if base_of(s, i) == 16 { i + 2 } else { i + 1 } }
pub open spec fn int_end(s: Seq<u8>, i: int) -> int { run_end(s, first_digit(s, i), base_of(s, i)) }
pub open spec fn is_int(s: Seq<u8>, i: int) -> bool {
    let e = int_end(s, i);
    e < s.len() ==> s[e] != 46 && s[e] != 35 && s[e] != 101 && s[e] != 69
}
pub open spec fn int_text(s: Seq<u8>, i: int) -> Seq<char> { seq![s[i] as char] + run_text(s, first_digit(s, i), int_end(s, i)) }

@@fn lex::Lexer::read_number_inner
@ret r
@opt guards forrange
@sig <<<fn read_number_inner(&mut self, first: u8) -> (bool, u32, String)>>>
@rewrite <<<String::new()>>> => <<<vx_empty()>>>
@rewrite <<<"inf".into()>>> => <<<vx_text("inf")>>>
@rewrite <<<"NaN".into()>>> => <<<vx_text("NaN")>>>
@rewrite <<<buf.into()>>> => <<<buf>>>
@rewrite <<<buf.len()>>> => <<<vx_length(&buf)>>>
@rewrite <<<["I", "IN", "INF", "IND"].contains(&&buf[start..])>>> => <<<vx_inf_part(&buf, start)>>>
@rewrite <<<&buf[start..] == "INF">>> => <<<vx_is_inf(&buf, start)>>>
@rewrite optional <<<exponent |= ch == b'e' || ch == b'E'>>> => <<<exponent = exponent || ch == b'e' || ch == b'E'>>>
@rewrite <<<::std::cmp::max(radix, 10)>>> => <<<(if radix > 10 { radix } else { 10 })>>>
@spec
    requires old(self).wf(), old(self).next is None, old(self).pos() > 0, first == old(self).src()[old(self).pos() - 1], digit(first),
    ensures
        inside(*old(self), *final(self)),
        is_int(old(self).src(), old(self).pos() - 1) ==> {
            let (s, i) = (old(self).src(), old(self).pos() - 1);
            r.0 && r.1 == base_of(s, i) && r.2@ == int_text(s, i) && final(self).pos() == int_end(s, i)
        },
        2 <= r.1 <= 36,
@loop 0
    invariant
        inside(*old(self), *self), s == self.src(), i0 == old(self).pos() - 1, i0 >= 0, radix == base_of(s, i0), radix == 8 || radix == 10 || radix == 16,
        is_int(s, i0) ==> {
            &&& integer && !exponent && first_digit(s, i0) <= self.pos() && int_end(s, i0) == run_end(s, self.pos(), radix as int)
            &&& buf@ == seq![s[i0] as char] + run_text(s, first_digit(s, i0), self.pos())
        },
    decreases s.len() - self.pos(),
@loop 1
    invariant
        inside(*old(self), *self), self.next is None, !is_int(s, i0), s == old(self).src(), i0 == old(self).pos() - 1,
    decreases vx_e0 - vx_i0,
@ghost start
    let ghost s = self.src();
    let ghost i0 = self.pos() - 1;

@@verbatim
pub open spec fn numeral(t: Seq<char>, radix: int) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> digit_of(#[trigger] t[i]) < radix }
pub open spec fn value(t: Seq<char>, radix: int) -> int decreases t.len() { if t.len() == 0 { 0 } else { value(t.drop_last(), radix) * radix + digit_of(t.last()) } }
/// the float nearest to a decimal numeral
pub uninterp spec fn nearest(t: Seq<char>) -> f32;
#[verifier::external_body]
pub fn vx_int(t: &String, radix: u32) -> (r: Result<i32, ()>)
    requires 2 <= radix <= 36,
    ensures numeral(t@, radix as int) ==> (if value(t@, radix as int) <= i32::MAX { r == Ok::<i32, ()>(value(t@, radix as int) as i32) } else { r is Err }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_float(t: &String) -> (r: Result<f32, ()>)
    ensures numeral(t@, 10) ==> r == Ok::<f32, ()>(nearest(t@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_show(v: f32) -> (r: String) { unimplemented!() }

@@fn lex::Lexer::read_number
@ret r
@rewrite <<<i32::from_str_radix(&buf, radix)>>> => <<<vx_int(&buf, radix)>>>
@rewrite <<<f32::from_str(&buf)>>> => <<<vx_float(&buf)>>>
@rewrite <<<val.to_string()>>> => <<<vx_show(val)>>>
@spec
    requires old(self).wf(), old(self).next is None, old(self).pos() > 0, first == old(self).src()[old(self).pos() - 1], digit(first),
    ensures
        inside(*old(self), *final(self)), r is Int || r is Float,
        number(r, *final(self), old(self).src(), old(self).pos() - 1),

@@verbatim
/// the integer literal at i denotes its value: decimal, octal after a 0, or hexadecimal after 0x;
/// a decimal beyond the range of integers is the nearest float
pub open spec fn number(r: Token, l: Lexer, s: Seq<u8>, i: int) -> bool {
    is_int(s, i) ==> {
        let (t, base) = (int_text(s, i), base_of(s, i));
        &&& l.pos() == int_end(s, i)
        &&& numeral(t, base) && value(t, base) <= i32::MAX ==> r == Token::Int(value(t, base) as i32)
        &&& numeral(t, base) && value(t, base) > i32::MAX && base == 10 ==> r == Token::Float(nearest(t))
    }
}

@@verbatim
// ---------------------------------------------------------------- tokens
/// bytes from i to j that may stand between tokens
pub open spec fn trivia(s: Seq<u8>, st: int, i: int, j: int) -> bool {
    // whitespace, other than at the head of a line
    ||| j == ws_end(s, st, i, 0)
    // a backslash with the space and the line end after it
    ||| s[i] == 92 && j == ws_end(s, st, i + 1, 2)
    // comments
    ||| exists|k: int| #[trigger] munch(s, i, k) && tok(k) is BlockComment && j == block_end(s, i + pt(k).len(), 1) && block_doc(None, s, i + pt(k).len())
    ||| exists|k: int| #[trigger] munch(s, i, k) && tok(k) is LineComment && j == line_end(s, i + pt(k).len(), false) && line_doc(None, s, i + pt(k).len())
    // a byte that begins no token
    ||| no_punct(s, i) && !digit(s[i]) && !letter(s[i]) && s[i] != 92 && s[i] != 64 && j == i + 1
}
pub open spec fn gap(s: Seq<u8>, st: int, i: int, j: int) -> bool decreases j - i {
    i == j || exists|k: int| i < k <= j && #[trigger] trivia(s, st, i, k) && gap(s, st, k, j)
}
pub proof fn gap_more(s: Seq<u8>, st: int, i: int, j: int, k: int)
    requires gap(s, st, i, j), i <= j, j == k || j < k && trivia(s, st, j, k),
    ensures gap(s, st, i, k),
    decreases j - i,
{
    if i == j { if j < k { assert(gap(s, st, k, k)); } } else {
        let m = choose|m: int| i < m <= j && #[trigger] trivia(s, st, i, m) && gap(s, st, m, j);
        gap_more(s, st, m, j, k);
    }
}
pub proof fn gap_all(a: Lexer, s: Seq<u8>, p: int, j: int, k: int)
    requires p <= j <= k, forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) ==> gap(s, st, p, j), forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) ==> j == k || trivia(s, st, j, k),
    ensures forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) ==> gap(s, st, p, k),
{
    assert forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) implies gap(s, st, p, k) by { gap_more(s, st, p, j, k); }
}
/// the location is that of the byte read last
pub proof fn located(a: Lexer, b: Lexer)
    requires kept(a, b), b.next is None, b.pos() > a.pos(), b.input.at_line_end == (b.src()[b.pos() - 1] == 10),
    ensures forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) ==> at_place(b.input.location, a, st, l, c, b.pos() - 1),
{
    assert forall|st: int, l: int, c: int| #[trigger] a.since(st, l, c) implies at_place(b.input.location, a, st, l, c, b.pos() - 1) by {
        assert(b.since(st, l, c));
        reveal(counted);
    }
}
pub open spec fn at_place(x: Location, a: Lexer, st: int, l: int, c: int, i: int) -> bool {
    x.file == a.input.location.file && (x.line as int, x.column as int) == place(a.src(), st, l, c, i)
}
pub open spec fn same_stack(a: Lexer, b: Lexer) -> bool { b.interp_stack@ == a.interp_stack@ }
pub open spec fn deeper(a: Seq<Interpolation>, b: Seq<Interpolation>, d: int) -> bool {
    if a.len() == 0 { b =~= a } else { b.len() == a.len() && b.drop_last() =~= a.drop_last() && b.last().end@ == a.last().end@ && b.last().bracket_depth == a.last().bracket_depth + d }
}
/// a piece of a string that begins at j, inside the strings of stack
pub open spec fn str_as(t: Token, s: Seq<u8>, stack: Seq<Interpolation>, b: Lexer, j: int, end: Seq<u8>, continued: bool) -> bool {
    exists|a: Lexer, i: int, e: Seq<u8>| i == j && a.src() == s && a.interp_stack@ =~= stack && e =~= end && #[trigger] str_token(t, a, b, i, e, continued)
}
pub open spec fn begins(p: int, i: int) -> bool { true }
/// the token that begins at i, read by a lexer that was in state a
pub open spec fn token_at(t: Token, a: Lexer, b: Lexer, i: int) -> bool {
    let s = a.src();
    ||| a.directive is Stringy && str_as(t, s, a.interp_stack@, b, i, seq![10u8], false)
    ||| exists|k: int| #[trigger] munch(s, i, k) && punct_at(t, a, b, i, tok(k), i + pt(k).len())
    ||| no_punct(s, i) && same_stack(a, b) && (
        (digit(s[i]) && number(t, b, s, i))
        || (letter(s[i]) && b.pos() == word_end(s, i + 1) && word(t, s, i, b.pos()))
        || (s[i] == 64 && raw_token(t, b, s, i + 1))
    )
}
pub open spec fn word(t: Token, s: Seq<u8>, i: int, e: int) -> bool {
    let x = decode(s.subrange(i, e));
    if x == "in"@ { t == Token::Punct(Punctuation::In) } else { t matches Token::Ident(y, ws) && y@ == x && ws == (e < s.len() && blank(s[e])) }
}
/// the token that punctuation p, which ends before j, makes
pub open spec fn punct_at(t: Token, a: Lexer, b: Lexer, i: int, p: Punctuation, j: int) -> bool {
    let s = a.src();
    let stack = a.interp_stack@;
    match p {
        Punctuation::BlockComment => same_stack(a, b) && b.pos() == block_end(s, j, 1) && block_doc(Some(t), s, j),
        Punctuation::LineComment => same_stack(a, b) && b.pos() == line_end(s, j, false) && line_doc(Some(t), s, j),
        Punctuation::SingleQuote => same_stack(a, b) && b.pos() == res_end(s, j, false) && (t matches Token::Resource(x) && x@ == decode(res_text(s, j, false))),
        Punctuation::DoubleQuote => str_as(t, s, stack, b, j, seq![34u8], false),
        Punctuation::BlockString => str_as(t, s, stack, b, j, seq![34u8, 125u8], false),
        Punctuation::LBracket | Punctuation::SafeLBracket => t == Token::Punct(p) && b.pos() == j && deeper(stack, b.interp_stack@, 1),
        Punctuation::RBracket =>
            if stack.len() > 0 && stack.last().bracket_depth == 1 { str_as(t, s, stack.drop_last(), b, j, stack.last().end@, true) }
            else { t == Token::Punct(p) && b.pos() == j && deeper(stack, b.interp_stack@, -1) },
        Punctuation::Colon => same_stack(a, b) && b.pos() == j && (t == Token::Punct(p) || (t == Token::Punct(Punctuation::CloseColon) && !(j < s.len() && (space(s[j]) || s[j] == 10)))),
        _ => t == Token::Punct(p) && b.pos() == j && same_stack(a, b),
    }
}
impl<'a> PartialEq<&'a str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a str) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == (*o)@ }
}

@@fn lex::LocatedToken::new
@ret r
@spec
    ensures r.location == location, r.token == token,

@@fn lex::Lexer.Iterator::next
@name read_token
@attr #[verifier::rlimit(200)]
@impl <<<impl<'ctx> Lexer<'ctx> >>>
@sig <<<fn read_token(&mut self) -> Option<LocatedToken> >>>
@ret r
@opt letclosures optclosures bytestrs
@rewrite optional <<<if (b' '..=b'~').contains(&first) { use std::fmt::Write; let _ = write!(msg, " ({:?})", first as char); }>>> => <<<>>>
@rewrite optional <<<let mut msg>>> => <<<let msg>>>
@spec
    requires old(self).wf(),
    ensures
        kept(*old(self), *final(self)),
        match r {
            Some(t) => {
                ||| final(self).final_newline == old(self).final_newline && exists|i: int| #[trigger] begins(old(self).pos(), i) && old(self).pos() <= i < final(self).pos() && token_at(t.token, *old(self), *final(self), i)
                    && forall|st: int, l: int, c: int| #[trigger] old(self).since(st, l, c) ==> gap(old(self).src(), st, old(self).pos(), i) && at_place(t.location, *old(self), st, l, c, i)
                // a last newline
                ||| !old(self).final_newline && final(self).final_newline && t.token == Token::Punct(Punctuation::Newline) && final(self).pos() == old(self).src().len()
                    && forall|st: int, l: int, c: int| #[trigger] old(self).since(st, l, c) ==> gap(old(self).src(), st, old(self).pos(), final(self).pos())
            },
            None => old(self).final_newline && final(self).final_newline && final(self).pos() == old(self).src().len()
                && forall|st: int, l: int, c: int| #[trigger] old(self).since(st, l, c) ==> gap(old(self).src(), st, old(self).pos(), final(self).pos()),
        },
@loop 0
    invariant
        inside(*old(self), *self), s == self.src(), p == old(self).pos(), p <= self.pos() - (if skip_newlines { 1int } else { 0 }),
        skip_newlines ==> s[self.pos() - 1] == 92 && self.next is None,
        forall|st: int, l: int, c: int| #[trigger] old(self).since(st, l, c) ==> gap(s, st, p, self.pos() - (if skip_newlines { 1int } else { 0 })),
    decreases s.len() - self.pos(),
@ghost start
    let ghost s = self.src();
    let ghost p = self.pos();
@ghost loop 0 start
    let ghost was = *self;
    let ghost q = self.pos() - (if skip_newlines { 1int } else { 0 });
    let ghost w = skip_newlines;
    proof {
        // whatever trivia follows, the gap goes on
        assert forall|st: int, l: int, c: int, i: int| #[trigger] old(self).since(st, l, c) && q <= i && (i == ws_end(s, st, was.pos(), if w { 2 } else { 0 })) implies #[trigger] gap(s, st, p, i) by { gap_more(s, st, p, q, i); }
    }
@ghost after <<<skip_newlines = false>>> #0
    let ghost i = self.pos() - 1;
    proof {
        assert(begins(p, i));
        located(*old(self), *self);
        assert forall|st: int, l: int, c: int, j: int| #[trigger] old(self).since(st, l, c) && i <= j && trivia(s, st, i, j) implies #[trigger] gap(s, st, p, j) by { assert(was.since(st, l, c)); assert(gap(s, st, p, i)); gap_more(s, st, p, i, j); }
    }
@ghost before <<<LocatedToken::new(loc, token)>>> #all
    assert(token_at(token, *old(self), *self, i));
