@@header
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::collections::VecDeque;

@@source ind crates/dreammaker/src/indents.rs
@@source lex crates/dreammaker/src/lexer.rs
@@source err crates/dreammaker/src/error.rs

@@include prelude.inc
@@include lexer_types.inc

@@type err::FileId derive Clone, Copy, Default
@@type err::Location derive Clone, Copy, Default
@@type lex::Punctuation derive Clone, Copy
@@type lex::Token
@@type lex::LocatedToken
@@type ind::IndentProcessor

@@verbatim
// ---- trusted: diagnostics are recorded elsewhere and do not affect the token stream
#[verifier::external_body]
pub struct Context { _x: u8 }
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &Context) { unimplemented!() }
}

pub open spec fn ws(t: Token) -> bool { t == Token::Punct(Punctuation::Newline) || t == Token::Punct(Punctuation::Tab) || t == Token::Punct(Punctuation::Space) }
pub open spec fn lb() -> Token { Token::Punct(Punctuation::LBrace) }
pub open spec fn rb() -> Token { Token::Punct(Punctuation::RBrace) }
pub open spec fn semi() -> Token { Token::Punct(Punctuation::Semicolon) }
/// opened minus closed blocks
pub open spec fn step_of(t: Token) -> int { if t == lb() { 1 } else if t == rb() { -1 } else { 0 } }
pub open spec fn net(s: Seq<LocatedToken>) -> int decreases s.len() { if s.len() == 0 { 0 } else { net(s.drop_last()) + step_of(s.last().token) } }
/// tokens other than whitespace, braces and semicolons
pub open spec fn solid(t: Token) -> bool { !ws(t) && t != lb() && t != rb() && t != semi() }
pub open spec fn strip(s: Seq<LocatedToken>) -> Seq<Token> decreases s.len() {
    if s.len() == 0 { seq![] } else if solid(s.last().token) { strip(s.drop_last()).push(s.last().token) } else { strip(s.drop_last()) }
}
pub open spec fn no_ws(s: Seq<LocatedToken>) -> bool { forall|i: int| 0 <= i < s.len() ==> !ws(#[trigger] s[i].token) }
pub open spec fn no_rb(s: Seq<LocatedToken>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].token != rb() }
pub open spec fn depth(c: Option<(usize, usize)>) -> int { match c { None => 0, Some(p) => p.1 as int } }
pub open spec fn unit_of(c: Option<(usize, usize)>, first: int) -> int { match c { None => first, Some(p) => p.0 as int } }
/// indentation level of a line that starts with n blanks
pub open spec fn level(c: Option<(usize, usize)>, n: int) -> int { if n == 0 { 0 } else { n / unit_of(c, n) } }
/// all tokens of s are t
pub open spec fn all(s: Seq<LocatedToken>, t: Token) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].token == t }

pub proof fn net_push(s: Seq<LocatedToken>, t: LocatedToken)
    ensures net(s.push(t)) == net(s) + step_of(t.token), strip(s.push(t)) == (if solid(t.token) { strip(s).push(t.token) } else { strip(s) }),
{ assert(s.push(t).drop_last() =~= s); }
pub proof fn net_cat(a: Seq<LocatedToken>, b: Seq<LocatedToken>)
    ensures net(a + b) == net(a) + net(b), strip(a + b) == strip(a) + strip(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(strip(a) + strip(b) =~= strip(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); net_cat(a, b.drop_last()); assert(strip(a + b) =~= strip(a) + strip(b)); }
}
pub proof fn net_one(t: LocatedToken)
    ensures net(seq![t]) == step_of(t.token), strip(seq![t]) == (if solid(t.token) { seq![t.token] } else { seq![] }),
{ assert(seq![t] =~= Seq::<LocatedToken>::empty().push(t)); net_push(Seq::empty(), t); assert(strip(Seq::<LocatedToken>::empty()) =~= seq![]); if solid(t.token) { assert(strip(seq![t]) =~= seq![t.token]); } }
pub proof fn net_all(s: Seq<LocatedToken>, t: Token)
    requires all(s, t),
    ensures net(s) == s.len() * step_of(t), !solid(t) ==> strip(s) == Seq::<Token>::empty(), !ws(t) ==> no_ws(s),
    decreases s.len(),
{ if s.len() > 0 { assert(s.last().token == t); assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i].token == t by { assert(s[i].token == t); } net_all(s.drop_last(), t); assert(s.len() * step_of(t) == (s.len() - 1) * step_of(t) + step_of(t)) by (nonlinear_arith); } }

impl<'ctx, I> IndentProcessor<'ctx, I> where I: Iterator<Item = LocatedToken> {
    pub open spec fn inv(self) -> bool {
        &&& no_ws(self.output@)
        &&& (self.current matches Some(p) ==> p.0 >= 1)
    }
    /// counters stay clear of the machine limit
    pub open spec fn room(self, n: int) -> bool {
        &&& self.parentheses + n < usize::MAX
        &&& depth(self.current) + n < usize::MAX
        &&& (self.current_spaces matches Some(k) ==> k + n < usize::MAX)
    }
    /// everything but the output queue and the layout state
    pub open spec fn same_rest(self, o: Self) -> bool { self.last_input_loc == o.last_input_loc && self.eof_yielded == o.eof_yielded && self.inner == o.inner && self.context == o.context }
}

/// the layout rule for one token `read`: what is emitted and how the state moves
pub open spec fn layout<'ctx, I>(o: IndentProcessor<'ctx, I>, f: IndentProcessor<'ctx, I>, read: Token) -> bool where I: Iterator<Item = LocatedToken> {
    let brace = read == lb() || read == rb();
    if ws(read) {
        &&& f.output@ == o.output@ && f.current == o.current && f.parentheses == o.parentheses
        &&& f.current_spaces == (if read == Token::Punct(Punctuation::Newline) { if o.parentheses == 0 { Some(0usize) } else { o.current_spaces } }
                else { match o.current_spaces { None => None, Some(k) => Some((k + 1) as usize) } })
    } else {
        let head = !brace && o.current_spaces is Some;
        let n = o.current_spaces.unwrap() as int;
        let d = depth(o.current);
        let lay = if head { level(o.current, n) } else { d };
        let k = f.output@.len() - o.output@.len() - 1;
        let ins = f.output@.subrange(o.output@.len() as int, f.output@.len() - 1);
        &&& k >= 0
        &&& f.output@.subrange(0, o.output@.len() as int) == o.output@
        &&& f.output@.last().token == read
        &&& f.output@.last().location == o.last_input_loc
        // the inserted tokens
        &&& (!head ==> k == 0)
        &&& (head && lay == d ==> k == 1 && all(ins, semi()))
        &&& (head && lay > d ==> k == lay - d && all(ins, lb()))
        &&& (head && lay < d ==> k == d - lay && all(ins, rb()))
        // the state after it
        &&& f.current_spaces is None
        &&& depth(f.current) == (if read == lb() { lay + 1 } else if read == rb() { if lay == 0 { 0 } else { lay - 1 } } else { lay })
        &&& (f.current matches Some(p) ==> p.0 == (if head && o.current is None { n } else { unit_of(o.current, 1) }))
        &&& (f.current is None ==> depth(f.current) == 0 && ((head && n == 0) || read == rb() || o.current is None))
        &&& (head && n > 0 ==> f.current is Some)
        &&& (o.current is Some && f.current is None ==> (head && n == 0) || read == rb())
        &&& f.parentheses == (if read == Token::Punct(Punctuation::LParen) { o.parentheses + 1 } else if read == Token::Punct(Punctuation::RParen) && o.parentheses > 0 { o.parentheses - 1 } else { o.parentheses as int })
    }
}

@@verbatim
/// one more token of the inserted run
pub proof fn grow(p: Seq<LocatedToken>, a: Seq<LocatedToken>, b: Seq<LocatedToken>, t: Token)
    requires p.len() <= a.len(), a.subrange(0, p.len() as int) == p, all(a.subrange(p.len() as int, a.len() as int), t),
        b.len() == a.len() + 1, b.drop_last() == a, b.last().token == t,
    ensures b.subrange(0, p.len() as int) == p, all(b.subrange(p.len() as int, b.len() as int), t),
{
    assert(b.subrange(0, p.len() as int) =~= a.subrange(0, p.len() as int)) by { assert forall|i: int| 0 <= i < p.len() implies b[i] == a[i] by { assert(b.drop_last()[i] == b[i]); } }
    let x = b.subrange(p.len() as int, b.len() as int);
    let y = a.subrange(p.len() as int, a.len() as int);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i].token == t by {
        if i < y.len() { assert(b.drop_last()[i + p.len()] == a[i + p.len()]); assert(y[i].token == t); assert(x[i] == y[i]); }
        else { assert(x[i] == b.last()); }
    }
}
/// the whole output after the token itself was pushed
pub proof fn fin(p: Seq<LocatedToken>, m: Seq<LocatedToken>, f: Seq<LocatedToken>)
    requires p.len() <= m.len(), m.subrange(0, p.len() as int) == p, f.len() == m.len() + 1, f.drop_last() == m,
    ensures f.subrange(0, p.len() as int) == p, f.subrange(p.len() as int, f.len() - 1) == m.subrange(p.len() as int, m.len() as int),
{
    assert forall|i: int| 0 <= i < m.len() implies f[i] == m[i] by { assert(f.drop_last()[i] == f[i]); }
    assert(f.subrange(0, p.len() as int) =~= m.subrange(0, p.len() as int));
    assert(f.subrange(p.len() as int, f.len() - 1) =~= m.subrange(p.len() as int, m.len() as int));
}

@@fn lex::LocatedToken::new
@ret r
@spec
    ensures r.location == location, r.token == token,

@@fn ind::IndentProcessor::inner_next
@ret r
@opt noinline
@spec
    ensures
        final(self).output == old(self).output, final(self).current == old(self).current, final(self).current_spaces == old(self).current_spaces,
        final(self).parentheses == old(self).parentheses, final(self).eof_yielded == old(self).eof_yielded, final(self).context == old(self).context,
        old(self).inner.obeys_prophetic_iter_laws() ==> final(self).inner.obeys_prophetic_iter_laws(),
        old(self).inner.obeys_prophetic_iter_laws() ==> (r matches Some(t) ==> old(self).inner.remaining() == seq![t] + final(self).inner.remaining()),
        old(self).inner.obeys_prophetic_iter_laws() ==> (r is None ==> old(self).inner.remaining().len() == 0 && final(self).inner.remaining().len() == 0),

@@fn ind::IndentProcessor::push
@spec
    ensures
        final(self).same_rest(*old(self)), final(self).current == old(self).current, final(self).current_spaces == old(self).current_spaces,
        final(self).parentheses == old(self).parentheses, final(self).eol_location == old(self).eol_location,
        final(self).output@ == old(self).output@.push(LocatedToken { location: old(self).last_input_loc, token: tok }),

@@fn ind::IndentProcessor::push_eol
@spec
    ensures
        final(self).same_rest(*old(self)), final(self).current == old(self).current, final(self).current_spaces == old(self).current_spaces,
        final(self).parentheses == old(self).parentheses, final(self).eol_location == old(self).eol_location,
        final(self).output@.len() == old(self).output@.len() + 1, final(self).output@.drop_last() == old(self).output@, final(self).output@.last().token == tok,

@@fn ind::IndentProcessor::push_semicolon
@spec
    ensures
        final(self).same_rest(*old(self)), final(self).current == old(self).current, final(self).current_spaces == old(self).current_spaces,
        final(self).parentheses == old(self).parentheses, final(self).eol_location == old(self).eol_location,
        final(self).output@.len() == old(self).output@.len() + 1, final(self).output@.drop_last() == old(self).output@, final(self).output@.last().token == semi(),

@@fn ind::IndentProcessor::real_next
@ret _r
@opt forrange
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@spec
    requires old(self).inv(), old(self).room(1),
    ensures
        final(self).inv(), final(self).same_rest(*old(self)),
        layout(*old(self), *final(self), read),
@loop 0
    invariant
        self.same_rest(*old(self)), self.parentheses == old(self).parentheses, self.current_spaces is None,
        self.current == vx_cur, vx_e0 == new_indents, vx_a0 == indents, vx_a0 <= vx_i0 <= vx_e0,
        self.output@.len() == old(self).output@.len() + (vx_i0 - vx_a0),
        self.output@.subrange(0, old(self).output@.len() as int) == old(self).output@,
        all(self.output@.subrange(old(self).output@.len() as int, self.output@.len() as int), lb()),
    decreases vx_e0 - vx_i0,
@loop 1
    invariant
        self.same_rest(*old(self)), self.parentheses == old(self).parentheses, self.current_spaces is None,
        self.current == vx_cur, vx_a1 == new_indents, vx_e1 == indents, vx_a1 <= vx_i1 <= vx_e1,
        self.output@.len() == old(self).output@.len() + (vx_i1 - vx_a1),
        self.output@.subrange(0, old(self).output@.len() as int) == old(self).output@,
        all(self.output@.subrange(old(self).output@.len() as int, self.output@.len() as int), rb()),
    decreases vx_e1 - vx_i1,
@ghost start
    proof { let ghost p = old(self).output@; assert(p.subrange(0, p.len() as int) =~= p); }
@ghost loop 0 before
    let ghost vx_cur = self.current;
    proof { assert(self.output@.subrange(0, self.output@.len() as int) =~= self.output@); }
@ghost loop 1 before
    let ghost vx_cur = self.current;
    proof { assert(self.output@.subrange(0, self.output@.len() as int) =~= self.output@); }
@ghost loop 0 start
    let ghost vx_o = self.output@;
@ghost loop 1 start
    let ghost vx_o = self.output@;
@ghost loop 0 end
    proof { grow(old(self).output@, vx_o, self.output@, lb()); }
@ghost loop 1 end
    proof { grow(old(self).output@, vx_o, self.output@, rb()); }
@ghost before <<<match read>>> #2
    let ghost vx_m = self.output@;
    proof {
        let p = old(self).output@;
        let ins = vx_m.subrange(p.len() as int, vx_m.len() as int);
        let brace = read == lb() || read == rb();
        let head = !brace && old(self).current_spaces is Some;
        assert(vx_m.len() >= p.len() && vx_m.subrange(0, p.len() as int) == p) by {
            if vx_m.len() == p.len() + 1 { assert(vx_m.drop_last() == p); assert(vx_m.subrange(0, p.len() as int) =~= p); }
        }
        if !head { assert(ins.len() == 0); }
        if vx_m.len() == p.len() + 1 { assert(ins =~= seq![vx_m.last()]); }
    }
@ghost end
    proof {
        assert(self.output@.drop_last() =~= vx_m);
        let p = old(self).output@;
        let f = self.output@;
        fin(p, vx_m, f);
        assert forall|i: int| 0 <= i < f.len() implies !ws(#[trigger] f[i].token) by {
            if i < p.len() { assert(f.subrange(0, p.len() as int)[i] == p[i]); assert(!ws(p[i].token)); }
            else if i < f.len() - 1 { assert(f.subrange(p.len() as int, f.len() - 1)[i - p.len()] == f[i]); }
        }
            let o = *old(self); let g = *self;
        let brace = read == lb() || read == rb();
        let head = !brace && o.current_spaces is Some;
        let n = o.current_spaces.unwrap() as int;
        let d = depth(o.current);
        let lay = if head { level(o.current, n) } else { d };
        assert(n > 0 ==> n / n == 1) by (nonlinear_arith);
        let k = f.len() - p.len() - 1;
        let ins = f.subrange(p.len() as int, f.len() - 1);
        assert(f.last().token == read);
        assert(f.last().location == o.last_input_loc);
        assert(!head ==> k == 0);
        assert(head && lay == d ==> k == 1 && all(ins, semi()));
        assert(head && lay > d ==> k == lay - d && all(ins, lb()));
        assert(head && lay < d ==> k == d - lay && all(ins, rb()));
        assert(g.current_spaces is None);
        assert(depth(g.current) == (if read == lb() { lay + 1 } else if read == rb() { if lay == 0 { 0 } else { lay - 1 } } else { lay }));
        assert(g.current matches Some(p) ==> p.0 == (if head && o.current is None { n } else { unit_of(o.current, 1) }));
        assert(g.current is None ==> depth(g.current) == 0 && ((head && n == 0) || read == rb() || o.current is None));
        assert(head && n > 0 ==> g.current is Some);
        assert(g.parentheses == (if read == Token::Punct(Punctuation::LParen) { o.parentheses + 1 } else if read == Token::Punct(Punctuation::RParen) && o.parentheses > 0 { o.parentheses - 1 } else { o.parentheses as int }));
    }

@@verbatim
/// what one token adds: its inserted run balances the change of depth
pub proof fn step_net<'ctx, I>(o: IndentProcessor<'ctx, I>, f: IndentProcessor<'ctx, I>, read: Token) where I: Iterator<Item = LocatedToken>
    requires layout(o, f, read), o.inv(),
    ensures
        strip(f.output@) == strip(o.output@) + (if solid(read) { seq![read] } else { seq![] }),
        net(f.output@) - depth(f.current) <= net(o.output@) - depth(o.current),
        read != rb() ==> net(f.output@) - depth(f.current) == net(o.output@) - depth(o.current),
        forall|n: int| o.room(n + 1) && n >= 0 ==> #[trigger] f.room(n),
{
    if ws(read) {
        assert(strip(o.output@) + seq![] =~= strip(o.output@));
    } else {
        let p = o.output@; let q = f.output@;
        let ins = q.subrange(p.len() as int, q.len() - 1);
        assert(q =~= (p + ins).push(q.last())) by {
            assert forall|i: int| 0 <= i < p.len() implies q[i] == p[i] by { assert(q.subrange(0, p.len() as int)[i] == p[i]); }
        }
        net_push(p + ins, q.last());
        net_cat(p, ins);
        let head = !(read == lb() || read == rb()) && o.current_spaces is Some;
        let n = o.current_spaces.unwrap() as int;
        let d = depth(o.current);
        let lay = if head { level(o.current, n) } else { d };
        if head {
            if n > 0 { let u = unit_of(o.current, n); assert(0 <= n / u <= n) by (nonlinear_arith) requires n > 0, u >= 1; }
            if lay == d { net_all(ins, semi()); } else if lay > d { net_all(ins, lb()); assert(ins.len() * 1 == ins.len()) by (nonlinear_arith); }
            else { net_all(ins, rb()); assert(ins.len() * -1 == -ins.len()) by (nonlinear_arith); }
        } else { assert(ins.len() == 0); }
        assert(strip(p) + Seq::<Token>::empty() =~= strip(p));
        assert(strip(ins) == Seq::<Token>::empty()) by { if ins.len() == 0 { assert(strip(ins) =~= seq![]); } }
        if solid(read) { assert(strip(p).push(read) =~= strip(p) + seq![read]); } else { assert(strip(p) + seq![] =~= strip(p)); }
    }
}

impl<'ctx, I> IndentProcessor<'ctx, I> where I: Iterator<Item = LocatedToken> {
    /// state between two calls of next
    #[verifier::prophetic]
    pub open spec fn live(self) -> bool {
        &&& self.inv()
        &&& self.inner.obeys_prophetic_iter_laws()
        &&& self.room(self.inner.remaining().len() as int)
        &&& (self.eof_yielded ==> self.current is None && self.inner.remaining().len() == 0)
    }
    /// the tokens still to come that are not layout
    #[verifier::prophetic]
    pub open spec fn todo(self) -> Seq<Token> { strip(self.output@) + strip(self.inner.remaining()) }
    pub open spec fn bal(self) -> int { net(self.output@) - depth(self.current) }
}

@@fn ind::IndentProcessor.Iterator::next
@ret r
@opt forrange
@attr #[verifier::exec_allows_no_decreases_clause]
@sig <<<fn next(&mut self) -> Option<LocatedToken>>>>
@impl <<<impl<'ctx, I: Iterator<Item = LocatedToken>> IndentProcessor<'ctx, I>>>>
@spec
    requires old(self).live(),
    ensures
        final(self).live(),
        r matches Some(t) ==> !ws(t.token)
            && old(self).todo() == (if solid(t.token) { seq![t.token] } else { Seq::<Token>::empty() }) + final(self).todo()
            && step_of(t.token) + final(self).bal() <= old(self).bal()
            && (no_rb(old(self).inner.remaining()) ==> no_rb(final(self).inner.remaining()) && step_of(t.token) + final(self).bal() == old(self).bal()),
        r is None ==> old(self).todo().len() == 0 && final(self).bal() <= old(self).bal() && final(self).eof_yielded
            && final(self).bal() == 0 && (no_rb(old(self).inner.remaining()) ==> old(self).bal() == 0),
@loop 0
    invariant
        self.live(),
        old(self).live(),
        self.todo() == old(self).todo(),
        self.bal() <= old(self).bal(),
        no_rb(old(self).inner.remaining()) ==> no_rb(self.inner.remaining()) && self.bal() == old(self).bal(),
@loop 1
    invariant
        self.current == vx_s.current, vx_a0 == 0, vx_s.current matches Some(vx_p) && vx_p.1 == vx_e0, self.parentheses == vx_s.parentheses, self.current_spaces == vx_s.current_spaces, self.eof_yielded == vx_s.eof_yielded, self.inner == vx_s.inner,
        vx_i0 <= vx_e0,
        net(self.output@) == -(vx_i0 as int), strip(self.output@) == Seq::<Token>::empty(), no_ws(self.output@),
    decreases vx_e0 - vx_i0,
@ghost loop 0 start
    let ghost s0 = *self;
@ghost before <<<return Some(token)>>>
    proof {
        assert(s0.output@ =~= seq![token] + self.output@);
        net_cat(seq![token], self.output@); net_one(token);
        assert(!ws(s0.output@[0].token));
        assert forall|i: int| 0 <= i < self.output@.len() implies !ws(#[trigger] self.output@[i].token) by { assert(s0.output@[i + 1] == self.output@[i]); }
        assert(s0.todo() =~= strip(seq![token]) + self.todo());
    }
@ghost before <<<self.last_input_loc = tok.location>>>
    proof {
        assert(s0.output@.len() == 0);
        assert(self.output@ =~= s0.output@);
    }
@ghost before <<<self.real_next(tok.token)>>>
    let ghost s1 = *self;
@ghost after <<<self.real_next(tok.token)>>>
    proof {
        let rem = self.inner.remaining();
        step_net(s1, *self, tok.token);
        net_one(tok);
        net_cat(seq![tok], rem);
        assert(s0.inner.remaining()[0] == tok);
        assert(self.todo() =~= s0.todo());
        assert forall|i: int| no_rb(old(self).inner.remaining()) && 0 <= i < rem.len() implies #[trigger] rem[i].token != rb() by { assert(s0.inner.remaining()[i + 1] == rem[i]); }
        assert(no_rb(old(self).inner.remaining()) ==> tok.token != rb()) by { assert(s0.inner.remaining()[0].token == tok.token); }
    }
@ghost before <<<self.push(Token::Punct(Punctuation::Semicolon))>>>
    let ghost vx_s = *self;
    proof { assert(s0.output@.len() == 0); assert(self.output@ =~= s0.output@); }
@ghost after <<<self.push(Token::Punct(Punctuation::Semicolon))>>>
    proof { net_push(vx_s.output@, self.output@.last()); assert(self.output@ =~= vx_s.output@.push(self.output@.last())); assert(strip(self.output@) =~= seq![]); }
@ghost loop 1 start
    let ghost s2 = self.output@;
@ghost loop 1 end
    proof { net_push(s2, self.output@.last()); }
@ghost after <<<self.current = None>>>
    proof {
        assert(strip(vx_s.output@) =~= seq![]);
        assert(self.todo() =~= s0.todo());
    }
@ghost before <<<return None>>>
    proof { assert(self.output@.len() == 0); assert(strip(self.output@) =~= seq![]); assert(strip(self.inner.remaining()) =~= seq![]); assert(self.todo().len() == 0); assert(net(self.output@) == 0); }

@@fn ind::IndentProcessor::new
@ret r
@spec
    requires call_requires(<J as IntoIterator>::into_iter, (inner,)),
    ensures
        call_ensures(<J as IntoIterator>::into_iter, (inner,), r.inner),
        r.output@.len() == 0, r.current is None, r.current_spaces is None, r.parentheses == 0, !r.eof_yielded, r.inv(), r.bal() == 0,

@@verbatim
/// the whole run: what any consumer that drains the processor sees (composition of the contracts above)
#[verifier::exec_allows_no_decreases_clause]
pub fn drain<'ctx, I: Iterator<Item = LocatedToken>>(p: IndentProcessor<'ctx, I>) -> (out: Vec<LocatedToken>)
    requires p.live(), p.output@.len() == 0, p.current is None,
    ensures
        no_ws(out@),
        strip(out@) == strip(p.inner.remaining()),
        net(out@) <= 0,
        no_rb(p.inner.remaining()) ==> net(out@) == 0,
{
    let mut q = p;
    let mut out: Vec<LocatedToken> = Vec::new();
    proof { assert(strip(out@) =~= seq![]); assert(strip(p.output@) =~= seq![]); assert(strip(out@) + p.todo() =~= strip(p.inner.remaining())); }
    loop
        invariant_except_break
            q.live(), no_ws(out@),
            strip(out@) + q.todo() == strip(p.inner.remaining()),
            net(out@) + q.bal() <= 0,
            no_rb(p.inner.remaining()) ==> no_rb(q.inner.remaining()) && net(out@) + q.bal() == 0,
        ensures
            no_ws(out@), strip(out@) == strip(p.inner.remaining()), net(out@) <= 0, no_rb(p.inner.remaining()) ==> net(out@) == 0,
    {
        let ghost o = out@;
        let ghost q0 = q;
        match q.next() {
            None => {
                proof { assert(strip(o) + q0.todo() =~= strip(o)); }
                break;
            }
            Some(t) => {
                out.push(t);
                proof {
                    net_push(o, t);
                    assert(strip(out@) + q.todo() =~= strip(o) + q0.todo());
                }
            }
        }
    }
    out
}
