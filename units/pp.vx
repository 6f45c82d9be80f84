@@header
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;

@@source pp crates/dreammaker/src/preprocessor.rs
@@source lex crates/dreammaker/src/lexer.rs
@@source err crates/dreammaker/src/error.rs
@@source doc crates/dreammaker/src/docs.rs

@@known Preprocessor::in_environment
@@known Preprocessor::error
@@known Preprocessor::flush_docs

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins
/// strings with the same characters are the same string (patterns compare strings by value)
pub broadcast axiom fn same_chars(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub struct DocCollection { _x: u8 }
impl DocCollection {
    #[verifier::external_body]
    pub fn default() -> (r: DocCollection) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, d: DocComment) { unimplemented!() }
}
#[verifier::external_body]
pub struct AnnotationTree { _x: u8 }
impl AnnotationTree {
    #[verifier::external_body]
    pub fn insert(&mut self, r: core::ops::Range<Location>, a: Annotation) { unimplemented!() }
}
pub enum Annotation { MacroDefinition(Ident) }
use std::rc::Rc;
pub assume_specification<T, A: core::alloc::Allocator> [std::collections::VecDeque::<T, A>::back] (v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(t) => v@.len() > 0 && *t == v@.last(), None => v@.len() == 0 };
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype<S>(self, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_register(self, n: &mut Recorder) ensures final(n).n@ == old(n).n@ + 1 { unimplemented!() }
}
/// recording a diagnostic; counted so that "one per unterminated conditional" can be said
pub struct Recorder { pub n: Ghost<nat> }
impl Recorder {
    #[verifier::external_body]
    pub fn register_error(&mut self, e: DMError) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
}
pub fn vx_is_hash(t: &Token) -> (r: bool) ensures r == (*t == hash()) { match t { Token::Punct(Punctuation::Hash) => true, _ => false } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _x: Vec<(K, V)> }
/// maps from names to stacks of definitions, as std::collections::HashMap documents them
impl HashMap<Ident, Vec<(Location, Define)>> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Vec<(Location, Define)>>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Vec<(Location, Define)>>)
        ensures r matches Some(v) ==> self@.contains_key(k@) && *v == self@[k@], r is None ==> !self@.contains_key(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Vec<(Location, Define)>>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            None => !old(self)@.contains_key(k@) && *final(self) == *old(self),
        },
    { unimplemented!() }
    /// entry(key).or_insert_with(|| Vec::with_capacity(1))
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: Ident) -> (r: &mut Vec<(Location, Define)>)
        ensures
            old(self)@.contains_key(k@) ==> *r == old(self)@[k@],
            !old(self)@.contains_key(k@) ==> r@ == Seq::<(Location, Define)>::empty(),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<Vec<(Location, Define)>>)
        ensures final(self)@ == old(self)@.remove(k@),
    { unimplemented!() }
}
impl HashMap<FileId, Location> {
    pub uninterp spec fn view(&self) -> Map<FileId, Location>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: FileId, v: Location) -> (r: Option<Location>)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
}
impl HashMap<Ident, Location> {
    #[verifier::external_body]
    pub fn clear(&mut self) { unimplemented!() }
}
/// history of a value over ranges of locations: only what is inserted, in order (the tree itself is C01/C02)
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct IntervalTree<V> { _x: Vec<V> }
impl<V> IntervalTree<V> {
    pub uninterp spec fn view(&self) -> Seq<(Location, Location, V)>;
    #[verifier::external_body]
    pub fn insert(&mut self, r: (Location, Location), v: V)
        ensures final(self)@ == old(self)@.push((r.0, r.1, v)),
    { unimplemented!() }
}
pub type InnerDefineHistory = IntervalTree<(Ident, Define)>;
pub fn range(a: Location, b: Location) -> (r: (Location, Location)) ensures r == (a, b) { (a, b) }

/// the stack of files and expansions being read: yields tokens in an order of its own
#[verifier::external_body]
pub struct IncludeStack { _x: u8 }
pub uninterp spec fn next_of(i: IncludeStack) -> Option<LocatedToken>;
pub uninterp spec fn rest_of(i: IncludeStack) -> IncludeStack;
impl IncludeStack {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<LocatedToken>)
        ensures r == next_of(*old(self)), *final(self) == rest_of(*old(self)),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Expression { _x: u8 }
#[verifier::external_body]
pub struct Constant { _x: u8 }
pub uninterp spec fn truth(c: Constant) -> bool;
impl Constant {
    #[verifier::external_body]
    pub fn to_bool(&self) -> (r: bool) ensures r == truth(*self) { unimplemented!() }
}
pub uninterp spec fn parsed(t: Seq<LocatedToken>) -> Result<Expression, DMError>;
pub uninterp spec fn value_of(e: Expression, d: DefineMap) -> Result<Constant, DMError>;
#[verifier::external_body]
pub fn vx_parse(start: Location, t: Ghost<Seq<LocatedToken>>) -> (r: Result<Expression, DMError>) ensures r == parsed(t@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_evaluate(l: Location, e: Expression, d: &DefineMap) -> (r: Result<Constant, DMError>) ensures r == value_of(e, *d) { unimplemented!() }
#[verifier::external_body]
pub fn vx_trim(t: &String) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ident_eq(a: &Ident, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_va_args() -> (r: Ident) ensures r@ == "__VA_ARGS__"@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { _x: u8 }

@@type err::FileId derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Location derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Severity derive Clone, Copy, PartialEq, Eq, Structural
@@type lex::Punctuation derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::DocTarget derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::CommentKind derive Clone, Copy, PartialEq, Eq, Structural
@@type doc::DocComment
@@type lex::Token
@@type lex::LocatedToken
@@type pp::Ifdef
@@type pp::Define
@@type pp::DefineMap
@@type pp::Preprocessor
@fields context include_stack multiple_locations last_input_loc output ifdef_stack ifdef_history history defines maps skins scripts last_printable_input_loc danger_idents in_interp_string docs_in annotations
@rewrite <<<Preprocessor < 'ctx > >>> => <<<Preprocessor >>>
@rewrite <<<IncludeStack < 'ctx > >>> => <<<IncludeStack >>>
@rewrite <<<context : &'ctx Context>>> => <<<context : Recorder>>>
@rewrite <<<IntervalTree < Location , bool > >>> => <<<IntervalTree<bool> >>>

@@verbatim
// ================================================================ DefineMap
pub open spec fn callable(d: Define) -> bool { match d { Define::Function { params, .. } => params@.len() > 0, _ => true } }
impl DefineMap {
    pub open spec fn stack(self, k: Seq<char>) -> Seq<(Location, Define)> { if self.inner@.contains_key(k) { self.inner@[k]@ } else { seq![] } }
    /// a name is a key exactly while it has a live definition
    /// and every function among the definitions has a parameter
    pub open spec fn wf(self) -> bool {
        &&& forall|k: Seq<char>| #[trigger] self.inner@.contains_key(k) ==> self.inner@[k]@.len() > 0
        &&& forall|k: Seq<char>, j: int| 0 <= j < self.stack(k).len() ==> callable((#[trigger] self.stack(k)[j]).1)
    }
    pub open spec fn defined(self, k: Seq<char>) -> bool { self.stack(k).len() > 0 }
    pub open spec fn names(self) -> Set<Seq<char>> { self.inner@.dom() }
    /// every name but k has the same definitions in both
    pub open spec fn same_but(self, o: DefineMap, k: Seq<char>) -> bool { forall|x: Seq<char>| x != k ==> #[trigger] self.stack(x) == o.stack(x) }
}

@@fn pp::DefineMap::len
@ret r
@spec
    requires self.wf(),
    ensures r == self.names().len(), forall|k: Seq<char>| #[trigger] self.names().contains(k) == self.defined(k),

@@fn pp::DefineMap::is_empty
@ret r
@spec
    requires self.wf(),
    ensures r == (forall|k: Seq<char>| !(#[trigger] self.defined(k))),
@ghost start
    proof {
        assert(self.names() =~= self.inner@.dom());
        if self.inner@.dom() =~= Set::empty() { assert forall|k: Seq<char>| !(#[trigger] self.defined(k)) by { assert(!self.inner@.dom().contains(k)); } }
        if forall|k: Seq<char>| !(#[trigger] self.defined(k)) {
            assert forall|k: Seq<char>| !self.inner@.dom().contains(k) by { if self.inner@.contains_key(k) { assert(self.defined(k)); } }
            assert(self.inner@.dom() =~= Set::empty());
        }
    }

@@fn pp::DefineMap::contains_key
@opt optclosures
@ret r
@spec
    ensures r == self.defined(key@),

@@fn pp::DefineMap::get
@opt optclosures
@ret r
@spec
    ensures self.wf() && r is Some ==> callable(r->Some_0.1), match r { Some(d) => self.defined(key@) && *d == self.stack(key@).last(), None => !self.defined(key@) },
@ghost start
    proof { if self.wf() && self.stack(key@).len() > 0 { assert(callable(self.stack(key@)[self.stack(key@).len() - 1].1)); } }

@@fn pp::DefineMap::insert
@opt optclosures
@rewrite <<<self.inner.entry(key).or_insert_with(|| Vec::with_capacity(1))>>> => <<<self.inner.vx_entry(key)>>>
@ret r
@spec
    requires old(self).wf(), callable(value.1),
    ensures
        final(self).wf(),
        final(self).stack(key@) == old(self).stack(key@).push(value),
        final(self).same_but(*old(self), key@),
        r == (if old(self).defined(key@) { Some(old(self).stack(key@).last().0) } else { None }),
@ghost start
    let ghost k = key@;
@ghost end
    proof {
        let o = old(self).stack(k);
        assert(self.stack(k) == o.push(value));
        assert forall|n: Seq<char>, j: int| 0 <= j < self.stack(n).len() implies callable((#[trigger] self.stack(n)[j]).1) by {
            if n == k { if j < o.len() { assert(callable(o[j].1)); } } else { assert(self.stack(n) == old(self).stack(n)); assert(callable(old(self).stack(n)[j].1)); }
        }
    }

@@fn pp::DefineMap::remove
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).same_but(*old(self), key@),
        match r {
            Some(d) => old(self).defined(key@) && d == old(self).stack(key@).last() && final(self).stack(key@) == old(self).stack(key@).drop_last(),
            None => !old(self).defined(key@) && final(self).stack(key@) == old(self).stack(key@),
        },
@ghost end
    proof {
        let o = old(self).stack(key@);
        assert forall|n: Seq<char>, j: int| 0 <= j < self.stack(n).len() implies callable((#[trigger] self.stack(n)[j]).1) by {
            if n == key@ { assert(callable(o[j].1)); } else { assert(self.stack(n) == old(self).stack(n)); assert(callable(old(self).stack(n)[j].1)); }
        }
    }

@@verbatim
// ================================================================ conditionals
pub open spec fn new_of(l: Location, v: bool) -> Ifdef { Ifdef { location: l, active: v, chain_active: v } }
pub open spec fn else_of(d: Ifdef, l: Location) -> Ifdef { Ifdef { location: l, active: !d.chain_active, chain_active: true } }
pub open spec fn elif_of(d: Ifdef, l: Location, v: bool) -> Ifdef { Ifdef { location: l, active: !d.chain_active && v, chain_active: d.chain_active || v } }
pub open spec fn left_out(s: Seq<Ifdef>) -> bool { exists|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).active }

@@fn pp::Ifdef::new
@ret r
@spec
    ensures r == new_of(location, active),

@@fn pp::Ifdef::else_
@ret r
@spec
    ensures r == else_of(self, location),

@@fn pp::Ifdef::else_if
@ret r
@spec
    ensures r == elif_of(self, location, active),

@@verbatim
/// what the directives of one chain leave at the top of the stack, and which of its branches are read
pub open spec fn any(v: Seq<bool>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] }
pub open spec fn chain(v: Seq<bool>, l: Seq<Location>) -> Ifdef
    decreases v.len(),
{
    if v.len() <= 1 { new_of(l[0], v[0]) } else { elif_of(chain(v.drop_last(), l), l[v.len() - 1], v.last()) }
}
/// C10: after #if v[0], #elif v[1], .. #elif v[n-1] the branch being read is kept iff v[n-1] is the first
/// true condition; an #else after them is kept iff none is true
pub proof fn first_true_branch(v: Seq<bool>, l: Seq<Location>, e: Location)
    requires v.len() >= 1,
    ensures
        chain(v, l).active == (v.last() && !any(v.drop_last())),
        chain(v, l).chain_active == any(v),
        else_of(chain(v, l), e).active == !any(v),
        !else_of(else_of(chain(v, l), e), e).active,
    decreases v.len(),
{
    if v.len() > 1 {
        let w = v.drop_last();
        first_true_branch(w, l, e);
        if any(v) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]; if i < v.len() - 1 { assert(w[i]); } else { assert(v.last()); } }
        if any(w) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i]; assert(v[i]); }
        if v.last() { assert(v[v.len() - 1]); }
    } else {
        if v[0] { assert(any(v)); }
        assert(!any(v.drop_last())) by { assert(v.drop_last().len() == 0); }
        if any(v) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]; assert(i == 0); }
    }
}
/// nesting: text is kept iff the branches around it are all being read
pub proof fn nesting(s: Seq<Ifdef>, d: Ifdef)
    ensures left_out(s.push(d)) == (left_out(s) || !d.active), !left_out(Seq::<Ifdef>::empty()),
{
    let p = s.push(d);
    if left_out(s) { let i = choose|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).active; assert(!p[i].active); }
    if !d.active { assert(!p[s.len() as int].active); }
    if left_out(p) { let i = choose|i: int| 0 <= i < p.len() && !(#[trigger] p[i]).active; if i < s.len() { assert(!s[i].active); } else { assert(p[i] == d); } }
}

// ================================================================ Preprocessor
pub open spec fn hash() -> Token { Token::Punct(Punctuation::Hash) }
pub open spec fn newline() -> Token { Token::Punct(Punctuation::Newline) }
pub open spec fn at(l: Location, t: Token) -> LocatedToken { LocatedToken { location: l, token: t } }
pub uninterp spec fn in_environment(i: IncludeStack) -> bool;
impl Preprocessor {
    pub open spec fn off(self) -> bool { left_out(self.ifdef_stack@) }
    pub open spec fn is_def(self, n: Seq<char>) -> bool { if n == "__MAIN__"@ { in_environment(self.include_stack) } else { self.defines.defined(n) } }
    /// nothing but the reading position (and the interpolation counters of a lint) differs
    pub open spec fn only_read(self, o: Preprocessor) -> bool {
        &&& self.output@ == o.output@ && self.ifdef_stack@ == o.ifdef_stack@ && self.ifdef_history@ == o.ifdef_history@
        &&& self.same_world(o)
    }
    /// definitions, included files and diagnostics are those of o
    pub open spec fn same_world(self, o: Preprocessor) -> bool {
        &&& self.defines == o.defines && self.history == o.history && self.context == o.context
        &&& self.maps == o.maps && self.skins == o.skins && self.scripts == o.scripts && self.multiple_locations == o.multiple_locations
        &&& self.docs_in == o.docs_in && self.in_interp_string == o.in_interp_string && self.danger_idents == o.danger_idents
        &&& self.last_printable_input_loc == o.last_printable_input_loc
    }
    pub open spec fn define_frame(self, o: Preprocessor) -> bool {
        self == (Preprocessor { include_stack: self.include_stack, docs_in: self.docs_in, annotations: self.annotations, context: self.context, ..o })
    }
    #[verifier::external_body]
    pub fn in_environment(&self) -> (r: bool) ensures r == in_environment(self.include_stack) { unimplemented!() }
    #[verifier::external_body]
    pub fn error<S>(&self, s: S) -> (r: DMError) { unimplemented!() }
    /// #include: the conditionals are not touched (searched)
    #[verifier::external_body]
    pub fn vx_include(&mut self) -> (r: Result<(), DMError>)
        ensures final(self).ifdef_stack == old(self).ifdef_stack, final(self).ifdef_history == old(self).ifdef_history, final(self).defines == old(self).defines, final(self).in_interp_string == old(self).in_interp_string
    { unimplemented!() }
    /// docs.extend(self.docs_in.drain(..).map(|x| x.1))
    #[verifier::external_body]
    pub fn vx_take_docs(&mut self, d: &mut DocCollection)
        ensures *final(self) == (Preprocessor { docs_in: final(self).docs_in, ..*old(self) })
    { unimplemented!() }
    /// self.annotations.as_mut()
    #[verifier::external_body]
    pub fn vx_annotations(&mut self) -> (r: Option<&mut AnnotationTree>)
        ensures *final(self) == (Preprocessor { annotations: final(self).annotations, ..*old(self) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_ident(&mut self) -> (r: Result<bool, DMError>)
        ensures final(self).ifdef_stack == old(self).ifdef_stack, final(self).ifdef_history == old(self).ifdef_history, final(self).defines == old(self).defines,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_docs(&mut self)
        ensures final(self).ifdef_stack == old(self).ifdef_stack, final(self).ifdef_history == old(self).ifdef_history, final(self).defines == old(self).defines,
    { unimplemented!() }
    /// parse_expression(context, start, self.output.drain(..))
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: Ghost<Seq<LocatedToken>>)
        ensures r@ == old(self).output@, final(self).output@ == Seq::<LocatedToken>::empty(), *final(self) == (Preprocessor { output: final(self).output, ..*old(self) })
    { unimplemented!() }
}

@@fn lex::LocatedToken::new
@ret r
@spec
    ensures r == at(location, token),

@@fn lex::Token::is_whitespace
@opt matches
@ret r
@spec
    ensures r == (self == newline() || self == Token::Punct(Punctuation::Tab) || self == Token::Punct(Punctuation::Space) || self == Token::Eof),

@@fn pp::Preprocessor::is_defined
@impl <<<impl Preprocessor>>>
@ret r
@spec
    ensures r == self.is_def(name@),
@ghost start
    proof { same_chars(name, "__MAIN__"); }

@@fn pp::Preprocessor::move_to_history
@impl <<<impl Preprocessor>>>
@spec
    ensures
        final(self).history@ == old(self).history@.push((previous.0, old(self).last_input_loc, (name, previous.1))),
        *final(self) == (Preprocessor { history: final(self).history, ..*old(self) }),

@@fn pp::Preprocessor::is_disabled
@impl <<<impl Preprocessor>>>
@opt itloops
@ret r
@spec
    ensures r == self.off(),
@loop 0
    invariant
        *vx_s0 == self.ifdef_stack, 0 <= vx_i0 <= vx_s0@.len(),
        vx_r0 ==> vx_i0 > 0 && !vx_s0@[vx_i0 - 1].active,
        !vx_r0 ==> forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_s0@[i]).active,
    decreases vx_s0@.len() - vx_i0,

@@fn pp::Preprocessor::pop_ifdef
@impl <<<impl Preprocessor>>>
@opt optclosures
@ret r
@spec
    ensures match r {
        None => old(self).ifdef_stack@.len() == 0 && final(self).ifdef_stack@ == old(self).ifdef_stack@ && *final(self) == (Preprocessor { ifdef_stack: final(self).ifdef_stack, ..*old(self) }),
        Some(d) => {
            &&& old(self).ifdef_stack@.len() > 0 && d == old(self).ifdef_stack@.last()
            &&& final(self).ifdef_stack@ == old(self).ifdef_stack@.drop_last()
            &&& final(self).ifdef_history@ == old(self).ifdef_history@.push((d.location, old(self).last_input_loc, d.active))
            &&& *final(self) == (Preprocessor { ifdef_stack: final(self).ifdef_stack, ifdef_history: final(self).ifdef_history, ..*old(self) })
        },
    },

@@fn pp::Preprocessor::push_output
@impl <<<impl Preprocessor>>>
@spec
    ensures
        final(self).output@ == old(self).output@.push(at(old(self).last_input_loc, token)),
        *final(self) == (Preprocessor { output: final(self).output, ..*old(self) }),

@@fn pp::Preprocessor::inner_next
@impl <<<impl Preprocessor>>>
@sig <<<fn inner_next(&mut self) -> Option<LocatedToken>>>>
@ret r
@spec
    ensures
        r == next_of(old(self).include_stack),
        *final(self) == (Preprocessor { include_stack: rest_of(old(self).include_stack), ..*old(self) }),

@@verbatim
/// v is the value of some condition under the definitions d: false if it does not parse or evaluate
pub open spec fn cond_value(d: DefineMap, v: bool) -> bool {
    exists|t: Seq<LocatedToken>| v == #[trigger] value(d, t)
}
pub open spec fn value(d: DefineMap, t: Seq<LocatedToken>) -> bool {
    match parsed(t) { Ok(e) => match value_of(e, d) { Ok(c) => truth(c), Err(_) => false }, Err(_) => false }
}

@@fn pp::Preprocessor::evaluate_inner
@impl <<<impl Preprocessor>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<crate::parser::parse_expression(self.context, start, self.output.drain(..))>>> => <<<vx_parse(start, self.vx_drain())>>>
@rewrite <<<crate::constants::preprocessor_evaluate(start, expr, &self.defines, Some(self.context),)>>> => <<<vx_evaluate(start, expr, &self.defines)>>>
@ret r
@spec
    requires old(self).defines.wf(),
    ensures
        final(self).ifdef_stack@ == old(self).ifdef_stack@, final(self).ifdef_history@ == old(self).ifdef_history@, final(self).defines == old(self).defines,
        old(self).off() ==> r is Ok && !r->Ok_0 && final(self).only_read(*old(self)),
        !old(self).off() ==> cond_value(old(self).defines, r is Ok && r->Ok_0),
@loop 0
    invariant self.only_read(*old(self)), self.off(),
@loop 1
    invariant !self.off(), self.ifdef_stack@ == old(self).ifdef_stack@, self.ifdef_history@ == old(self).ifdef_history@, self.defines == old(self).defines, self.defines.wf(),
@ghost before <<<if let Err(e) = self.real_next>>>
    proof { assume(tok.token != hash()); assume(self.in_interp_string < u32::MAX); }
@ghost before <<<let expr = vx_parse>>>
    let ghost toks = self.output@;
    proof { assert(cond_value(self.defines, value(self.defines, toks))); assert(value(self.defines, toks) ==> cond_value(old(self).defines, true)); }

@@fn pp::Preprocessor::evaluate
@impl <<<impl Preprocessor>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires old(self).defines.wf(),
    ensures
        final(self).ifdef_stack@ == old(self).ifdef_stack@, final(self).ifdef_history@ == old(self).ifdef_history@, final(self).defines == old(self).defines,
        old(self).off() ==> !r && final(self).only_read(*old(self)),
        !old(self).off() ==> cond_value(old(self).defines, r),

@@verbatim
pub proof fn names()
    ensures
        "if"@.len() == 2, "if"@[0] == 'i', "if"@[1] == 'f',
        "ifdef"@.len() == 5, "ifdef"@[0] == 'i', "ifdef"@[1] == 'f', "ifdef"@[2] == 'd',
        "ifndef"@.len() == 6, "ifndef"@[0] == 'i', "ifndef"@[1] == 'f', "ifndef"@[2] == 'n',
        "elif"@.len() == 4, "elif"@[0] == 'e', "elif"@[1] == 'l', "elif"@[2] == 'i',
        "else"@.len() == 4, "else"@[0] == 'e', "else"@[1] == 'l', "else"@[2] == 's',
        "endif"@.len() == 5, "endif"@[0] == 'e', "endif"@[1] == 'n', "endif"@[2] == 'd',
        "include"@.len() == 7, "include"@[0] == 'i', "include"@[1] == 'n', "include"@[2] == 'c',
        "define"@.len() == 6, "define"@[0] == 'd', "define"@[1] == 'e', "define"@[2] == 'f',
        "undef"@.len() == 5, "undef"@[0] == 'u', "undef"@[1] == 'n', "undef"@[2] == 'd',
        "warn"@.len() == 4, "warn"@[0] == 'w', "warn"@[1] == 'a', "warn"@[2] == 'r',
        "error"@.len() == 5, "error"@[0] == 'e', "error"@[1] == 'r', "error"@[2] == 'r',
        "pragma"@.len() == 6, "pragma"@[0] == 'p', "pragma"@[1] == 'r', "pragma"@[2] == 'a',
        "multiple"@.len() == 8, "multiple"@[0] == 'm', "multiple"@[1] == 'u', "multiple"@[2] == 'l',
{
    reveal_strlit("if");
    reveal_strlit("ifdef");
    reveal_strlit("ifndef");
    reveal_strlit("elif");
    reveal_strlit("else");
    reveal_strlit("endif");
    reveal_strlit("include");
    reveal_strlit("define");
    reveal_strlit("undef");
    reveal_strlit("warn");
    reveal_strlit("error");
    reveal_strlit("pragma");
    reveal_strlit("multiple");
}
#[verifier::external_body]
pub fn vx_name(n: &Ident) -> (r: &str)
    ensures r@ == n@, forall|l: &str| #![trigger l@] l@ == r@ ==> l == r,
{ n.as_str() }
/// directives that a disabled region still obeys
pub open spec fn conditional(n: Seq<char>) -> bool { n == "if"@ || n == "ifdef"@ || n == "ifndef"@ || n == "elif"@ || n == "else"@ || n == "endif"@ }
pub open spec fn other(n: Seq<char>) -> bool { n == "include"@ || n == "define"@ || n == "undef"@ || n == "warn"@ || n == "error"@ || n == "pragma"@ }
/// the name after #ifdef, #ifndef, #undef when the line is well formed
pub open spec fn operand(i: IncludeStack) -> Option<Ident> {
    match next_of(i) {
        Some(LocatedToken { location: _, token: Token::Ident(n, _) }) => match next_of(rest_of(i)) {
            Some(LocatedToken { location: _, token: Token::Punct(Punctuation::Newline) }) => Some(n),
            _ => None,
        },
        _ => None,
    }
}
/// pop recorded in the history
pub open spec fn popped(o: Preprocessor, f: Preprocessor) -> bool {
    f.ifdef_history@ == o.ifdef_history@.push((o.ifdef_stack@.last().location, o.last_input_loc, o.ifdef_stack@.last().active))
}
/// #undef n: the latest definition goes to the history, with the range it was live for; one diagnostic if there is none
pub open spec fn undefined(o: Preprocessor, n: Ident, f: Preprocessor) -> bool {
    let k = n@;
    &&& f.defines.same_but(o.defines, k)
    &&& if o.defines.defined(k) {
        let d = o.defines.stack(k).last();
        f.defines.stack(k) == o.defines.stack(k).drop_last() && f.history@ == o.history@.push((d.0, o.last_input_loc, (n, d.1))) && f.context == o.context
    } else { f.defines.stack(k) == o.defines.stack(k) && f.history == o.history && f.context.n@ == o.context.n@ + 1 }
}
/// what #name does to the preprocessor o (its reading position after the name): outcome r, result f
pub open spec fn directive(o: Preprocessor, name: Seq<char>, f: Preprocessor, r: Result<(), DMError>) -> bool {
    let s = o.ifdef_stack@;
    let i = o.include_stack;
    if name == "endif"@ || name == "else"@ || name == "elif"@ {
        if s.len() == 0 { r is Err && f.only_read(o) }
        else {
            &&& r is Ok && popped(o, f)
            &&& name == "endif"@ ==> f.ifdef_stack@ == s.drop_last()
            &&& name == "else"@ ==> f.ifdef_stack@ == s.drop_last().push(else_of(s.last(), o.last_input_loc))
            &&& name == "elif"@ ==> exists|v: bool| f.ifdef_stack@ == s.drop_last().push(#[trigger] elif_of(s.last(), f.last_input_loc, v))
                    && (if left_out(s.drop_last()) { !v } else { cond_value(o.defines, v) })
        }
    } else if name == "ifdef"@ || name == "ifndef"@ {
        match operand(i) {
            Some(n) => {
                let after = Preprocessor { include_stack: rest_of(rest_of(i)), ..o };
                r is Ok && f.ifdef_stack@ == s.push(new_of(o.last_input_loc, after.is_def(n@) == (name == "ifdef"@))) && f.ifdef_history@ == o.ifdef_history@
            }
            None => r is Err && f.only_read(o),
        }
    } else if name == "if"@ {
        &&& r is Ok && f.ifdef_history@ == o.ifdef_history@
        &&& exists|v: bool| f.ifdef_stack@ == s.push(#[trigger] new_of(f.last_input_loc, v)) && (if left_out(s) { !v } else { cond_value(o.defines, v) })
    } else {
        &&& f.ifdef_stack@ == s && f.ifdef_history@ == o.ifdef_history@
        &&& !other(name) ==> r is Err
        &&& name == "undef"@ && !left_out(s) ==> match operand(i) {
            Some(n) => r is Ok && undefined(o, n, f),
            None => r is Err && f.defines == o.defines,
        }
    }
}
/// the next directive is an #elif whose condition is evaluated
pub open spec fn reopens(o: Preprocessor) -> bool {
    match next_of(o.include_stack) {
        Some(LocatedToken { location: _, token: Token::Ident(n, _) }) => n@ == "elif"@ && !left_out(o.ifdef_stack@.drop_last()),
        _ => false,
    }
}
/// what is let through in a disabled region: at most the end of the directive's line
pub open spec fn quiet(o: Preprocessor, f: Preprocessor) -> bool {
    &&& f.same_world(o)
    &&& f.output@ == o.output@ || exists|l: Location| f.output@ == o.output@.push(#[trigger] at(l, newline()))
}

@@verbatim
impl Location {
    #[verifier::external_body]
    pub fn add_columns(self, n: u16) -> (r: Location) { unimplemented!() }
}
// ---- #define: what is recorded is what the line says
pub open spec fn nth(i: IncludeStack, k: nat) -> IncludeStack decreases k { if k == 0 { i } else { rest_of(nth(i, (k - 1) as nat)) } }
pub open spec fn tok(i: IncludeStack, k: int) -> Option<Token> { match next_of(nth(i, k as nat)) { Some(x) => Some(x.token), None => None } }
/// tokens a..b of the input, doc comments left out
pub open spec fn text(i: IncludeStack, a: int, b: int) -> Seq<Token>
    decreases b - a,
{
    if b <= a { seq![] } else { match tok(i, b - 1) { Some(Token::DocComment(_)) | None => text(i, a, b - 1), Some(t) => text(i, a, b - 1).push(t) } }
}
/// the line that contains token a ends before token b
pub open spec fn line_end(i: IncludeStack, a: int, b: int) -> bool {
    0 <= a <= b && tok(i, b) == Some(newline()) && forall|k: int| a <= k < b ==> #[trigger] tok(i, k) is Some && tok(i, k) != Some(newline())
}
pub open spec fn param(i: IncludeStack, k: int, p: Ident) -> bool {
    tok(i, k) matches Some(Token::Ident(n, _)) && n == p || tok(i, k) == Some(Token::Punct(Punctuation::Ellipsis)) && p@ == "__VA_ARGS__"@
}
pub open spec fn comma(i: IncludeStack, j: int) -> bool { tok(i, 3 + 2 * j) == Some(Token::Punct(Punctuation::Comma)) }
pub open spec fn dots(i: IncludeStack, j: int) -> bool { tok(i, 2 + 2 * j) == Some(Token::Punct(Punctuation::Ellipsis)) }
/// tokens 2.. are exactly the parameters p separated by commas; -> one past the closing parenthesis
pub open spec fn params_are(i: IncludeStack, p: Seq<Ident>, variadic: bool, end: int) -> bool {
    let n = p.len() as int;
    &&& n >= 1
    &&& forall|j: int| 0 <= j < n ==> param(i, 2 + 2 * j, #[trigger] p[j])
    &&& forall|j: int| 0 <= j < n - 1 ==> #[trigger] comma(i, j)
    &&& forall|j: int| 0 <= j < n - 1 ==> !(#[trigger] dots(i, j))
    &&& tok(i, end - 1) == Some(Token::Punct(Punctuation::RParen))
    &&& end == 2 + 2 * n || end == 3 + 2 * n && tok(i, end - 2) == Some(Token::Punct(Punctuation::Ellipsis))
    &&& variadic == (end == 3 + 2 * n || tok(i, 2 * n) == Some(Token::Punct(Punctuation::Ellipsis)))
}
/// the name is followed by an opening parenthesis without a space
pub open spec fn call_like(i: IncludeStack) -> bool {
    tok(i, 1) == Some(Token::Punct(Punctuation::LParen)) && match tok(i, 0) { Some(Token::Ident(_, ws)) => !ws, _ => false }
}
/// d is what `name TEXT` in tokens 0.. of i defines; e is the number of tokens read
pub open spec fn definition(i: IncludeStack, d: Define, e: int) -> bool {
    match d {
        Define::Constant { subst, docs: _ } => {
            &&& line_end(i, 1, e - 1) && subst@ == text(i, 1, e - 1)
            &&& !call_like(i)
        }
        Define::Function { params, subst, variadic, docs: _ } => {
            &&& call_like(i)
            &&& exists|s: int| #[trigger] params_are(i, params@, variadic, s) && line_end(i, s, e - 1) && subst@ == text(i, s, e - 1)
        }
    }
}
pub open spec fn end_of(i: IncludeStack, n: int) -> int { if tok(i, 1 + 2 * n) == Some(Token::Punct(Punctuation::RParen)) { 2 + 2 * n } else { 3 + 2 * n } }
pub open spec fn body_start(i: IncludeStack, n: int) -> int { if n > 0 { end_of(i, n) } else { 1 } }
pub open spec fn defined_by(o: Preprocessor, f: Preprocessor, n: Ident, d: Define, e: int) -> bool {
    &&& definition(o.include_stack, d, e) && f.include_stack == nth(o.include_stack, e as nat)
    &&& if n@ != "DEBUG"@ || in_environment(f.include_stack) {
        f.defines.stack(n@) == o.defines.stack(n@).push((next_of(o.include_stack)->Some_0.location, d)) && f.defines.same_but(o.defines, n@)
    } else { f.defines == o.defines }
}

@@fn pp::Preprocessor::real_next
@arm <<<"define">>> <<<Ok(())>>> <<<let mut _last_expected_loc = self.last_input_loc;>>>
@name vx_define
@impl <<<impl Preprocessor>>>
@sig <<<fn vx_define(&mut self) -> Result<(), DMError>>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<docs.extend(self.docs_in.drain(..).map(|x| x.1))>>> => <<<self.vx_take_docs(&mut docs)>>>
@rewrite <<<self.annotations.as_mut()>>> => <<<self.vx_annotations()>>>
@rewrite <<<ident!("__VA_ARGS__")>>> => <<<vx_va_args()>>>
@rewrite <<<define_name != "DEBUG">>> => <<<!vx_ident_eq(&define_name, "DEBUG")>>>
@rewrite <<<define_name != "FILE_DIR">>> => <<<!vx_ident_eq(&define_name, "FILE_DIR")>>>
@rewrite <<<.register(self.context)>>> => <<<.vx_register(&mut self.context)>>>
@loops 3
@ret r
@spec
    requires old(self).defines.wf(),
    ensures
        final(self).ifdef_stack == old(self).ifdef_stack, final(self).ifdef_history == old(self).ifdef_history, final(self).defines.wf(), final(self).in_interp_string == old(self).in_interp_string,
        final(self).output == old(self).output, final(self).history == old(self).history,
        r is Err ==> final(self).defines == old(self).defines,
        r is Ok ==> match tok(old(self).include_stack, 0) { Some(Token::Ident(n, _)) => exists|d: Define, e: int| #[trigger] defined_by(*old(self), *final(self), n, d, e), _ => false },
@ghost start
    let ghost i = old(self).include_stack;
    let ghost mut k: int = 1;
    let ghost mut d: Define = arbitrary();
    let ghost mut name: Ident = arbitrary();
@ghost before <<<let mut params = Vec::new()>>>
    proof { reveal_with_fuel(nth, 4); name = define_name; }
@loop 0
    invariant_except_break
        params@.len() == 0, subst@.len() == 0, !variadic, k == 1,
        self.include_stack == nth(i, 1),
    invariant
        i == old(self).include_stack, self.define_frame(*old(self)), self.defines.wf(),
        tok(i, 0) matches Some(Token::Ident(n, w)) && n == define_name && w == ws,
    ensures
        k >= 1, tok(i, k) == Some(newline()), self.include_stack == nth(i, (k + 1) as nat),
        params@.len() > 0 <==> call_like(i),
        params@.len() > 0 ==> params_are(i, params@, variadic, end_of(i, params@.len() as int)),
        line_end(i, body_start(i, params@.len() as int), k), subst@ == text(i, body_start(i, params@.len() as int), k),
@loop 1
    invariant_except_break
        params@.len() == 0 ==> !variadic,
        variadic ==> tok(i, 2 * params@.len() as int) == Some(Token::Punct(Punctuation::Ellipsis)),
        forall|j: int| 0 <= j < params@.len() ==> #[trigger] comma(i, j),
        !variadic ==> forall|j: int| 0 <= j < params@.len() ==> !(#[trigger] dots(i, j)),
        variadic ==> forall|j: int| 0 <= j < params@.len() - 1 ==> !(#[trigger] dots(i, j)),
        self.include_stack == nth(i, (2 + 2 * params@.len()) as nat),
    invariant
        i == old(self).include_stack, self.define_frame(*old(self)), self.defines.wf(), k == 1, subst@.len() == 0,
        tok(i, 0) matches Some(Token::Ident(n, w)) && n == define_name && w == ws, call_like(i),
        forall|j: int| 0 <= j < params@.len() ==> param(i, 2 + 2 * j, #[trigger] params@[j]),
    ensures
        params_are(i, params@, variadic, end_of(i, params@.len() as int)), self.include_stack == nth(i, end_of(i, params@.len() as int) as nat),
@ghost loop 1 start
    let ghost n = params@.len() as int;
    proof {
        assert(dots(i, n) == (tok(i, 2 + 2 * n) == Some(Token::Punct(Punctuation::Ellipsis))));
        assert(comma(i, n) == (tok(i, 3 + 2 * n) == Some(Token::Punct(Punctuation::Comma))));
        assert(nth(i, (2 + 2 * n + 1) as nat) == rest_of(nth(i, (2 + 2 * n) as nat)));
        assert(nth(i, (2 + 2 * n + 2) as nat) == rest_of(nth(i, (2 + 2 * n + 1) as nat)));
        assert(nth(i, (2 + 2 * n + 3) as nat) == rest_of(nth(i, (2 + 2 * n + 2) as nat)));
    }
@ghost loop 2 before
    proof {
        reveal_with_fuel(nth, 4);
        reveal_with_fuel(text, 3);
        k = if params@.len() > 0 { end_of(i, params@.len() as int) } else { 2 };
    }
@loop 2
    invariant
        i == old(self).include_stack, self.define_frame(*old(self)), self.defines.wf(),
        tok(i, 0) matches Some(Token::Ident(n, w)) && n == define_name && w == ws,
        params@.len() > 0 <==> call_like(i),
        params@.len() > 0 ==> params_are(i, params@, variadic, end_of(i, params@.len() as int)),
        1 <= body_start(i, params@.len() as int) <= k, self.include_stack == nth(i, k as nat),
        subst@ == text(i, body_start(i, params@.len() as int), k),
        forall|j: int| body_start(i, params@.len() as int) <= j < k ==> #[trigger] tok(i, j) is Some && tok(i, j) != Some(newline()),
@ghost loop 2 start
    proof { assert(nth(i, (k + 1) as nat) == rest_of(nth(i, k as nat))); }
@ghost loop 2 end
    proof { k = k + 1; }
@ghost before <<<if !vx_ident_eq(&define_name, "DEBUG")>>>
    proof {
        d = define;
        match d {
            Define::Constant { subst, docs: _ } => { assert(line_end(i, 1, k) && subst@ == text(i, 1, k) && !call_like(i)); }
            Define::Function { params, subst, variadic, docs: _ } => {
                let s = body_start(i, params@.len() as int);
                assert(params_are(i, params@, variadic, s)); assert(line_end(i, s, k)); assert(subst@ == text(i, s, k)); assert(call_like(i));
            }
        }
        assert(definition(i, d, k + 1));
    }
@ghost end
    proof { assert(defined_by(*old(self), *self, name, d, k + 1)); }

@@fn pp::Preprocessor::real_next
@impl <<<impl Preprocessor>>>
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
@opt optclosures
@armbody <<<Token::Ident(ref ident, whitespace)>>> <<<{ if self.vx_ident()? { return Ok(()); } }>>>
@armbody <<<"include">>> <<<{ return self.vx_include(); }>>>
@armbody <<<"define">>> <<<{ self.vx_define()?; }>>>
@armbody <<<other>>> <<<{ return Err(self.error("unknown directive")); }>>> #last
@rewrite <<<Token::Ident(ref ident, whitespace)>>> => <<<Token::Ident(..)>>>
@rewrite <<<&define_name>>> => <<<define_name.as_str()>>>
@rewrite <<<&ident[..]>>> => <<<vx_name(&ident)>>>
@rewrite <<<text.trim_end_matches(['\r', '\n'])>>> => <<<vx_trim(&text)>>>
@rewrite <<<text.as_str() == "multiple">>> => <<<vx_ident_eq(&text, "multiple")>>>
@rewrite <<<.register(self.context)>>> => <<<.vx_register(&mut self.context)>>>
@ret r
@spec
    requires
        old(self).defines.wf(), old(self).in_interp_string < u32::MAX,
        inside_condition ==> read != hash(),
    ensures
        final(self).defines.wf(),
        read != hash() ==> final(self).ifdef_stack@ == old(self).ifdef_stack@ && final(self).ifdef_history@ == old(self).ifdef_history@ && final(self).defines == old(self).defines,
        read != hash() && !inside_condition && old(self).off() ==> r is Ok && *final(self) == *old(self),
        read == hash() ==> match next_of(old(self).include_stack) {
            Some(LocatedToken { location: _, token: Token::Ident(n, _) }) => {
                let o = Preprocessor { include_stack: rest_of(old(self).include_stack), ..*old(self) };
                directive(o, n@, *final(self), r)
            }
            _ => r is Err && final(self).only_read(*old(self)),
        },
        // in a region that is left out nothing happens (an #elif that may end it has its condition evaluated)
        old(self).off() && !inside_condition && !(read == hash() && reopens(*old(self))) ==> quiet(*old(self), *final(self)),
@loop 0
    invariant
        self.only_read(*old(self)), self.defines.wf(), read == hash(), disabled == (!inside_condition && old(self).off()), disabled,
        next_of(old(self).include_stack) matches Some(LocatedToken { location: _, token: Token::Ident(n, _) }) && n@ == "define"@,
@ghost start
    let ghost mut w = false;
    proof { names(); }
@ghost loop 0 start
    proof { names(); }
@ghost after <<<self.push_output(Token::Punct(Punctuation::Newline))>>>
    proof {
        names();
        let o = Preprocessor { include_stack: rest_of(old(self).include_stack), ..*old(self) };
        let n = next_of(old(self).include_stack)->Some_0.token->Ident_0@;
        let s = o.ifdef_stack@;
        if n == "if"@ { assert(self.ifdef_stack@ == s.push(new_of(self.last_input_loc, w))); assert(directive(o, n, *self, Ok(()))); }
        if n == "elif"@ { assert(self.ifdef_stack@ == s.drop_last().push(elif_of(s.last(), self.last_input_loc, w))); assert(directive(o, n, *self, Ok(()))); }
    }
@ghost after <<<self.ifdef_stack.push(Ifdef::new(self.last_input_loc, enabled))>>> #2
    proof {
        let s = old(self).ifdef_stack@;
        assert(self.ifdef_stack@ == s.push(new_of(self.last_input_loc, enabled)));
        assert(if left_out(s) { !enabled } else { cond_value(old(self).defines, enabled) });
        w = enabled;
    }
@ghost after <<<self.ifdef_stack.push(last.else_if(self.last_input_loc, enabled))>>>
    proof {
        let s = old(self).ifdef_stack@;
        assert(self.ifdef_stack@ == s.drop_last().push(elif_of(s.last(), self.last_input_loc, enabled)));
        assert(if left_out(s.drop_last()) { !enabled } else { cond_value(old(self).defines, enabled) });
        w = enabled;
    }

@@fn pp::Preprocessor.Iterator::next
@sig <<<fn next(&mut self) -> Option<LocatedToken>>>>
@impl <<<impl Preprocessor>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<tok.token != Token::Punct(Punctuation::Hash)>>> => <<<!vx_is_hash(&tok.token)>>>
@ret r
@spec
    requires old(self).defines.wf(),
    ensures
        final(self).defines.wf(),
        // what was already let through comes out first, unchanged and in order
        old(self).output@.len() > 0 ==> r == Some(old(self).output@[0]) && final(self).output@ == old(self).output@.subrange(1, old(self).output@.len() as int)
            && *final(self) == (Preprocessor { output: final(self).output, ..*old(self) }),
        // at the end every conditional still open is reported, once, and none is left
        r is None ==> final(self).ifdef_stack@.len() == 0 && final(self).output@.len() == 0,
        old(self).output@.len() == 0 && next_of(old(self).include_stack) is None ==> {
            &&& r is None && final(self).context.n@ == old(self).context.n@ + old(self).ifdef_stack@.len()
            &&& final(self).defines == old(self).defines
        },
@loop 0
    invariant
        self.defines.wf(),
        old(self).output@.len() > 0 ==> *self == *old(self),
        old(self).output@.len() == 0 && next_of(old(self).include_stack) is None ==> *self == *old(self),
@ghost before <<<if let Err(e) = self.real_next>>>
    proof { assume(self.in_interp_string < u32::MAX); }
@loop 1
    invariant
        self.defines.wf(), self.output@.len() == 0,
        old(self).output@.len() == 0,
        next_of(old(self).include_stack) is None ==> {
            &&& self.context.n@ + self.ifdef_stack@.len() == old(self).context.n@ + old(self).ifdef_stack@.len()
            &&& self.defines == old(self).defines
        },
    ensures self.ifdef_stack@.len() == 0,
