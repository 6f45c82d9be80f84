@@header
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;

@@source con crates/dreammaker/src/constants.rs
@@source ast crates/dreammaker/src/ast.rs

@@known ConstantFolder::error
@@known ConstantFolder::prefab
@@known ConstantFolder::ident
@@known ConstantFolder::recursive_lookup
@@known ConstantFolder::proc_ref_lookup
@@known ConstantFolder::rgb
@@known ConstantFolder::vx_static
@@known ConstantFolder::vx_procref
@@known ConstantFolder::vx_field
@@known ConstantFolder::vx_open
@@known Constant::eq

@@include prelude.inc

@@include num.inc

@@verbatim
// ---- trusted stand-ins
pub broadcast axiom fn same_chars(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// interned and owned strings are their characters
#[verifier::external_body]
pub struct Ident { _x: u8 }
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: VStr) ensures r@ == self@ { unimplemented!() }
}
pub broadcast axiom fn ident_inverse(i: Ident)
    ensures #[trigger] ident_of(i@) == i;
pub broadcast axiom fn ident_inverse2(s: Seq<char>)
    ensures #[trigger] ident_of(s)@ == s;
/// an owned string that can be appended to
#[verifier::external_body]
pub struct VStr { _x: u8 }
pub uninterp spec fn vstr_of(s: Seq<char>) -> VStr;
impl VStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
}
pub broadcast axiom fn vstr_inverse(s: Seq<char>)
    ensures #[trigger] vstr_of(s)@ == s;
#[verifier::external_body]
pub fn vx_append(a: VStr, b: &Ident) -> (r: VStr) ensures r@ == a@ + b@ { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<VStr> for Ident {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: VStr) -> Ident { ident_of(s@) }
}
impl From<VStr> for Ident { #[verifier::external_body] fn from(s: VStr) -> (r: Ident) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<String> for Ident {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Ident { ident_of(s@) }
}
impl From<String> for Ident { #[verifier::external_body] fn from(s: String) -> (r: Ident) { unimplemented!() } }

/// the items of a boxed slice, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxItems<T> { _x: Vec<T> }
impl<T> VxItems<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VxItems<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).items() == old(self).items(),
            old(self).pos() < old(self).items().len() ==> r == Some(old(self).items()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).items().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self).items().len()
        ensures r == old(self).items()[i as int]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_items<T>(v: Vec<T>) -> (r: VxItems<T>) ensures r.items() == v@, r.pos() == 0 { unimplemented!() }
#[verifier::external_body]
pub struct TreePath { _x: u8 }
impl Clone for TreePath { #[verifier::external_body] fn clone(&self) -> (r: TreePath) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Pop { _x: u8 }
#[verifier::external_body]
pub struct Prefab { _x: u8 }
#[verifier::external_body]
pub struct MiniExpr { _x: u8 }
#[verifier::external_body]
pub struct PickArgs { _x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct InputType { _x: u8 }
#[verifier::external_body]
pub struct DMError { _x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Location { _x: u8 }
#[verifier::external_body]
pub struct Context { _x: u8 }
#[verifier::external_body]
pub struct ObjectTree { _x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NodeIndex { _x: u8 }
#[verifier::external_body]
pub struct DefineMap { _x: u8 }
impl DefineMap {
    pub uninterp spec fn has(&self, s: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn contains_key(&self, i: &Ident) -> (r: bool) ensures r == self.has(i@) { unimplemented!() }
}
#[verifier::external_body]
pub struct EvalError { _x: u8 }
/// evaluated arguments, a boxed slice of (value, associated value)
#[verifier::external_body]
pub struct ArgList { _x: u8 }
pub type Arg = (Constant, Option<Constant>);
pub uninterp spec fn args_of(s: Seq<Arg>) -> ArgList;
impl ArgList { pub uninterp spec fn view(&self) -> Seq<Arg>; }
pub broadcast axiom fn args_inverse(s: Seq<Arg>)
    ensures #[trigger] args_of(s)@ == s;
impl vstd::std_specs::convert::FromSpecImpl<Vec<Arg>> for ArgList {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: Vec<Arg>) -> ArgList { args_of(s@) }
}
impl From<Vec<Arg>> for ArgList { #[verifier::external_body] fn from(s: Vec<Arg>) -> (r: ArgList) { unimplemented!() } }

/// equality of payload types no contract looks into
pub uninterp spec fn same<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == same(*a, *b) { unimplemented!() }
pub broadcast axiom fn same_ref<T>(a: T, b: T)
    ensures #[trigger] same::<&T>(&a, &b) == same(a, b);
pub broadcast axiom fn same_ident(a: Ident, b: Ident)
    ensures #[trigger] same::<Ident>(a, b) == (a@ == b@);
pub broadcast axiom fn same_ordered(a: OrderedFloat, b: OrderedFloat)
    ensures #[trigger] same::<OrderedFloat>(a, b) == num_same(a.0, b.0);
pub struct OrderedFloat(pub Num);
pub broadcast group idents { ident_inverse, ident_inverse2, vstr_inverse, args_inverse, same_ref, same_ident, same_ordered }

@@type ast::UnaryOp derive Clone, Copy
@@type ast::BinaryOp derive Clone, Copy
@@type ast::AssignOp derive Clone, Copy
@@type ast::ListAccessKind derive Clone, Copy
@@type ast::PropertyAccessKind derive Clone, Copy
@@type ast::Spanned
@@type ast::Term
@rewrite <<<f32>>> => <<<Num>>>
@rewrite <<<Box<[Expression]>>>> => <<<Vec<Expression>>>>
@rewrite <<<Box<[(Option<Expression>, Box<str>)]>>>> => <<<Vec<(Option<Expression>, String)>>>>
@@type ast::Follow
@rewrite <<<Box<[Expression]>>>> => <<<Vec<Expression>>>>
@@type ast::Expression
@rewrite <<<Box<[Spanned<Follow>]>>>> => <<<Vec<Spanned<Follow>>>>>
@@type con::Constant
@rewrite <<<f32>>> => <<<Num>>>
@rewrite <<<Box<Arguments>>>> => <<<ArgList>>>
@@type con::ConstFn derive Clone, Copy
@@type con::Constant::BIT_MASK
@@type con::ConstantFolder

@@verbatim
impl UnaryOp { #[verifier::external_body] pub fn around<T>(self, t: &T) -> String { unimplemented!() } }
impl<'a> ConstantFolder<'a> {
    #[verifier::external_body]
    pub fn error<S: Into<String>>(&self, s: S) -> DMError { unimplemented!() }
    // what depends on the object tree or on the file system: no claim here
    #[verifier::external_body]
    pub fn prefab(&mut self, prefab: Prefab) -> (r: Result<Pop, DMError>)
        ensures final(self).defines == old(self).defines { unimplemented!() }
    #[verifier::external_body]
    pub fn ident(&mut self, ident: Ident, must_be_const: bool) -> (r: Result<Constant, DMError>)
        ensures final(self).defines == old(self).defines { unimplemented!() }
    #[verifier::external_body]
    pub fn rgb(&mut self, args: Vec<Expression>) -> (r: Result<String, DMError>)
        ensures final(self).defines == old(self).defines { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_open(&mut self) -> (r: Result<Constant, DMError>)
        ensures final(self).defines == old(self).defines { unimplemented!() }
}
impl PartialEqSpecImpl for Constant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Constant) -> bool { same_const(*self, *o) }
}
// == on constants is Constant::eq, proved below
impl PartialEq for Constant { #[verifier::external_body] fn eq(&self, o: &Constant) -> bool { unimplemented!() } }

// ---- what an expression denotes
pub enum Den {
    /// this value
    Val(Constant),
    /// not constant: an error
    Bad,
    /// depends on the object tree or the file system; nothing claimed
    Open,
}
pub open spec fn flag(b: bool) -> Constant { Constant::Float(if b { num_bits(0x3f800000) } else { num_bits(0) }) }
pub open spec fn bits24(x: u32) -> Constant { Constant::Float(num_of_u32(x & 0xffffff)) }
pub open spec fn truthy(c: Constant) -> bool {
    match c {
        Constant::Null(_) => false,
        Constant::Float(f) => !num_eq(f, num_bits(0)),
        Constant::String(s) => s@.len() != 0,
        _ => true,
    }
}
pub open spec fn same_const(a: Constant, b: Constant) -> bool {
    match (a, b) {
        (Constant::Null(x), Constant::Null(y)) => same(x, y),
        (Constant::New { type_: t, args: x }, Constant::New { type_: u, args: y }) => same(t, u) && same(x, y),
        (Constant::List(x), Constant::List(y)) => same(x, y),
        (Constant::Call(f, x), Constant::Call(g, y)) => same(f, g) && same(x, y),
        (Constant::Prefab(x), Constant::Prefab(y)) => same(x, y),
        (Constant::String(x), Constant::String(y)) => x@ == y@,
        (Constant::Resource(x), Constant::Resource(y)) => x@ == y@,
        (Constant::Float(x), Constant::Float(y)) => num_same(x, y),
        _ => false,
    }
}
pub open spec fn den_unary(c: Constant, op: UnaryOp) -> Den {
    match (op, c) {
        (UnaryOp::Not, c) => Den::Val(flag(!truthy(c))),
        (UnaryOp::Neg, Constant::Float(x)) => Den::Val(Constant::Float(num_neg(x))),
        (UnaryOp::BitNot, Constant::Float(x)) => Den::Val(bits24(!num_u32(x))),
        _ => Den::Bad,
    }
}
pub open spec fn den_binary(l: Constant, r: Constant, op: BinaryOp) -> Den {
    match (op, l, r) {
        // null equals null whatever type it was declared as
        (BinaryOp::Eq, l, r) => Den::Val(flag(l is Null && r is Null || same_const(l, r))),
        (BinaryOp::NotEq, l, r) => Den::Val(flag(!(l is Null && r is Null || same_const(l, r)))),
        (BinaryOp::And, l, r) => Den::Val(if truthy(l) { r } else { l }),
        (BinaryOp::Or, l, r) => Den::Val(if truthy(l) { l } else { r }),
        (BinaryOp::Add, Constant::String(a), Constant::String(b)) => Den::Val(Constant::String(ident_of(a@ + b@))),
        (op, Constant::Float(a), Constant::Float(b)) => match op {
            BinaryOp::Add => Den::Val(Constant::Float(num_add(a, b))),
            BinaryOp::Sub => Den::Val(Constant::Float(num_sub(a, b))),
            BinaryOp::Mul => Den::Val(Constant::Float(num_mul(a, b))),
            BinaryOp::Div => Den::Val(Constant::Float(num_div(a, b))),
            BinaryOp::Mod => Den::Val(Constant::Float(num_rem(a, b))),
            BinaryOp::FloatMod => Den::Val(Constant::Float(num_sub(a, num_mul(num_floor(num_div(a, b)), b)))),
            BinaryOp::Pow => Den::Val(Constant::Float(num_pow(a, b))),
            BinaryOp::Less => Den::Val(flag(num_cmp(a, b) == Some(Ordering::Less))),
            BinaryOp::Greater => Den::Val(flag(num_cmp(a, b) == Some(Ordering::Greater))),
            BinaryOp::LessEq => Den::Val(flag(num_cmp(a, b) == Some(Ordering::Less) || num_cmp(a, b) == Some(Ordering::Equal))),
            BinaryOp::GreaterEq => Den::Val(flag(num_cmp(a, b) == Some(Ordering::Greater) || num_cmp(a, b) == Some(Ordering::Equal))),
            BinaryOp::BitAnd => Den::Val(bits24(num_u32(a) & num_u32(b))),
            BinaryOp::BitOr => Den::Val(bits24(num_u32(a) | num_u32(b))),
            BinaryOp::BitXor => Den::Val(bits24(num_u32(a) ^ num_u32(b))),
            BinaryOp::LShift => if num_u32(b) < 32 { Den::Val(bits24(num_u32(a) << num_u32(b))) } else { Den::Bad },
            BinaryOp::RShift => if num_u32(b) < 32 { Den::Val(bits24(num_u32(a) >> num_u32(b))) } else { Den::Bad },
            _ => Den::Bad,
        },
        _ => Den::Bad,
    }
}
pub open spec fn den_follow(c: Constant, f: Follow) -> Den {
    match (c, f) {
        (Constant::Null(Some(_)), Follow::Field(..)) => Den::Open,
        (_, Follow::StaticField(_)) => Den::Open,
        (_, Follow::ProcReference(_)) => Den::Open,
        (c, Follow::Unary(op)) => den_unary(c, op),
        _ => Den::Bad,
    }
}
#[verifier::opaque]
pub open spec fn den_follows(d: Den, fs: Seq<Spanned<Follow>>, n: nat) -> Den
    decreases n,
{
    if n == 0 { d } else {
        match den_follows(d, fs, (n - 1) as nat) {
            Den::Val(c) => den_follow(c, fs[n - 1].elem),
            d => d,
        }
    }
}
pub struct Env<'a> { pub defines: Option<&'a DefineMap> }

pub open spec fn den(v: Env, e: Expression, hint: Option<TreePath>) -> Den
    decreases e, 0nat via den_d
{
    match e {
        Expression::Base { term, follow } => den_follows(den_term(v, term.elem, if follow@.len() == 0 { hint } else { None }), follow@, follow@.len()),
        Expression::BinaryOp { op, lhs, rhs } => match (den(v, *lhs, None), den(v, *rhs, None)) {
            (Den::Val(l), Den::Val(r)) => den_binary(l, r, op),
            (Den::Bad, _) => Den::Bad,
            (Den::Val(_), Den::Bad) => Den::Bad,
            _ => Den::Open,
        },
        Expression::TernaryOp { cond, if_, else_ } => match den(v, *cond, None) {
            Den::Val(c) => if truthy(c) { den(v, *if_, hint) } else { den(v, *else_, hint) },
            d => d,
        },
        Expression::AssignOp { .. } => Den::Bad,
    }
}
pub open spec fn den_term(v: Env, t: Term, hint: Option<TreePath>) -> Den
    decreases t, 0nat via den_term_d
{
    match t {
        Term::Null => Den::Val(Constant::Null(hint)),
        Term::Int(i) => Den::Val(Constant::Float(num_of_i32(i))),
        Term::Float(f) => Den::Val(Constant::Float(f)),
        Term::String(s) => Den::Val(Constant::String(ident_of(s@))),
        Term::Resource(s) => Den::Val(Constant::Resource(ident_of(s@))),
        Term::Expr(e) => den(v, *e, hint),
        Term::List(a) => match den_args(v, a, a@.len()) { Some(s) => Den::Val(Constant::List(args_of(s))), None => Den::Open },
        Term::NewImplicit { args: None } => Den::Val(Constant::New { type_: None, args: None }),
        Term::NewImplicit { args: Some(a) } => match den_args(v, a, a@.len()) { Some(s) => Den::Val(Constant::New { type_: None, args: Some(args_of(s)) }), None => Den::Open },
        Term::Call(f, a) => match const_fn(f@) {
            Some(k) => match den_args(v, a, a@.len()) { Some(s) => Den::Val(Constant::Call(k, args_of(s))), None => Den::Open },
            None => if f@ == "sin"@ || f@ == "cos"@ || f@ == "arcsin"@ || f@ == "arccos"@ {
                if a@.len() != 1 { Den::Bad } else {
                    match den(v, a@[0], None) {
                        Den::Val(Constant::Float(x)) => Den::Val(Constant::Float(
                            if f@ == "sin"@ { num_sin(num_radians(x)) } else if f@ == "cos"@ { num_cos(num_radians(x)) } else if f@ == "arcsin"@ { num_degrees(num_asin(x)) } else { num_degrees(num_acos(x)) })),
                        Den::Val(_) => Den::Bad,
                        d => d,
                    }
                }
            } else if f@ == "defined"@ {
                if v.defines is None || a@.len() != 1 { Den::Bad } else {
                    match a@[0] {
                        Expression::Base { term, follow } => match term.elem {
                            Term::Ident(i) => if follow@.len() == 0 { Den::Val(flag(v.defines.unwrap().has(i@))) } else { Den::Bad },
                            _ => Den::Bad,
                        },
                        _ => Den::Bad,
                    }
                }
            } else if f@ == "rgb"@ || f@ == "nameof"@ || f@ == "fexists"@ { Den::Open } else { Den::Bad },
        },
        Term::Ident(_) | Term::Prefab(_) | Term::NewPrefab { .. } | Term::__TYPE__ | Term::__IMPLIED_TYPE__ => Den::Open,
        _ => Den::Bad,
    }
}
pub open spec fn const_fn(s: Seq<char>) -> Option<ConstFn> {
    if s == "matrix"@ { Some(ConstFn::Matrix) } else if s == "newlist"@ { Some(ConstFn::Newlist) } else if s == "icon"@ { Some(ConstFn::Icon) }
    else if s == "sound"@ { Some(ConstFn::Sound) } else if s == "filter"@ { Some(ConstFn::Filter) } else if s == "file"@ { Some(ConstFn::File) }
    else if s == "generator"@ { Some(ConstFn::Generator) } else if s == "vector"@ { Some(ConstFn::Vector) } else { None }
}
/// the first n arguments, when all of them have values
pub open spec fn den_args(v: Env, a: Vec<Expression>, n: nat) -> Option<Seq<Arg>>
    decreases a, n via den_args_d
{
    if n == 0 || n > a@.len() { Some(Seq::empty()) } else {
        match (den_args(v, a, (n - 1) as nat), den_arg(v, a@[n - 1])) {
            (Some(s), Some(x)) => Some(s.push(x)),
            _ => None,
        }
    }
}
/// `name = value`, `value = value` or `value`
pub open spec fn den_arg(v: Env, e: Expression) -> Option<Arg>
    decreases e, 1nat via den_arg_d
{
    match e {
        Expression::AssignOp { op: AssignOp::Assign, lhs, rhs } => match (if bare(*lhs) is Some { Den::Val(Constant::String(bare(*lhs).unwrap())) } else { den(v, *lhs, None) }, den(v, *rhs, None)) {
            (Den::Val(k), Den::Val(x)) => Some((k, Some(x))),
            _ => None,
        },
        e => match den(v, e, None) { Den::Val(c) => Some((c, None)), _ => None },
    }
}
/// a lone identifier, possibly in parentheses
#[verifier::opaque]
pub open spec fn bare(e: Expression) -> Option<Ident>
    decreases e
{
    match e {
        Expression::Base { term, follow } => if follow@.len() != 0 { None } else {
            match term.elem { Term::Ident(i) => Some(i), Term::Expr(e) => bare(*e), _ => None }
        },
        _ => None,
    }
}
#[via_fn] proof fn den_d(v: Env, e: Expression, hint: Option<TreePath>) {}
#[via_fn] proof fn den_term_d(v: Env, t: Term, hint: Option<TreePath>) {
    match t { Term::Call(f, a) => { if a@.len() > 0 { assert(decreases_to!(a => a[0])); } } _ => {} }
}
#[via_fn] proof fn den_args_d(v: Env, a: Vec<Expression>, n: nat) { if n == 0 || n > a@.len() {} else { assert(decreases_to!(a => a[n - 1])); } }
#[via_fn] proof fn den_arg_d(v: Env, e: Expression) {}

proof fn den_args_step(v: Env, a: Vec<Expression>, n: nat)
    requires 0 < n <= a@.len(),
    ensures den_args(v, a, n) == match (den_args(v, a, (n - 1) as nat), den_arg(v, a@[n - 1])) { (Some(s), Some(x)) => Some(s.push(x)), _ => None },
{
    
}
proof fn den_args_zero(v: Env, a: Vec<Expression>)
    ensures den_args(v, a, 0) == Some(Seq::<Arg>::empty()),
{
    
}
proof fn den_arg_is(v: Env, e: Expression)
    ensures den_arg(v, e) == match e {
        Expression::AssignOp { op: AssignOp::Assign, lhs, rhs } => match (if bare(*lhs) is Some { Den::Val(Constant::String(bare(*lhs).unwrap())) } else { den(v, *lhs, None) }, den(v, *rhs, None)) {
            (Den::Val(k), Den::Val(x)) => Some((k, Some(x))),
            _ => None,
        },
        e => match den(v, e, None) { Den::Val(c) => Some((c, None)), _ => None },
    },
{
}
proof fn den_follows_step(d: Den, fs: Seq<Spanned<Follow>>, n: nat)
    requires n > 0,
    ensures den_follows(d, fs, n) == match den_follows(d, fs, (n - 1) as nat) { Den::Val(c) => den_follow(c, fs[n - 1].elem), d => d },
{
    reveal(den_follows);
}
proof fn den_args_prefix(v: Env, a: Vec<Expression>)
    ensures forall|n: nat| n <= a@.len() && #[trigger] den_args(v, a, n) is None ==> den_args(v, a, a@.len()) is None,
{
    assert forall|n: nat| n <= a@.len() && #[trigger] den_args(v, a, n) is None implies den_args(v, a, a@.len()) is None by { den_args_none(v, a, n, a@.len()); }
}
proof fn den_args_none(v: Env, a: Vec<Expression>, n: nat, m: nat)
    requires n <= m <= a@.len(), den_args(v, a, n) is None,
    ensures den_args(v, a, m) is None,
    decreases m,
{
    if n < m { den_args_step(v, a, m); }
    if n < m { den_args_none(v, a, n, (m - 1) as nat); }
}
proof fn den_follows_bad(d: Den, fs: Seq<Spanned<Follow>>, n: nat, m: nat)
    requires n <= m, !(den_follows(d, fs, n) is Val),
    ensures den_follows(d, fs, m) == den_follows(d, fs, n),
    decreases m,
{
    reveal(den_follows);
    if n < m { den_follows_bad(d, fs, n, (m - 1) as nat); }
}

proof fn den_base_bad(v: Env, e: Expression, hint: Option<TreePath>)
    ensures match e {
        Expression::Base { term, follow } => {
            let d = den_term(v, term.elem, if follow@.len() == 0 { hint } else { None });
            !(d is Val) ==> den_follows(d, follow@, follow@.len()) == d
        },
        _ => true,
    },
{
    match e {
        Expression::Base { term, follow } => {
            let d = den_term(v, term.elem, if follow@.len() == 0 { hint } else { None });
            reveal(den_follows);
            if !(d is Val) { den_follows_bad(d, follow@, 0, follow@.len()); }
        }
        _ => {}
    }
}

pub open spec fn agrees(d: Den, r: Result<Constant, DMError>) -> bool {
    match d { Den::Val(c) => r == Ok::<Constant, DMError>(c), Den::Bad => r is Err, Den::Open => true }
}

@@fn con::Constant::from_bit_op
@opt num
@ret r
@spec
    ensures r == bits24(x)

@@verbatim
impl vstd::std_specs::convert::FromSpecImpl<Num> for Constant {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Num) -> Constant { Constant::Float(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<bool> for Constant {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: bool) -> Constant { flag(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<i32> for Constant {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: i32) -> Constant { Constant::Float(num_of_i32(v)) }
}

@@fn con::Constant.From<i32>::from
@opt num
@impl <<<impl From<i32> for Constant>>>

@@fn con::Constant.From<f32>::from
@opt num
@impl <<<impl From<Num> for Constant>>>

@@fn con::Constant.From<bool>::from
@opt num
@impl <<<impl From<bool> for Constant>>>

@@fn con::Constant::to_bool
@opt num
@ret r
@spec
    ensures r == truthy(*self)

@@fn con::Constant::to_float
@opt num
@ret r
@spec
    ensures r == (match *self { Constant::Float(x) => Some(x), _ => None })

@@fn con::Constant::to_int
@opt num
@ret r
@spec
    ensures r == (match *self { Constant::Float(x) => Some(num_i32(x)), _ => None })

@@fn con::Constant::is_null
@opt matches
@ret r
@spec
    ensures r == (*self is Null)

@@fn con::Constant.PartialEq::eq
@opt num eqcalls
@name vx_const_eq
@ret r
@spec
    ensures r == same_const(*self, *other)
@ghost start
    broadcast use idents;

@@fn ast::Expression::as_term
@ret r
@spec
    ensures match *self { Expression::Base { term, follow } => r == (if follow@.len() == 0 { Some(&term.elem) } else { None }), _ => r is None }

@@fn con::sin_degrees
@opt num
@ret r
@spec
    ensures r == num_sin(num_radians(x))

@@fn con::cos_degrees
@opt num
@ret r
@spec
    ensures r == num_cos(num_radians(x))

@@fn con::arcsin_degrees
@opt num
@ret r
@spec
    ensures r == num_degrees(num_asin(x))

@@fn con::arccos_degrees
@opt num
@ret r
@spec
    ensures r == num_degrees(num_acos(x))

@@fn con::ConstantFolder::unary
@opt num
@ret r
@spec
    ensures agrees(den_unary(term, op), r), final(self).defines == old(self).defines

@@fn con::ConstantFolder::binary
@opt num
@ret r
@spec
    ensures agrees(den_binary(lhs, rhs, op), r), final(self).defines == old(self).defines
@ghost start
    broadcast use idents;

@@fn ast::Term.From<Expression>::from
@name vx_from
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<Term::from>>> => <<<Term::vx_from>>>
@ret r
@spec
    ensures match bare(expr) { Some(i) => r == Term::Ident(i), None => !(r is Ident) && forall|v: Env| #[trigger] den_term(v, r, None) == den(v, expr, None) }
@ghost start
    proof { reveal_with_fuel(den, 3); reveal_with_fuel(den_term, 3); reveal(den_follows); reveal_with_fuel(bare, 2); }

@@fn con::ConstantFolder::trig_op
@opt num
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<Vec::from>>> => <<<vx_items>>>
@sig <<<fn trig_op<F: Fn(Num) -> Num>(&mut self, args: Vec<Expression>, op: F) -> Result<Constant, DMError>>>>
@ret r
@spec
    requires forall|x: Num| op.requires((x,)),
    ensures final(self).defines == old(self).defines,
        args@.len() != 1 ==> r is Err,
        args@.len() == 1 ==> match den(Env { defines: old(self).defines }, args@[0], None) {
            Den::Val(Constant::Float(x)) => r is Ok && r->Ok_0 is Float && op.ensures((x,), r->Ok_0->Float_0),
            Den::Val(_) => r is Err,
            Den::Bad => r is Err,
            Den::Open => true,
        },

@@fn con::ConstantFolder::arguments
@opt fornext
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<Vec::from>>> => <<<vx_items>>>
@rewrite <<<Term::from>>> => <<<Term::vx_from>>>
@sig <<<fn arguments(&mut self, v: Vec<Expression>) -> Result<ArgList, DMError>>>>
@ret r
@spec
    ensures final(self).defines == old(self).defines,
        match den_args(Env { defines: old(self).defines }, v, v@.len()) { Some(s) => r == Ok::<ArgList, DMError>(args_of(s)), None => true }
@ghost start
    let ghost env = Env { defines: self.defines };
    let ghost args = v;
    proof { den_args_prefix(env, args); den_args_zero(env, args); }
@loop 0
    invariant
        self.defines == env.defines, args == v, env == (Env { defines: old(self).defines }), vx_it0.items() == args@, vx_it0.pos() <= args@.len(), env.defines == old(self).defines,
        den_args(env, args, args@.len()) is Some ==> den_args(env, args, vx_it0.pos()) == Some(out@),
        forall|n: nat| n <= args@.len() && #[trigger] den_args(env, args, n) is None ==> den_args(env, args, args@.len()) is None,
    ensures vx_it0.pos() == args@.len()
@ghost loop 0 start
    proof {
        assert(each == args@[vx_it0.pos() - 1]);
        assert(den_args(env, args, vx_it0.pos()) is None ==> den_args(env, args, args@.len()) is None);
        den_args_step(env, args, vx_it0.pos());
        den_arg_is(env, each);
    }

@@fn con::ConstantFolder::follow
@attr #[verifier::exec_allows_no_decreases_clause]
@armbody <<<(Constant::Null(Some(type_hint)), Follow::Field(_, field_name))>>> <<<{ self.vx_open() }>>>
@armbody <<<(term, Follow::StaticField(field))>>> <<<{ self.vx_open() }>>>
@armbody <<<(term, Follow::ProcReference(field))>>> <<<{ self.vx_open() }>>>
@ret r
@spec
    ensures final(self).defines == old(self).defines, agrees(den_follow(term, follow), r)

@@fn con::ConstantFolder::term
@opt num guardlit
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<&*ident>>> => <<<ident.as_str()>>>
@armbody <<<"nameof">>> <<<self.vx_open()?>>>
@armbody <<<"fexists" if self.defines.is_some() && self.context.is_some()>>> <<<self.vx_open()?>>>
@armbody <<<Term::Ident(ident)>>> <<<self.vx_open()?>>>
@armbody <<<Term::__TYPE__>>> <<<self.vx_open()?>>>
@armbody <<<Term::__IMPLIED_TYPE__>>> <<<self.vx_open()?>>>
@ret r
@spec
    ensures final(self).defines == old(self).defines,
        agrees(den_term(Env { defines: old(self).defines }, term, match type_hint { Some(p) => Some(*p), None => None }), r)
@ghost start
    broadcast use same_chars;
    let ghost env = Env { defines: self.defines };
    proof { reveal_strlit("matrix"); reveal_strlit("newlist"); reveal_strlit("icon"); reveal_strlit("sound"); reveal_strlit("filter"); reveal_strlit("file"); reveal_strlit("generator"); reveal_strlit("vector");
    reveal_strlit("sin"); reveal_strlit("cos"); reveal_strlit("arcsin"); reveal_strlit("arccos"); reveal_strlit("rgb"); reveal_strlit("defined"); reveal_strlit("nameof"); reveal_strlit("fexists"); }

@@fn con::ConstantFolder::expr
@opt fornext
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<Vec::from>>> => <<<vx_items>>>
@ret r
@spec
    ensures final(self).defines == old(self).defines,
        agrees(den(Env { defines: old(self).defines }, expression, match type_hint { Some(p) => Some(*p), None => None }), r)
@ghost start
    let ghost env = Env { defines: self.defines };
    let ghost whole = expression;
    reveal(den_follows);
    proof { den_base_bad(env, whole, match type_hint { Some(p) => Some(*p), None => None }); }
@loop 0
    invariant
        self.defines == env.defines, env == (Env { defines: old(self).defines }), vx_it0.pos() <= fs.len(),
        den(env, expression, match type_hint { Some(p) => Some(*p), None => None }) == den_follows(d0, fs, fs.len()), vx_it0.items() == fs,
        match den_follows(d0, fs, vx_it0.pos()) { Den::Val(c) => term == c, Den::Bad => false, Den::Open => true },
    ensures vx_it0.pos() == fs.len(),
@ghost loop 0 before
    let ghost d0 = den_term(env, whole->term.elem, if whole->follow@.len() == 0 { match type_hint { Some(p) => Some(*p), None => None } } else { None });
    let ghost fs = whole->follow@;
    assert(den(env, whole, match type_hint { Some(p) => Some(*p), None => None }) == den_follows(d0, fs, fs.len()));
@ghost loop 0 start
    proof {
        assert(each == fs[vx_it0.pos() - 1]);
        den_follows_step(d0, fs, vx_it0.pos());
        if !(den_follows(d0, fs, vx_it0.pos()) is Val) { den_follows_bad(d0, fs, vx_it0.pos(), fs.len()); }
    }
