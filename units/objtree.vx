@@header
use vstd::prelude::*;

@@source obj crates/dreammaker/src/objtree.rs
@@source ast crates/dreammaker/src/ast.rs
@@source err crates/dreammaker/src/error.rs

@@known Context::register_error
@@known ProcDeclKind::from_name
@@known Type::vx_slash

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins
pub trait Chars { spec fn chars(&self) -> Seq<char>; }
impl Chars for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl Chars for String { open spec fn chars(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_nonstatic(i: &Ident) -> (r: Ident) ensures r@ == i@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
}
impl Chars for Ident { open spec fn chars(&self) -> Seq<char> { self@ } }
/// the maps from names: IndexMap and BTreeMap
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<V> { _x: Vec<V> }
impl<V> VxMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: VxMap<V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: Chars + ?Sized>(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.chars()) && *v == self@[k.chars()], None => !self@.contains_key(k.chars()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value<'b, K: Chars + ?Sized>(&'b self, k: &K) -> (r: Option<(&'b str, &'b V)>)
        ensures match r { Some(v) => self@.contains_key(k.chars()) && v.0@ == k.chars() && *v.1 == self@[k.chars()], None => !self@.contains_key(k.chars()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<K: Chars>(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.chars(), v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    /// what k has, or else v for k from now on
    #[verifier::external_body]
    pub fn entry_or<K: Chars>(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k.chars()) { old(self)@[k.chars()] } else { v }), final(self)@ == old(self)@.insert(k.chars(), *final(r)),
    { unimplemented!() }
    /// the names in the order of iteration
    pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<V>)
        ensures self.order().no_duplicates(), self.order().to_set() == self@.dom(), r@.len() == self.order().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self@[self.order()[k]],
    { unimplemented!() }
}
pub enum VxEntry<'a, V> { Vacant(VxSlot<'a, V>), Occupied(&'a mut V) }
impl<V> VxMap<V> {
    #[verifier::external_body]
    pub fn entry<'a, K: Chars>(&'a mut self, k: K) -> (r: VxEntry<'a, V>)
        ensures match r {
            VxEntry::Vacant(s) => !old(self)@.contains_key(k.chars()) && *s.s is None && final(self)@ == match *final(s.s) { Some(v) => old(self)@.insert(k.chars(), v), None => old(self)@ },
            VxEntry::Occupied(s) => old(self)@.contains_key(k.chars()) && *s == old(self)@[k.chars()] && final(self)@ == old(self)@.insert(k.chars(), *final(s)),
        },
    { unimplemented!() }
}
pub struct VxSlot<'a, V> { pub s: &'a mut Option<V> }
impl<'a, V> VxSlot<'a, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, *final(self.s) == Some(*final(r)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Expression { _x: u8 }
#[verifier::external_body]
pub struct Constant { _x: u8 }
#[verifier::external_body]
pub struct VarType { _x: u8 }
#[verifier::external_body]
pub struct DocCollection { _x: u8 }
#[verifier::external_body]
pub struct ProcReturnType { _x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ProcFlags { _x: u8 }
#[verifier::external_body]
pub struct Parameters { _x: u8 }
#[verifier::external_body]
pub struct Block { _x: u8 }
#[verifier::external_body]
pub struct BodyRange { _x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Location { _x: u8 }
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype(self, s: &'static str) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &Context) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context {
    #[verifier::external_body]
    pub fn register_error(&self, e: DMError) { unimplemented!() }
}

@@type err::Severity derive Clone, Copy
@@type ast::PathOp derive Clone, Copy
@@type ast::ProcDeclKind derive Clone, Copy
@@type ast::ProcDeclBuilder derive Clone, Copy
@@type obj::SymbolId derive Clone, Copy, PartialEq, Eq, Structural
@@type obj::SymbolIdSource
@@type obj::NodeIndex derive Clone, Copy, PartialEq, Eq, Structural
@@type obj::VarDeclaration
@@type obj::VarValue
@@type obj::TypeVar
@@type obj::ProcDeclaration
@@type obj::ProcValue
@rewrite <<<Box<[Parameter]> >>> => <<<Parameters>>>
@rewrite <<<Range<Location> >>> => <<<BodyRange>>>
@@type obj::TypeProc
@@type obj::Type
@rewrite <<<IndexMap<Ident, TypeVar, RandomState> >>> => <<<VxMap<TypeVar> >>>
@rewrite <<<IndexMap<Ident, TypeProc, RandomState> >>> => <<<VxMap<TypeProc> >>>
@rewrite <<<BTreeMap<Ident, NodeIndex> >>> => <<<VxMap<NodeIndex> >>>
@@type obj::ObjectTree
@rewrite <<<BTreeMap<String, NodeIndex> >>> => <<<VxMap<NodeIndex> >>>
@@type obj::TypeRef derive Clone, Copy
@@type obj::ProcRef derive Clone, Copy

@@verbatim
// ---------------------------------------------------------------- the chain of parents
impl ObjectTree {
    pub open spec fn len(&self) -> int { self.graph@.len() as int }
    pub open spec fn has(&self, i: int) -> bool { 0 <= i < self.len() }
    /// the parent type of type i; out of range when there is none
    pub open spec fn up(&self, i: int) -> int { self.graph@[i].parent_type.0 as int }
}
/// r counts down along parents
pub open spec fn ranked(up: Seq<int>, r: spec_fn(int) -> nat) -> bool {
    forall|i: int| 0 <= i < up.len() && 0 <= #[trigger] up[i] < up.len() ==> r(up[i]) < r(i)
}
/// nothing is its own ancestor
pub open spec fn loopless(up: Seq<int>) -> bool { exists|r: spec_fn(int) -> nat| #[trigger] ranked(up, r) }
pub open spec fn rank(up: Seq<int>, i: int) -> nat { if 0 <= i < up.len() { (choose|r: spec_fn(int) -> nat| #[trigger] ranked(up, r))(i) + 1 } else { 0 } }
/// i and its ancestors, nearest first
pub open spec fn line(up: Seq<int>, i: int) -> Seq<int>
    decreases rank(up, i) when loopless(up)
    via line_ends
{ if 0 <= i < up.len() { seq![i] + line(up, up[i]) } else { seq![] } }
#[via_fn]
proof fn line_ends(up: Seq<int>, i: int) { if 0 <= i < up.len() { rank_down(up, i); } }
pub proof fn rank_down(up: Seq<int>, i: int)
    requires loopless(up), 0 <= i < up.len(),
    ensures rank(up, up[i]) < rank(up, i),
{
    let r = choose|r: spec_fn(int) -> nat| #[trigger] ranked(up, r);
    assert(ranked(up, r));
}
pub open spec fn parents(t: ObjectTree) -> Seq<int> { Seq::new(t.graph@.len(), |i: int| t.up(i)) }
pub open spec fn acyclic(t: ObjectTree) -> bool { loopless(parents(t)) }
/// a type and its ancestors
pub open spec fn chain(t: ObjectTree, i: int) -> Seq<int> { line(parents(t), i) }
/// after the k-th element comes its parent, if it has one
pub proof fn line_tail(up: Seq<int>, i: int, k: int)
    requires loopless(up), 0 <= k <= line(up, i).len(),
    ensures
        k < line(up, i).len() ==> line(up, i).skip(k) == line(up, line(up, i)[k]) && 0 <= line(up, i)[k] < up.len(),
        0 < k < line(up, i).len() ==> line(up, i)[k] == up[line(up, i)[k - 1]],
        0 < k == line(up, i).len() ==> !(0 <= up[line(up, i)[k - 1]] < up.len()),
    decreases k,
{
    if k == 0 { assert(line(up, i).skip(0) =~= line(up, i)); } else {
        let c = line(up, i);
        line_tail(up, i, k - 1);
        let j = c[k - 1];
        assert(c.skip(k - 1)[0] == j);
        let rest = line(up, up[j]);
        assert(line(up, j) == seq![j] + rest);
        assert(c.skip(k) =~= c.skip(k - 1).skip(1));
        assert(c.skip(k - 1).skip(1) =~= rest);
        if k < c.len() { assert(c.skip(k)[0] == c[k]); assert(rest[0] == up[j]); }
    }
}
pub proof fn chain_tail(t: ObjectTree, i: int, k: int)
    requires acyclic(t), 0 <= k <= chain(t, i).len(),
    ensures
        k < chain(t, i).len() ==> chain(t, i).skip(k) == chain(t, chain(t, i)[k]) && t.has(chain(t, i)[k]),
        0 < k < chain(t, i).len() ==> chain(t, i)[k] == t.up(chain(t, i)[k - 1]),
        0 < k == chain(t, i).len() ==> !t.has(t.up(chain(t, i)[k - 1])),
{
    line_tail(parents(t), i, k);
    if 0 < k { line_tail(parents(t), i, k - 1); }
}
/// nobody is met twice
pub proof fn line_distinct(up: Seq<int>, i: int, a: int, b: int)
    requires loopless(up), 0 <= a < b < line(up, i).len(),
    ensures rank(up, line(up, i)[b]) < rank(up, line(up, i)[a]), line(up, i)[a] != line(up, i)[b],
    decreases b - a,
{
    line_tail(up, i, b);
    line_tail(up, i, b - 1);
    rank_down(up, line(up, i)[b - 1]);
    if a < b - 1 { line_distinct(up, i, a, b - 1); }
}
/// which bounds the length
pub proof fn line_len(up: Seq<int>, i: int)
    requires loopless(up),
    ensures line(up, i).len() <= up.len(),
{
    let c = line(up, i);
    let n = up.len() as int;
    assert(c.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { if a < b { line_distinct(up, i, a, b); } else { line_distinct(up, i, b, a); } }
    }
    assert forall|x: int| c.to_set().contains(x) implies #[trigger] vstd::set_lib::set_int_range(0, n).contains(x) by {
        let k = choose|k: int| 0 <= k < c.len() && c[k] == x;
        line_tail(up, i, k);
    }
    c.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_len_subset(c.to_set(), vstd::set_lib::set_int_range(0, n));
}
/// an edge from t to p closes no loop unless t is above p
pub proof fn linked(up: Seq<int>, t: int, p: int)
    requires loopless(up), 0 <= t < up.len(), !(0 <= up[t] < up.len()), !line(up, p).contains(t),
    ensures loopless(up.update(t, p)),
{
    let r: spec_fn(int) -> nat = |i: int| (rank(up, i) + (if line(up, i).contains(t) { rank(up, p) + 1 } else { 0nat })) as nat;
    let new = up.update(t, p);
    assert forall|i: int| 0 <= i < new.len() && 0 <= #[trigger] new[i] < new.len() implies r(new[i]) < r(i) by {
        if i == t {
            assert(line(up, t)[0] == t);
        } else {
            rank_down(up, i);
            let rest = line(up, up[i]);
            assert(line(up, i) == seq![i] + rest);
            if rest.contains(t) { let k = choose|k: int| 0 <= k < rest.len() && rest[k] == t; assert(line(up, i)[k + 1] == t); }
        }
    }
    assert(ranked(new, r));
}

/// k is the number of the first element of c for which p holds
pub open spec fn first_of(c: Seq<int>, k: int, p: spec_fn(int) -> bool) -> bool {
    0 <= k < c.len() && p(c[k]) && forall|j: int| 0 <= j < k ==> !p(#[trigger] c[j])
}
pub open spec fn none_of(c: Seq<int>, p: spec_fn(int) -> bool) -> bool { forall|j: int| 0 <= j < c.len() ==> !p(#[trigger] c[j]) }

impl<'a> TypeRef<'a> {
    pub open spec fn wf(&self) -> bool { self.tree.has(self.idx.0 as int) && acyclic(*self.tree) && self.tree.len() <= 0xffff_ffff }
    pub open spec fn ty(&self) -> Type { self.tree.graph@[self.idx.0 as int] }
    pub open spec fn chain(&self) -> Seq<int> { chain(*self.tree, self.idx.0 as int) }
}
pub open spec fn ref_to(r: Option<TypeRef<'_>>, t: &ObjectTree, i: int) -> bool {
    if t.has(i) { r matches Some(x) && x.tree == t && x.idx.0 == i } else { r is None }
}

@@fn obj::NodeIndex::new
@ret r
@spec
    ensures r.0 == x as u32,
@@fn obj::NodeIndex::index
@ret r
@spec
    ensures r == self.0,
@@fn obj::NodeIndex::end
@ret r
@spec
    ensures r.0 == u32::MAX,

@@fn obj::Type::is_root
@ret r
@spec
    ensures r == (self.path@.len() == 0),

@@fn obj::ObjectTree.Index::index
@impl <<<impl ObjectTree >>>
@sig <<<fn index(&self, ix: NodeIndex) -> &Type>>>
@ret r
@spec
    requires self.has(ix.0 as int),
    ensures *r == self.graph@[ix.0 as int],

@@fn obj::ObjectTree::parent_of
@ret r
@spec
    ensures match r { Some(t) => self.has(type_.parent_type.0 as int) && *t == self.graph@[type_.parent_type.0 as int], None => !self.has(type_.parent_type.0 as int) },

@@fn obj::ObjectTree::root
@ret r
@spec
    ensures r.tree == self, r.idx.0 == 0,

@@fn obj::TypeRef::new
@ret r
@spec
    ensures r.tree == tree, r.idx == idx,
@@fn obj::TypeRef::get
@ret r
@rewrite <<<self.tree[self.idx]>>> => <<<self.tree.index(self.idx)>>>
@spec
    requires self.wf(),
    ensures *r == self.ty(),

@@fn obj::TypeRef::parent_type
@ret r
@opt optclosures
@rewrite optional <<<self.parent_type>>> => <<<self.get().parent_type>>>
@spec
    requires self.wf(),
    ensures ref_to(r, self.tree, self.ty().parent_type.0 as int),

@@fn obj::TypeRef::parent_type_without_root
@ret r
@opt optclosures
@rewrite optional <<<self.parent_type>>> => <<<self.get().parent_type>>>
@spec
    requires self.wf(),
    ensures if self.ty().parent_type.0 == 0 { r is None } else { ref_to(r, self.tree, self.ty().parent_type.0 as int) },

@@verbatim
// ---------------------------------------------------------------- lookups along the chain
pub open spec fn with_var(t: ObjectTree, name: Seq<char>) -> spec_fn(int) -> bool { |i: int| t.graph@[i].vars@.contains_key(name) }
pub open spec fn with_var_decl(t: ObjectTree, name: Seq<char>) -> spec_fn(int) -> bool { |i: int| t.graph@[i].vars@.contains_key(name) && t.graph@[i].vars@[name].declaration is Some }
pub open spec fn with_proc(t: ObjectTree, name: Seq<char>) -> spec_fn(int) -> bool { |i: int| t.graph@[i].procs@.contains_key(name) }
pub open spec fn with_proc_decl(t: ObjectTree, name: Seq<char>) -> spec_fn(int) -> bool { |i: int| t.graph@[i].procs@.contains_key(name) && t.graph@[i].procs@[name].declaration is Some }
/// every entry for a proc has at least one definition
pub open spec fn defined(t: ObjectTree) -> bool { forall|i: int, n: Seq<char>| t.has(i) && t.graph@[i].procs@.contains_key(n) ==> (#[trigger] t.graph@[i].procs@[n]).value@.len() > 0 }
/// a type's own entry, or the nearest one above
pub open spec fn var_of(r: Option<&VarValue>, s: Type, t: ObjectTree, name: Seq<char>) -> bool {
    let c = chain(t, s.parent_type.0 as int);
    if s.vars@.contains_key(name) { r == Some(&s.vars@[name].value) }
    else { match r {
        Some(v) => exists|k: int| #[trigger] first_of(c, k, with_var(t, name)) && *v == t.graph@[c[k]].vars@[name].value,
        None => none_of(c, with_var(t, name)),
    } }
}
pub open spec fn decl_of(r: Option<&VarDeclaration>, s: Type, t: ObjectTree, name: Seq<char>) -> bool {
    let c = chain(t, s.parent_type.0 as int);
    if s.vars@.contains_key(name) && s.vars@[name].declaration is Some { r == Some(&s.vars@[name].declaration->0) }
    else { match r {
        Some(v) => exists|k: int| #[trigger] first_of(c, k, with_var_decl(t, name)) && *v == t.graph@[c[k]].vars@[name].declaration->0,
        None => none_of(c, with_var_decl(t, name)),
    } }
}

@@fn obj::Type::get_value
@ret r
@spec
    requires acyclic(*objtree),
    ensures var_of(r, *self, *objtree, name@),
@loop 0
    invariant
        c == chain(t, self.parent_type.0 as int), acyclic(t), t == *objtree, -1 <= k <= c.len(),
        k >= 0 ==> !self.vars@.contains_key(name@),
        forall|j: int| 0 <= j < k ==> !with_var(t, name@)(#[trigger] c[j]),
        match current { Some(ty) => if k < 0 { ty == self } else { k < c.len() && *ty == t.graph@[c[k]] && t.has(c[k]) }, None => k == c.len() },
    ensures current is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *objtree;
    let ghost c = chain(t, self.parent_type.0 as int);
    let ghost mut k = -1int;
@ghost loop 0 start
    proof { if k >= 0 { assert(with_var(t, name@)(c[k]) ==> first_of(c, k, with_var(t, name@))); } }
@ghost loop 0 end
    proof { chain_tail(t, self.parent_type.0 as int, k + 1); if k < 0 && c.len() > 0 { assert(c[0] == self.parent_type.0); } k = k + 1; }

@@fn obj::Type::get_var_declaration
@ret r
@spec
    requires acyclic(*objtree),
    ensures decl_of(r, *self, *objtree, name@),
@loop 0
    invariant
        c == chain(t, self.parent_type.0 as int), acyclic(t), t == *objtree, -1 <= k <= c.len(),
        k >= 0 ==> !(self.vars@.contains_key(name@) && self.vars@[name@].declaration is Some),
        forall|j: int| 0 <= j < k ==> !with_var_decl(t, name@)(#[trigger] c[j]),
        match current { Some(ty) => if k < 0 { ty == self } else { k < c.len() && *ty == t.graph@[c[k]] && t.has(c[k]) }, None => k == c.len() },
    ensures current is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *objtree;
    let ghost c = chain(t, self.parent_type.0 as int);
    let ghost mut k = -1int;
@ghost loop 0 start
    proof { if k >= 0 { assert(with_var_decl(t, name@)(c[k]) ==> first_of(c, k, with_var_decl(t, name@))); } }
@ghost loop 0 end
    proof { chain_tail(t, self.parent_type.0 as int, k + 1); if k < 0 && c.len() > 0 { assert(c[0] == self.parent_type.0); } k = k + 1; }

@@verbatim
/// the last definition of the nearest entry
pub open spec fn proc_of(r: Option<ProcRef<'_>>, s: TypeRef<'_>, name: Seq<char>) -> bool {
    let (t, c) = (*s.tree, s.chain());
    match r {
        Some(p) => exists|k: int| #[trigger] first_of(c, k, with_proc(t, name)) && p.ty.tree == s.tree && p.ty.idx.0 == c[k]
            && p.list@ == t.graph@[c[k]].procs@[name].value@ && p.name@ == name && p.idx == p.list@.len() - 1,
        None => none_of(c, with_proc(t, name)),
    }
}
pub open spec fn proc_decl_of(r: Option<&ProcDeclaration>, s: TypeRef<'_>, name: Seq<char>) -> bool {
    let (t, c) = (*s.tree, s.chain());
    match r {
        Some(p) => exists|k: int| #[trigger] first_of(c, k, with_proc_decl(t, name)) && *p == t.graph@[c[k]].procs@[name].declaration->0,
        None => none_of(c, with_proc_decl(t, name)),
    }
}

@@fn obj::TypeRef::get_value
@ret r
@spec
    requires self.wf(),
    ensures var_of(r, self.ty(), *self.tree, name@),
@@fn obj::TypeRef::get_var_declaration
@ret r
@spec
    requires self.wf(),
    ensures decl_of(r, self.ty(), *self.tree, name@),

@@fn obj::TypeRef::get_proc
@ret r
@spec
    requires self.wf(), defined(*self.tree),
    ensures proc_of(r, self, name@),
@loop 0
    invariant
        self.wf(), c == self.chain(), t == *self.tree, 0 <= k <= c.len(), defined(t),
        forall|j: int| 0 <= j < k ==> !with_proc(t, name@)(#[trigger] c[j]),
        match current { Some(ty) => k < c.len() && ty.idx.0 == c[k] && ty.tree == self.tree && ty.wf(), None => k == c.len() },
    ensures current is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *self.tree;
    let ghost c = self.chain();
    let ghost mut k = 0int;
    proof { assert(c[0] == self.idx.0); }
@ghost loop 0 start
    proof { assert(with_proc(t, name@)(c[k]) ==> first_of(c, k, with_proc(t, name@))); }
@ghost loop 0 end
    proof { chain_tail(t, self.idx.0 as int, k + 1); k = k + 1; }

@@fn obj::TypeRef::get_proc_declaration
@ret r
@spec
    requires self.wf(),
    ensures proc_decl_of(r, self, name@),
@loop 0
    invariant
        self.wf(), c == self.chain(), t == *self.tree, 0 <= k <= c.len(),
        forall|j: int| 0 <= j < k ==> !with_proc_decl(t, name@)(#[trigger] c[j]),
        match current { Some(ty) => k < c.len() && ty.idx.0 == c[k] && ty.tree == self.tree && ty.wf(), None => k == c.len() },
    ensures current is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *self.tree;
    let ghost c = self.chain();
    let ghost mut k = 0int;
    proof { assert(c[0] == self.idx.0); }
@ghost loop 0 start
    proof { assert(with_proc_decl(t, name@)(c[k]) ==> first_of(c, k, with_proc_decl(t, name@))); }
@ghost loop 0 end
    proof { chain_tail(t, self.idx.0 as int, k + 1); k = k + 1; }

@@verbatim
/// the address of a type: types of a tree have distinct symbols (see unique below), and the argument is a type of the tree
#[verifier::external_body]
pub fn vx_same(a: &Type, b: &Type) -> (r: bool) ensures r == (a.id == b.id) { unimplemented!() }
pub open spec fn is_type(t: ObjectTree, id: SymbolId) -> spec_fn(int) -> bool { |i: int| t.graph@[i].id == id }

@@fn obj::TypeRef::is_subtype_of
@ret r
@rewrite <<<std::ptr::eq(ty.get(), parent)>>> => <<<vx_same(ty.get(), parent)>>>
@rewrite optional <<<while let Some(ty) = current.take()>>> => <<<while let Some(ty) = current>>>
@spec
    requires self.wf(),
    ensures r == exists|k: int| 0 <= k < self.chain().len() && is_type(*self.tree, parent.id)(#[trigger] self.chain()[k]),
@loop 0
    invariant
        self.wf(), c == self.chain(), t == *self.tree, 0 <= k <= c.len(),
        forall|j: int| 0 <= j < k ==> !is_type(t, parent.id)(#[trigger] c[j]),
        match current { Some(ty) => k < c.len() && ty.idx.0 == c[k] && ty.tree == self.tree && ty.wf(), None => k == c.len() },
    ensures current is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *self.tree;
    let ghost c = self.chain();
    let ghost mut k = 0int;
    proof { assert(c[0] == self.idx.0); }
@ghost loop 0 start
    proof { assert(is_type(t, parent.id)(c[k]) == (ty.ty().id == parent.id)); }
@ghost loop 0 end
    proof { chain_tail(t, self.idx.0 as int, k + 1); k = k + 1; }

@@fn obj::TypeRef::visit_parent_types
@sig <<<fn visit_parent_types(&self, f: &mut Vec<TypeRef<'a>>)>>>
@rewrite <<<f(current)>>> => <<<f.push(current)>>>
@spec
    requires self.wf(),
    ensures
        final(f)@.len() == old(f)@.len() + self.chain().len(), final(f)@.subrange(0, old(f)@.len() as int) == old(f)@,
        forall|k: int| 0 <= k < self.chain().len() ==> (#[trigger] final(f)@[old(f)@.len() + k]).tree == self.tree && final(f)@[old(f)@.len() + k].idx.0 == self.chain()[k],
@loop 0
    invariant
        self.wf(), c == self.chain(), t == *self.tree, 0 <= k <= c.len(), f@.len() == n + k, n == old(f)@.len(), f@.subrange(0, n as int) == old(f)@,
        forall|j: int| 0 <= j < k ==> (#[trigger] f@[n + j]).tree == self.tree && f@[n + j].idx.0 == c[j],
        match next { Some(ty) => k < c.len() && ty.idx.0 == c[k] && ty.tree == self.tree && ty.wf(), None => k == c.len() },
    ensures next is None,
    decreases c.len() - k,
@ghost start
    let ghost t = *self.tree;
    let ghost c = self.chain();
    let ghost n = f@.len();
    let ghost mut k = 0int;
    proof { assert(c[0] == self.idx.0); assert(f@.subrange(0, n as int) =~= f@); }
@ghost loop 0 start
    let ghost f0 = f@;
@ghost loop 0 end
    proof { chain_tail(t, self.idx.0 as int, k + 1); assert(f@.subrange(0, n as int) =~= f0.subrange(0, n as int)); k = k + 1; }

@@fn obj::ProcRef::get
@ret r
@spec
    requires self.idx < self.list@.len(),
    ensures *r == self.list@[self.idx as int],

@@fn obj::ProcRef::parent_proc
@ret r
@opt optclosures
@spec
    requires self.ty.wf(), defined(*self.ty.tree),
    ensures
        // the definition before it in the same type
        self.idx > 0 ==> r == Some(ProcRef { ty: self.ty, list: self.list, name: self.name, idx: (self.idx - 1) as usize }),
        // or else what the ancestors have
        self.idx == 0 ==> match r {
            Some(p) => exists|q: TypeRef<'_>| ref_to(Some(q), self.ty.tree, self.ty.ty().parent_type.0 as int) && #[trigger] proc_of(r, q, self.name@),
            None => none_of(chain(*self.ty.tree, self.ty.ty().parent_type.0 as int), with_proc(*self.ty.tree, self.name@)),
        },

@@fn obj::ProcRef::is_externally_visible
@ret r
@spec
    requires self.idx < self.list@.len(),
    ensures r == (self.idx == self.list@.len() - 1),
@ghost start
    proof { assert(vstd::slice::spec_slice_len(self.list) == self.list@.len()); }

@@fn obj::ProcRef::get_declaration
@ret r
@spec
    requires self.ty.wf(),
    ensures proc_decl_of(r, self.ty, self.name@),

@@verbatim
// ---------------------------------------------------------------- paths
pub open spec fn slashless(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' }
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> { a.push('/') + b }
impl ObjectTree {
    pub open spec fn path(&self, i: int) -> Seq<char> { self.graph@[i].path@ }
    pub open spec fn above(&self, i: int) -> int { self.graph@[i].parent_path.0 as int }
    pub open spec fn kids(&self, i: int) -> Map<Seq<char>, NodeIndex> { self.graph@[i].children@ }
    /// i has the path of its parent with a name added, under which the parent has it
    pub open spec fn placed(&self, i: int) -> bool {
        0 <= self.above(i) < i && exists|n: Seq<char>| #[trigger] slashless(n) && self.path(i) == joined(self.path(self.above(i)), n) && self.kids(self.above(i)).contains_key(n) && self.kids(self.above(i))[n].0 == i
    }
    /// paths and children agree
    pub open spec fn pathed(&self) -> bool {
        &&& 1 <= self.len() < 0xffff_ffff
        &&& self.path(0).len() == 0 && self.above(0) == 0xffff_ffff
        &&& forall|i: int| 0 < i < self.len() ==> #[trigger] self.placed(i)
        &&& forall|p: int, n: Seq<char>| self.has(p) && #[trigger] self.kids(p).contains_key(n) ==> p < self.kids(p)[n].0 < self.len() && self.above(self.kids(p)[n].0 as int) == p && self.path(self.kids(p)[n].0 as int) == joined(self.path(p), n) && slashless(n)
        &&& forall|i: int| 0 < i < self.len() ==> self.types@.contains_key(#[trigger] self.path(i)) && self.types@[self.path(i)].0 == i
        &&& forall|s: Seq<char>| #[trigger] self.types@.contains_key(s) ==> 0 < self.types@[s].0 < self.len() && self.path(self.types@[s].0 as int) == s
    }
    /// no two types have the same symbol
    pub open spec fn unique(&self, next: u32) -> bool {
        &&& forall|i: int| self.has(i) ==> (#[trigger] self.graph@[i]).id.0 < next
        &&& forall|i: int, j: int| self.has(i) && self.has(j) && i != j ==> (#[trigger] self.graph@[i]).id != (#[trigger] self.graph@[j]).id
    }
}
/// the last / tells where the name begins
pub proof fn joined_inj(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    requires joined(a, b) == joined(c, d), slashless(b), slashless(d),
    ensures a == c, b == d,
    decreases a.len(),
{
    let s = joined(a, b);
    assert(s[a.len() as int] == '/');
    assert(s[c.len() as int] == '/');
    let (x, y) = (a.push('/'), c.push('/'));
    assert(x.len() == a.len() + 1 && s == x + b && s == y + d && s.len() == x.len() + b.len() && s.len() == y.len() + d.len());
    if a.len() < c.len() { assert((x + b)[c.len() as int] == b[c.len() - x.len()]); }
    if c.len() < a.len() {
        joined_inj(c, d, a, b);
    }
    assert(a =~= s.subrange(0, a.len() as int));
    assert(c =~= s.subrange(0, c.len() as int));
    assert(b =~= s.subrange(a.len() as int + 1, s.len() as int));
    assert(d =~= s.subrange(c.len() as int + 1, s.len() as int));
}
/// only what has no say in paths has changed
pub proof fn pathed_same(a: ObjectTree, b: ObjectTree)
    requires a.pathed(), b.len() == a.len(), b.types == a.types, forall|i: int| a.has(i) ==> (#[trigger] b.graph@[i]).path == a.graph@[i].path && b.graph@[i].parent_path == a.graph@[i].parent_path && b.graph@[i].children == a.graph@[i].children,
    ensures b.pathed(),
{
    assert forall|i: int| 0 < i < b.len() implies #[trigger] b.placed(i) by {
        assert(a.placed(i));
        let n = choose|n: Seq<char>| #[trigger] slashless(n) && a.path(i) == joined(a.path(a.above(i)), n) && a.kids(a.above(i)).contains_key(n) && a.kids(a.above(i))[n].0 == i;
        assert(slashless(n) && b.path(i) == joined(b.path(b.above(i)), n) && b.kids(b.above(i)).contains_key(n) && b.kids(b.above(i))[n].0 == i);
    }
    assert forall|p: int, n: Seq<char>| b.has(p) && #[trigger] b.kids(p).contains_key(n) implies p < b.kids(p)[n].0 < b.len() && b.above(b.kids(p)[n].0 as int) == p && b.path(b.kids(p)[n].0 as int) == joined(b.path(p), n) && slashless(n) by {
        assert(a.kids(p).contains_key(n));
    }
    assert forall|i: int| 0 < i < b.len() implies b.types@.contains_key(#[trigger] b.path(i)) && b.types@[b.path(i)].0 == i by { assert(a.types@.contains_key(a.path(i))); }
    assert forall|s: Seq<char>| #[trigger] b.types@.contains_key(s) implies 0 < b.types@[s].0 < b.len() && b.path(b.types@[s].0 as int) == s by { assert(a.types@.contains_key(s)); }
}
/// a child of p with a new name has been added
pub proof fn pathed_more(a: ObjectTree, b: ObjectTree, p: int, n: Seq<char>)
    requires
        a.pathed(), a.has(p), slashless(n), !a.kids(p).contains_key(n), b.len() == a.len() + 1, b.len() < 0xffff_ffff,
        forall|i: int| a.has(i) ==> (#[trigger] b.graph@[i]).path == a.graph@[i].path && b.graph@[i].parent_path == a.graph@[i].parent_path && (i != p ==> b.graph@[i].children == a.graph@[i].children),
        b.kids(p) == a.kids(p).insert(n, NodeIndex(a.len() as u32)), b.kids(a.len()) == Map::<Seq<char>, NodeIndex>::empty(),
        b.path(a.len()) == joined(a.path(p), n), b.above(a.len()) == p, b.types@ == a.types@.insert(joined(a.path(p), n), NodeIndex(a.len() as u32)),
    ensures b.pathed(),
{
    let new = a.len();
    let np = joined(a.path(p), n);
    // the path is new
    assert(!a.types@.contains_key(np)) by {
        if a.types@.contains_key(np) {
            let i = a.types@[np].0 as int;
            assert(a.placed(i));
            let m = choose|m: Seq<char>| #[trigger] slashless(m) && a.path(i) == joined(a.path(a.above(i)), m) && a.kids(a.above(i)).contains_key(m) && a.kids(a.above(i))[m].0 == i;
            joined_inj(a.path(p), n, a.path(a.above(i)), m);
            let q = a.above(i);
            if q != p {
                if p == 0 || q == 0 {
                    let r = if p == 0 { q } else { p };
                    assert(a.placed(r));
                    assert(a.path(r).len() > 0);
                } else { assert(a.types@[a.path(p)].0 == p && a.types@[a.path(q)].0 == q); }
            }
        }
    }
    assert forall|i: int| 0 < i < b.len() implies #[trigger] b.placed(i) by {
        if i == new { assert(slashless(n) && b.path(i) == joined(b.path(b.above(i)), n) && b.kids(b.above(i)).contains_key(n) && b.kids(b.above(i))[n].0 == i); } else {
            assert(a.placed(i));
            let m = choose|n: Seq<char>| #[trigger] slashless(n) && a.path(i) == joined(a.path(a.above(i)), n) && a.kids(a.above(i)).contains_key(n) && a.kids(a.above(i))[n].0 == i;
            assert(slashless(m) && b.path(i) == joined(b.path(b.above(i)), m) && b.kids(b.above(i)).contains_key(m) && b.kids(b.above(i))[m].0 == i);
        }
    }
    assert forall|q: int, m: Seq<char>| b.has(q) && #[trigger] b.kids(q).contains_key(m) implies q < b.kids(q)[m].0 < b.len() && b.above(b.kids(q)[m].0 as int) == q && b.path(b.kids(q)[m].0 as int) == joined(b.path(q), m) && slashless(m) by {
        if q == p && m == n { } else { assert(q < new); assert(a.kids(q).contains_key(m)); }
    }
    assert forall|i: int| 0 < i < b.len() implies b.types@.contains_key(#[trigger] b.path(i)) && b.types@[b.path(i)].0 == i by { if i < new { assert(a.types@.contains_key(a.path(i))); } }
    assert forall|s: Seq<char>| #[trigger] b.types@.contains_key(s) implies 0 < b.types@[s].0 < b.len() && b.path(b.types@[s].0 as int) == s by { if s != np { assert(a.types@.contains_key(s)); } }
}
#[verifier::external_body]
pub fn vx_join(a: &String, b: &Ident) -> (r: String) ensures r@ == joined(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_len(a: &String) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn vx_docs() -> (r: DocCollection) { unimplemented!() }

@@fn obj::TypeRef::parent_path
@ret r
@rewrite optional <<<self.is_root()>>> => <<<self.get().is_root()>>>
@rewrite optional <<<self.parent_path>>> => <<<self.get().parent_path>>>
@spec
    requires self.wf(), self.tree.pathed(),
    ensures if self.idx.0 == 0 { r is None } else { r matches Some(x) && x.tree == self.tree && x.idx.0 == self.tree.above(self.idx.0 as int) && x.wf() },
@ghost start
    proof { assert(self.idx.0 > 0 ==> self.tree.placed(self.idx.0 as int)); }

@@fn obj::TypeRef::child
@ret r
@opt optclosures
@rewrite optional <<<self.children>>> => <<<self.get().children>>>
@spec
    requires self.wf(), self.tree.pathed(),
    ensures match r {
        Some(x) => x.tree == self.tree && x.wf() && self.tree.kids(self.idx.0 as int).contains_key(name@) && x.idx == self.tree.kids(self.idx.0 as int)[name@],
        None => !self.tree.kids(self.idx.0 as int).contains_key(name@),
    },

@@fn obj::ObjectTree::find
@ret r
@opt optclosures
@rewrite optional <<<path.is_empty()>>> => <<<vx_no_chars(path)>>>
@spec
    requires self.pathed(),
    ensures match r {
        Some(x) => x.tree == self && self.has(x.idx.0 as int) && self.path(x.idx.0 as int) == path@,
        None => forall|i: int| self.has(i) ==> #[trigger] self.path(i) != path@,
    },
@ghost start
    proof { assert(path@.len() == 0 ==> path@ =~= self.path(0)); }

@@verbatim
#[verifier::external_body]
pub fn vx_no_chars(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }

@@fn obj::SymbolIdSource::allocate
@ret r
@spec
    requires old(self).0.0 < u32::MAX,
    ensures r == old(self).0, final(self).0.0 == old(self).0.0 + 1,

@@type obj::ObjectTreeBuilder

@@fn obj::ObjectTreeBuilder::subtype_or_add
@ret r
@rewrite optional <<<&mut self.inner[target]>>> => <<<&mut self.inner.graph[target.index()]>>>
@rewrite optional <<<self.inner[parent].children.insert>>> => <<<self.inner.graph[parent.index()].children.insert>>>
@rewrite optional <<<format!("{}/{}", self.inner[parent].path, child)>>> => <<<vx_join(&self.inner.index(parent).path, child)>>>
@rewrite optional <<<self.inner[parent].path.len()>>> => <<<vx_len(&self.inner.index(parent).path)>>>
@rewrite optional <<<self.inner[parent]>>> => <<<self.inner.index(parent)>>>
@rewrite <<<vars: Default::default()>>> => <<<vars: VxMap::new()>>>
@rewrite <<<procs: Default::default()>>> => <<<procs: VxMap::new()>>>
@rewrite <<<docs: Default::default()>>> => <<<docs: vx_docs()>>>
@rewrite <<<children: Default::default()>>> => <<<children: VxMap::new()>>>
@spec
    requires
        old(self).inner.pathed(), old(self).inner.has(parent.0 as int), slashless(child@), old(self).inner.len() < 0xffff_fffe,
        old(self).symbols.0.0 < u32::MAX, old(self).inner.unique(old(self).symbols.0.0),
    ensures
        final(self).inner.pathed(), final(self).inner.unique(final(self).symbols.0.0),
        final(self).inner.has(r.0 as int), final(self).inner.above(r.0 as int) == parent.0, final(self).inner.path(r.0 as int) == joined(old(self).inner.path(parent.0 as int), child@),
        // the one there is, or else a new one
        final(self).inner.len() == old(self).inner.len() || r.0 == old(self).inner.len() && final(self).inner.len() == r.0 + 1
            && final(self).inner.graph@[r.0 as int].vars@ == Map::<Seq<char>, TypeVar>::empty() && final(self).inner.graph@[r.0 as int].procs@ == Map::<Seq<char>, TypeProc>::empty(),
        forall|i: int| old(self).inner.has(i) ==> {
            let (a, b) = (old(self).inner.graph@[i], #[trigger] final(self).inner.graph@[i]);
            a.path == b.path && a.vars == b.vars && a.procs == b.procs && a.parent_path == b.parent_path && a.parent_type == b.parent_type && a.id == b.id
        },
        final(self).inner.redirected_parent_types == old(self).inner.redirected_parent_types,
@ghost start
    let ghost old_tree = self.inner;
    let ghost p = parent.0 as int;
    proof { assert(self.inner.kids(p).contains_key(child@) == self.inner.graph@[p].children@.contains_key(child@)); }
@ghost before <<<return target>>>
    proof { pathed_same(old_tree, self.inner); }
@ghost after <<<self.inner.types.insert>>>
    proof { pathed_more(old_tree, self.inner, p, child@); }

@@verbatim
// ---------------------------------------------------------------- breaking cycles
/// the edges of the types in s removed
pub open spec fn cut(up: Seq<int>, s: ISet<int>) -> Seq<int> { Seq::new(up.len(), |i: int| if s.contains(i) { -1int } else { up[i] }) }
pub open spec fn ids(v: Seq<NodeIndex>) -> ISet<int> { ISet::new(|i: int| exists|k: int| 0 <= k < v.len() && #[trigger] v[k].0 == i) }
/// n steps up
pub open spec fn steps(up: Seq<int>, i: int, n: nat) -> int
    decreases n
{ if n == 0 { i } else { let j = steps(up, i, (n - 1) as nat); if 0 <= j < up.len() { up[j] } else { -1 } } }
/// i is above itself
pub open spec fn circular(up: Seq<int>, i: int) -> bool { exists|n: nat| #[trigger] steps(up, i, n) == i && n > 0 }
pub proof fn loopless_rank_steps(up: Seq<int>, i: int, n: nat)
    requires loopless(up), 0 <= i < up.len(), n > 0, 0 <= steps(up, i, n) < up.len(),
    ensures rank(up, steps(up, i, n)) < rank(up, i),
    decreases n,
{
    let j = steps(up, i, (n - 1) as nat);
    if 0 <= j < up.len() { rank_down(up, j); if n > 1 { loopless_rank_steps(up, i, (n - 1) as nat); } }
}
pub proof fn loopless_not_circular(up: Seq<int>, i: int)
    requires loopless(up), 0 <= i < up.len(),
    ensures !circular(up, i),
{
    if circular(up, i) { let n = choose|n: nat| #[trigger] steps(up, i, n) == i && n > 0; loopless_rank_steps(up, i, n); }
}
/// as long as nothing is cut, steps follow the line
pub proof fn line_steps(up: Seq<int>, c: Seq<int>, i: int, k: int)
    requires loopless(c), c.len() == up.len(), forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == up[j] || c[j] == -1, 0 <= k < line(c, i).len(),
    ensures steps(up, i, k as nat) == line(c, i)[k],
    decreases k,
{
    line_tail(c, i, k);
    if k > 0 { line_steps(up, c, i, k - 1); line_tail(c, i, k - 1); }
}
impl ObjectTree {
    /// only redirected types have parents which their paths don't tell
    pub open spec fn told(&self) -> bool {
        &&& self.pathed()
        &&& !self.has(self.up(0))
        &&& forall|i: int| 0 < i < self.len() ==> self.has(#[trigger] self.up(i))
        &&& forall|i: int| 0 < i < self.len() && #[trigger] self.up(i) != self.above(i) ==> ids(self.redirected_parent_types@).contains(i)
        &&& forall|k: int| 0 <= k < self.redirected_parent_types@.len() ==> 0 < (#[trigger] self.redirected_parent_types@[k]).0 < self.len()
    }
}
pub proof fn steps_shift(up: Seq<int>, i: int, n: nat)
    requires 0 <= i < up.len(),
    ensures steps(up, i, n + 1) == steps(up, up[i], n),
    decreases n,
{ if n > 0 { steps_shift(up, i, (n - 1) as nat); } else { assert(steps(up, i, 0) == i); } }
pub proof fn steps_gone(up: Seq<int>, i: int, m: nat, k: nat)
    requires m < k, !(0 <= steps(up, i, m) < up.len()),
    ensures steps(up, i, k) == -1,
    decreases k,
{ if m + 1 < k { steps_gone(up, i, m, (k - 1) as nat); } }
/// what is left to do after one is done
pub proof fn cut_one(up: Seq<int>, new: Seq<int>, v: Seq<NodeIndex>, k: int, p: int)
    requires
        0 <= k < v.len(), up.len() == new.len(), 0 <= v[k].0 < up.len(), new == up.update(v[k].0 as int, p),
        loopless(cut(up, ids(v.skip(k)))), !line(cut(up, ids(v.skip(k))), p).contains(v[k].0 as int),
    ensures loopless(cut(new, ids(v.skip(k + 1)))),
{
    let (a, b) = (v.skip(k), v.skip(k + 1));
    let t = v[k].0 as int;
    assert(a[0].0 == t);
    assert forall|i: int| ids(a).contains(i) == (ids(b).contains(i) || i == t) by {
        if ids(b).contains(i) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j].0 == i; assert(a[j + 1].0 == i); }
        if ids(a).contains(i) && i != t { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0 == i; assert(b[j - 1].0 == i); }
    }
    if ids(b).contains(t) { assert(cut(new, ids(b)) =~= cut(up, ids(a))); } else {
        assert(cut(new, ids(b)) =~= cut(up, ids(a)).update(t, p));
        linked(cut(up, ids(a)), t, p);
    }
}
#[verifier::external_body]
pub fn vx_take(v: &mut Vec<NodeIndex>) -> (r: Vec<NodeIndex>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }

@@fn obj::ObjectTreeBuilder::break_parent_cycles
@opt forslice
@rewrite optional <<<std::mem::take>>> => <<<vx_take>>>
@rewrite optional <<<&mut self.inner[type_idx]>>> => <<<&mut self.inner.graph[type_idx.index()]>>>
@rewrite optional <<<self.inner[type_idx]>>> => <<<self.inner.index(type_idx)>>>
@rewrite optional <<<self.inner[current]>>> => <<<self.inner.index(current)>>>
@spec
    requires old(self).inner.told(),
    ensures
        acyclic(final(self).inner), final(self).inner.told(), final(self).symbols == old(self).symbols,
        final(self).inner.len() == old(self).inner.len(), final(self).inner.types == old(self).inner.types,
        // circular types become children of the root; all else stays
        forall|i: int| old(self).inner.has(i) ==> #[trigger] final(self).inner.graph@[i] == (Type { parent_type: final(self).inner.graph@[i].parent_type, ..old(self).inner.graph@[i] }),
        forall|i: int| old(self).inner.has(i) ==> #[trigger] final(self).inner.up(i) == old(self).inner.up(i) || final(self).inner.up(i) == 0 && circular(parents(old(self).inner), i),
        acyclic(old(self).inner) ==> parents(final(self).inner) == parents(old(self).inner),
@loop 0
    invariant
        vx_s0@ == r0, 0 <= vx_i0 <= r0.len(), old(self).inner.told(), r0 == old(self).inner.redirected_parent_types@, up0 == parents(old(self).inner),
        self.inner.pathed(), self.symbols == old(self).symbols, self.inner.len() == old(self).inner.len(), self.inner.types == old(self).inner.types,
        !self.inner.has(self.inner.up(0)),
        forall|i: int| 0 < i < self.inner.len() ==> self.inner.has(#[trigger] self.inner.up(i)),
        forall|i: int| 0 < i < self.inner.len() && #[trigger] self.inner.up(i) != self.inner.above(i) ==> ids(self.inner.redirected_parent_types@).contains(i) || ids(r0.skip(vx_i0 as int)).contains(i),
        forall|k: int| 0 <= k < self.inner.redirected_parent_types@.len() ==> 0 < (#[trigger] self.inner.redirected_parent_types@[k]).0 < self.inner.len(),
        forall|i: int| old(self).inner.has(i) ==> #[trigger] self.inner.graph@[i] == (Type { parent_type: self.inner.graph@[i].parent_type, ..old(self).inner.graph@[i] }),
        forall|i: int| old(self).inner.has(i) ==> #[trigger] self.inner.up(i) == old(self).inner.up(i) || self.inner.up(i) == 0 && circular(up0, i),
        loopless(cut(parents(self.inner), ids(r0.skip(vx_i0 as int)))),
    decreases r0.len() - vx_i0,
@loop 1
    invariant
        self.inner == now.inner, limit + m == self.inner.len(), m >= 0, up == parents(self.inner), up0 == parents(old(self).inner), up.len() == up0.len(),
        forall|i: int| 0 < i < up.len() ==> 0 <= #[trigger] up[i] < up.len(), up.len() > 0, !(0 <= up[0] < up.len()), 0 < t < up.len(), t == type_idx.0,
        forall|i: int| 0 <= i < up.len() ==> #[trigger] up[i] == up0[i] || up[i] == 0,
        current.0 == steps(up, t, (m + 1) as nat), forall|j: nat| 0 < j <= m ==> #[trigger] steps(up, t, j) != t,
        current.0 == steps(up0, t, (m + 1) as nat) || current.0 == 0 || !(current.0 < up.len()),
    ensures limit == 0 || current.0 == t || current.0 >= up.len(),
    decreases limit,
@ghost start
    let ghost r0 = self.inner.redirected_parent_types@;
    let ghost up0 = parents(self.inner);
@ghost loop 0 before
    proof {
        pathed_same(old(self).inner, self.inner);
        assert(r0.skip(0) =~= r0);
        assert(parents(self.inner) =~= up0);
        let c = cut(up0, ids(r0));
        assert forall|i: int| 0 < i < self.inner.len() && #[trigger] self.inner.up(i) != self.inner.above(i) implies ids(r0).contains(i) by { assert(old(self).inner.up(i) != old(self).inner.above(i)); }
        assert forall|i: int| 0 <= i < c.len() && 0 <= #[trigger] c[i] < c.len() implies c[i] < i by {
            if i > 0 { assert(old(self).inner.placed(i)); if !ids(r0).contains(i) { assert(self.inner.up(i) == self.inner.above(i)); } }
        }
        assert(ranked(c, |i: int| i as nat));
        assert forall|i: int| 0 < i < self.inner.len() implies self.inner.has(#[trigger] self.inner.up(i)) by { assert(old(self).inner.has(old(self).inner.up(i))); }
    }
@ghost before <<<let mut current>>>
    let ghost now = *self;
    let ghost up = parents(self.inner);
    let ghost t = type_idx.0 as int;
    let ghost mut m = 0int;
    proof {
        assert(steps(up, t, 0) == t && steps(up0, t, 0) == t);
        assert(steps(up, t, 1) == up[t] && steps(up0, t, 1) == up0[t]);
        assert(self.inner.has(self.inner.up(t)));
        assert(up[t] == self.inner.up(t) && up0[t] == old(self).inner.up(t));
        assert forall|i: int| 0 < i < up.len() implies 0 <= #[trigger] up[i] < up.len() by { assert(self.inner.has(self.inner.up(i))); }
        assert forall|i: int| 0 <= i < up.len() implies #[trigger] up[i] == up0[i] || up[i] == 0 by { assert(self.inner.up(i) == old(self).inner.up(i) || self.inner.up(i) == 0); }
    }
@ghost loop 1 start
    let ghost at = current.0 as int;
@ghost loop 1 end
    proof {
        assert(steps(up, t, (m + 2) as nat) == up[at]);
        assert(steps(up0, t, (m + 1) as nat) == at ==> steps(up0, t, (m + 2) as nat) == up0[at]);
        m = m + 1;
    }
@ghost loop 1 after
    let ghost n = vx_i0 - 1;
    proof {
        let c = cut(up, ids(r0.skip(n)));
        if current.0 != t {
            if line(c, up[t]).contains(t) {
                let k = choose|k: int| 0 <= k < line(c, up[t]).len() && line(c, up[t])[k] == t;
                line_len(c, up[t]);
                line_steps(up, c, up[t], k);
                steps_shift(up, t, k as nat);
                if m < k { steps_gone(up, t, (m + 1) as nat, (k + 1) as nat); }
                assert(false);
            }
        } else {
            assert(circular(up0, t));
            assert(line(c, 0) =~= seq![0int]) by { assert(line(c, c[0]) =~= Seq::<int>::empty()); }
        }
    }
@ghost loop 0 end
    proof {
        let new = parents(self.inner);
        assert(self.inner.graph@ =~= now.inner.graph@.update(t, Type { parent_type: self.inner.graph@[t].parent_type, ..now.inner.graph@[t] }));
        assert forall|i: int| 0 < i < self.inner.len() implies self.inner.has(#[trigger] self.inner.up(i)) by { assert(now.inner.has(now.inner.up(i))); }
        assert forall|i: int| old(self).inner.has(i) implies #[trigger] self.inner.up(i) == old(self).inner.up(i) || self.inner.up(i) == 0 && circular(up0, i) by {
            assert(now.inner.up(i) == old(self).inner.up(i) || now.inner.up(i) == 0 && circular(up0, i));
        }
        assert(new =~= up.update(t, new[t]));
        cut_one(up, new, r0, n, new[t]);
        pathed_same(now.inner, self.inner);
        let (a, b) = (r0.skip(n), r0.skip(n + 1));
        assert forall|i: int| 0 < i < self.inner.len() && #[trigger] self.inner.up(i) != self.inner.above(i) implies ids(self.inner.redirected_parent_types@).contains(i) || ids(b).contains(i) by {
            if i == t { let v = self.inner.redirected_parent_types@; assert(v[v.len() - 1].0 == t); } else {
                assert(now.inner.up(i) != now.inner.above(i));
                if ids(a).contains(i) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0 == i; assert(b[j - 1].0 == i); } else {
                    let (v, w) = (now.inner.redirected_parent_types@, self.inner.redirected_parent_types@);
                    let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j].0 == i;
                    assert(w[j].0 == i);
                }
            }
        }
    }
@ghost end
    proof {
        let c = cut(parents(self.inner), ids(r0.skip(r0.len() as int)));
        assert(c =~= parents(self.inner));
        if acyclic(old(self).inner) {
            assert forall|i: int| self.inner.has(i) implies parents(self.inner)[i] == up0[i] by { loopless_not_circular(up0, i); assert(self.inner.up(i) == old(self).inner.up(i)); }
            assert(parents(self.inner) =~= up0);
        }
    }

@@verbatim
// ---------------------------------------------------------------- subtrees
impl ObjectTree {
    /// redirected lists every type that is no child by path of its parent type, once
    pub open spec fn listed(&self) -> bool {
        &&& self.told()
        &&& forall|k: int| 0 <= k < self.redirected_parent_types@.len() ==> self.up((#[trigger] self.redirected_parent_types@[k]).0 as int) != self.above(self.redirected_parent_types@[k].0 as int)
        &&& forall|j: int, k: int| 0 <= j < k < self.redirected_parent_types@.len() ==> (#[trigger] self.redirected_parent_types@[j]) != (#[trigger] self.redirected_parent_types@[k])
    }
}
/// the numbers of some types of a tree
pub open spec fn nums(v: Seq<TypeRef<'_>>) -> Seq<int> { v.map_values(|x: TypeRef| x.idx.0 as int) }
/// i is s or below it
pub open spec fn below(up: Seq<int>, s: int, i: int) -> bool { line(up, i).contains(s) }
/// exactly the types at or below s, each one once
pub open spec fn subtree(up: Seq<int>, s: int, v: Seq<int>) -> bool {
    &&& v.no_duplicates()
    &&& forall|i: int| #[trigger] v.contains(i) <==> 0 <= i < up.len() && below(up, s, i)
}
/// the types at or below children of s: those in c
pub open spec fn subtrees(up: Seq<int>, s: int, c: spec_fn(int) -> bool, v: Seq<int>) -> bool {
    &&& v.no_duplicates()
    &&& forall|i: int| #[trigger] v.contains(i) <==> 0 <= i < up.len() && exists|k: int| #[trigger] c(k) && up[k] == s && 0 <= k < up.len() && below(up, k, i)
}
pub proof fn push_has(s: Seq<int>, x: int)
    ensures forall|y: int| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|y: int| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
        if s.push(x).contains(y) { let k = choose|k: int| 0 <= k < s.push(x).len() && s.push(x)[k] == y; if k < s.len() { assert(s[k] == y); } }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
    }
}
/// s, and everything at or below the children in d
pub open spec fn parts(up: Seq<int>, s: int, d: Seq<int>, v: Seq<int>) -> bool {
    &&& v.no_duplicates()
    &&& forall|k: int| 0 <= k < d.len() ==> 0 <= #[trigger] d[k] < up.len() && up[d[k]] == s
    &&& forall|i: int| #[trigger] v.contains(i) <==> i == s || 0 <= i < up.len() && exists|k: int| 0 <= k < d.len() && below(up, #[trigger] d[k], i)
}
pub proof fn below_child(up: Seq<int>, c: int, s: int, i: int)
    requires loopless(up), below(up, c, i), 0 <= c < up.len(), up[c] == s, 0 <= s < up.len(),
    ensures below(up, s, i), i != s,
{
    let l = line(up, i);
    let k = choose|k: int| 0 <= k < l.len() && l[k] == c;
    line_tail(up, i, k + 1);
    assert(l[k + 1] == s);
    if i == s { assert(l[0] == i); line_distinct(up, i, 0, k + 1); }
}
pub proof fn child_above(up: Seq<int>, s: int, i: int) -> (c: int)
    requires loopless(up), below(up, s, i), i != s,
    ensures 0 <= c < up.len(), up[c] == s, below(up, c, i),
{
    let l = line(up, i);
    let k = choose|k: int| 0 <= k < l.len() && l[k] == s;
    if k == 0 { assert(l[0] == i); }
    line_tail(up, i, k);
    line_tail(up, i, k - 1);
    l[k - 1]
}
pub proof fn one_child(up: Seq<int>, c: int, d: int, i: int)
    requires loopless(up), below(up, c, i), below(up, d, i), 0 <= c < up.len(), 0 <= d < up.len(), up[c] == up[d], 0 <= up[c] < up.len(),
    ensures c == d,
{
    let l = line(up, i);
    let j = choose|k: int| 0 <= k < l.len() && l[k] == c;
    let k = choose|k: int| 0 <= k < l.len() && l[k] == d;
    line_tail(up, i, j + 1);
    line_tail(up, i, k + 1);
    if j < k { line_distinct(up, i, j + 1, k + 1); }
    if k < j { line_distinct(up, i, k + 1, j + 1); }
}
pub proof fn parts_more(up: Seq<int>, s: int, d: Seq<int>, v: Seq<int>, c: int, w: Seq<int>)
    requires loopless(up), 0 <= s < up.len(), parts(up, s, d, v), 0 <= c < up.len(), up[c] == s, !d.contains(c), subtree(up, c, w),
    ensures parts(up, s, d.push(c), v + w),
{
    assert forall|i: int| v.contains(i) && w.contains(i) implies false by {
        below_child(up, c, s, i);
        let k = choose|k: int| 0 <= k < d.len() && below(up, #[trigger] d[k], i);
        one_child(up, c, d[k], i);
    }
    let e = d.push(c);
    let x = v + w;
    assert(x.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < x.len() && 0 <= b < x.len() && a != b implies x[a] != x[b] by {
            if a < v.len() && b >= v.len() { assert(v.contains(x[a]) && w[b - v.len()] == x[b]); assert(w.contains(x[b])); }
            if b < v.len() && a >= v.len() { assert(v.contains(x[b]) && w[a - v.len()] == x[a]); assert(w.contains(x[a])); }
        }
    }
    assert forall|i: int| #[trigger] x.contains(i) <==> i == s || 0 <= i < up.len() && exists|k: int| 0 <= k < e.len() && below(up, #[trigger] e[k], i) by {
        if x.contains(i) {
            let a = choose|a: int| 0 <= a < x.len() && x[a] == i;
            if a < v.len() { assert(v[a] == i); assert(v.contains(i)); if i != s { let k = choose|k: int| 0 <= k < d.len() && below(up, #[trigger] d[k], i); assert(e[k] == d[k]); } }
            else { assert(w[a - v.len()] == i); assert(w.contains(i)); assert(e[d.len() as int] == c); }
        }
        if i == s { assert(v.contains(i)); let a = choose|a: int| 0 <= a < v.len() && v[a] == i; assert(x[a] == i); }
        else if 0 <= i < up.len() && exists|k: int| 0 <= k < e.len() && below(up, #[trigger] e[k], i) {
            let k = choose|k: int| 0 <= k < e.len() && below(up, #[trigger] e[k], i);
            if k < d.len() { assert(d[k] == e[k]); assert(v.contains(i)); let a = choose|a: int| 0 <= a < v.len() && v[a] == i; assert(x[a] == i); }
            else { assert(w.contains(i)); let a = choose|a: int| 0 <= a < w.len() && w[a] == i; assert(x[v.len() + a] == i); }
        }
    }
}
pub proof fn parts_all(up: Seq<int>, s: int, d: Seq<int>, v: Seq<int>)
    requires loopless(up), 0 <= s < up.len(), parts(up, s, d, v), forall|c: int| 0 <= c < up.len() && #[trigger] up[c] == s ==> d.contains(c),
    ensures subtree(up, s, v),
{
    assert forall|i: int| #[trigger] v.contains(i) <==> 0 <= i < up.len() && below(up, s, i) by {
        if i == s { assert(line(up, s)[0] == s); }
        if v.contains(i) && i != s { let k = choose|k: int| 0 <= k < d.len() && below(up, #[trigger] d[k], i); below_child(up, d[k], s, i); }
        if 0 <= i < up.len() && below(up, s, i) && i != s {
            let c = child_above(up, s, i);
            assert(d.contains(c));
            let k = choose|k: int| 0 <= k < d.len() && d[k] == c;
            assert(below(up, d[k], i));
        }
    }
}
/// the trusted: `children.values()`, each as a reference
#[verifier::external_body]
pub fn vx_children<'a>(m: &VxMap<NodeIndex>, tree: &'a ObjectTree) -> (r: Vec<TypeRef<'a>>)
    ensures m.order().no_duplicates(), m.order().to_set() == m@.dom(), r@.len() == m.order().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (TypeRef { tree: tree, idx: m@[m.order()[k]] }),
{ unimplemented!() }
/// the children by path, each once
pub open spec fn kids_once(t: ObjectTree, s: int, v: Seq<int>) -> bool {
    &&& v.no_duplicates()
    &&& forall|i: int| #[trigger] v.contains(i) <==> 0 < i < t.len() && t.above(i) == s
}

@@fn obj::TypeRef::children
@sig <<<fn children(&self) -> Vec<TypeRef<'a>> >>>
@rewrite <<<self.children.values().map(move |&idx| TypeRef::new(self.tree, idx))>>> => <<<vx_children(&self.get().children, self.tree)>>>
@ret r
@spec
    requires self.wf(), self.tree.pathed(),
    ensures kids_once(*self.tree, self.idx.0 as int, nums(r@)), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).tree == self.tree,
@ghost end
    proof {
        let (t, s, o, m) = (*self.tree, self.idx.0 as int, self.ty().children.order(), self.ty().children@);
        assert(m == t.kids(s));
        assert forall|k: int| 0 <= k < o.len() implies #[trigger] m.contains_key(o[k]) by { assert(o.to_set().contains(o[k])); }
        let v = nums(vx_result@);
        assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && a != b implies v[a] != v[b] by {
            if v[a] == v[b] { assert(t.kids(s).contains_key(o[a]) && t.kids(s).contains_key(o[b])); joined_inj(t.path(s), o[a], t.path(s), o[b]); }
        }
        assert forall|i: int| #[trigger] v.contains(i) <==> 0 < i < t.len() && t.above(i) == s by {
            if v.contains(i) { let k = choose|k: int| 0 <= k < v.len() && v[k] == i; assert(t.kids(s).contains_key(o[k])); assert(vx_result@[k].idx.0 == i); }
            if 0 < i < t.len() && t.above(i) == s {
                assert(t.placed(i));
                let n = choose|n: Seq<char>| #[trigger] slashless(n) && t.path(i) == joined(t.path(t.above(i)), n) && t.kids(t.above(i)).contains_key(n) && t.kids(t.above(i))[n].0 == i;
                assert(o.to_set().contains(n));
                let k = choose|k: int| 0 <= k < o.len() && o[k] == n;
                assert(vx_result@[k].idx.0 == i);
                assert(v[k] == i);
            }
        }
    }

@@fn obj::TypeRef::recurse_types
@opt forslice
@sig <<<fn recurse_types(&self, f: &mut Vec<TypeRef<'a>>)>>>
@rewrite <<<f(*self)>>> => <<<f.push(*self)>>>
@rewrite optional <<<for child in self.children()>>> => <<<for child in &self.children()>>>
@rewrite optional <<<child.parent_type>>> => <<<child.get().parent_type>>>
@rewrite optional <<<&self.tree[parent_typed_idx]>>> => <<<self.tree.index(parent_typed_idx)>>>
@spec
    requires self.wf(), self.tree.listed(),
    ensures
        final(f)@.len() >= old(f)@.len(), final(f)@.subrange(0, old(f)@.len() as int) == old(f)@,
        subtree(parents(*self.tree), self.idx.0 as int, nums(final(f)@.skip(old(f)@.len() as int))),
        forall|k: int| old(f)@.len() <= k < final(f)@.len() ==> (#[trigger] final(f)@[k]).tree == self.tree,
    decreases self.tree.len() - self.chain().len(),
@loop 0
    invariant
        self.wf(), self.tree.listed(), t == *self.tree, up == parents(t), s == self.idx.0, n == old(f)@.len(), f@.len() >= n, f@.subrange(0, n as int) == old(f)@,
        0 <= vx_i0 <= vx_s0@.len(), kids_once(t, s, nums(vx_s0@)), forall|k: int| 0 <= k < vx_s0@.len() ==> (#[trigger] vx_s0@[k]).tree == self.tree,
        forall|k: int| n <= k < f@.len() ==> (#[trigger] f@[k]).tree == self.tree,
        parts(up, s, d, nums(f@.skip(n as int))), forall|c: int| d.contains(c) <==> nums(vx_s0@).take(vx_i0 as int).contains(c) && up[c] == s,
    decreases vx_s0@.len() - vx_i0,
@loop 1
    invariant
        self.wf(), self.tree.listed(), t == *self.tree, up == parents(t), s == self.idx.0, n == old(f)@.len(), f@.len() >= n, f@.subrange(0, n as int) == old(f)@,
        0 <= vx_i1 <= vx_s1@.len(), vx_s1@ == t.redirected_parent_types@,
        forall|k: int| n <= k < f@.len() ==> (#[trigger] f@[k]).tree == self.tree,
        parts(up, s, d, nums(f@.skip(n as int))), forall|c: int| 0 < c < up.len() && #[trigger] up[c] == s && t.above(c) == s ==> d.contains(c),
        forall|c: int| #[trigger] d.contains(c) ==> t.above(c) == s || exists|k: int| 0 <= k < vx_i1 && #[trigger] vx_s1@[k].0 == c,
        forall|k: int| 0 <= k < vx_i1 && up[(#[trigger] vx_s1@[k]).0 as int] == s ==> d.contains(vx_s1@[k].0 as int),
    decreases vx_s1@.len() - vx_i1,
@ghost start
    let ghost t = *self.tree;
    let ghost up = parents(t);
    let ghost s = self.idx.0 as int;
    let ghost n = f@.len();
    let ghost mut d = Seq::<int>::empty();
    proof { assert(f@.subrange(0, n as int) =~= f@); }
@ghost loop 0 before
    proof { assert(nums(f@.skip(n as int)) =~= seq![s]); assert(seq![s][0] == s); }
@ghost loop 0 start
    let ghost (f0, d0) = (f@, d);
    let ghost v = nums(vx_s0@);
    let ghost c = v[vx_i0 as int];
    proof {
        assert(v.contains(c));
        assert(vx_s0@[vx_i0 as int].idx.0 == c);
        if up[c] == s { assert(line(up, c) == seq![c] + line(up, up[c])); line_len(up, c); }
    }
@ghost loop 0 end
    proof {
        assert forall|k: int| n <= k < f@.len() implies (#[trigger] f@[k]).tree == self.tree by {
            if k < f0.len() { assert(f@[k] == f@.subrange(0, f0.len() as int)[k]); assert(f0[k].tree == self.tree); }
        }
        assert(v.take(vx_i0 as int) =~= v.take(vx_i0 - 1).push(c));
        push_has(v.take(vx_i0 - 1), c);
        push_has(d0, c);
        assert(!v.take(vx_i0 - 1).contains(c));
        if up[c] == s {
            let w = f@.skip(f0.len() as int);
            parts_more(up, s, d0, nums(f0.skip(n as int)), c, nums(w));
            assert(nums(f@.skip(n as int)) =~= nums(f0.skip(n as int)) + nums(w));
            d = d0.push(c);
        }
    }
@ghost loop 0 after
    proof {
        let v = nums(vx_s0@);
        assert(v.take(v.len() as int) =~= v);
        assert forall|c: int| #[trigger] d.contains(c) implies t.above(c) == s by { assert(v.contains(c)); }
        assert forall|c: int| 0 < c < up.len() && #[trigger] up[c] == s && t.above(c) == s implies d.contains(c) by { assert(v.contains(c)); }
    }
@ghost loop 1 start
    let ghost (f0, d0) = (f@, d);
    let ghost v = vx_s1@;
    let ghost c = v[vx_i1 as int].0 as int;
    proof {
        if up[c] == s { assert(line(up, c) == seq![c] + line(up, up[c])); line_len(up, c); }
        assert(t.up(c) == up[c]);
    }
@ghost loop 1 end
    proof {
        assert forall|k: int| n <= k < f@.len() implies (#[trigger] f@[k]).tree == self.tree by {
            if k < f0.len() { assert(f@[k] == f@.subrange(0, f0.len() as int)[k]); assert(f0[k].tree == self.tree); }
        }
        push_has(d0, c);
        assert(vx_s1@[vx_i1 - 1].0 == c);
        if up[c] == s {
            if d0.contains(c) {
                assert(t.up(c) != t.above(c));
                let k = choose|k: int| 0 <= k < vx_i1 - 1 && #[trigger] vx_s1@[k].0 == c;
                assert(vx_s1@[k] == vx_s1@[vx_i1 - 1]);
            }
            let w = f@.skip(f0.len() as int);
            parts_more(up, s, d0, nums(f0.skip(n as int)), c, nums(w));
            assert(nums(f@.skip(n as int)) =~= nums(f0.skip(n as int)) + nums(w));
            d = d0.push(c);
            assert(d[d0.len() as int] == c);
            assert forall|x: int| d0.contains(x) implies d.contains(x) by { let k = choose|k: int| 0 <= k < d0.len() && d0[k] == x; assert(d[k] == x); }
        }
    }
@ghost end
    proof {
        assert forall|c: int| 0 <= c < up.len() && #[trigger] up[c] == s implies d.contains(c) by {
            assert(t.up(c) == up[c]);
            if t.above(c) != s {
                assert(ids(t.redirected_parent_types@).contains(c));
                let k = choose|k: int| 0 <= k < t.redirected_parent_types@.len() && #[trigger] t.redirected_parent_types@[k].0 == c;
            }
        }
        parts_all(up, s, d, nums(f@.skip(n as int)));
    }

@@verbatim
impl<'a> TypeRef<'a> {
    /// the types that recurse_types visits
    pub fn vx_types(&self) -> (r: Vec<TypeRef<'a>>)
        requires self.wf(), self.tree.listed(),
        ensures subtree(parents(*self.tree), self.idx.0 as int, nums(r@)), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).tree == self.tree,
    {
        let mut v = Vec::new();
        self.recurse_types(&mut v);
        proof { assert(v@.skip(0) =~= v@); }
        v
    }
}
/// of the types v, those that define the proc, in order
pub open spec fn definers(t: ObjectTree, v: Seq<int>, name: Seq<char>) -> Seq<int> { v.filter(with_proc(t, name)) }
/// p is the last definition of the proc on type i
pub open spec fn last_def(p: ProcRef<'_>, t: &ObjectTree, i: int, name: Seq<char>) -> bool {
    &&& p.ty.tree == t && p.ty.idx.0 == i && t.has(i) && p.name@ == name && t.graph@[i].procs@.contains_key(name)
    &&& p.list@ == t.graph@[i].procs@[name].value@ && p.idx == p.list@.len() - 1
}
/// w has the last definition on each type below s (s too) that has one, each once
pub open spec fn overrides(t: &ObjectTree, s: int, name: Seq<char>, w: Seq<ProcRef<'_>>) -> bool {
    exists|v: Seq<int>| #[trigger] subtree(parents(*t), s, v) && w.len() == definers(*t, v, name).len()
        && forall|k: int| 0 <= k < w.len() ==> last_def(#[trigger] w[k], t, definers(*t, v, name)[k], name)
}
pub proof fn filter_push(v: Seq<int>, x: int, p: spec_fn(int) -> bool)
    ensures v.push(x).filter(p) == if p(x) { v.filter(p).push(x) } else { v.filter(p) },
{
    reveal(Seq::filter);
    assert(v.push(x).drop_last() =~= v);
}

@@fn obj::ProcRef::recurse_children
@opt visitloops visits
@sig <<<fn recurse_children(self, f: &mut Vec<ProcRef<'a>>)>>>
@rewrite <<<self.ty.recurse_types>>> => <<<self.ty.vx_types>>>
@spec
    requires self.ty.wf(), self.ty.tree.listed(), defined(*self.ty.tree),
    ensures exists|w: Seq<ProcRef<'_>>| #[trigger] overrides(self.ty.tree, self.ty.idx.0 as int, self.name@, w) && final(f)@ == old(f)@ + w,
@ghost start
    let ghost t = self.ty.tree;
    let ghost f0 = f@;
    let ghost mut w = Seq::<ProcRef<'a>>::empty();
@loop 0
    invariant
        t == self.ty.tree, self.ty.wf(), t.listed(), defined(*t), 0 <= vx_i0 <= vx_s0@.len(), f@ == f0 + w,
        subtree(parents(*t), self.ty.idx.0 as int, nums(vx_s0@)), forall|k: int| 0 <= k < vx_s0@.len() ==> (#[trigger] vx_s0@[k]).tree == t,
        w.len() == definers(*t, nums(vx_s0@).take(vx_i0 as int), self.name@).len(),
        forall|k: int| 0 <= k < w.len() ==> last_def(#[trigger] w[k], t, definers(*t, nums(vx_s0@).take(vx_i0 as int), self.name@)[k], self.name@),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 start
    let ghost v = nums(vx_s0@);
    let ghost c = v[vx_i0 as int];
    let ghost f1 = f@;
    let ghost w1 = w;
    let ghost p = with_proc(*t, self.name@);
    proof {
        assert(v.contains(c));
        assert(0 <= c < parents(*t).len());
        assert(v.take(vx_i0 + 1) =~= v.take(vx_i0 as int).push(c));
        filter_push(v.take(vx_i0 as int), c, p);
        if p(c) { assert(t.graph@[c].procs@[self.name@].value@.len() > 0); }
    }
@ghost loop 0 end
    proof {
        if p(c) {
            let x = f@[f1.len() as int];
            w = w1.push(x);
            assert(f@ =~= f0 + w);
            assert(last_def(x, t, c, self.name@));
        }
    }
@ghost loop 0 after
    proof {
        let v = nums(vx_s0@);
        assert(v.take(v.len() as int) =~= v);
        assert(overrides(t, self.ty.idx.0 as int, self.name@, w));
    }

@@fn obj::ProcRef::recurse_children_within
@opt visitloops visits
@sig <<<fn recurse_children_within(self, src: TypeRef<'a>, f: &mut Vec<ProcRef<'a>>)>>>
@rewrite <<<src.recurse_types>>> => <<<src.vx_types>>>
@spec
    requires src.wf(), src.tree.listed(), defined(*src.tree),
    ensures exists|w: Seq<ProcRef<'_>>| #[trigger] overrides(src.tree, src.idx.0 as int, self.name@, w) && final(f)@ == old(f)@ + w,
@ghost start
    let ghost t = src.tree;
    let ghost f0 = f@;
    let ghost mut w = Seq::<ProcRef<'a>>::empty();
@loop 0
    invariant
        t == src.tree, src.wf(), t.listed(), defined(*t), 0 <= vx_i0 <= vx_s0@.len(), f@ == f0 + w,
        subtree(parents(*t), src.idx.0 as int, nums(vx_s0@)), forall|k: int| 0 <= k < vx_s0@.len() ==> (#[trigger] vx_s0@[k]).tree == t,
        w.len() == definers(*t, nums(vx_s0@).take(vx_i0 as int), self.name@).len(),
        forall|k: int| 0 <= k < w.len() ==> last_def(#[trigger] w[k], t, definers(*t, nums(vx_s0@).take(vx_i0 as int), self.name@)[k], self.name@),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 start
    let ghost v = nums(vx_s0@);
    let ghost c = v[vx_i0 as int];
    let ghost f1 = f@;
    let ghost w1 = w;
    let ghost p = with_proc(*t, self.name@);
    proof {
        assert(v.contains(c));
        assert(0 <= c < parents(*t).len());
        assert(v.take(vx_i0 + 1) =~= v.take(vx_i0 as int).push(c));
        filter_push(v.take(vx_i0 as int), c, p);
        if p(c) { assert(t.graph@[c].procs@[self.name@].value@.len() > 0); }
    }
@ghost loop 0 end
    proof {
        if p(c) {
            let x = f@[f1.len() as int];
            w = w1.push(x);
            assert(f@ =~= f0 + w);
            assert(last_def(x, t, c, self.name@));
        }
    }
@ghost loop 0 after
    proof {
        let v = nums(vx_s0@);
        assert(v.take(v.len() as int) =~= v);
        assert(overrides(t, src.idx.0 as int, self.name@, w));
    }

@@verbatim
// ---------------------------------------------------------------- along paths
pub open spec fn aboves(t: ObjectTree) -> Seq<int> { Seq::new(t.graph@.len(), |i: int| t.above(i)) }
pub proof fn paths_loopless(t: ObjectTree)
    requires t.pathed(),
    ensures loopless(aboves(t)),
{
    let up = aboves(t);
    assert forall|i: int| 0 <= i < up.len() && 0 <= #[trigger] up[i] < up.len() implies up[i] < i by { if i > 0 { assert(t.placed(i)); } }
    assert(ranked(up, |i: int| i as nat));
}
pub open spec fn has_kid(t: ObjectTree, name: Seq<char>) -> spec_fn(int) -> bool { |i: int| t.kids(i).contains_key(name) }

@@fn obj::TypeRef::recurse
@opt forslice
@sig <<<fn recurse(&self, f: &mut Vec<TypeRef<'a>>)>>>
@rewrite <<<f(*self)>>> => <<<f.push(*self)>>>
@rewrite optional <<<for child in self.children()>>> => <<<for child in &self.children()>>>
@spec
    requires self.wf(), self.tree.pathed(),
    ensures
        final(f)@.len() >= old(f)@.len(), final(f)@.subrange(0, old(f)@.len() as int) == old(f)@,
        subtree(aboves(*self.tree), self.idx.0 as int, nums(final(f)@.skip(old(f)@.len() as int))),
        forall|k: int| old(f)@.len() <= k < final(f)@.len() ==> (#[trigger] final(f)@[k]).tree == self.tree,
    decreases self.tree.len() - self.idx.0,
@loop 0
    invariant
        self.wf(), self.tree.pathed(), t == *self.tree, up == aboves(t), s == self.idx.0, n == old(f)@.len(), f@.len() >= n, f@.subrange(0, n as int) == old(f)@, loopless(up),
        0 <= vx_i0 <= vx_s0@.len(), kids_once(t, s, nums(vx_s0@)), forall|k: int| 0 <= k < vx_s0@.len() ==> (#[trigger] vx_s0@[k]).tree == self.tree,
        forall|k: int| n <= k < f@.len() ==> (#[trigger] f@[k]).tree == self.tree,
        parts(up, s, d, nums(f@.skip(n as int))), forall|c: int| d.contains(c) <==> nums(vx_s0@).take(vx_i0 as int).contains(c),
    decreases vx_s0@.len() - vx_i0,
@ghost start
    let ghost t = *self.tree;
    let ghost up = aboves(t);
    let ghost s = self.idx.0 as int;
    let ghost n = f@.len();
    let ghost mut d = Seq::<int>::empty();
    proof { assert(f@.subrange(0, n as int) =~= f@); paths_loopless(t); }
@ghost loop 0 before
    proof { assert(nums(f@.skip(n as int)) =~= seq![s]); assert(seq![s][0] == s); }
@ghost loop 0 start
    let ghost (f0, d0) = (f@, d);
    let ghost v = nums(vx_s0@);
    let ghost c = v[vx_i0 as int];
    proof {
        assert(v.contains(c));
        assert(vx_s0@[vx_i0 as int].idx.0 == c);
        assert(t.placed(c));
    }
@ghost loop 0 end
    proof {
        assert forall|k: int| n <= k < f@.len() implies (#[trigger] f@[k]).tree == self.tree by {
            if k < f0.len() { assert(f@[k] == f@.subrange(0, f0.len() as int)[k]); assert(f0[k].tree == self.tree); }
        }
        assert(v.take(vx_i0 as int) =~= v.take(vx_i0 - 1).push(c));
        push_has(v.take(vx_i0 - 1), c);
        push_has(d0, c);
        assert(!v.take(vx_i0 - 1).contains(c));
        let w = f@.skip(f0.len() as int);
        parts_more(up, s, d0, nums(f0.skip(n as int)), c, nums(w));
        assert(nums(f@.skip(n as int)) =~= nums(f0.skip(n as int)) + nums(w));
        d = d0.push(c);
    }
@ghost loop 0 after
    proof {
        let v = nums(vx_s0@);
        assert(v.take(v.len() as int) =~= v);
        assert forall|c: int| 0 <= c < up.len() && #[trigger] up[c] == s implies d.contains(c) by { assert(v.contains(c)); }
        parts_all(up, s, d, nums(f@.skip(n as int)));
    }

@@fn obj::TypeRef::navigate
@opt forslice
@ret r
@rewrite <<<for &idx in self.children.values()>>> => <<<for &idx in &self.get().children.vx_values()>>>
@spec
    requires self.wf(), self.tree.pathed(),
    ensures
        r matches Some(x) ==> x.tree == self.tree && x.wf(),
        op is Slash ==> match r { Some(x) => self.tree.kids(self.idx.0 as int).contains_key(name@) && x.idx == self.tree.kids(self.idx.0 as int)[name@], None => !self.tree.kids(self.idx.0 as int).contains_key(name@) },
        op is Dot ==> match r {
            Some(x) => exists|k: int| #[trigger] first_of(line(aboves(*self.tree), self.idx.0 as int), k, has_kid(*self.tree, name@)) && x.idx == self.tree.kids(line(aboves(*self.tree), self.idx.0 as int)[k])[name@],
            None => none_of(line(aboves(*self.tree), self.idx.0 as int), has_kid(*self.tree, name@)),
        },
        op is Colon ==> match r {
            Some(x) => (self.tree.kids(self.idx.0 as int).contains_key(name@) ==> x.idx == self.tree.kids(self.idx.0 as int)[name@])
                && exists|i: int| 0 <= i < self.tree.len() && below(aboves(*self.tree), self.idx.0 as int, i) && #[trigger] has_kid(*self.tree, name@)(i) && x.idx == self.tree.kids(i)[name@],
            None => forall|i: int| 0 <= i < self.tree.len() && below(aboves(*self.tree), self.idx.0 as int, i) ==> !#[trigger] has_kid(*self.tree, name@)(i),
        },
    decreases self.tree.len() - self.idx.0,
@ghost start
    let ghost t = *self.tree;
    let ghost up = aboves(t);
    let ghost s = self.idx.0 as int;
    let ghost c = line(up, s);
    let ghost mut k = 0int;
    proof { paths_loopless(t); assert(c[0] == s); assert(has_kid(t, name@)(s) == t.kids(s).contains_key(name@)); }
@loop 0
    invariant
        op is Dot, self.wf(), t == *self.tree, t.pathed(), up == aboves(t), loopless(up), s == self.idx.0, c == line(up, s), 0 <= k <= c.len(),
        forall|j: int| 0 <= j < k ==> !has_kid(t, name@)(#[trigger] c[j]),
        match next { Some(ty) => k < c.len() && ty.idx.0 == c[k] && ty.tree == self.tree && ty.wf(), None => k == c.len() },
    ensures next is None,
    decreases c.len() - k,
@ghost loop 0 start
    proof { assert(has_kid(t, name@)(c[k]) ==> first_of(c, k, has_kid(t, name@))); }
@ghost loop 0 end
    proof { line_tail(up, s, k + 1); if c[k] == 0 { if k + 1 < c.len() { assert(up[c[k]] == 0xffff_ffff); } } else { assert(t.placed(c[k])); line_tail(up, s, k); if k + 1 == c.len() { } } k = k + 1; }
@loop 1
    invariant
        op is Colon, self.wf(), t == *self.tree, t.pathed(), up == aboves(t), loopless(up), s == self.idx.0, !t.kids(s).contains_key(name@), self.ty().children@ == t.kids(s),
        0 <= vx_i0 <= vx_s0@.len(), o == self.ty().children.order(), o.to_set() == t.kids(s).dom(), vx_s0@.len() == o.len(), forall|k: int| 0 <= k < o.len() ==> #[trigger] vx_s0@[k] == t.kids(s)[o[k]],
        forall|k: int, i: int| 0 <= k < vx_i0 && 0 <= i < t.len() && #[trigger] below(up, vx_s0@[k].0 as int, i) ==> !#[trigger] has_kid(t, name@)(i),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 1 before
    let ghost o = self.ty().children.order();
@ghost loop 1 start
    proof {
        let n = o[vx_i0 as int];
        assert(o.to_set().contains(n));
        assert(t.kids(s).contains_key(n));
        let ch = vx_s0@[vx_i0 as int].0 as int;
        assert forall|i: int| 0 <= i < t.len() && below(up, ch, i) implies below(up, s, i) by { below_child(up, ch, s, i); }
        assert(line(up, ch)[0] == ch);
    }
@ghost loop 1 after
    proof {
        assert forall|i: int| 0 <= i < t.len() && below(up, s, i) implies !#[trigger] has_kid(t, name@)(i) by {
            if i != s {
                let ch = child_above(up, s, i);
                assert(t.placed(ch));
                let n = choose|n: Seq<char>| #[trigger] slashless(n) && t.path(ch) == joined(t.path(t.above(ch)), n) && t.kids(t.above(ch)).contains_key(n) && t.kids(t.above(ch))[n].0 == ch;
                assert(o.to_set().contains(n));
                let k = choose|k: int| 0 <= k < o.len() && o[k] == n;
                assert(below(up, vx_s0@[k].0 as int, i));
            }
        }
    }

@@verbatim
// ---------------------------------------------------------------- definitions
#[verifier::external_body]
pub fn vx_params(v: Vec<Parameter>) -> (r: Parameters) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub struct Parameter { _x: u8 }
impl Parameters { pub uninterp spec fn view(&self) -> Seq<Parameter>; }
/// v is what was said
pub open spec fn said(v: ProcValue, location: Location, parameters: Vec<Parameter>, code: Option<Block>, body_range: Option<BodyRange>) -> bool {
    v.location == location && v.parameters@ == parameters@ && v.code == code && v.body_range == body_range
}
pub open spec fn proc_at(t: ObjectTree, i: int, name: Seq<char>) -> TypeProc { t.graph@[i].procs@[name] }
/// the definitions so far
pub open spec fn procs_before(t: ObjectTree, i: int, name: Seq<char>) -> Seq<ProcValue> { if t.graph@[i].procs@.contains_key(name) { proc_at(t, i, name).value@ } else { seq![] } }
pub open spec fn decl_before(t: ObjectTree, i: int, name: Seq<char>) -> Option<ProcDeclaration> { if t.graph@[i].procs@.contains_key(name) { proc_at(t, i, name).declaration } else { None } }
/// in type i, only its procs have changed, and only the one called name
pub open spec fn only_proc(a: ObjectTree, b: ObjectTree, i: int, name: Seq<char>) -> bool {
    &&& b.len() == a.len() && b.types == a.types && b.redirected_parent_types == a.redirected_parent_types
    &&& forall|j: int| a.has(j) && j != i ==> #[trigger] b.graph@[j] == a.graph@[j]
    &&& b.graph@[i] == (Type { procs: b.graph@[i].procs, ..a.graph@[i] })
    &&& b.graph@[i].procs@ == a.graph@[i].procs@.insert(name, proc_at(b, i, name))
}

@@fn obj::ObjectTreeBuilder::register_proc
@opt guards
@sig <<<fn register_proc(&mut self, context: &Context, location: Location, parent: NodeIndex, name: &Ident, declaration: Option<ProcDeclBuilder>, parameters: Vec<Parameter>, return_type: ProcReturnType, code: Option<Block>, body_range: Option<BodyRange>) -> Result<usize, DMError>>>>
@ret r
@rewrite <<<node.procs.entry(name.clone()).or_insert_with(|| TypeProc { value: Vec::with_capacity(1), declaration: None, })>>> => <<<node.procs.entry_or(name.clone(), TypeProc { value: Vec::new(), declaration: None, })>>>
@rewrite optional <<<parameters.into()>>> => <<<vx_params(parameters)>>>
@rewrite optional <<<docs: Default::default()>>> => <<<docs: vx_docs()>>>
@rewrite <<<Ok((len, proc.value.first_mut().unwrap()))>>> => <<<Ok(len)>>>
@rewrite <<<Ok((len, proc.value.last_mut().unwrap()))>>> => <<<Ok(len)>>>
@spec
    requires old(self).inner.has(parent.0 as int), old(self).symbols.0.0 < u32::MAX,
    ensures
        only_proc(old(self).inner, final(self).inner, parent.0 as int, name@),
        // the definition comes first, overrides follow in the order they were met
        r matches Ok(n) && n == procs_before(old(self).inner, parent.0 as int, name@).len(),
        exists|v: ProcValue| #[trigger] said(v, location, parameters, code, body_range) && proc_at(final(self).inner, parent.0 as int, name@).value@ ==
            if declaration is Some { seq![v] + procs_before(old(self).inner, parent.0 as int, name@) } else { procs_before(old(self).inner, parent.0 as int, name@).push(v) },
        // the first declaration counts
        match (declaration, decl_before(old(self).inner, parent.0 as int, name@)) {
            (Some(d), None) => proc_at(final(self).inner, parent.0 as int, name@).declaration matches Some(e) && e.location == location && e.kind == d.kind && e.flags == d.flags && e.id == old(self).symbols.0,
            (_, d) => proc_at(final(self).inner, parent.0 as int, name@).declaration == d,
        },
@ghost after <<<let value>>>
    let ghost made = value;
    let ghost was = proc.value@;
@ghost end
    proof {
        assert(said(made, location, parameters, code, body_range));
        let now = proc_at(self.inner, parent.0 as int, name@).value@;
        assert(was =~= procs_before(old(self).inner, parent.0 as int, name@));
        assert(declaration is Some ==> now =~= seq![made] + was);
    }

@@fn obj::ObjectTreeBuilder::insert_var
@ret r
@rewrite optional <<<self.inner[ty].vars.entry>>> => <<<self.inner.graph[ty.index()].vars.entry>>>
@rewrite <<<indexmap::map::Entry::Vacant>>> => <<<VxEntry::Vacant>>>
@rewrite <<<indexmap::map::Entry::Occupied>>> => <<<VxEntry::Occupied>>>
@rewrite <<<slot.into_mut()>>> => <<<slot>>>
@spec
    requires old(self).inner.has(ty.0 as int),
    ensures
        *r == (TypeVar { value, declaration: if declaration is Some { declaration } else { var_decl_before(old(self).inner, ty.0 as int, name@) } }),
        final(self).symbols == old(self).symbols, only_var(old(self).inner, final(self).inner, ty.0 as int, name@),
        final(self).inner.graph@[ty.0 as int].vars@[name@] == *final(r),

@@verbatim
pub open spec fn only_var(a: ObjectTree, b: ObjectTree, i: int, name: Seq<char>) -> bool {
    &&& b.len() == a.len() && b.types == a.types && b.redirected_parent_types == a.redirected_parent_types
    &&& forall|j: int| a.has(j) && j != i ==> #[trigger] b.graph@[j] == a.graph@[j]
    &&& b.graph@[i] == (Type { vars: b.graph@[i].vars, ..a.graph@[i] })
    &&& b.graph@[i].vars@ == a.graph@[i].vars@.insert(name, b.graph@[i].vars@[name])
}
pub open spec fn var_decl_before(t: ObjectTree, i: int, name: Seq<char>) -> Option<VarDeclaration> { if t.graph@[i].vars@.contains_key(name) { t.graph@[i].vars@[name].declaration } else { None } }
