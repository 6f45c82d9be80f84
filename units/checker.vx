@@header
use vstd::prelude::*;
use vstd::multiset::Multiset;

@@source chk crates/dreamchecker/src/lib.rs

@@known error
@@known static_type
@@known AnalyzeObjectTree::static_type
@@known Analysis::empty
@@known AnalyzeProc::visit_call
@@known AnalyzeProc::visit_arguments
@@known AnalyzeProc::check_type_sleepers
@@known AnalyzeProc::visit_expression

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins: what the checker sees of the object tree (the lookups are under contract in unit objtree)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Location { pub l: u64 }
impl Location {
    pub uninterp spec fn builtin(self) -> bool;
    #[verifier::external_body]
    pub fn is_builtins(self) -> (r: bool) ensures r == self.builtin() { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Severity { Error = 1, Warning = 2, Info = 3, Hint = 4 }
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait Same { spec fn same(&self, o: &Self) -> bool; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VarFlags { _x: u8 }
impl VarFlags {
    pub uninterp spec fn fin(self) -> bool;
    pub uninterp spec fn private(self) -> bool;
    pub uninterp spec fn protected(self) -> bool;
    #[verifier::external_body]
    pub fn is_final(self) -> (r: bool) ensures r == self.fin() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_private(self) -> (r: bool) ensures r == self.private() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_protected(self) -> (r: bool) ensures r == self.protected() { unimplemented!() }
}
pub struct VarType { pub flags: VarFlags }
pub struct VarDeclaration { pub location: Location, pub var_type: VarType }
pub struct VarValue { pub location: Location }
pub struct TypeVar { pub value: VarValue, pub declaration: Option<VarDeclaration> }
pub struct ProcValue { pub location: Location }
pub struct ProcDeclaration { pub location: Location }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeRef { pub i: u32 }
impl TypeRef {
    pub uninterp spec fn path(self) -> Seq<char>;
    pub uninterp spec fn root(self) -> bool;
    /// the type and its ancestors, nearest first
    pub uninterp spec fn line(self) -> Seq<TypeRef>;
    pub uninterp spec fn vars(self) -> Seq<(Ident, TypeVar)>;
    pub uninterp spec fn var(self, n: Seq<char>) -> Option<TypeVar>;
    #[verifier::external_body]
    pub fn vx_path(&self) -> (r: &'static str) ensures r@ == self.path() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_root(&self) -> (r: bool) ensures r == self.root() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_parent_types(&self) -> (r: Vec<TypeRef>) ensures r@ == self.line() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_vars(&self) -> (r: Vec<(Ident, TypeVar)>) ensures r@ == self.vars() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_var(&self, n: &Ident) -> (r: Option<&'static TypeVar>) ensures match r { Some(v) => self.var(n@) == Some(*v), None => self.var(n@) is None } { unimplemented!() }
    /// the address of a type stands for it
    pub fn get(self) -> (r: TypeRef) ensures r == self { self }
    #[verifier::external_body]
    pub fn is_subtype_of(self, t: TypeRef) -> (r: bool) ensures r == self.line().contains(t) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProcRef { pub i: u32 }
impl ProcRef {
    /// the definition and those that ..() runs from it, in order
    pub uninterp spec fn line(self) -> Seq<ProcRef>;
    pub uninterp spec fn of(self) -> TypeRef;
    pub uninterp spec fn value(self) -> ProcValue;
    pub uninterp spec fn decl(self) -> Option<ProcDeclaration>;
    pub uninterp spec fn builtin(self) -> bool;
    pub open spec fn at(self) -> Location { self.value().location }
    pub open spec fn parent(self) -> Option<ProcRef> { if self.line().len() > 1 { Some(self.line()[1]) } else { None } }
    #[verifier::external_body]
    pub fn parent_proc(self) -> (r: Option<ProcRef>) ensures r == self.parent(), match r { Some(p) => self.line() == seq![self] + p.line(), None => self.line() == seq![self] } { unimplemented!() }
    #[verifier::external_body]
    pub proof fn line_starts(self) ensures self.line().len() > 0, self.line()[0] == self { }
    /// what parent_proc returns (proved in unit objtree)
    #[verifier::external_body]
    pub proof fn line_steps(self) requires self.line().len() > 1 ensures self.line() == seq![self] + self.line()[1].line(), self.line().skip(1) == self.line()[1].line() { }
    #[verifier::external_body]
    pub fn ty(self) -> (r: TypeRef) ensures r == self.of() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: &'static ProcValue) ensures *r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_declaration(self) -> (r: Option<&'static ProcDeclaration>) ensures match r { Some(d) => self.decl() == Some(*d), None => self.decl() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_builtin(self) -> (r: bool) ensures r == self.builtin() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: ProcRef) ensures r == self { unimplemented!() }
}
#[verifier::external_body]
pub struct ObjectTree { _x: u8 }
impl ObjectTree {
    pub uninterp spec fn types(&self) -> Seq<TypeRef>;
    #[verifier::external_body]
    pub fn iter_types(&self) -> (r: Vec<TypeRef>) ensures r@ == self.types() { unimplemented!() }
}
/// HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxHash<K, V> { _x: Vec<(K, V)> }
impl<K, V> VxHash<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
/// one diagnostic: its place, type and notes' places (the wording is not specified)
pub ghost struct Report { pub at: Location, pub kind: Option<Seq<char>>, pub notes: Seq<Location> }
pub open spec fn rep(at: Location, kind: Seq<char>, note: Location) -> Report { Report { at, kind: Some(kind), notes: seq![note] } }
pub open spec fn bare(at: Location, kind: Seq<char>) -> Report { Report { at, kind: Some(kind), notes: seq![] } }
#[verifier::external_body]
pub struct DMError { _x: u8 }
pub enum Component { Unspecified, DreamChecker }
impl DMError {
    pub uninterp spec fn view(&self) -> Report;
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) ensures r@ == (Report { at: l, kind: None, notes: seq![] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) ensures r@ == (Report { notes: self@.notes.push(l), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype(self, s: &'static str) -> (r: DMError) ensures r@ == (Report { kind: Some(s@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_component(self, c: Component) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &mut Context) ensures final(c)@ == old(c)@.insert(self@), final(c).calls() == old(c).calls() { unimplemented!() }
}
#[verifier::external_body]
pub fn error<S>(l: Location, s: S) -> (r: DMError) ensures r@ == (Report { at: l, kind: None, notes: seq![] }) { unimplemented!() }
pub ghost struct Call { pub at: Location, pub src: TypeRef, pub proc: ProcRef, pub exact: bool, pub inherit: bool }
/// the diagnostics registered so far
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context {
    pub uninterp spec fn view(&self) -> Multiset<Report>;
    /// the calls handed to visit_call so far (what it says about them and their arguments is not in the view)
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    #[verifier::external_body]
    pub fn register_error(&mut self, e: DMError) ensures final(self)@ == old(self)@.insert(e@), final(self).calls() == old(self).calls() { unimplemented!() }
}
pub trait Chars { spec fn chars(&self) -> Seq<char>; }
impl Chars for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl Chars for Ident { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<T: Chars + ?Sized> Chars for &T { open spec fn chars(&self) -> Seq<char> { (**self).chars() } }
#[verifier::external_body]
pub fn vx_str_eq<A: Chars, B: Chars>(a: A, b: B) -> (r: bool) ensures r == (a.chars() == b.chars()) { unimplemented!() }

// ---------------------------------------------------------------- sums of reports
pub open spec fn when(b: bool, r: Report) -> Multiset<Report> { if b { Multiset::singleton(r) } else { Multiset::empty() } }
pub open spec fn sum(n: int, f: spec_fn(int) -> Multiset<Report>) -> Multiset<Report>
    decreases n,
{ if n <= 0 { Multiset::empty() } else { sum(n - 1, f).add(f(n - 1)) } }

// ---------------------------------------------------------------- vars
/// what is said about a var of type t that its ancestor p also has
pub open spec fn var_said(t: TypeRef, p: TypeRef, n: Seq<char>, v: TypeVar) -> Multiset<Report> {
    if n == "vars"@ || (t.path() == "/client"@ && n == "parent_type"@) { Multiset::empty() }
    else { match p.var(n) {
        Some(TypeVar { declaration: Some(d), .. }) =>
            if v.declaration is Some && v.value.location.builtin() { Multiset::empty() }
            else {
                when(v.declaration is Some, Report { at: v.declaration->0.location, kind: None, notes: seq![d.location] })
                    .add(when(d.var_type.flags.fin(), rep(v.value.location, "final_var"@, d.location)))
                    .add(when(d.var_type.flags.private(), rep(v.value.location, "private_var"@, d.location)))
            },
        _ => Multiset::empty(),
    } }
}
/// the ancestors below the root
pub open spec fn below_root(l: Seq<TypeRef>) -> Seq<TypeRef>
    decreases l.len(),
{ if l.len() == 0 || l[0].root() { seq![] } else { seq![l[0]] + below_root(l.skip(1)) } }
pub proof fn below_at(l: Seq<TypeRef>, k: int)
    requires 0 <= k <= l.len(), forall|j: int| 0 <= j < k ==> !(#[trigger] l[j]).root(),
    ensures below_root(l) =~= l.take(k) + below_root(l.skip(k)),
    decreases k,
{
    if k == 0 { assert(l.skip(0) =~= l); } else {
        below_at(l.skip(1), k - 1);
        assert(l.skip(1).skip(k - 1) =~= l.skip(k));
        assert(l.take(k) =~= seq![l[0]] + l.skip(1).take(k - 1));
    }
}
pub open spec fn pair_said(t: TypeRef, p: TypeRef) -> Multiset<Report> {
    if p.path() == t.path() { Multiset::empty() } else { sum(t.vars().len() as int, by_var(t, p)) }
}
pub open spec fn by_var(t: TypeRef, p: TypeRef) -> spec_fn(int) -> Multiset<Report> { |k: int| var_said(t, p, t.vars()[k].0@, t.vars()[k].1) }
pub open spec fn by_pair(t: TypeRef) -> spec_fn(int) -> Multiset<Report> { |k: int| pair_said(t, below_root(t.line())[k]) }
pub open spec fn by_type(o: ObjectTree) -> spec_fn(int) -> Multiset<Report> { |k: int| type_said(o.types()[k]) }
pub open spec fn type_said(t: TypeRef) -> Multiset<Report> { sum(below_root(t.line()).len() as int, by_pair(t)) }
pub open spec fn vars_said(o: ObjectTree) -> Multiset<Report> { sum(o.types().len() as int, by_type(o)) }
pub proof fn sum_same(n: int, f: spec_fn(int) -> Multiset<Report>, g: spec_fn(int) -> Multiset<Report>)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k),
    ensures sum(n, f) == sum(n, g),
    decreases n,
{ if n > 0 { sum_same(n - 1, f, g); assert(f(n - 1) == g(n - 1)); } }

@@fn chk::check_var_defs
@sig <<<fn check_var_defs(objtree: &ObjectTree, context: &mut Context)>>>
@opt forslice
@rewrite <<<objtree.iter_types()>>> => <<<&objtree.iter_types()>>>
@rewrite <<<typeref.iter_parent_types()>>> => <<<&typeref.iter_parent_types()>>>
@rewrite <<<typeref.vars.iter()>>> => <<<&typeref.vx_vars()>>>
@rewrite <<<parent.vars.get(varname)>>> => <<<parent.vx_var(varname)>>>
@rewrite <<<&typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite <<<&parent.path == path>>> => <<<vx_str_eq(parent.vx_path(), path)>>>
@rewrite <<<varname == "vars">>> => <<<vx_str_eq(varname, "vars")>>>
@rewrite <<<path == "/client">>> => <<<vx_str_eq(path, "/client")>>>
@rewrite <<<varname == "parent_type">>> => <<<vx_str_eq(varname, "parent_type")>>>
@rewrite <<<parent.path>>> => <<<parent.vx_path()>>>
@spec
    ensures final(context)@ == old(context)@.add(vars_said(*objtree)),
@loop 0
    invariant
        vx_s2@ == objtree.types(), 0 <= vx_i2 <= vx_s2@.len(), f2 == by_type(*objtree),
        context@ =~= c0.add(sum(vx_i2 as int, f2)),
    decreases vx_s2@.len() - vx_i2,
@loop 1
    invariant_except_break
        forall|j: int| 0 <= j < vx_i1 ==> !(#[trigger] vx_s1@[j]).root(),
        below_root(vx_s1@) =~= vx_s1@.take(vx_i1 as int) + below_root(vx_s1@.skip(vx_i1 as int)),
        context@ =~= c1.add(sum(vx_i1 as int, f1)),
    invariant
        vx_s1@ == typeref.line(), 0 <= vx_i1 <= vx_s1@.len(), path@ == typeref.path(), f1 == by_pair(*typeref),
    ensures
        context@ =~= c1.add(type_said(*typeref)),
    decreases vx_s1@.len() - vx_i1,
@loop 2
    invariant
        vx_s0@ == typeref.vars(), 0 <= vx_i0 <= vx_s0@.len(), path@ == typeref.path(), f0 == by_var(*typeref, *parent),
        context@ =~= d1.add(sum(vx_i0 as int, f0)),
    decreases vx_s0@.len() - vx_i0,
@ghost start
    let ghost c0 = context@;
    let ghost f2 = by_type(*objtree);
@ghost loop 0 start
    let ghost c1 = context@;
    let ghost tt = vx_s2@[vx_i2 as int];
    let ghost f1 = by_pair(tt);
    proof { below_at(tt.line(), 0); }
@ghost loop 0 end
    proof { assert(f2(vx_i2 - 1) == type_said(*typeref)); }
@ghost loop 1 start
    let ghost d1 = context@;
    let ghost pp = vx_s1@[vx_i1 as int];
    let ghost f0 = by_var(*typeref, pp);
    let ghost l = typeref.line();
    proof {
        below_at(l, vx_i1 as int);
        if l[vx_i1 as int].root() {
            assert(below_root(l.skip(vx_i1 as int)) =~= seq![]);
        } else {
            below_at(l, vx_i1 + 1);
            assert(below_root(l)[vx_i1 as int] == pp);
            assert(f1(vx_i1 as int) == pair_said(*typeref, pp));
        }
    }
@ghost loop 1 end
    proof { assert(f1(vx_i1 - 1) == pair_said(*typeref, *parent)); below_at(typeref.line(), vx_i1 as int); }
@ghost loop 1 after
    proof { assert(context@ =~= c1.add(type_said(*typeref))); }
@ghost loop 2 start
    let ghost m = context@;
    proof {
        assert(f0(vx_i0 as int) == var_said(*typeref, *parent, vx_s0@[vx_i0 as int].0@, vx_s0@[vx_i0 as int].1));
        assert(m.add(Multiset::empty()) =~= m);
    }

@@type chk::ProcDirective
@rewrite <<<ProcDirective<'o>>>> => <<<ProcDirective>>>
@rewrite <<<HashMap<ProcRef<'o>, (bool, Location)>>>> => <<<VxHash<ProcRef, (bool, Location)>>>>
@@verbatim
// ---------------------------------------------------------------- directives
pub type Marks = Map<ProcRef, (bool, Location)>;
/// the setting of the first of l that has one
pub open spec fn nearest(m: Marks, l: Seq<ProcRef>) -> Option<(ProcRef, bool, Location)>
    decreases l.len(),
{ if l.len() == 0 { None } else if m.contains_key(l[0]) { Some((l[0], m[l[0]].0, m[l[0]].1)) } else { nearest(m, l.skip(1)) } }
/// may be switched off; belongs to the first definition; may be set on global procs
pub ghost struct Flags { pub disable: bool, pub first: bool, pub global: bool }
pub open spec fn refusal(f: Flags, m: Marks, p: ProcRef, on: bool, at: Location) -> Option<Report> {
    if p.of().root() && !f.global { Some(bare(at, "incompatible_directive"@)) }
    else if !on && !f.disable { Some(bare(at, "disabled_directive"@)) }
    else if m.contains_key(p) { Some(rep(at, "sets_directive_twice"@, m[p].1)) }
    else { None }
}
impl ProcDirective {
    pub open spec fn view(&self) -> Marks { self.directive@ }
    /// what is wrong with setting the directive here
    pub open spec fn refused(&self, p: ProcRef, on: bool, at: Location) -> Option<Report> { refusal(self.flags(), self@, p, on, at) }
    pub open spec fn flags(&self) -> Flags { Flags { disable: self.can_be_disabled, first: self.set_at_definition, global: self.can_be_global } }
    pub open spec fn kept(&self, o: &Self) -> bool { self.can_be_disabled == o.can_be_disabled && self.set_at_definition == o.set_at_definition && self.can_be_global == o.can_be_global }
}

@@fn chk::ProcDirective::new
@impl <<<impl ProcDirective>>>
@sig <<<fn new(directive_string: &'static str, can_be_disabled: bool, set_at_definition: bool, can_be_global: bool) -> ProcDirective>>>
@ret r
@rewrite <<<Default::default()>>> => <<<VxHash::new()>>>
@spec
    ensures r@ == Map::<ProcRef, (bool, Location)>::empty(), r.can_be_disabled == can_be_disabled, r.set_at_definition == set_at_definition, r.can_be_global == can_be_global,

@@fn chk::ProcDirective::insert
@impl <<<impl ProcDirective>>>
@ret r
@sig <<<fn insert(&mut self, proc: ProcRef, enable: bool, location: Location) -> Result<(), DMError> >>>
@spec
    ensures
        final(self).kept(old(self)),
        match r {
            Ok(_) => old(self).refused(proc, enable, location) is None && final(self)@ == old(self)@.insert(proc, (enable, location)),
            Err(e) => old(self).refused(proc, enable, location) == Some(e@) && final(self)@ == old(self)@,
        },
@ghost start
    proof { assert(forall|l: Location| Seq::<Location>::empty().push(l) =~= seq![l]); }

@@fn chk::ProcDirective::get
@impl <<<impl ProcDirective>>>
@sig <<<fn get(&self, proc: ProcRef) -> Option<&(bool, Location)> >>>
@ret r
@spec
    ensures match r { Some(v) => self@.contains_key(proc) && *v == self@[proc], None => !self@.contains_key(proc) },

@@fn chk::ProcDirective::get_self_or_parent
@impl <<<impl ProcDirective>>>
@sig <<<fn get_self_or_parent(&self, proc: ProcRef) -> Option<(ProcRef, bool, Location)> >>>
@ret r
@spec
    ensures r == nearest(self@, proc.line()),
@loop 0
    invariant
        nearest(self@, proc.line()) == match next { Some(p) => nearest(self@, p.line()), None => None },
        next is Some ==> next->0.line().len() > 0,
    ensures
        next is None,
    decreases match next { Some(p) => p.line().len() + 1, None => 0 },
@ghost start
    proof { proc.line_starts(); }
@ghost loop 0 start
    proof { reveal_with_fuel(nearest, 2); let p = next->0; p.line_starts(); if p.line().len() > 1 { p.line_steps(); } else { assert(p.line().skip(1) =~= seq![]); } }

@@fn chk::ProcDirective::try_copy_from_parent
@impl <<<impl ProcDirective>>>
@sig <<<fn try_copy_from_parent(&mut self, proc: ProcRef)>>>
@spec
    requires !old(self).can_be_disabled,
    ensures
        final(self).kept(old(self)),
        // a proc without the directive has it from then on when one it overrides has it
        final(self)@ == match nearest(old(self)@, proc.line().skip(1)) {
            Some((_, true, l)) if !old(self)@.contains_key(proc) && (old(self).can_be_global || !proc.of().root()) => old(self)@.insert(proc, (true, l)),
            _ => old(self)@,
        },
@ghost start
    proof { proc.line_starts(); if proc.line().len() > 1 { proc.line_steps(); } else { assert(proc.line().skip(1) =~= seq![]); } }

@@type chk::CallEdge
@rewrite <<<CallEdge<'o>>>> => <<<CallEdge>>>
@rewrite <<<ProcRef<'o>>>> => <<<ProcRef>>>
@rewrite <<<TypeRef<'o>>>> => <<<TypeRef>>>
@@type chk::ViolatingProcs
@rewrite <<<ViolatingProcs<'o>>>> => <<<ViolatingProcs>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<(String, Location)>>>>> => <<<VxHash<ProcRef, Vec<(String, Location)>>>>>
@@type chk::ViolatingOverrides
@rewrite <<<ViolatingOverrides<'o>>>> => <<<ViolatingOverrides>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<ProcRef<'o>>>>>> => <<<VxHash<ProcRef, Vec<ProcRef>>>>>
@@verbatim
#[verifier::external_body]
pub struct VxReturnTypes { _x: u8 }
#[verifier::external_body]
pub struct VxKwargs { _x: u8 }
#[verifier::external_body]
pub struct VxProcSet { _x: u8 }
pub struct Prefab { pub path: VxPath }
#[verifier::external_body]
pub struct VxPath { _x: u8 }
/// of a term, what the settings look at
pub enum Term { Int(i32), Ident(Ident), String(Ident), InterpString(Ident, VxPath), Null, Prefab(Box<Prefab>), Other }
#[verifier::external_body]
pub struct Expression { _x: u8 }
impl Expression {
    pub uninterp spec fn term(self) -> Option<Term>;
    #[verifier::external_body]
    pub fn as_term(&self) -> (r: Option<&Term>) ensures match r { Some(t) => self.term() == Some(*t), None => self.term() is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_return_types(t: &ObjectTree) -> (r: VxReturnTypes) { unimplemented!() }
pub trait VxDefault: Sized { spec fn blank(self) -> bool; fn vx_default() -> (r: Self) ensures r.blank(); }
impl VxDefault for VxKwargs { open spec fn blank(self) -> bool { true } #[verifier::external_body] fn vx_default() -> Self { unimplemented!() } }
impl VxDefault for VxProcSet { open spec fn blank(self) -> bool { true } #[verifier::external_body] fn vx_default() -> Self { unimplemented!() } }
impl<K, V> VxDefault for VxHash<K, V> { open spec fn blank(self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn vx_default() -> Self { unimplemented!() } }
impl VxDefault for ViolatingProcs { open spec fn blank(self) -> bool { self.violators@ == Map::<ProcRef, Vec<(String, Location)>>::empty() } #[verifier::external_body] fn vx_default() -> Self { unimplemented!() } }
impl VxDefault for ViolatingOverrides { open spec fn blank(self) -> bool { self.overrides@ == Map::<ProcRef, Vec<ProcRef>>::empty() } #[verifier::external_body] fn vx_default() -> Self { unimplemented!() } }
@@type chk::AnalyzeObjectTree
@rewrite <<<AnalyzeObjectTree<'o>>>> => <<<AnalyzeObjectTree>>>
@rewrite <<<&'o Context>>> => <<<Context>>>
@rewrite <<<&'o ObjectTree>>> => <<<ObjectTree>>>
@rewrite <<<HashMap<ProcRef<'o>, TypeExpr<'o>>>>> => <<<VxReturnTypes>>>
@rewrite <<<ProcDirective<'o>>>> => <<<ProcDirective>>>
@rewrite <<<BTreeMap<String, KwargInfo>>>> => <<<VxKwargs>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<CallEdge<'o>>>>>> => <<<VxHash<ProcRef, Vec<CallEdge>>>>>
@rewrite <<<ViolatingProcs<'o>>>> => <<<ViolatingProcs>>>
@rewrite <<<ViolatingOverrides<'o>>>> => <<<ViolatingOverrides>>>
@rewrite <<<HashSet<ProcRef<'o>>>>> => <<<VxProcSet>>>

@@verbatim
/// the directives, numbered
pub open spec fn which(n: Seq<char>) -> Option<int> {
    if n == "SpacemanDMM_should_call_parent"@ { Some(0int) }
    else if n == "SpacemanDMM_should_not_call_parent"@ { Some(1int) }
    else if n == "SpacemanDMM_should_not_override"@ { Some(2int) }
    else if n == "SpacemanDMM_private_proc"@ { Some(3int) }
    else if n == "SpacemanDMM_protected_proc"@ { Some(4int) }
    else if n == "SpacemanDMM_should_not_sleep"@ { Some(5int) }
    else if n == "SpacemanDMM_allowed_to_sleep"@ { Some(6int) }
    else if n == "SpacemanDMM_should_be_pure"@ { Some(7int) }
    else if n == "SpacemanDMM_can_be_redefined"@ { Some(8int) }
    else { None }
}
pub open spec fn flags_of(k: int) -> Flags {
    if k == 0 || k == 1 { Flags { disable: true, first: false, global: false } }
    else if k == 2 || k == 8 { Flags { disable: false, first: false, global: false } }
    else if k == 3 || k == 4 { Flags { disable: false, first: true, global: false } }
    else { Flags { disable: false, first: true, global: true } }
}
pub open spec fn fixed_flags(e: AnalyzeObjectTree) -> bool {
    e.must_call_parent.flags() == flags_of(0) && e.must_not_call_parent.flags() == flags_of(1) && e.must_not_override.flags() == flags_of(2)
        && e.private.flags() == flags_of(3) && e.protected.flags() == flags_of(4) && e.must_not_sleep.flags() == flags_of(5)
        && e.sleep_exempt.flags() == flags_of(6) && e.must_be_pure.flags() == flags_of(7) && e.can_be_redefined.flags() == flags_of(8)
}
pub type All = Seq<Marks>;
pub open spec fn marks(e: AnalyzeObjectTree) -> All {
    seq![e.must_call_parent@, e.must_not_call_parent@, e.must_not_override@, e.private@, e.protected@, e.must_not_sleep@, e.sleep_exempt@, e.must_be_pure@, e.can_be_redefined@]
}
pub open spec fn none() -> Marks { Map::empty() }

@@fn chk::AnalyzeObjectTree::new
@impl <<<impl AnalyzeObjectTree>>>
@sig <<<fn new(context: Context, objtree: ObjectTree) -> AnalyzeObjectTree>>>
@ret r
@from <<<AnalyzeObjectTree>>>
@rewrite <<<return_type, must_call_parent>>> => <<<return_type: vx_return_types(&objtree), must_call_parent>>>
@rewrite <<<context, objtree, return_type>>> => <<<return_type>>>
@rewrite <<<impure_overrides: Default::default(),>>> => <<<impure_overrides: VxDefault::vx_default(), context, objtree,>>>
@rewrite <<<Default::default()>>> => <<<VxDefault::vx_default()>>>
@spec
    ensures
        fixed_flags(r), r.context@ == context@, r.context.calls() == context.calls(),
        marks(r) =~= seq![none(), none(), none(), none(), none(), none(), none(), none(), none()],
        r.call_tree@ == Map::<ProcRef, Vec<CallEdge>>::empty(), r.sleeping_procs.blank(), r.impure_procs.blank(), r.impure_overrides.blank(),

@@verbatim
/// TRUE, FALSE, 1 or 0
pub open spec fn truth(e: Expression) -> Option<bool> {
    match e.term() {
        Some(Term::Int(i)) => if i == 0 { Some(false) } else if i == 1 { Some(true) } else { None },
        Some(Term::Ident(n)) => if n@ == "FALSE"@ { Some(false) } else if n@ == "TRUE"@ { Some(true) } else { None },
        _ => None,
    }
}

@@fn chk::directive_value_to_truthy
@ret r
@rewrite <<<i == "FALSE">>> => <<<vx_str_eq(i, "FALSE")>>>
@rewrite <<<i == "TRUE">>> => <<<vx_str_eq(i, "TRUE")>>>
@spec
    ensures match r { Ok(b) => truth(*expr) == Some(b), Err(e) => truth(*expr) is None && e@ == (Report { at: location, kind: None, notes: seq![] }) },
@ghost start
    proof { reveal_strlit("FALSE"); reveal_strlit("TRUE"); assert("FALSE"@.len() != "TRUE"@.len()); }

@@verbatim
/// what setting directive n in proc p does: the report, and the marks afterwards
pub open spec fn set_said(m: All, p: ProcRef, n: Seq<char>, v: Option<bool>, at: Location) -> Option<Report> {
    match which(n) {
        None => Some(bare(at, "unknown_linter_setting"@)),
        Some(k) => if flags_of(k).first && p.decl() is Some && p.decl()->0.location != p.at() { Some(Report { at, kind: None, notes: seq![] }) }
            else { match v {
                Some(on) => refusal(flags_of(k), m[k], p, on, at),
                None => Some(bare(at, "invalid_lint_directive_value"@)),
            } },
    }
}
pub open spec fn maybe(r: Option<Report>) -> Multiset<Report> { match r { Some(r) => Multiset::singleton(r), None => Multiset::empty() } }
pub open spec fn set_to(m: All, p: ProcRef, n: Seq<char>, v: Option<bool>, at: Location) -> All {
    if set_said(m, p, n, v, at) is None { m.update(which(n)->0, m[which(n)->0].insert(p, (v->0, at))) } else { m }
}
pub proof fn names_differ()
    ensures
        "SpacemanDMM_should_not_override"@.len() == 31, "SpacemanDMM_should_not_override"@[12] == 's',
        "SpacemanDMM_should_call_parent"@.len() == 30, "SpacemanDMM_should_call_parent"@[12] == 's',
        "SpacemanDMM_should_not_call_parent"@.len() == 34, "SpacemanDMM_should_not_call_parent"@[12] == 's',
        "SpacemanDMM_private_proc"@.len() == 24, "SpacemanDMM_private_proc"@[12] == 'p',
        "SpacemanDMM_protected_proc"@.len() == 26, "SpacemanDMM_protected_proc"@[12] == 'p',
        "SpacemanDMM_should_not_sleep"@.len() == 28, "SpacemanDMM_should_not_sleep"@[12] == 's',
        "SpacemanDMM_allowed_to_sleep"@.len() == 28, "SpacemanDMM_allowed_to_sleep"@[12] == 'a',
        "SpacemanDMM_should_be_pure"@.len() == 26, "SpacemanDMM_should_be_pure"@[12] == 's',
        "SpacemanDMM_can_be_redefined"@.len() == 28, "SpacemanDMM_can_be_redefined"@[12] == 'c',
{
    reveal_strlit("SpacemanDMM_should_not_override");
    reveal_strlit("SpacemanDMM_should_call_parent");
    reveal_strlit("SpacemanDMM_should_not_call_parent");
    reveal_strlit("SpacemanDMM_private_proc");
    reveal_strlit("SpacemanDMM_protected_proc");
    reveal_strlit("SpacemanDMM_should_not_sleep");
    reveal_strlit("SpacemanDMM_allowed_to_sleep");
    reveal_strlit("SpacemanDMM_should_be_pure");
    reveal_strlit("SpacemanDMM_can_be_redefined");
}
/// a string is its characters
pub broadcast axiom fn same_chars(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;

@@fn chk::AnalyzeObjectTree::add_directive_or_error
@impl <<<impl AnalyzeObjectTree>>>
@sig <<<fn add_directive_or_error(&mut self, proc: ProcRef, directive: &str, expr: &Expression, location: Location)>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<&mut proc.get_declaration()>>> => <<<proc.get_declaration()>>>
@spec
    requires fixed_flags(*old(self)),
    ensures
        fixed_flags(*final(self)),
        final(self).context@ =~= old(self).context@.add(maybe(set_said(marks(*old(self)), proc, directive@, truth(*expr), location))),
        marks(*final(self)) =~= set_to(marks(*old(self)), proc, directive@, truth(*expr), location),
@ghost start
    broadcast use same_chars;
    proof {
        names_differ();
        assert(forall|c: Multiset<Report>| #[trigger] c.add(Multiset::empty()) =~= c);
        assert(forall|r: Report| #[trigger] Multiset::singleton(r).count(r) == 1);
        assert(forall|c: Multiset<Report>, r: Report| #[trigger] c.insert(r) =~= c.add(Multiset::singleton(r)));
    }

// (the type that reports on one definition)
@@type chk::AnalyzeProc
@rewrite <<<AnalyzeProc<'o, 's>>>> => <<<AnalyzeProc>>>
@rewrite <<<&'s mut AnalyzeObjectTree<'o>>>> => <<<AnalyzeObjectTree>>>
@rewrite <<<&'o Context>>> => <<<Context>>>
@rewrite <<<&'o ObjectTree>>> => <<<ObjectTree>>>
@rewrite <<<TypeRef<'o>>>> => <<<TypeRef>>>
@rewrite <<<ProcRef<'o>>>> => <<<ProcRef>>>
@@verbatim
/// what is said about one definition of a proc, its body aside, when it does or does not call its parent
pub open spec fn mark_said(m: Marks, p: ProcRef, kind: Seq<char>) -> Multiset<Report> {
    match nearest(m, p.line()) { Some((q, true, l)) => when(q != p, rep(p.at(), kind, l)), _ => Multiset::empty() }
}
pub open spec fn override_said(e: AnalyzeObjectTree, p: ProcRef, calls_parent: bool) -> Multiset<Report> {
    match p.parent() {
        None => Multiset::empty(),
        Some(parent) =>
            mark_said(e.private@, p, "private_proc"@)
                .add(match nearest(e.must_not_override@, parent.line()) { Some((_, true, l)) => Multiset::singleton(rep(p.at(), "must_not_override"@, l)), _ => Multiset::empty() })
                .add(if calls_parent {
                    match e.must_not_call_parent@.get(parent) {
                        Some((true, l)) if !(e.must_not_call_parent@.contains_key(p) && !e.must_not_call_parent@[p].0) => Multiset::singleton(rep(p.at(), "must_not_call_parent"@, l)),
                        _ => Multiset::empty(),
                    }
                } else {
                    match nearest(e.must_call_parent@, p.line()) { Some((_, true, l)) => Multiset::singleton(rep(p.at(), "must_call_parent"@, l)), _ => Multiset::empty() }
                })
                .add(when(!parent.builtin() && p.of() == parent.of() && nearest(e.can_be_redefined@, p.line()) is None, rep(p.at(), "redefined_proc"@, parent.at()))),
    }
}
@@fn chk::AnalyzeProc::run
@impl <<<impl AnalyzeProc>>>
@name vx_run_after_body
@sig <<<fn run(&mut self)>>>
@past <<<self.visit_block(block, &mut local_vars, true)>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<self.proc_ref.location>>> => <<<self.proc_ref.get().location>>>
@rewrite <<<parent.location>>> => <<<parent.get().location>>>
@spec
    ensures
        final(self).context@ =~= old(self).context@.add(override_said(old(self).env, old(self).proc_ref, old(self).calls_parent)),
        final(self).env == old(self).env,
@ghost start
    broadcast use same_chars;
    proof {
        assert(forall|c: Multiset<Report>| #[trigger] c.add(Multiset::empty()) =~= c);
        assert(forall|c: Multiset<Report>, r: Report| #[trigger] c.insert(r) =~= c.add(Multiset::singleton(r)));
        assert(forall|l: Location| Seq::<Location>::empty().push(l) =~= seq![l]);
    }

@@verbatim
// ---------------------------------------------------------------- reading the settings of a proc
impl Ident {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub enum Statement { Setting { name: Ident, mode: u8, value: Expression }, Other }
pub struct VxStatement { pub location: Location, pub elem: Statement }
pub open spec fn directive(n: Seq<char>) -> bool { n.len() >= 12 && n.take(12) == "SpacemanDMM_"@ }
#[verifier::external_body]
pub fn vx_directive(n: &Ident) -> (r: bool) ensures r == directive(n@) { unimplemented!() }
pub uninterp spec fn known_setting(n: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_known_setting(n: &Ident) -> (r: bool) ensures r == known_setting(n@) { unimplemented!() }
#[verifier::external_body]
pub struct VxBits { _x: u8 }
impl VxPath { pub uninterp spec fn bits(self) -> VxBits; }
#[verifier::external_body]
pub fn vx_bits(f: &Prefab) -> (r: VxBits) ensures r == f.path.bits() { unimplemented!() }
#[verifier::external_body]
pub struct TypeExpr { _x: u8 }
pub uninterp spec fn ret_said(at: Location, bits: VxBits) -> Multiset<Report>;
pub uninterp spec fn type_expr_said(p: ProcRef, at: Location, e: Expression) -> Option<Report>;
impl TypeExpr {
    #[verifier::external_body]
    pub fn from(e: TypeExpr) -> TypeExpr { unimplemented!() }
    #[verifier::external_body]
    pub fn compile(p: ProcRef, at: Location, e: &Expression) -> (r: Result<TypeExpr, DMError>) ensures match r { Ok(_) => type_expr_said(p, at, *e) is None, Err(d) => type_expr_said(p, at, *e) == Some(d@) } { unimplemented!() }
}
impl VxReturnTypes {
    #[verifier::external_body]
    pub fn insert(&mut self, p: ProcRef, e: TypeExpr) -> Option<TypeExpr> { unimplemented!() }
}
pub open spec fn unmoved(a: AnalyzeObjectTree, b: AnalyzeObjectTree) -> bool {
    b == (AnalyzeObjectTree { context: b.context, ..a }) && b.context.calls() == a.context.calls()
}
impl AnalyzeObjectTree {
    #[verifier::external_body]
    pub fn static_type(&mut self, at: Location, of: &VxBits) -> (r: TypeExpr)
        ensures final(self).context@ == old(self).context@.add(ret_said(at, *of)), unmoved(*old(self), *final(self)),
    { unimplemented!() }
}
/// what one setting makes the checker say
pub open spec fn setting_said(m: All, p: ProcRef, n: Seq<char>, v: Expression, at: Location) -> Multiset<Report> {
    if n == "SpacemanDMM_return_type"@ {
        match v.term() { Some(Term::Prefab(f)) => ret_said(at, f.path.bits()), _ => maybe(type_expr_said(p, at, v)) }
    } else if directive(n) { maybe(set_said(m, p, n, truth(v), at)) }
    else if !known_setting(n) { Multiset::singleton(Report { at, kind: None, notes: seq![] }) }
    else { when(match n {
        _ if n == "background"@ || n == "waitfor"@ || n == "hidden"@ || n == "instant"@ || n == "popup_menu"@ => truth(v) is None,
        _ if n == "name"@ || n == "category"@ || n == "desc"@ => v.term() is Some && !(v.term()->0 is String) && !(v.term()->0 is InterpString) && !(v.term()->0 is Null && n == "category"@),
        _ if n == "invisibility"@ => !(v.term() is Some && v.term()->0 is Int && 0 <= v.term()->0->Int_0 <= 100),
        _ => false,
    }, bare(at, "invalid_set_value"@)) }
}
pub open spec fn setting_to(m: All, p: ProcRef, n: Seq<char>, v: Expression, at: Location) -> All {
    if n != "SpacemanDMM_return_type"@ && directive(n) { set_to(m, p, n, truth(v), at) } else { m }
}
/// the settings that a body starts with, one after the other: the marks after the first n statements, and what was said
pub open spec fn gathered(m: All, p: ProcRef, code: Seq<VxStatement>, n: int) -> (All, Multiset<Report>)
    decreases n,
{
    if n <= 0 { (m, Multiset::empty()) } else {
        let (k, c) = gathered(m, p, code, n - 1);
        match code[n - 1].elem { Statement::Setting { name, value, .. } => (setting_to(k, p, name@, value, code[n - 1].location), c.add(setting_said(k, p, name@, value, code[n - 1].location))), _ => (k, c) }
    }
}
pub open spec fn leading(code: Seq<VxStatement>) -> int
    decreases code.len(),
{ if code.len() == 0 || !(code[0].elem is Setting) { 0 } else { 1 + leading(code.skip(1)) } }
pub proof fn leading_at(code: Seq<VxStatement>, k: int)
    requires 0 <= k <= code.len(), forall|j: int| 0 <= j < k ==> (#[trigger] code[j]).elem is Setting,
    ensures leading(code) == k + leading(code.skip(k)),
    decreases k,
{ if k == 0 { assert(code.skip(0) =~= code); } else { leading_at(code.skip(1), k - 1); assert(code.skip(1).skip(k - 1) =~= code.skip(k)); } }
pub proof fn settings_differ()
    ensures
        "SpacemanDMM_return_type"@.len() == 23, "background"@[0] == 'b', "waitfor"@[0] == 'w', "hidden"@[0] == 'h', "instant"@[0] == 'i', "instant"@[2] == 's', "popup_menu"@[0] == 'p',
        "name"@[0] == 'n', "category"@[0] == 'c', "desc"@[0] == 'd', "invisibility"@[0] == 'i', "invisibility"@[2] == 'v',
{
    reveal_strlit("SpacemanDMM_return_type"); reveal_strlit("background"); reveal_strlit("waitfor"); reveal_strlit("hidden"); reveal_strlit("instant");
    reveal_strlit("popup_menu"); reveal_strlit("name"); reveal_strlit("category"); reveal_strlit("desc"); reveal_strlit("invisibility");
}

@@fn chk::AnalyzeObjectTree::gather_settings
@impl <<<impl AnalyzeObjectTree>>>
@name vx_gather_settings
@sig <<<fn vx_gather_settings(&mut self, proc: ProcRef, code: &[VxStatement])>>>
@from <<<for statement in code.iter()>>>
@opt forslice
@rewrite <<<dm::Component::DreamChecker>>> => <<<Component::DreamChecker>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<name == "SpacemanDMM_return_type">>> => <<<vx_str_eq(name, "SpacemanDMM_return_type")>>>
@rewrite <<<name.starts_with("SpacemanDMM_")>>> => <<<vx_directive(name)>>>
@rewrite <<<KNOWN_SETTING_NAMES.contains(&name.as_str())>>> => <<<vx_known_setting(name)>>>
@rewrite <<<let bits: Vec<_> = fab.path.iter().map(|(_, name)| name.to_owned()).collect();>>> => <<<let bits = vx_bits(fab);>>>
@spec
    requires fixed_flags(*old(self)),
    ensures
        fixed_flags(*final(self)),
        marks(*final(self)) =~= gathered(marks(*old(self)), proc, code@, leading(code@)).0,
        final(self).context@ =~= old(self).context@.add(gathered(marks(*old(self)), proc, code@, leading(code@)).1),
@loop 0
    invariant_except_break
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_s0@[j]).elem is Setting,
        vx_i0 == code@.len() ==> leading(code@) == vx_i0,
        marks(*self) =~= gathered(marks(*old(self)), proc, code@, vx_i0 as int).0,
        self.context@ =~= old(self).context@.add(gathered(marks(*old(self)), proc, code@, vx_i0 as int).1),
    invariant
        fixed_flags(*self),
        vx_s0@ == code@, 0 <= vx_i0 <= vx_s0@.len(),
    ensures
        marks(*self) =~= gathered(marks(*old(self)), proc, code@, leading(code@)).0,
        self.context@ =~= old(self).context@.add(gathered(marks(*old(self)), proc, code@, leading(code@)).1),
    decreases vx_s0@.len() - vx_i0,
@ghost start
    proof { leading_at(code@, 0); }
@ghost loop 0 start
    broadcast use same_chars;
    let ghost k0 = marks(*self);
    let ghost c0 = self.context@;
    let ghost i0 = vx_i0 as int;
    proof {
        names_differ(); settings_differ();
        assert(forall|c: Multiset<Report>| #[trigger] c.add(Multiset::empty()) =~= c);
        assert(forall|c: Multiset<Report>, r: Report| #[trigger] c.insert(r) =~= c.add(Multiset::singleton(r)));
        leading_at(code@, i0);
        if !(vx_s0@[i0].elem is Setting) { assert(code@.skip(i0)[0] == code@[i0]); assert(leading(code@.skip(i0)) == 0); }
        else if i0 + 1 == code@.len() { leading_at(code@, i0 + 1); assert(leading(code@.skip(i0 + 1)) == 0); }
    }
@ghost loop 0 after
    proof { leading_at(code@, 0); }

@@verbatim
// ---------------------------------------------------------------- calls
impl ViolatingProcs {
    #[verifier::external_body]
    pub fn insert_violator(&mut self, p: ProcRef, n: &str, at: Location) { unimplemented!() }
}
pub enum StaticType { None, Type(TypeRef), List { list: TypeRef, keys: Box<StaticType> }, Proc }
impl StaticType {
    pub open spec fn basic(self) -> Option<TypeRef> { match self { StaticType::Type(t) => Some(t), StaticType::List { list, .. } => Some(list), _ => None } }
}
pub struct Analysis { pub static_ty: StaticType }
impl Analysis {
    #[verifier::external_body]
    pub fn empty() -> Analysis { unimplemented!() }
}
/// with a note where a type could be given
pub uninterp spec fn hint(a: Analysis) -> Seq<Location>;
pub open spec fn hinted(r: Report, a: Analysis) -> Report { Report { notes: r.notes + hint(a), ..r } }
impl DMError {
    #[verifier::external_body]
    pub fn with_fix_hint(self, a: &Analysis) -> (r: DMError) ensures r@ == hinted(self@, *a) { unimplemented!() }
}
impl TypeRef {
    pub uninterp spec fn proc(self, n: Seq<char>) -> Option<ProcRef>;
    #[verifier::external_body]
    pub fn get_proc(&self, n: &str) -> (r: Option<ProcRef>) ensures r == self.proc(n@) { unimplemented!() }
}
impl ObjectTree {
    pub uninterp spec fn top(&self) -> TypeRef;
    #[verifier::external_body]
    pub fn root(&self) -> (r: TypeRef) ensures r == self.top() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxVars { _x: u8 }
impl<K, V> VxHash<K, Vec<V>> {
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn vx_at(&mut self, k: K) -> (r: &mut Vec<V>)
        ensures r@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { seq![] }), final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
pub open spec fn edge(c: Call, fresh: bool) -> CallEdge { CallEdge { proc: c.proc, location: c.at, new_context: fresh, src: c.src, is_exact: c.exact, inherit_receiver: c.inherit } }
/// the calls noted for a proc
pub open spec fn noted(e: AnalyzeObjectTree, p: ProcRef) -> Seq<CallEdge> { if e.call_tree@.contains_key(p) { e.call_tree@[p]@ } else { seq![] } }
impl AnalyzeProc {
    /// what the checks of a call leave alone
    pub open spec fn kept(self, o: AnalyzeProc) -> bool {
        marks(self.env) =~= marks(o.env) && self.env.call_tree == o.env.call_tree && self.ty == o.ty && self.proc_ref == o.proc_ref && self.inside_newcontext == o.inside_newcontext && self.objtree == o.objtree
    }
    /// the arms of visit_term and visit_follow hand a call over
    #[verifier::external_body]
    pub fn visit_call(&mut self, location: Location, src: TypeRef, proc: ProcRef, args: &[Expression], is_exact: bool, inherit_receiver: bool, local_vars: &mut VxVars) -> (r: Analysis)
        ensures final(self).context@ == old(self).context@, old(self).calls_parent ==> final(self).calls_parent, final(self).kept(*old(self)),
            final(self).context.calls() == old(self).context.calls().push(Call { at: location, src, proc, exact: is_exact, inherit: inherit_receiver }),
    { unimplemented!() }
    /// (what the arguments make it say is not in the view)
    #[verifier::external_body]
    pub fn visit_arguments(&mut self, location: Location, args: &[Expression], local_vars: &mut VxVars)
        ensures final(self).context@ == old(self).context@, old(self).calls_parent ==> final(self).calls_parent, final(self).kept(*old(self)), final(self).context.calls() == old(self).context.calls(),
    { unimplemented!() }
    /// only notes procs that sleep
    #[verifier::external_body]
    pub fn check_type_sleepers(&mut self, ty: TypeRef, location: Location, n: &str)
        ensures final(self).context@ == old(self).context@, final(self).context.calls() == old(self).context.calls(), final(self).calls_parent == old(self).calls_parent, final(self).kept(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_expression(&mut self, location: Location, e: &Expression, h: Option<TypeRef>, local_vars: &mut VxVars) -> (r: Analysis)
        ensures final(self).kept(*old(self)),
    { unimplemented!() }
}
/// what is said about the call itself, wherever it is written
pub open spec fn private_said(m: Marks, caller: TypeRef, proc: ProcRef, at: Location) -> Multiset<Report> {
    match nearest(m, proc.line()) { Some((q, true, l)) => when(caller != q.of(), rep(at, "private_proc"@, l)), _ => Multiset::empty() }
}

@@fn chk::AnalyzeProc::visit_call
@impl <<<impl AnalyzeProc>>>
@name vx_visit_call_start
@until <<<let mut any_kwargs_yet = false>>>
@sig <<<fn vx_visit_call_start(&mut self, location: Location, src: TypeRef, proc: ProcRef, is_exact: bool, inherit_receiver: bool)>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<self.env.call_tree.entry(self.proc_ref).or_default()>>> => <<<self.env.call_tree.vx_at(self.proc_ref)>>>
@spec
    ensures
        noted(final(self).env, old(self).proc_ref) =~= noted(old(self).env, old(self).proc_ref).push(edge(Call { at: location, src, proc, exact: is_exact, inherit: inherit_receiver }, old(self).inside_newcontext != 0)),
        forall|q: ProcRef| q != old(self).proc_ref ==> #[trigger] noted(final(self).env, q) =~= noted(old(self).env, q),
        marks(final(self).env) =~= marks(old(self).env),
        final(self).context@ =~= old(self).context@.add(private_said(old(self).env.private@, old(self).ty, proc, location)),
@ghost start
    proof {
        assert(forall|c: Multiset<Report>| #[trigger] c.add(Multiset::empty()) =~= c);
        assert(forall|c: Multiset<Report>, r: Report| #[trigger] c.insert(r) =~= c.add(Multiset::singleton(r)));
        assert(forall|l: Location| Seq::<Location>::empty().push(l) =~= seq![l]);
    }

@@verbatim
/// x.name(): what is said before the call itself is looked at, and whether it is
pub open spec fn arm_said(e: AnalyzeObjectTree, me: TypeRef, x: StaticType, n: Seq<char>, at: Location) -> Multiset<Report> {
    match x.basic() { Some(t) => match t.proc(n) {
        Some(p) => if arm_refuses(e, t, p) { Multiset::singleton(rep(at, "private_proc"@, (nearest(e.private@, p.line())->0).2)) }
            else { match nearest(e.protected@, p.line()) { Some((q, true, l)) => when(!me.line().contains(q.of()), rep(at, "protected_proc"@, l)), _ => Multiset::empty() } },
        None => Multiset::singleton(Report { at, kind: None, notes: seq![] }),
    }, None => Multiset::empty() }
}
/// a private proc of another type than x's declared one
pub open spec fn arm_refuses(e: AnalyzeObjectTree, t: TypeRef, p: ProcRef) -> bool { match nearest(e.private@, p.line()) { Some((q, true, _)) => t != q.of(), _ => false } }
pub open spec fn arm_calls(e: AnalyzeObjectTree, x: StaticType, n: Seq<char>, at: Location) -> Seq<Call> {
    match x.basic() { Some(t) => match t.proc(n) {
        Some(p) if !arm_refuses(e, t, p) => seq![Call { at, src: t, proc: p, exact: false, inherit: false }],
        _ => seq![],
    }, None => seq![] }
}

@@fn chk::StaticType::basic_type
@impl <<<impl StaticType>>>
@sig <<<fn basic_type(&self) -> Option<TypeRef> >>>
@ret r
@spec
    ensures r == self.basic()

@@fn chk::AnalyzeProc::visit_follow
@impl <<<impl AnalyzeProc>>>
@name vx_call_arm
@arm <<<Follow::Call(kind, name, arguments)>>> <<<>>> <<<>>>
@sig <<<fn vx_call_arm(&mut self, location: Location, lhs: Analysis, name: &Ident, arguments: &[Expression], local_vars: &mut VxVars) -> Analysis>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<ty.get_proc(name)>>> => <<<ty.get_proc(name.as_str())>>>
@rewrite <<<self.check_type_sleepers(ty, location, name)>>> => <<<self.check_type_sleepers(ty, location, name.as_str())>>>
@spec
    ensures
        final(self).kept(*old(self)), old(self).calls_parent ==> final(self).calls_parent,
        final(self).context.calls() =~= old(self).context.calls() + arm_calls(old(self).env, lhs.static_ty, name@, location),
        match lhs.static_ty.basic() {
            Some(_) => final(self).context@ =~= old(self).context@.add(arm_said(old(self).env, old(self).ty, lhs.static_ty, name@, location)),
            None => final(self).context@ =~= old(self).context@.insert(hinted(bare(location, "proc_call_static_type"@), lhs)),
        },
@ghost start
    proof {
        assert(forall|c: Multiset<Report>| #[trigger] c.add(Multiset::empty()) =~= c);
        assert(forall|c: Multiset<Report>, r: Report| #[trigger] c.insert(r) =~= c.add(Multiset::singleton(r)));
        assert(forall|l: Location| Seq::<Location>::empty().push(l) =~= seq![l]);
    }

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_parent_arm
@arm <<<Term::ParentCall(args)>>> <<<>>> <<<>>>
@sig <<<fn vx_parent_arm(&mut self, location: Location, args: &[Expression], local_vars: &mut VxVars) -> Analysis>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@spec
    ensures
        final(self).calls_parent, final(self).kept(*old(self)),
        match old(self).proc_ref.parent() {
            Some(p) => final(self).context@ == old(self).context@ && final(self).context.calls() =~= old(self).context.calls().push(Call { at: location, src: old(self).ty, proc: p, exact: true, inherit: true }),
            None => final(self).context@ =~= old(self).context@.insert(bare(location, "proc_has_no_parent"@)) && final(self).context.calls() == old(self).context.calls(),
        },

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_self_arm
@arm <<<Term::SelfCall(args)>>> <<<>>> <<<>>>
@sig <<<fn vx_self_arm(&mut self, location: Location, args: &[Expression], local_vars: &mut VxVars) -> Analysis>>>
@spec
    ensures
        old(self).calls_parent ==> final(self).calls_parent, final(self).kept(*old(self)), final(self).context@ == old(self).context@,
        final(self).context.calls() =~= old(self).context.calls().push(Call { at: location, src: old(self).ty, proc: old(self).proc_ref, exact: true, inherit: true }),

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_global_arm
@arm <<<Term::GlobalCall(global_name, args)>>> <<<>>> <<<>>>
@sig <<<fn vx_global_arm(&mut self, location: Location, global_name: &Ident, args: &[Expression], local_vars: &mut VxVars) -> Analysis>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<get_proc(global_name)>>> => <<<get_proc(global_name.as_str())>>>
@spec
    ensures
        old(self).calls_parent ==> final(self).calls_parent, final(self).kept(*old(self)),
        match old(self).objtree.top().proc(global_name@) {
            Some(p) => final(self).context@ == old(self).context@ && final(self).context.calls() =~= old(self).context.calls().push(Call { at: location, src: old(self).objtree.top(), proc: p, exact: true, inherit: false }),
            None => final(self).context@ =~= old(self).context@.insert(Report { at: location, kind: None, notes: seq![] }) && final(self).context.calls() == old(self).context.calls(),
        },

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_unscoped_arm
@arm <<<Term::Call(unscoped_name, args)>>> <<<>>> <<<>>>
@sig <<<fn vx_unscoped_arm(&mut self, location: Location, unscoped_name: &Ident, args: &[Expression], local_vars: &mut VxVars) -> Analysis>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<get_proc(unscoped_name)>>> => <<<get_proc(unscoped_name.as_str())>>>
@spec
    ensures
        match old(self).ty.proc(unscoped_name@) {
            Some(p) => final(self).kept(*old(self)) && (old(self).calls_parent ==> final(self).calls_parent) && final(self).context@ == old(self).context@
                && final(self).context.calls() =~= old(self).context.calls().push(Call { at: location, src: old(self).ty, proc: p, exact: false, inherit: true }),
            None => unscoped_name@ != "__PROC__"@ && unscoped_name@ != "SpacemanDMM_unlint"@ && unscoped_name@ != "SpacemanDMM_debug"@ ==>
                final(self).context@ =~= old(self).context@.insert(Report { at: location, kind: None, notes: seq![] }) && final(self).context.calls() == old(self).context.calls(),
        },
@opt forslice
@loop 0
    invariant 0 <= vx_i0 <= vx_s0@.len(), old(self).ty.proc(unscoped_name@) is None, unscoped_name@ == "SpacemanDMM_debug"@,
    decreases vx_s0@.len() - vx_i0,
@rewrite <<<unscoped_name == "__PROC__">>> => <<<vx_str_eq(unscoped_name, "__PROC__")>>>
@rewrite <<<unscoped_name == "SpacemanDMM_unlint">>> => <<<vx_str_eq(unscoped_name, "SpacemanDMM_unlint")>>>
@rewrite <<<unscoped_name == "SpacemanDMM_debug">>> => <<<vx_str_eq(unscoped_name, "SpacemanDMM_debug")>>>
@rewrite <<<eprintln!("SpacemanDMM_debug:");>>> => <<<>>>
@rewrite <<<eprintln!("    {:?}", self.visit_expression(location, arg, None, local_vars));>>> => <<<self.visit_expression(location, arg, None, local_vars);>>>
@rewrite <<<insert_violator(self.proc_ref, unscoped_name, location)>>> => <<<insert_violator(self.proc_ref, unscoped_name.as_str(), location)>>>
@rewrite <<<check_type_sleepers(self.ty, location, unscoped_name)>>> => <<<check_type_sleepers(self.ty, location, unscoped_name.as_str())>>>
