@@header
use vstd::prelude::*;
use std::collections::VecDeque;

@@source chk crates/dreamchecker/src/lib.rs

@@known error
@@known CallStack::default
@@known AnalyzeProc::visit_expression
@@known AnalyzeProc::visit_block
@@known ControlFlow::allfalse

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins: what the checker sees of the object tree
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Location { pub l: u64 }
pub struct ProcValue { pub location: Location }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeRef { pub i: u32 }
impl TypeRef {
    /// the type and its ancestors
    pub uninterp spec fn line(self) -> Seq<TypeRef>;
    pub uninterp spec fn path(self) -> Seq<char>;
    pub open spec fn under(self, t: TypeRef) -> bool { self.line().contains(t) }
    pub open spec fn root(self) -> bool { self.i == 0 }
    pub fn index(self) -> (r: u32) ensures r == self.i { self.i }
    pub fn is_root(self) -> (r: bool) ensures r == self.root() { self.i == 0 }
    pub fn get(self) -> (r: TypeRef) ensures r == self { self }
    #[verifier::external_body]
    pub fn vx_path(&self) -> (r: &'static str) ensures r@ == self.path() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subtype_of(self, t: &TypeRef) -> (r: bool) ensures r == self.under(*t) { unimplemented!() }
    /// the definition a call of this name on the type runs
    pub uninterp spec fn answer(self, name: Seq<char>) -> Option<ProcRef>;
    #[verifier::external_body]
    pub fn get_proc(self, name: &str) -> (r: Option<ProcRef>) ensures r == self.answer(name@) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProcRef { pub i: u32 }
impl ProcRef {
    /// the definition and those that ..() runs from it, in order
    pub uninterp spec fn line(self) -> Seq<ProcRef>;
    pub uninterp spec fn of(self) -> TypeRef;
    pub uninterp spec fn value(self) -> ProcValue;
    pub uninterp spec fn called(self) -> Seq<char>;
    /// the definitions of procs of this name on t and the types below it
    pub uninterp spec fn within(self, t: TypeRef) -> Seq<ProcRef>;
    pub open spec fn at(self) -> Location { self.value().location }
    #[verifier::external_body]
    pub proof fn line_starts(self) ensures self.line().len() > 0, self.line()[0] == self, self.line().no_duplicates() { }
    /// (proved in unit objtree)
    #[verifier::external_body]
    pub fn parent_proc(self) -> (r: Option<ProcRef>) ensures match r { Some(p) => self.line() == seq![self] + p.line(), None => self.line() == seq![self] } { unimplemented!() }
    #[verifier::external_body]
    pub fn ty(self) -> (r: TypeRef) ensures r == self.of() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: &'static ProcValue) ensures *r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) ensures r@ == self.called() { unimplemented!() }
    #[verifier::external_body]
    pub fn recurse_children_within(self, t: TypeRef) -> (r: Vec<ProcRef>) ensures r@ == self.within(t) { unimplemented!() }
}
#[verifier::external_body]
pub struct ObjectTree { _x: u8 }
impl ObjectTree {
    #[verifier::external_body]
    pub fn root(&self) -> (r: TypeRef) ensures r.root() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(&self) -> (r: usize) { unimplemented!() }
}
/// HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxHash<K, V> { _x: Vec<(K, V)> }
impl<K, V> VxHash<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    /// iter().collect()
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(K, V)>)
        ensures forall|j: int| 0 <= j < r@.len() ==> self@.contains_key((#[trigger] r@[j]).0) && r@[j].1 == self@[r@[j].0],
            forall|k: K| self@.contains_key(k) ==> #[trigger] listed(r@, k),
    { unimplemented!() }
}
pub open spec fn listed<K, V>(v: Seq<(K, V)>, k: K) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == k }
impl<K, V> VxHash<K, Vec<V>> {
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn vx_at(&mut self, k: K) -> (r: &mut Vec<V>)
        ensures r@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { seq![] }), final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
/// sort_by_key (the order is not specified)
#[verifier::external_body]
pub fn vx_sort<K, V>(v: &mut Vec<(K, V)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (K, V)| final(v)@.contains(x) <==> #[trigger] old(v)@.contains(x),
{ unimplemented!() }
/// HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxSet<K> { _x: Vec<K> }
impl<K> VxSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
}
/// one diagnostic: its place, type and notes' places (the wording is not specified)
pub ghost struct Report { pub at: Location, pub kind: Option<Seq<char>>, pub notes: Seq<Location> }
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    pub uninterp spec fn view(&self) -> Report;
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) ensures r@ == (Report { notes: self@.notes.push(l), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_note<S>(&mut self, l: Location, s: S) ensures final(self)@ == (Report { notes: old(self)@.notes.push(l), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype(self, s: &'static str) -> (r: DMError) ensures r@ == (Report { kind: Some(s@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &mut Context) ensures final(c)@ == old(c)@.insert(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn error<S>(l: Location, s: S) -> (r: DMError) ensures r@ == (Report { at: l, kind: None, notes: seq![] }) { unimplemented!() }
/// the diagnostics registered so far
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context { pub uninterp spec fn view(&self) -> Set<Report>; }
pub trait Chars { spec fn chars(&self) -> Seq<char>; }
impl Chars for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<T: Chars + ?Sized> Chars for &T { open spec fn chars(&self) -> Seq<char> { (**self).chars() } }
#[verifier::external_body]
pub fn vx_str_eq<A: Chars, B: Chars>(a: A, b: B) -> (r: bool) ensures r == (a.chars() == b.chars()) { unimplemented!() }

@@type chk::CallEdge
@rewrite <<<CallEdge<'o>>>> => <<<CallEdge>>>
@rewrite <<<ProcRef<'o>>>> => <<<ProcRef>>>
@rewrite <<<TypeRef<'o>>>> => <<<TypeRef>>>
@@type chk::ViolatingProcs
@rewrite <<<ViolatingProcs<'o>>>> => <<<ViolatingProcs>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<(String, Location)>>>>> => <<<VxHash<ProcRef, Vec<(String, Location)>>>>>
@@type chk::ViolatingOverrides
@rewrite <<<ViolatingOverrides<'o>>>> => <<<ViolatingOverrides>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<ProcRef<'o>>>>>> => <<<VxHash<ProcRef, Vec<ProcRef>>>>>
@@type chk::ProcDirective
@rewrite <<<ProcDirective<'o>>>> => <<<ProcDirective>>>
@rewrite <<<HashMap<ProcRef<'o>, (bool, Location)>>>> => <<<VxHash<ProcRef, (bool, Location)>>>>
@@type chk::CallStack
@rewrite <<<CallStack<'o>>>> => <<<CallStack>>>
@rewrite <<<VecDeque<(ProcRef<'o>, Location, bool)>>>> => <<<VecDeque<(ProcRef, Location, bool)>>>>
@@type chk::AnalyzeObjectTree
@fields context, objtree, must_not_sleep, sleep_exempt, must_be_pure, call_tree, sleeping_procs, impure_procs, waitfor_procs, impure_overrides
@rewrite <<<AnalyzeObjectTree<'o>>>> => <<<AnalyzeObjectTree>>>
@rewrite <<<&'o Context>>> => <<<Context>>>
@rewrite <<<&'o ObjectTree>>> => <<<ObjectTree>>>
@rewrite <<<ProcDirective<'o>>>> => <<<ProcDirective>>>
@rewrite <<<HashMap<ProcRef<'o>, Vec<CallEdge<'o>>>>>> => <<<VxHash<ProcRef, Vec<CallEdge>>>>>
@rewrite <<<ViolatingProcs<'o>>>> => <<<ViolatingProcs>>>
@rewrite <<<ViolatingOverrides<'o>>>> => <<<ViolatingOverrides>>>
@rewrite <<<HashSet<ProcRef<'o>>>>> => <<<VxSet<ProcRef>>>>

@@verbatim
// ---------------------------------------------------------------- call stacks and notes
impl CallStack {
    pub open spec fn sites(self) -> Seq<Location> { Seq::new(self.call_stack@.len(), |i: int| self.call_stack@[i].1) }
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: CallStack) ensures r.call_stack@ == Seq::<(ProcRef, Location, bool)>::empty() { unimplemented!() }
}
impl Clone for CallStack {
    #[verifier::external_body]
    fn clone(&self) -> (r: CallStack) ensures r.call_stack@ == self.call_stack@ { unimplemented!() }
}
pub open spec fn places(v: Seq<(String, Location)>) -> Seq<Location> { Seq::new(v.len(), |i: int| v[i].1) }
pub open spec fn noted(r: Report, l: Seq<Location>) -> Report { Report { notes: r.notes + l, ..r } }

@@fn chk::CallStack::add_step
@impl <<<impl CallStack>>>
@sig <<<fn add_step(&mut self, proc: ProcRef, location: Location, new_context: bool)>>>
@spec
    ensures final(self).sites() =~= old(self).sites().push(location),

@@fn chk::DMError::with_callstack
@impl <<<impl DMError>>>
@sig <<<fn with_callstack(self, stack: &CallStack) -> DMError>>>
@ret r
@opt forslice
@spec
    ensures r@ == noted(self@, stack.sites()),
@ghost start
    let ghost was = self@;
    proof { assert(noted(was, stack.sites().take(0)) == was) by { assert(was.notes + stack.sites().take(0) =~= was.notes); } }
@loop 0
    invariant
        vx_s0@ == stack.call_stack@, 0 <= vx_i0 <= vx_s0@.len(), vx_this@ == noted(was, stack.sites().take(vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof { assert(stack.sites().take(vx_i0 as int) =~= stack.sites().take(vx_i0 - 1).push(*location)); assert(vx_this@.notes =~= was.notes + stack.sites().take(vx_i0 as int)); }
@ghost loop 0 after
    proof { assert(stack.sites().take(vx_i0 as int) =~= stack.sites()); }

@@fn chk::DMError::with_blocking_builtins
@impl <<<impl DMError>>>
@sig <<<fn with_blocking_builtins(self, blockers: &Vec<(String, Location)>) -> DMError>>>
@ret r
@opt forslice
@spec
    ensures r@ == noted(self@, places(blockers@)),
@ghost start
    let ghost was = self@;
    proof { assert(noted(was, places(blockers@).take(0)) == was) by { assert(was.notes + places(blockers@).take(0) =~= was.notes); } }
@loop 0
    invariant
        vx_s0@ == blockers@, 0 <= vx_i0 <= vx_s0@.len(), vx_this@ == noted(was, places(blockers@).take(vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof { assert(places(blockers@).take(vx_i0 as int) =~= places(blockers@).take(vx_i0 - 1).push(*location)); assert(vx_this@.notes =~= was.notes + places(blockers@).take(vx_i0 as int)); }
@ghost loop 0 after
    proof { assert(places(blockers@).take(vx_i0 as int) =~= places(blockers@)); }

@@fn chk::DMError::with_impure_operations
@impl <<<impl DMError>>>
@sig <<<fn with_impure_operations(self, impures: &Vec<(String, Location)>) -> DMError>>>
@ret r
@opt forslice
@spec
    ensures r@ == noted(self@, places(impures@)),
@ghost start
    let ghost was = self@;
    proof { assert(noted(was, places(impures@).take(0)) == was) by { assert(was.notes + places(impures@).take(0) =~= was.notes); } }
@loop 0
    invariant
        vx_s0@ == impures@, 0 <= vx_i0 <= vx_s0@.len(), vx_this@ == noted(was, places(impures@).take(vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof { assert(places(impures@).take(vx_i0 as int) =~= places(impures@).take(vx_i0 - 1).push(*location)); assert(vx_this@.notes =~= was.notes + places(impures@).take(vx_i0 as int)); }
@ghost loop 0 after
    proof { assert(places(impures@).take(vx_i0 as int) =~= places(impures@)); }

@@verbatim
// ---------------------------------------------------------------- what is gathered
impl ViolatingProcs {
    pub open spec fn has(self, p: ProcRef) -> bool { self.violators@.contains_key(p) }
    pub open spec fn of(self, p: ProcRef) -> Seq<Location> { if self.has(p) { places(self.violators@[p]@) } else { seq![] } }
}
impl ViolatingOverrides {
    pub open spec fn of(self, p: ProcRef) -> Seq<ProcRef> { if self.overrides@.contains_key(p) { self.overrides@[p]@ } else { seq![] } }
}
@@fn chk::ProcDirective::get
@impl <<<impl ProcDirective>>>
@sig <<<fn get(&self, proc: ProcRef) -> Option<&(bool, Location)>>>>
@ret r
@spec
    ensures match r { Some(v) => self.directive@.contains_key(proc) && *v == self.directive@[proc], None => !self.directive@.contains_key(proc) },
@@fn chk::ViolatingProcs::insert_violator
@impl <<<impl ViolatingProcs>>>
@sig <<<fn insert_violator(&mut self, proc: ProcRef, builtin: &str, location: Location)>>>
@rewrite <<<self.violators.entry(proc).or_default()>>> => <<<self.violators.vx_at(proc)>>>
@rewrite <<<builtin.to_string()>>> => <<<vx_format(builtin)>>>
@spec
    ensures
        final(self).has(proc), final(self).of(proc) =~= old(self).of(proc).push(location),
        forall|q: ProcRef| q != proc ==> #[trigger] final(self).has(q) == old(self).has(q) && final(self).of(q) =~= old(self).of(q),
@@fn chk::ViolatingProcs::get_violators
@impl <<<impl ViolatingProcs>>>
@sig <<<fn get_violators(&self, proc: ProcRef) -> Option<&Vec<(String, Location)>>>>>
@ret r
@spec
    ensures match r { Some(v) => self.has(proc) && places(v@) == self.of(proc), None => !self.has(proc) },
@@fn chk::ViolatingOverrides::insert_override
@impl <<<impl ViolatingOverrides>>>
@sig <<<fn insert_override(&mut self, proc: ProcRef, child: ProcRef)>>>
@rewrite <<<self.overrides.entry(proc).or_default()>>> => <<<self.overrides.vx_at(proc)>>>
@spec
    ensures
        final(self).of(proc) =~= old(self).of(proc).push(child),
        forall|q: ProcRef| q != proc ==> #[trigger] final(self).of(q) =~= old(self).of(q),
@@fn chk::ViolatingOverrides::get_override_violators
@impl <<<impl ViolatingOverrides>>>
@sig <<<fn get_override_violators(&self, proc: ProcRef) -> Option<&Vec<ProcRef>>>>>
@ret r
@spec
    ensures match r { Some(v) => v@ == self.of(proc), None => self.of(proc) == Seq::<ProcRef>::empty() },

@@verbatim
// ---------------------------------------------------------------- which procs are reached
/// a proc, what it was called on, and whether that call cannot run an override
pub type Node = (ProcRef, TypeRef, bool);
pub type Item = (ProcRef, CallStack, bool, ProcRef, TypeRef, bool);
pub open spec fn node(q: Item) -> Node { (q.0, q.4, q.5) }
pub open spec fn callee(c: CallEdge, r: TypeRef) -> Node { (c.proc, if c.inherit_receiver { r } else { c.src }, c.is_exact) }
/// which definition it runs on r: a call on the same object goes by what r has, which may be an override above r
pub open spec fn ran(c: CallEdge, r: TypeRef) -> Node {
    let n = callee(c, r);
    if c.inherit_receiver && !c.is_exact && !c.proc.of().root() && r.answer(c.proc.called()).is_some() { (r.answer(c.proc.called())->0, n.1, n.2) } else { n }
}
pub open spec fn queued(q: Seq<Item>, n: Node) -> bool { exists|j: int| 0 <= j < q.len() && !(#[trigger] q[j]).2 && node(q[j]) == n }
impl AnalyzeObjectTree {
    pub open spec fn same(self, o: AnalyzeObjectTree) -> bool { self == (AnalyzeObjectTree { context: self.context, ..o }) }
    pub open spec fn edges(self, p: ProcRef) -> Seq<CallEdge> { if self.call_tree@.contains_key(p) { self.call_tree@[p]@ } else { seq![] } }
    pub open spec fn quiet(self, p: ProcRef) -> bool { self.must_not_sleep.directive@.contains_key(p) }
    pub open spec fn pure(self, p: ProcRef) -> bool { self.must_be_pure.directive@.contains_key(p) }
    /// what it does counts for who calls it: it does not come back when it sleeps, is not excused, and does not answer for itself
    pub open spec fn counts(self, p: ProcRef) -> bool { !self.waitfor_procs@.contains(p) && !self.sleep_exempt.directive@.contains_key(p) && !self.quiet(p) }
    pub open spec fn blocks(self, p: ProcRef) -> bool { self.sleeping_procs.has(p) }
    /// the i-th call in p, on r, runs n
    pub open spec fn calls(self, p: ProcRef, r: TypeRef, i: int, n: Node) -> bool {
        0 <= i < self.edges(p).len() && !self.edges(p)[i].new_context && n == ran(self.edges(p)[i], r)
    }
    /// the i-th call in p, on an object of p's own type (the call was looked up on it)
    pub open spec fn opens(self, p: ProcRef, i: int, n: Node) -> bool {
        0 <= i < self.edges(p).len() && !self.edges(p)[i].new_context && n == callee(self.edges(p)[i], p.of())
    }
    /// what is called m may be n
    pub open spec fn may_be(self, m: Node, n: Node) -> bool {
        !m.2 && !m.0.of().root() && m.0.within(m.1).contains(n.0) && n == (n.0, n.0.of(), true)
    }
    pub open spec fn next(self, m: Node, n: Node) -> bool { self.may_be(m, n) || exists|i: int| #[trigger] self.calls(m.0, m.1, i, n) }
    pub open spec fn step(self, m: Node, st: Seq<Location>, n: Node, t: Seq<Location>) -> bool {
        self.may_be(m, n) && t == st || exists|i: int| #[trigger] self.calls(m.0, m.1, i, n) && t == st.push(self.edges(m.0)[i].location)
    }
    pub open spec fn first(self, r: ProcRef, n: Node, t: Seq<Location>) -> bool { exists|i: int| #[trigger] self.opens(r, i, n) && t == seq![self.edges(r)[i].location] }
    /// a way from r, with the calls made so far
    pub open spec fn way(self, r: ProcRef, w: Seq<(Node, Seq<Location>)>) -> bool {
        &&& w.len() > 0 && self.first(r, w[0].0, w[0].1)
        &&& forall|i: int| 0 < i < w.len() ==> self.goes(w[i - 1], #[trigger] w[i])
    }
    pub open spec fn goes(self, a: (Node, Seq<Location>), b: (Node, Seq<Location>)) -> bool { self.counts(a.0.0) && !self.blocks(a.0.0) && self.step(a.0, a.1, b.0, b.1) }
    /// r reaches n, by the calls at t
    pub open spec fn reaches(self, r: ProcRef, n: Node, t: Seq<Location>) -> bool { exists|w: Seq<(Node, Seq<Location>)>| #[trigger] self.way(r, w) && w.last() == (n, t) }
    // ---- what is said
    pub open spec fn sleeps_said(self, p: ProcRef) -> Report {
        Report { at: p.at(), kind: Some("must_not_sleep"@), notes: seq![self.must_not_sleep.directive@[p].1] + self.sleeping_procs.of(p) }
    }
    pub open spec fn blocked_said(self, r: ProcRef, t: Seq<Location>, p: ProcRef) -> Report {
        Report { at: r.at(), kind: Some("must_not_sleep"@), notes: seq![self.must_not_sleep.directive@[r].1] + t + self.sleeping_procs.of(p) }
    }
    /// some proc that must not sleep is said to get to p, and does
    pub open spec fn named(self, c: Set<Report>, p: ProcRef) -> bool {
        exists|r: ProcRef, n: Node, t: Seq<Location>| #[trigger] self.quiet(r) && n.0 == p && #[trigger] self.reaches(r, n, t) && c.contains(self.blocked_said(r, t, p))
    }
    // ---- purity
    pub open spec fn pfirst(self, r: ProcRef, b: (ProcRef, Seq<Location>)) -> bool { exists|i: int| 0 <= i < self.edges(r).len() && (#[trigger] self.edges(r)[i]).proc == b.0 && b.1 == seq![self.edges(r)[i].location] }
    pub open spec fn pgoes(self, a: (ProcRef, Seq<Location>), b: (ProcRef, Seq<Location>)) -> bool { exists|i: int| 0 <= i < self.edges(a.0).len() && (#[trigger] self.edges(a.0)[i]).proc == b.0 && b.1 == a.1.push(self.edges(a.0)[i].location) }
    pub open spec fn pway(self, r: ProcRef, w: Seq<(ProcRef, Seq<Location>)>) -> bool {
        &&& w.len() > 0 && self.pfirst(r, w[0])
        &&& forall|i: int| 0 < i < w.len() ==> self.pgoes(w[i - 1], #[trigger] w[i])
    }
    pub open spec fn preaches(self, r: ProcRef, p: ProcRef, t: Seq<Location>) -> bool { exists|w: Seq<(ProcRef, Seq<Location>)>| #[trigger] self.pway(r, w) && w.last() == (p, t) }
    pub open spec fn impure_said(self, r: ProcRef, t: Seq<Location>, p: ProcRef) -> Report {
        Report { at: r.at(), kind: Some("must_be_pure"@), notes: seq![self.must_be_pure.directive@[r].1] + t + self.impure_procs.of(p) }
    }
    /// an impure override of p that r may run instead of p
    pub open spec fn stands_in(self, r: ProcRef, p: ProcRef, c: ProcRef) -> bool {
        self.impure_overrides.of(p).contains(c) && !(r.of().under(p.of()) && !c.of().under(r.of()))
    }
    /// p, or an override that stands for it, does impure things that r may be blamed for
    pub open spec fn taints(self, r: ProcRef, p: ProcRef, x: ProcRef) -> bool {
        if self.impure_procs.has(p) { x == p } else { self.stands_in(r, p, x) }
    }
    pub open spec fn pdone(self, c: Set<Report>, r: ProcRef, p: ProcRef) -> bool {
        forall|x: ProcRef| #[trigger] self.taints(r, p, x) ==> self.blamed(c, r, p, x)
    }
    pub open spec fn blamed(self, c: Set<Report>, r: ProcRef, p: ProcRef, x: ProcRef) -> bool {
        exists|t: Seq<Location>| #[trigger] self.preaches(r, p, t) && c.contains(self.impure_said(r, t, x))
    }
    /// nothing else is said
    pub open spec fn fair(self, w: Report) -> bool {
        ||| exists|r: ProcRef| #[trigger] self.quiet(r) && self.blocks(r) && w == self.sleeps_said(r)
        ||| exists|r: ProcRef, n: Node, t: Seq<Location>| #[trigger] self.quiet(r) && #[trigger] self.reaches(r, n, t) && self.counts(n.0) && self.blocks(n.0) && w == self.blocked_said(r, t, n.0)
        ||| exists|r: ProcRef| #[trigger] self.pure(r) && self.impure_procs.has(r) && w == self.impure_said(r, seq![], r)
        ||| exists|r: ProcRef, p: ProcRef, t: Seq<Location>, x: ProcRef| self.pure(r) && #[trigger] self.preaches(r, p, t) && #[trigger] self.taints(r, p, x) && w == self.impure_said(r, t, x)
    }
    pub open spec fn fair_all(self, a: Set<Report>, b: Set<Report>) -> bool {
        &&& forall|w: Report| a.contains(w) ==> #[trigger] b.contains(w)
        &&& forall|w: Report| #[trigger] b.contains(w) ==> a.contains(w) || self.fair(w)
    }
    // ---- the search
    pub open spec fn closed(self, v: Set<Node>, q: Seq<Item>, but: Option<Node>) -> bool {
        forall|n: Node, m: Node| #[trigger] v.contains(n) && Some(n) != but && self.counts(n.0) && !self.blocks(n.0) && #[trigger] self.next(n, m) ==> v.contains(m) || queued(q, m)
    }
    pub open spec fn begun(self, r: ProcRef, v: Set<Node>, q: Seq<Item>) -> bool {
        forall|n: Node, i: int| #[trigger] self.opens(r, i, n) ==> v.contains(n) || queued(q, n)
    }
    pub open spec fn waiting(self, r: ProcRef, q: Seq<Item>) -> bool {
        forall|j: int| 0 <= j < q.len() && !(#[trigger] q[j]).2 ==> self.reaches(r, node(q[j]), q[j].1.sites())
    }
    pub open spec fn told(self, c: Set<Report>, v: Set<Node>, d: Set<ProcRef>) -> bool {
        &&& forall|n: Node| #[trigger] v.contains(n) && self.counts(n.0) && self.blocks(n.0) ==> d.contains(n.0)
        &&& forall|p: ProcRef| #[trigger] d.contains(p) ==> self.named(c, p)
    }
    pub open spec fn pclosed(self, v: Set<ProcRef>, q: Seq<(ProcRef, CallStack)>, but: Option<ProcRef>) -> bool {
        forall|m: ProcRef, i: int| #[trigger] v.contains(m) && Some(m) != but && 0 <= i < self.edges(m).len() ==> v.contains((#[trigger] self.edges(m)[i]).proc) || pqueued(q, self.edges(m)[i].proc)
    }
    pub open spec fn pwaiting(self, r: ProcRef, q: Seq<(ProcRef, CallStack)>) -> bool {
        forall|j: int| 0 <= j < q.len() ==> self.preaches(r, (#[trigger] q[j]).0, q[j].1.sites())
    }
    // ---- the end of a search is all there is
    pub proof fn way_in(self, r: ProcRef, w: Seq<(Node, Seq<Location>)>, v: Set<Node>, i: int)
        requires self.closed(v, seq![], None), self.begun(r, v, seq![]), self.way(r, w), 0 <= i < w.len(),
        ensures v.contains(w[i].0),
        decreases i,
    {
        assert(forall|m: Node| !queued(seq![], m));
        if i > 0 {
            self.way_in(r, w, v, i - 1);
            assert(self.goes(w[i - 1], w[i]));
            assert(self.next(w[i - 1].0, w[i].0));
        }
    }
    pub proof fn all_reached(self, r: ProcRef, n: Node, t: Seq<Location>, v: Set<Node>)
        requires self.closed(v, seq![], None), self.begun(r, v, seq![]), self.reaches(r, n, t),
        ensures v.contains(n),
    {
        let w = choose|w: Seq<(Node, Seq<Location>)>| #[trigger] self.way(r, w) && w.last() == (n, t);
        self.way_in(r, w, v, w.len() - 1);
    }
    pub proof fn pway_in(self, r: ProcRef, w: Seq<(ProcRef, Seq<Location>)>, v: Set<ProcRef>, i: int)
        requires self.pclosed(v, seq![], None), self.pbegun(r, v, seq![], self.edges(r).len() as int), self.pway(r, w), 0 <= i < w.len(),
        ensures v.contains(w[i].0),
        decreases i,
    {
        assert(forall|m: ProcRef| !pqueued(seq![], m));
        if i > 0 { self.pway_in(r, w, v, i - 1); assert(self.pgoes(w[i - 1], w[i])); }
    }
    pub proof fn all_preached(self, r: ProcRef, p: ProcRef, t: Seq<Location>, v: Set<ProcRef>)
        requires self.pclosed(v, seq![], None), self.pbegun(r, v, seq![], self.edges(r).len() as int), self.preaches(r, p, t),
        ensures v.contains(p),
    {
        let w = choose|w: Seq<(ProcRef, Seq<Location>)>| #[trigger] self.pway(r, w) && w.last() == (p, t);
        self.pway_in(r, w, v, w.len() - 1);
    }
    pub open spec fn pbegun(self, r: ProcRef, v: Set<ProcRef>, q: Seq<(ProcRef, CallStack)>, n: int) -> bool {
        forall|i: int| 0 <= i < n ==> v.contains((#[trigger] self.edges(r)[i]).proc) || pqueued(q, self.edges(r)[i].proc)
    }
    pub proof fn reach_first(self, r: ProcRef, n: Node, t: Seq<Location>)
        requires self.first(r, n, t),
        ensures self.reaches(r, n, t),
    { assert(self.way(r, seq![(n, t)])); }
    pub proof fn preach_first(self, r: ProcRef, p: ProcRef, t: Seq<Location>)
        requires self.pfirst(r, (p, t)),
        ensures self.preaches(r, p, t),
    { assert(self.pway(r, seq![(p, t)])); }
    pub proof fn reach_on(self, r: ProcRef, m: Node, st: Seq<Location>, n: Node, t: Seq<Location>)
        requires self.reaches(r, m, st), self.counts(m.0), !self.blocks(m.0), self.step(m, st, n, t),
        ensures self.reaches(r, n, t),
    {
        let w = choose|w: Seq<(Node, Seq<Location>)>| #[trigger] self.way(r, w) && w.last() == (m, st);
        let x = w.push((n, t));
        assert forall|i: int| 0 < i < x.len() implies self.goes(x[i - 1], #[trigger] x[i]) by { if i < w.len() { assert(x[i] == w[i] && x[i - 1] == w[i - 1]); } }
        assert(x[0] == w[0]);
        assert(self.way(r, x));
    }
    pub proof fn preach_on(self, r: ProcRef, m: ProcRef, st: Seq<Location>, i: int)
        requires self.preaches(r, m, st), 0 <= i < self.edges(m).len(),
        ensures self.preaches(r, self.edges(m)[i].proc, st.push(self.edges(m)[i].location)),
    {
        let w = choose|w: Seq<(ProcRef, Seq<Location>)>| #[trigger] self.pway(r, w) && w.last() == (m, st);
        let e = self.edges(m)[i];
        let x = w.push((e.proc, st.push(e.location)));
        assert(self.pgoes((m, st), x.last()));
        assert forall|k: int| 0 < k < x.len() implies self.pgoes(x[k - 1], #[trigger] x[k]) by { if k < w.len() { assert(x[k] == w[k] && x[k - 1] == w[k - 1]); } }
        assert(x[0] == w[0]);
        assert(self.pway(r, x));
    }
}
pub open spec fn pqueued(q: Seq<(ProcRef, CallStack)>, p: ProcRef) -> bool { exists|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == p }
pub proof fn push_queued(q: Seq<Item>, x: Item)
    ensures forall|n: Node| #[trigger] queued(q.push(x), n) <==> queued(q, n) || (!x.2 && node(x) == n),
{
    assert forall|n: Node| #[trigger] queued(q.push(x), n) <==> queued(q, n) || (!x.2 && node(x) == n) by {
        if queued(q, n) { let j = choose|j: int| 0 <= j < q.len() && !(#[trigger] q[j]).2 && node(q[j]) == n; assert(q.push(x)[j] == q[j]); }
        if !x.2 && node(x) == n { assert(q.push(x)[q.len() as int] == x); }
    }
}
pub proof fn pop_queued(q: Seq<Item>)
    requires q.len() > 0,
    ensures forall|n: Node| #[trigger] queued(q, n) <==> queued(q.skip(1), n) || (!q[0].2 && node(q[0]) == n),
{
    assert forall|n: Node| #[trigger] queued(q, n) <==> queued(q.skip(1), n) || (!q[0].2 && node(q[0]) == n) by {
        if queued(q, n) { let j = choose|j: int| 0 <= j < q.len() && !(#[trigger] q[j]).2 && node(q[j]) == n; if j > 0 { assert(q.skip(1)[j - 1] == q[j]); } }
        if queued(q.skip(1), n) { let j = choose|j: int| 0 <= j < q.skip(1).len() && !(#[trigger] q.skip(1)[j]).2 && node(q.skip(1)[j]) == n; assert(q[j + 1] == q.skip(1)[j]); }
    }
}
pub proof fn push_pqueued(q: Seq<(ProcRef, CallStack)>, x: (ProcRef, CallStack))
    ensures forall|n: ProcRef| #[trigger] pqueued(q.push(x), n) <==> pqueued(q, n) || x.0 == n,
{
    assert forall|n: ProcRef| #[trigger] pqueued(q.push(x), n) <==> pqueued(q, n) || x.0 == n by {
        if pqueued(q, n) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == n; assert(q.push(x)[j] == q[j]); }
        if x.0 == n { assert(q.push(x)[q.len() as int] == x); }
    }
}
pub proof fn pop_pqueued(q: Seq<(ProcRef, CallStack)>)
    requires q.len() > 0,
    ensures forall|n: ProcRef| #[trigger] pqueued(q, n) <==> pqueued(q.skip(1), n) || q[0].0 == n,
{
    assert forall|n: ProcRef| #[trigger] pqueued(q, n) <==> pqueued(q.skip(1), n) || q[0].0 == n by {
        if pqueued(q, n) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == n; if j > 0 { assert(q.skip(1)[j - 1] == q[j]); } }
        if pqueued(q.skip(1), n) { let j = choose|j: int| 0 <= j < q.skip(1).len() && (#[trigger] q.skip(1)[j]).0 == n; assert(q[j + 1] == q.skip(1)[j]); }
    }
}

pub fn vx_pop<T>(q: &mut VecDeque<T>) -> (r: Option<T>)
    ensures match r { Some(v) => old(q)@ == seq![v] + final(q)@, None => old(q)@ == Seq::<T>::empty() && final(q)@ == Seq::<T>::empty() },
{
    let r = q.pop_front();
    proof { if r is Some { assert(old(q)@ =~= seq![r->0] + q@); } else { assert(q@ =~= seq![]); assert(old(q)@ =~= seq![]); } }
    r
}
impl AnalyzeObjectTree {
    pub proof fn more(self, a: Set<Report>, b: Set<Report>)
        requires forall|w: Report| a.contains(w) ==> #[trigger] b.contains(w),
        ensures forall|p: ProcRef| #[trigger] self.named(a, p) ==> self.named(b, p), forall|r: ProcRef, p: ProcRef, x: ProcRef| #[trigger] self.blamed(a, r, p, x) ==> self.blamed(b, r, p, x),
            forall|r: ProcRef, p: ProcRef| #[trigger] self.pdone(a, r, p) ==> self.pdone(b, r, p),
            forall|r: ProcRef| #[trigger] self.pall(a, r) ==> self.pall(b, r),
    {
        assert forall|p: ProcRef| #[trigger] self.named(a, p) implies self.named(b, p) by {
            let (r, n, t) = choose|r: ProcRef, n: Node, t: Seq<Location>| #[trigger] self.quiet(r) && n.0 == p && #[trigger] self.reaches(r, n, t) && a.contains(self.blocked_said(r, t, p));
            assert(b.contains(self.blocked_said(r, t, p)));
        }
        assert forall|r: ProcRef, p: ProcRef, x: ProcRef| #[trigger] self.blamed(a, r, p, x) implies self.blamed(b, r, p, x) by {
            let t = choose|t: Seq<Location>| #[trigger] self.preaches(r, p, t) && a.contains(self.impure_said(r, t, x));
            assert(b.contains(self.impure_said(r, t, x)));
        }
        assert forall|r: ProcRef, p: ProcRef| #[trigger] self.pdone(a, r, p) implies self.pdone(b, r, p) by {
            assert forall|x: ProcRef| #[trigger] self.taints(r, p, x) implies self.blamed(b, r, p, x) by { assert(self.blamed(a, r, p, x)); }
        }
        assert forall|r: ProcRef| #[trigger] self.pall(a, r) implies self.pall(b, r) by {
            if self.impure_procs.has(r) { assert(b.contains(self.impure_said(r, seq![], r))); }
            assert forall|p: ProcRef, t: Seq<Location>| #[trigger] self.preaches(r, p, t) implies self.pdone(b, r, p) by { assert(self.pdone(a, r, p)); }
        }
    }
    /// all that is to be said of a proc that must be pure
    pub open spec fn pall(self, c: Set<Report>, r: ProcRef) -> bool {
        &&& self.impure_procs.has(r) ==> c.contains(self.impure_said(r, seq![], r))
        &&& forall|p: ProcRef, t: Seq<Location>| #[trigger] self.preaches(r, p, t) ==> self.pdone(c, r, p)
    }
    /// roots whose calls have been followed
    pub open spec fn followed(self, v: Set<Node>, c: Set<Report>, l: Seq<(ProcRef, (bool, Location))>, n: int) -> bool {
        &&& forall|j: int| 0 <= j < n ==> self.begun((#[trigger] l[j]).0, v, seq![])
        &&& forall|j: int| 0 <= j < n && self.blocks((#[trigger] l[j]).0) ==> c.contains(self.sleeps_said(l[j].0))
    }
    pub open spec fn are_quiet(self, l: Seq<(ProcRef, (bool, Location))>) -> bool {
        forall|j: int| 0 <= j < l.len() ==> self.quiet((#[trigger] l[j]).0) && l[j].1 == self.must_not_sleep.directive@[l[j].0]
    }
    pub open spec fn are_pure(self, l: Seq<(ProcRef, (bool, Location))>) -> bool {
        forall|j: int| 0 <= j < l.len() ==> self.pure((#[trigger] l[j]).0) && l[j].1 == self.must_be_pure.directive@[l[j].0]
    }
    pub open spec fn sound(self) -> bool { forall|p: ProcRef, c: ProcRef| #[trigger] self.impure_overrides.of(p).contains(c) ==> self.impure_procs.has(c) }
}
pub proof fn sorted_all(m: Map<ProcRef, (bool, Location)>, a: Seq<(ProcRef, (bool, Location))>, b: Seq<(ProcRef, (bool, Location))>)
    requires
        forall|j: int| 0 <= j < a.len() ==> m.contains_key((#[trigger] a[j]).0) && a[j].1 == m[a[j].0], forall|k: ProcRef| m.contains_key(k) ==> #[trigger] listed(a, k),
        forall|x: (ProcRef, (bool, Location))| b.contains(x) <==> #[trigger] a.contains(x),
    ensures
        forall|j: int| 0 <= j < b.len() ==> m.contains_key((#[trigger] b[j]).0) && b[j].1 == m[b[j].0], forall|k: ProcRef| m.contains_key(k) ==> #[trigger] listed(b, k),
{
    assert forall|j: int| 0 <= j < b.len() implies m.contains_key((#[trigger] b[j]).0) && b[j].1 == m[b[j].0] by {
        assert(b.contains(b[j]));
        assert(a.contains(b[j]));
    }
    assert forall|k: ProcRef| m.contains_key(k) implies #[trigger] listed(b, k) by {
        assert(listed(a, k));
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == k;
        assert(a.contains(a[j]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j];
        assert(b[i].0 == k);
    }
}

@@fn chk::AnalyzeObjectTree::propagate_violations
@impl <<<impl AnalyzeObjectTree>>>
@rewrite <<<proc.name() == "New">>> => <<<vx_str_eq(proc.name(), "New")>>>
@sig <<<fn propagate_violations(&mut self, proc: ProcRef)>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures
        *final(self) == (AnalyzeObjectTree { impure_overrides: final(self).impure_overrides, ..*old(self) }),
        forall|q: ProcRef| #[trigger] final(self).impure_overrides.of(q) =~= (
            if proc.called() != "New"@ && old(self).impure_procs.has(proc) && q != proc && proc.line().contains(q) { old(self).impure_overrides.of(q).push(proc) } else { old(self).impure_overrides.of(q) }),
@ghost start
    let ghost s0 = *self;
    let ghost l = proc.line();
    let ghost mut done = 0int;
    proof { proc.line_starts(); }
@loop 0
    invariant_except_break
        match next { Some(p) => done < l.len() && p.line() =~= l.skip(done), None => done == l.len() },
    invariant
        l == proc.line(), l.no_duplicates(), l.len() > 0, l[0] == proc, 0 < done + 0 <= l.len(),
        proc.called() != "New"@, s0.impure_procs.has(proc), s0 == *old(self),
        *self == (AnalyzeObjectTree { impure_overrides: self.impure_overrides, ..s0 }),
        forall|q: ProcRef| #[trigger] self.impure_overrides.of(q) =~= (if q != proc && l.take(done).contains(q) { s0.impure_overrides.of(q).push(proc) } else { s0.impure_overrides.of(q) }),
    ensures done == l.len(),
@ghost after <<<let mut next>>>
    proof {
        done = 1;
        assert(l.take(1) =~= seq![proc]);
        match next { Some(p) => { p.line_starts(); assert(l =~= seq![proc] + p.line()); assert(l.skip(1) =~= p.line()); } None => {} }
    }
@ghost loop 0 start
    let ghost s1 = *self;
    proof {
        current.line_starts();
        assert(l.skip(done)[0] == l[done]);
        assert(current == l[done]);
        assert(!l.take(done).contains(current)) by { if l.take(done).contains(current) { let j = choose|j: int| 0 <= j < done && l.take(done)[j] == current; assert(l[j] == current); } }
        assert(current != proc);
        assert forall|q: ProcRef| l.take(done + 1).contains(q) <==> l.take(done).contains(q) || q == current by {
            if l.take(done).contains(q) { let j = choose|j: int| 0 <= j < done && l.take(done)[j] == q; assert(l.take(done + 1)[j] == q); }
            if q == current { assert(l.take(done + 1)[done] == q); }
        }
    }
@ghost loop 0 end
    proof {
        done = done + 1;
        match next { Some(p) => { assert(l.skip(done) =~= l.skip(done - 1).skip(1)); assert((seq![current] + p.line()).skip(1) =~= p.line()); p.line_starts(); assert(l.skip(done).len() > 0); } None => { assert(l.skip(done - 1).len() == 1); } }
    }
@ghost loop 0 after
    proof { assert(l.take(done) =~= l); }

// ---- what the walk over a body notes
@@type chk::AnalyzeProc
@fields env, context, ty, proc_ref, inside_newcontext
@rewrite <<<AnalyzeProc<'o, 's>>>> => <<<AnalyzeProc>>>
@rewrite <<<&'s mut AnalyzeObjectTree<'o>>>> => <<<AnalyzeObjectTree>>>
@rewrite <<<&'o Context>>> => <<<Context>>>
@rewrite <<<TypeRef<'o>>>> => <<<TypeRef>>>
@rewrite <<<ProcRef<'o>>>> => <<<ProcRef>>>
@@verbatim
impl AnalyzeProc {
    /// p is noted to block at l, and nothing else happens
    pub open spec fn blocked(self, o: AnalyzeProc, l: Location) -> bool {
        &&& self == (AnalyzeProc { env: AnalyzeObjectTree { sleeping_procs: self.env.sleeping_procs, ..o.env }, ..o })
        &&& self.env.sleeping_procs.has(o.proc_ref) && self.env.sleeping_procs.of(o.proc_ref) =~= o.env.sleeping_procs.of(o.proc_ref).push(l)
        &&& forall|q: ProcRef| q != o.proc_ref ==> #[trigger] self.env.sleeping_procs.has(q) == o.env.sleeping_procs.has(q) && self.env.sleeping_procs.of(q) =~= o.env.sleeping_procs.of(q)
    }
}
/// built-in procs of a type that block
pub open spec fn type_blocks(t: TypeRef, n: Seq<char>) -> bool {
    (t.path() == "/client"@ && (n == "SoundQuery"@ || n == "MeasureText"@)) || (t.path() == "/world"@ && (n == "Import"@ || n == "Export"@))
}
/// global ones
pub open spec fn global_blocks(n: Seq<char>) -> bool { n == "sleep"@ || n == "alert"@ || n == "shell"@ || n == "winexists"@ || n == "winget"@ }
/// a str is its chars
pub broadcast axiom fn same_chars(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub proof fn reveal_names()
    ensures "/client"@ != "/world"@,
{
    reveal_strlit("/client"); reveal_strlit("/world"); reveal_strlit("SoundQuery"); reveal_strlit("MeasureText"); reveal_strlit("Import"); reveal_strlit("Export");
    reveal_strlit("sleep"); reveal_strlit("alert"); reveal_strlit("shell"); reveal_strlit("winexists"); reveal_strlit("winget");
    assert("/client"@[1] != "/world"@[1]);
}
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}

@@fn chk::AnalyzeProc::check_type_sleepers
@impl <<<impl AnalyzeProc>>>
@sig <<<fn check_type_sleepers(&mut self, ty: TypeRef, location: Location, unscoped_name: &str)>>>
@opt guardlit
@rewrite <<<ty.get().path.as_str()>>> => <<<ty.get().vx_path()>>>
@rewrite optional <<<format!("client.{unscoped_name}").as_str()>>> => <<<"">>>
@rewrite optional <<<format!("world.{unscoped_name}").as_str()>>> => <<<"">>>
@spec
    ensures if old(self).inside_newcontext == 0 && type_blocks(ty, unscoped_name@) { final(self).blocked(*old(self), location) } else { *final(self) == *old(self) },
@ghost start
    broadcast use same_chars;
    proof { reveal_names(); }

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_call_arm
@arm <<<Term::Call(unscoped_name, args)>>> <<<>>> <<<>>>
@until <<<self.check_type_sleepers>>>
@sig <<<fn vx_call_arm(&mut self, location: Location, unscoped_name: &Ident)>>>
@rewrite optional <<<insert_violator(self.proc_ref, unscoped_name, location)>>> => <<<insert_violator(self.proc_ref, unscoped_name.as_str(), location)>>>
@spec
    ensures if old(self).inside_newcontext == 0 && global_blocks(unscoped_name@) { final(self).blocked(*old(self), location) } else { *final(self) == *old(self) },
@ghost start
    broadcast use same_chars;
    proof { reveal_names(); }

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@name vx_input_arm
@arm <<<Term::Input { args, input_type, in_list, }>>> <<<>>> <<<>>>
@until <<<self.visit_arguments>>>
@sig <<<fn vx_input_arm(&mut self, location: Location)>>>
@spec
    ensures if old(self).inside_newcontext == 0 { final(self).blocked(*old(self), location) } else { *final(self) == *old(self) },

@@fn chk::AnalyzeProc::visit_call
@impl <<<impl AnalyzeProc>>>
@name vx_visit_call_start
@until <<<if let Some((privateproc, true, decllocation)) = self.env.private.get_self_or_parent(proc)>>>
@sig <<<fn vx_visit_call_start(&mut self, location: Location, src: TypeRef, proc: ProcRef, is_exact: bool, inherit_receiver: bool)>>>
@rewrite <<<self.env.call_tree.entry(self.proc_ref).or_default()>>> => <<<self.env.call_tree.vx_at(self.proc_ref)>>>
@spec
    ensures
        final(self).env.edges(old(self).proc_ref) =~= old(self).env.edges(old(self).proc_ref).push(CallEdge { proc, location, new_context: old(self).inside_newcontext != 0, src, is_exact, inherit_receiver }),
        forall|q: ProcRef| q != old(self).proc_ref ==> #[trigger] final(self).env.edges(q) =~= old(self).env.edges(q),
        *final(self) == (AnalyzeProc { env: AnalyzeObjectTree { call_tree: final(self).env.call_tree, ..old(self).env }, ..*old(self) }),

@@verbatim
pub enum Term { Int(i32), Ident(Ident), Other }
#[verifier::external_body]
pub struct Expression { _x: u8 }
impl Expression {
    pub uninterp spec fn term(self) -> Option<Term>;
    #[verifier::external_body]
    pub fn as_term(&self) -> (r: Option<&Term>) ensures match r { Some(t) => self.term() == Some(*t), None => self.term() is None } { unimplemented!() }
}
pub open spec fn is_false(e: Expression) -> bool { match e.term() { Some(Term::Int(n)) => n == 0, Some(Term::Ident(i)) => i@ == "FALSE"@, _ => false } }
impl Chars for Ident { open spec fn chars(&self) -> Seq<char> { self@ } }
/// (unit flow says how control is left)
#[verifier::external_body]
pub struct ControlFlow { _x: u8 }
impl ControlFlow {
    #[verifier::external_body]
    pub fn allfalse() -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Block { _x: u8 }
#[verifier::external_body]
pub struct VxVars { _x: u8 }
impl VxVars {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) { unimplemented!() }
}
/// what is visited inside a spawn: with the mark, which is kept
impl AnalyzeProc {
    #[verifier::external_body]
    pub fn visit_expression(&mut self, location: Location, e: &Expression, h: Option<TypeRef>, local_vars: &mut VxVars)
        requires old(self).inside_newcontext != 0,
        ensures final(self).inside_newcontext == old(self).inside_newcontext, final(self).proc_ref == old(self).proc_ref,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_block(&mut self, b: &Block, local_vars: &mut VxVars, last: bool) -> (r: ControlFlow)
        requires old(self).inside_newcontext != 0,
        ensures final(self).inside_newcontext == old(self).inside_newcontext, final(self).proc_ref == old(self).proc_ref,
    { unimplemented!() }
}

@@fn chk::AnalyzeProc::visit_statement
@impl <<<impl AnalyzeProc>>>
@name vx_waitfor_arm
@arm <<<Statement::Setting { name, mode: SettingMode::Assign, value, }>>> <<<ControlFlow::allfalse()>>> <<<>>>
@sig <<<fn vx_waitfor_arm(&mut self, name: &Ident, value: &Expression) -> ControlFlow>>>
@rewrite <<<name != "waitfor">>> => <<<!vx_str_eq(name, "waitfor")>>>
@rewrite <<<i == "FALSE">>> => <<<vx_str_eq(i, "FALSE")>>>
@spec
    ensures
        *final(self) == (AnalyzeProc { env: AnalyzeObjectTree { waitfor_procs: final(self).env.waitfor_procs, ..old(self).env }, ..*old(self) }),
        final(self).env.waitfor_procs@ == if name@ == "waitfor"@ && is_false(*value) { old(self).env.waitfor_procs@.insert(old(self).proc_ref) } else { old(self).env.waitfor_procs@ },

@@fn chk::AnalyzeProc::visit_statement
@impl <<<impl AnalyzeProc>>>
@name vx_spawn_arm
@arm <<<Statement::Spawn { delay, block }>>> <<<>>> <<<>>>
@sig <<<fn vx_spawn_arm(&mut self, location: Location, delay: &Option<Expression>, block: &Block, local_vars: &mut VxVars)>>>
@spec
    requires old(self).inside_newcontext < u32::MAX,
    ensures final(self).inside_newcontext == old(self).inside_newcontext, final(self).proc_ref == old(self).proc_ref,

@@fn chk::AnalyzeObjectTree::check_proc_call_tree
@impl <<<impl AnalyzeObjectTree>>>
@sig <<<fn check_proc_call_tree(&mut self)>>>
@opt forslice visitloops
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<self.objtree.iter_types().flat_map(|type_ref: TypeRef| type_ref.iter_self_procs()).count()>>> => <<<self.objtree.vx_count()>>>
@rewrite optional <<<HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>>>> => <<<VxSet::<(ProcRef, TypeRef, bool)>>>>
@rewrite <<<HashSet::<ProcRef<'o>>>>> => <<<VxSet::<ProcRef>>>>
@rewrite <<<VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>>>> => <<<VecDeque::<(ProcRef, CallStack, bool, ProcRef, TypeRef, bool)>>>>
@rewrite <<<VecDeque::<(ProcRef<'o>, CallStack)>>>> => <<<VecDeque::<(ProcRef, CallStack)>>>>
@rewrite <<<self.must_not_sleep.directive.iter().collect()>>> => <<<self.must_not_sleep.directive.vx_entries()>>>
@rewrite <<<self.must_be_pure.directive.iter().collect()>>> => <<<self.must_be_pure.directive.vx_entries()>>>
@rewrite <<<must_not_sleep.sort_by_key(|(procref, _)| procref.get().location)>>> => <<<vx_sort(&mut must_not_sleep)>>>
@rewrite <<<must_be_pure.sort_by_key(|(procref, _)| procref.get().location)>>> => <<<vx_sort(&mut must_be_pure)>>>
@rewrite <<<for (procref, &(_, location)) in must_not_sleep>>> => <<<for (procref, (_, location)) in &must_not_sleep>>>
@rewrite <<<.with_note(location, "SpacemanDMM_should_not_sleep set here")>>> => <<<.with_note(*location, "SpacemanDMM_should_not_sleep set here")>>>
@rewrite <<<for (procref, (_, location)) in must_be_pure>>> => <<<for (procref, (_, location)) in &must_be_pure>>>
@rewrite <<<for each in procscalled>>> => <<<for each in procscalled.iter()>>>
@rewrite <<<for child_violator in overrideimpure>>> => <<<for child_violator in overrideimpure.iter()>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<to_visit.pop_front()>>> => <<<vx_pop(&mut to_visit)>>>
@rewrite <<<drop(visited);>>> => <<<>>>
@rewrite <<<drop(to_visit);>>> => <<<>>>
@spec
    requires
        // (propagate_violations notes none else)
        old(self).sound(),
    ensures
        final(self).same(*old(self)), old(self).fair_all(old(self).context@, final(self).context@),
        forall|r: ProcRef| #[trigger] old(self).quiet(r) && old(self).blocks(r) ==> final(self).context@.contains(old(self).sleeps_said(r)),
        forall|r: ProcRef, n: Node, t: Seq<Location>| #[trigger] old(self).quiet(r) && #[trigger] old(self).reaches(r, n, t) && old(self).counts(n.0) && old(self).blocks(n.0) ==> old(self).named(final(self).context@, n.0),
        forall|r: ProcRef| #[trigger] old(self).pure(r) && old(self).impure_procs.has(r) ==> final(self).context@.contains(old(self).impure_said(r, seq![], r)),
        forall|r: ProcRef, p: ProcRef, t: Seq<Location>, x: ProcRef| old(self).pure(r) && #[trigger] old(self).preaches(r, p, t) && #[trigger] old(self).taints(r, p, x) ==> old(self).blamed(final(self).context@, r, p, x),
@ghost start
    let ghost e = *self;
    let ghost c0 = self.context@;
    let ghost mut c1 = self.context@;
@ghost before <<<vx_sort(&mut must_not_sleep)>>>
    let ghost given = must_not_sleep@;
@ghost after <<<vx_sort(&mut must_not_sleep)>>>
    proof { sorted_all(e.must_not_sleep.directive@, given, must_not_sleep@); }
@loop 0
    invariant
        self.same(e), e == *old(self), c0 == e.context@, e.fair_all(c0, self.context@), e.sound(),
        vx_s3@ == must_not_sleep@, 0 <= vx_i3 <= vx_s3@.len(), e.are_quiet(vx_s3@), forall|k: ProcRef| #[trigger] e.quiet(k) ==> listed(vx_s3@, k),
        to_visit@ == Seq::<Item>::empty(), e.closed(visited@, to_visit@, None), e.told(self.context@, visited@, reported@), e.followed(visited@, self.context@, vx_s3@, vx_i3 as int),
    decreases vx_s3@.len() - vx_i3,
@ghost loop 0 start
    let ghost me = vx_s3@[vx_i3 as int].0;
    proof { assert(vx_s3@[vx_i3 as int].1 == e.must_not_sleep.directive@[me]); assert(e.quiet(me)); }
@ghost before <<<error>>> #0
    let ghost b = self.context@;
@ghost after <<<error>>> #0
    proof {
        assert(self.context@ == b.insert(e.sleeps_said(me))) by { assert(e.sleeps_said(me).notes =~= Seq::<Location>::empty().push(*location) + places(sleepvec@)); }
        assert(e.fair(e.sleeps_said(me)));
        e.more(b, self.context@);
    }
@ghost before <<<let procref_type>>>
    let ghost b1 = self.context@;
@loop 1
    invariant
        self.same(e), e == *old(self), self.context@ == b1, *procref == me, procref_type == me.of(),
        vx_s0@ == e.edges(me), 0 <= vx_i0 <= vx_s0@.len(),
        e.closed(visited@, to_visit@, None), e.waiting(me, to_visit@),
        forall|n: Node, i: int| 0 <= i < vx_i0 && #[trigger] e.opens(me, i, n) ==> visited@.contains(n) || queued(to_visit@, n),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 1 start
    let ghost q1 = to_visit@;
@ghost loop 1 end
    proof {
        let x = to_visit@[q1.len() as int];
        assert(to_visit@ == q1.push(x));
        push_queued(q1, x);
        let i = vx_i0 - 1;
        assert(node(x) == callee(e.edges(me)[i], me.of()));
        if !x.2 {
            assert(e.opens(me, i, node(x)));
            assert(x.1.sites() =~= seq![each.location]);
            e.reach_first(me, node(x), x.1.sites());
        }
        assert(forall|j: int| 0 <= j < q1.len() ==> to_visit@[j] == q1[j]);
        assert forall|n: Node, i2: int| 0 <= i2 < vx_i0 && #[trigger] e.opens(me, i2, n) implies visited@.contains(n) || queued(to_visit@, n) by {
            if i2 == i { assert(n == node(x)); assert(!x.2); }
        }
    }
@ghost before <<<let procref_type_index>>>
    proof { assert(e.begun(me, visited@, to_visit@)); }
@loop 2
    invariant_except_break
        e.closed(visited@, to_visit@, None), e.begun(me, visited@, to_visit@), e.waiting(me, to_visit@),
    invariant
        self.same(e), e == *old(self), c0 == e.context@, e.fair_all(c0, self.context@), *procref == me, e.quiet(me), *location == e.must_not_sleep.directive@[me].1,
        e.told(self.context@, visited@, reported@), e.followed(visited@, self.context@, vx_s3@, vx_i3 - 1), 0 < vx_i3 <= vx_s3@.len(),
        e.blocks(me) ==> self.context@.contains(e.sleeps_said(me)),
    ensures
        to_visit@ == Seq::<Item>::empty(), e.closed(visited@, to_visit@, None), e.begun(me, visited@, to_visit@),
@ghost loop 2 start
    let ghost it: Item = (nextproc, callstack, new_context, parent_proc, receiver, is_exact);
    let ghost q0 = seq![it] + to_visit@;
    let ghost n = node(it);
    let ghost st = callstack.sites();
    let ghost v0 = visited@;
    proof {
        assert(q0.skip(1) =~= to_visit@);
        pop_queued(q0);
        assert(q0[0] == it);
        assert(forall|j: int| 0 <= j < to_visit@.len() ==> q0[j + 1] == to_visit@[j]);
        assert(e.waiting(me, to_visit@));
        if !new_context { assert(e.reaches(me, n, st)); }
        assert(e.closed(v0.insert(n), to_visit@, Some(n)));
        assert(e.begun(me, v0.insert(n), to_visit@));
        assert(e.followed(v0.insert(n), self.context@, vx_s3@, vx_i3 - 1)) by {
            assert forall|j: int| 0 <= j < vx_i3 - 1 implies e.begun((#[trigger] vx_s3@[j]).0, v0.insert(n), seq![]) by { assert(e.begun(vx_s3@[j].0, v0, seq![])); }
        }
        if v0.contains(n) { assert(v0.insert(n) =~= v0); }
    }
@ghost before <<<error>>> #1
    let ghost b = self.context@;
@ghost after <<<error>>> #1
    proof {
        assert(self.context@ == b.insert(e.blocked_said(me, st, nextproc))) by { assert(e.blocked_said(me, st, nextproc).notes =~= Seq::<Location>::empty().push(*location) + st + places(sleepvec@)); }
        assert(e.fair(e.blocked_said(me, st, n.0)));
        e.more(b, self.context@);
        assert(e.named(self.context@, nextproc));
    }
@ghost before <<<if !is_exact && nextproc.ty()>>>
    proof { assert(e.counts(n.0) && !e.blocks(n.0)); assert(visited@ == v0.insert(n)); }
@loop 3
    invariant
        vx_s1@ == n.0.within(n.1), 0 <= vx_i1 <= vx_s1@.len(), n == (nextproc, receiver, is_exact), !n.2, !n.0.of().root(), st == callstack.sites(),
        e.closed(visited@, to_visit@, Some(n)), e.begun(me, visited@, to_visit@), e.waiting(me, to_visit@), e.reaches(me, n, st), e.counts(n.0), !e.blocks(n.0),
        forall|k: int| 0 <= k < vx_i1 ==> visited@.contains(((#[trigger] vx_s1@[k]), vx_s1@[k].of(), true)) || queued(to_visit@, (vx_s1@[k], vx_s1@[k].of(), true)),
    decreases vx_s1@.len() - vx_i1,
@ghost loop 3 start
    let ghost q1 = to_visit@;
@ghost loop 3 end
    proof {
        let x = to_visit@[q1.len() as int];
        assert(to_visit@ == q1.push(x));
        push_queued(q1, x);
        let c = vx_s1@[vx_i1 - 1];
        assert(node(x) == (c, c.of(), true) && !x.2);
        assert(x.1.sites() =~= st);
        assert(n.0.within(n.1).contains(c));
        assert(e.may_be(n, node(x)));
        assert(e.step(n, st, node(x), st));
        e.reach_on(me, n, st, node(x), st);
        assert(forall|j: int| 0 <= j < q1.len() ==> to_visit@[j] == q1[j]);
    }
@ghost before <<<if let Some(calledvec) = self.call_tree.get(&nextproc)>>> #0
    proof {
        assert forall|m: Node| #[trigger] e.may_be(n, m) implies visited@.contains(m) || queued(to_visit@, m) by {
            let k = choose|k: int| 0 <= k < n.0.within(n.1).len() && n.0.within(n.1)[k] == m.0;
        }
    }
@loop 4
    invariant
        self.same(e), vx_s2@ == e.edges(n.0), 0 <= vx_i2 <= vx_s2@.len(), n == (nextproc, receiver, is_exact), st == callstack.sites(),
        e.closed(visited@, to_visit@, Some(n)), e.begun(me, visited@, to_visit@), e.waiting(me, to_visit@), e.reaches(me, n, st), e.counts(n.0), !e.blocks(n.0),
        forall|m: Node| #[trigger] e.may_be(n, m) ==> visited@.contains(m) || queued(to_visit@, m),
        forall|m: Node, i: int| 0 <= i < vx_i2 && #[trigger] e.calls(n.0, n.1, i, m) ==> visited@.contains(m) || queued(to_visit@, m),
    decreases vx_s2@.len() - vx_i2,
@ghost loop 4 start
    let ghost q1 = to_visit@;
@ghost loop 4 end
    proof {
        let x = to_visit@[q1.len() as int];
        assert(to_visit@ == q1.push(x));
        push_queued(q1, x);
        let i = vx_i2 - 1;
        assert(node(x) == ran(e.edges(n.0)[i], n.1));
        if !x.2 {
            assert(e.calls(n.0, n.1, i, node(x)));
            assert(x.1.sites() =~= st.push(each.location));
            assert(e.step(n, st, node(x), x.1.sites()));
            e.reach_on(me, n, st, node(x), x.1.sites());
        }
        assert(forall|j: int| 0 <= j < q1.len() ==> to_visit@[j] == q1[j]);
        assert forall|m: Node, i2: int| 0 <= i2 < vx_i2 && #[trigger] e.calls(n.0, n.1, i2, m) implies visited@.contains(m) || queued(to_visit@, m) by {
            if i2 == i { assert(m == node(x)); assert(!x.2); }
        }
    }
@ghost loop 2 end
    proof {
        assert forall|m: Node| #[trigger] e.next(n, m) implies visited@.contains(m) || queued(to_visit@, m) by {
            if !e.may_be(n, m) { let i = choose|i: int| #[trigger] e.calls(n.0, n.1, i, m); assert(0 <= i < e.edges(n.0).len()); }
        }
        assert(e.closed(visited@, to_visit@, None));
    }
@ghost loop 0 end
    proof {
        assert(e.begun(vx_s3@[vx_i3 - 1].0, visited@, seq![]));
    }
@ghost loop 0 after
    proof {
        c1 = self.context@;
        assert forall|r: ProcRef| #[trigger] e.quiet(r) && e.blocks(r) implies c1.contains(e.sleeps_said(r)) by { assert(listed(must_not_sleep@, r)); }
        assert forall|r: ProcRef, n: Node, t: Seq<Location>| #[trigger] e.quiet(r) && #[trigger] e.reaches(r, n, t) && e.counts(n.0) && e.blocks(n.0) implies e.named(c1, n.0) by {
            assert(listed(must_not_sleep@, r));
            let j = choose|j: int| 0 <= j < must_not_sleep@.len() && (#[trigger] must_not_sleep@[j]).0 == r;
            assert(e.begun(must_not_sleep@[j].0, visited@, seq![]));
            e.all_reached(r, n, t, visited@);
        }
    }
@ghost before <<<vx_sort(&mut must_be_pure)>>>
    let ghost given = must_be_pure@;
@ghost after <<<vx_sort(&mut must_be_pure)>>>
    proof { sorted_all(e.must_be_pure.directive@, given, must_be_pure@); }
@loop 5
    invariant
        self.same(e), e == *old(self), c0 == e.context@, e.fair_all(c0, self.context@), e.sound(), forall|w: Report| c1.contains(w) ==> #[trigger] self.context@.contains(w),
        vx_s7@ == must_be_pure@, 0 <= vx_i7 <= vx_s7@.len(), e.are_pure(vx_s7@), forall|k: ProcRef| #[trigger] e.pure(k) ==> listed(vx_s7@, k),
        forall|j: int| 0 <= j < vx_i7 ==> e.pall(self.context@, (#[trigger] vx_s7@[j]).0),
    decreases vx_s7@.len() - vx_i7,
@ghost loop 5 start
    let ghost me = vx_s7@[vx_i7 as int].0;
    let ghost b0 = self.context@;
    proof { assert(vx_s7@[vx_i7 as int].1 == e.must_be_pure.directive@[me]); assert(e.pure(me)); }
@ghost after <<<error>>> #2
    proof {
        assert(self.context@ == b0.insert(e.impure_said(me, seq![], me))) by { assert(e.impure_said(me, seq![], me).notes =~= Seq::<Location>::empty().push(*location) + places(impurevec@)); }
        assert(e.fair(e.impure_said(me, seq![], me)));
    }
@loop 6
    invariant
        self.same(e), *procref == me, vx_s4@ == e.edges(me), 0 <= vx_i4 <= vx_s4@.len(), visited@ == Set::<ProcRef>::empty(),
        e.pwaiting(me, to_visit@), e.pbegun(me, visited@, to_visit@, vx_i4 as int),
    decreases vx_s4@.len() - vx_i4,
@ghost loop 6 start
    let ghost q1 = to_visit@;
@ghost loop 6 end
    proof {
        let x = to_visit@[q1.len() as int];
        assert(to_visit@ == q1.push(x));
        push_pqueued(q1, x);
        let i = vx_i4 - 1;
        assert(x.1.sites() =~= seq![each.location]);
        assert(e.edges(me)[i].proc == x.0);
        e.preach_first(me, x.0, x.1.sites());
        assert(forall|j: int| 0 <= j < q1.len() ==> to_visit@[j] == q1[j]);
    }
@loop 7
    invariant_except_break
        e.pclosed(visited@, to_visit@, None), e.pbegun(me, visited@, to_visit@, e.edges(me).len() as int), e.pwaiting(me, to_visit@),
    invariant
        self.same(e), e == *old(self), c0 == e.context@, e.fair_all(c0, self.context@), e.sound(), *procref == me, e.pure(me), *location == e.must_be_pure.directive@[me].1,
        forall|w: Report| b0.contains(w) ==> #[trigger] self.context@.contains(w),
        e.impure_procs.has(me) ==> self.context@.contains(e.impure_said(me, seq![], me)),
        forall|m: ProcRef| #[trigger] visited@.contains(m) ==> e.pdone(self.context@, me, m),
    ensures
        to_visit@ == Seq::<(ProcRef, CallStack)>::empty(), e.pclosed(visited@, to_visit@, None), e.pbegun(me, visited@, to_visit@, e.edges(me).len() as int),
@ghost loop 7 start
    let ghost it = (nextproc, callstack);
    let ghost q0 = seq![it] + to_visit@;
    let ghost st = callstack.sites();
    let ghost v0 = visited@;
    let ghost b1 = self.context@;
    proof {
        assert(q0.skip(1) =~= to_visit@);
        pop_pqueued(q0);
        assert(q0[0] == it);
        assert(forall|j: int| 0 <= j < to_visit@.len() ==> q0[j + 1] == to_visit@[j]);
        assert(e.pwaiting(me, to_visit@));
        assert(e.preaches(me, nextproc, st));
        assert(e.pclosed(v0.insert(nextproc), to_visit@, Some(nextproc)));
        assert(e.pbegun(me, v0.insert(nextproc), to_visit@, e.edges(me).len() as int));
        if v0.contains(nextproc) { assert(v0.insert(nextproc) =~= v0); }
    }
@ghost after <<<error>>> #3
    proof {
        assert(self.context@ == b1.insert(e.impure_said(me, st, nextproc))) by { assert(e.impure_said(me, st, nextproc).notes =~= Seq::<Location>::empty().push(*location) + st + places(impurevec@)); }
        assert(e.taints(me, nextproc, nextproc));
        assert(e.fair(e.impure_said(me, st, nextproc)));
        assert(e.blamed(self.context@, me, nextproc, nextproc));
    }
@loop 8
    invariant
        self.same(e), e == *old(self), c0 == e.context@, e.fair_all(c0, self.context@), e.sound(), *procref == me, e.pure(me), *location == e.must_be_pure.directive@[me].1,
        vx_s5@ == e.impure_overrides.of(nextproc), 0 <= vx_i5 <= vx_s5@.len(), st == callstack.sites(), e.preaches(me, nextproc, st), !e.impure_procs.has(nextproc),
        forall|w: Report| b1.contains(w) ==> #[trigger] self.context@.contains(w),
        forall|k: int| 0 <= k < vx_i5 && e.stands_in(me, nextproc, #[trigger] vx_s5@[k]) ==> e.blamed(self.context@, me, nextproc, vx_s5@[k]),
    decreases vx_s5@.len() - vx_i5,
@ghost loop 8 start
    let ghost b2 = self.context@;
    let ghost x = vx_s5@[vx_i5 as int];
    proof { assert(e.impure_overrides.of(nextproc).contains(x)); }
@ghost after <<<error>>> #4
    proof {
        assert(self.context@ == b2.insert(e.impure_said(me, st, x))) by { assert(self.context@ =~= b2.insert(e.impure_said(me, st, x))) ; }
        assert(e.taints(me, nextproc, x));
        assert(e.fair(e.impure_said(me, st, x)));
        assert(e.blamed(self.context@, me, nextproc, x));
        e.more(b2, self.context@);
    }
@ghost before <<<if let Some(calledvec) = self.call_tree.get(&nextproc)>>> #1
    proof {
        e.more(b1, self.context@);
        assert(e.pdone(self.context@, me, nextproc)) by {
            assert forall|x: ProcRef| #[trigger] e.taints(me, nextproc, x) implies e.blamed(self.context@, me, nextproc, x) by {
                if !e.impure_procs.has(nextproc) { let k = choose|k: int| 0 <= k < e.impure_overrides.of(nextproc).len() && e.impure_overrides.of(nextproc)[k] == x; }
            }
        }
        assert(visited@ == v0.insert(nextproc));
        assert forall|m: ProcRef| #[trigger] visited@.contains(m) implies e.pdone(self.context@, me, m) by { if m != nextproc { assert(v0.contains(m)); assert(e.pdone(b1, me, m)); } }
    }
@loop 9
    invariant
        self.same(e), vx_s6@ == e.edges(nextproc), 0 <= vx_i6 <= vx_s6@.len(), st == callstack.sites(), e.preaches(me, nextproc, st),
        e.pclosed(visited@, to_visit@, Some(nextproc)), e.pbegun(me, visited@, to_visit@, e.edges(me).len() as int), e.pwaiting(me, to_visit@),
        e.pbegun(nextproc, visited@, to_visit@, vx_i6 as int),
    decreases vx_s6@.len() - vx_i6,
@ghost loop 9 start
    let ghost q1 = to_visit@;
@ghost loop 9 end
    proof {
        let x = to_visit@[q1.len() as int];
        assert(to_visit@ == q1.push(x));
        push_pqueued(q1, x);
        let i = vx_i6 - 1;
        assert(x.1.sites() =~= st.push(each.location));
        e.preach_on(me, nextproc, st, i);
        assert(e.edges(nextproc)[i].proc == x.0);
        assert(forall|j: int| 0 <= j < q1.len() ==> to_visit@[j] == q1[j]);
    }
@ghost loop 5 end
    proof {
        e.more(b0, self.context@);
        assert(e.pall(self.context@, me)) by {
            assert forall|p: ProcRef, t: Seq<Location>| #[trigger] e.preaches(me, p, t) implies e.pdone(self.context@, me, p) by {
                e.all_preached(me, p, t, visited@);
            }
        }
    }
@ghost end
    proof {
        e.more(c1, self.context@);
        assert forall|r: ProcRef| #[trigger] e.pure(r) implies e.pall(self.context@, r) by { assert(listed(must_be_pure@, r)); let j = choose|j: int| 0 <= j < must_be_pure@.len() && (#[trigger] must_be_pure@[j]).0 == r; assert(e.pall(self.context@, must_be_pure@[j].0)); }
        assert forall|r: ProcRef, p: ProcRef, t: Seq<Location>, x: ProcRef| e.pure(r) && #[trigger] e.preaches(r, p, t) && #[trigger] e.taints(r, p, x) implies e.blamed(self.context@, r, p, x) by { assert(e.pall(self.context@, r)); assert(e.pdone(self.context@, r, p)); }
    }
