@@header
use vstd::prelude::*;
use vstd::slice::*;

@@source chk crates/dreamchecker/src/lib.rs
@@source ast crates/dreammaker/src/ast.rs

@@known error
@@known check_switch_rand_range
@@known AnalyzeProc::check_type_sleepers
@@known AnalyzeProc::visit_binary
@@known AnalyzeProc::visit_call
@@known Analysis::null
@@known Analysis::empty
@@known Analysis::from_static_type
@@known Analysis::from_value
@@known Analysis::with_fix_hint
@@known StaticType::basic_type
@@known AnalyzeProc::static_type

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins: what is said about a body, and the object tree
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Location { pub l: u64 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Severity { Error = 1, Warning = 2, Info = 3, Hint = 4 }
#[verifier::external_body]
pub struct Ident { _x: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_directive(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct InputType { pub b: u32 }
impl InputType {
    // (which bits these are does not matter here)
    pub const MOB: InputType = InputType { b: 0 };
    pub const OBJ: InputType = InputType { b: 1 };
    pub const TEXT: InputType = InputType { b: 2 };
    pub const NUM: InputType = InputType { b: 3 };
    pub const FILE: InputType = InputType { b: 4 };
    pub const TURF: InputType = InputType { b: 5 };
    pub const KEY: InputType = InputType { b: 6 };
    pub const NULL: InputType = InputType { b: 7 };
    pub const AREA: InputType = InputType { b: 8 };
    pub const ICON: InputType = InputType { b: 9 };
    pub const SOUND: InputType = InputType { b: 10 };
    pub const MESSAGE: InputType = InputType { b: 11 };
    pub const ANYTHING: InputType = InputType { b: 12 };
    pub const PASSWORD: InputType = InputType { b: 13 };
    pub const COMMAND_TEXT: InputType = InputType { b: 14 };
    pub const COLOR: InputType = InputType { b: 15 };
    #[verifier::external_body]
    pub fn vx_or_none(o: &Option<InputType>) -> InputType { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_less(self, o: InputType) -> InputType { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: InputType) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct Num { _x: u8 }
#[verifier::external_body]
pub struct Prefab { _x: u8 }
#[verifier::external_body]
pub struct MiniExpr { _x: u8 }
#[verifier::external_body]
pub struct VarType { _x: u8 }
impl VarType {
    #[verifier::external_body]
    pub fn vx_untyped() -> (r: VarType) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_path(&self) -> (r: &VxPath) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_of(p: &VxPath) -> (r: VarType) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxPath { _x: u8 }
impl VxPath {
    #[verifier::external_body]
    pub fn vx_split_last(&self) -> (r: Option<(&Ident, &VxPath)>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_split_first(&self) -> (r: Option<(&Ident, &VxPath)>) { unimplemented!() }
}
pub enum SettingMode { Assign, In }

@@type ast::UnaryOp derive Clone, Copy
@@type ast::BinaryOp derive Clone, Copy, PartialEq, Eq, Structural
@@type ast::AssignOp derive Clone, Copy, PartialEq, Eq, Structural
@@type ast::ListAccessKind derive Clone, Copy
@@type ast::PropertyAccessKind derive Clone, Copy
@@type ast::Spanned
@@type ast::Term
@rewrite <<<f32>>> => <<<Num>>>
@rewrite <<<Box<[Expression]>>>> => <<<Vec<Expression>>>>
@rewrite <<<Box<[(Option<Expression>, Box<str>)]>>>> => <<<Vec<(Option<Expression>, String)>>>>
@rewrite <<<Box<PickArgs>>>> => <<<Vec<(Option<Expression>, Expression)>>>>
@@type ast::Follow
@rewrite <<<Box<[Expression]>>>> => <<<Vec<Expression>>>>
@@type ast::Expression
@rewrite <<<Box<[Spanned<Follow>]>>>> => <<<Vec<Spanned<Follow>>>>>
@@type ast::Statement
@rewrite <<<Box<SwitchCases>>>> => <<<Vec<(Spanned<Vec<Case>>, Block)>>>>
@rewrite <<<Box<[TreePath]>>>> => <<<Vec<VxPath>>>>
@@type ast::VarStatement
@@type ast::Case
@@type ast::ForListStatement
@@type ast::ForKeyValueStatement
@@type ast::ForRangeStatement
@@type chk::ControlFlow derive Clone, Copy

@@verbatim
/// Box<[Spanned<Statement>]>
pub type Block = Vec<Spanned<Statement>>;

// ---------------------------------------------------------------- where ..() is written
/// some argument may run a ..() of this proc; `all` looks into the arguments of SpacemanDMM_unlint() as well
pub open spec fn pc_es(v: Vec<Expression>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && (pc_es(v, n - 1, all) || (n <= v@.len() && pc_e(v@[n - 1], all))) }
pub open spec fn pc_o(o: Option<Box<Expression>>, all: bool) -> bool
    decreases o, 0int,
{ match o { Some(e) => pc_e(*e, all), None => false } }
pub open spec fn pc_oe(o: Option<Expression>, all: bool) -> bool
    decreases o, 0int,
{ match o { Some(e) => pc_e(e, all), None => false } }
pub open spec fn pc_parts(v: Vec<(Option<Expression>, String)>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && (pc_parts(v, n - 1, all) || (n <= v@.len() && pc_oe(v@[n - 1].0, all))) }
pub open spec fn pc_choices(v: Vec<(Option<Expression>, Expression)>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && (pc_choices(v, n - 1, all) || (n <= v@.len() && (pc_oe(v@[n - 1].0, all) || pc_e(v@[n - 1].1, all)))) }
pub open spec fn pc_follows(v: Vec<Spanned<Follow>>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && (pc_follows(v, n - 1, all) || (n <= v@.len() && pc_f(v@[n - 1].elem, all))) }
pub open spec fn pc_args(o: Option<Vec<Expression>>, all: bool) -> bool
    decreases o, 0int,
{ match o { Some(v) => pc_es(v, v@.len() as int, all), None => false } }
pub open spec fn pc_e(e: Expression, all: bool) -> bool
    decreases e, 0int,
{
    match e {
        Expression::Base { term, follow } => pc_t(term.elem, all) || pc_follows(follow, follow@.len() as int, all),
        Expression::BinaryOp { op, lhs, rhs } => pc_e(*lhs, all) || pc_e(*rhs, all),
        Expression::AssignOp { op, lhs, rhs } => pc_e(*lhs, all) || pc_e(*rhs, all),
        Expression::TernaryOp { cond, if_, else_ } => pc_e(*cond, all) || pc_e(*if_, all) || pc_e(*else_, all),
    }
}
pub open spec fn pc_f(f: Follow, all: bool) -> bool
    decreases f, 0int,
{
    match f {
        Follow::Index(k, e) => pc_e(*e, all),
        Follow::Call(k, n, args) => pc_es(args, args@.len() as int, all),
        _ => false,
    }
}
pub open spec fn pc_t(t: Term, all: bool) -> bool
    decreases t, 0int,
{
    match t {
        Term::ParentCall(args) => true,
        Term::Expr(e) => pc_e(*e, all),
        Term::InterpString(s, parts) => pc_parts(parts, parts@.len() as int, all),
        Term::Call(n, args) => (all || n@ != "SpacemanDMM_unlint"@) && pc_es(args, args@.len() as int, all),
        Term::SelfCall(args) => pc_es(args, args@.len() as int, all),
        Term::NewImplicit { args } => pc_args(args, all),
        Term::NewPrefab { prefab, args } => pc_args(args, all),
        Term::NewMiniExpr { expr, args } => pc_args(args, all),
        Term::List(args) => pc_es(args, args@.len() as int, all),
        Term::Input { args, input_type, in_list } => pc_es(args, args@.len() as int, all) || pc_o(in_list, all),
        Term::Locate { args, in_list } => pc_es(args, args@.len() as int, all) || pc_o(in_list, all),
        Term::Pick(choices) => pc_choices(choices, choices@.len() as int, all),
        Term::DynamicCall(a, b) => pc_es(a, a@.len() as int, all) || pc_es(b, b@.len() as int, all),
        Term::ExternalCall { library, function, args } => pc_o(library, all) || pc_e(*function, all) || pc_es(args, args@.len() as int, all),
        Term::GlobalCall(n, args) => pc_es(args, args@.len() as int, all),
        _ => false,
    }
}

// ---------------------------------------------------------------- what a body can do
/// the value of a condition, when it is constant
pub uninterp spec fn num_is_0(n: Num) -> bool;
pub open spec fn truth_t(t: Term) -> Option<bool>
    decreases t, 0int,
{
    match t {
        Term::Null => Some(false),
        Term::Int(i) => Some(i != 0),
        Term::Float(f) => Some(!num_is_0(f)),
        Term::String(s) => Some(s@.len() > 0),
        Term::Prefab(_) | Term::NewImplicit { .. } | Term::NewPrefab { .. } | Term::NewMiniExpr { .. } | Term::List(_) => Some(true),
        Term::InterpString(first, parts) => if first@.len() > 0 || (exists|i: int| 0 <= i < parts@.len() && (#[trigger] parts@[i]).1@.len() > 0) { Some(true) } else { None },
        Term::Expr(e) => truth(*e),
        _ => None,
    }
}
/// with n operators applied: ! turns it round
pub open spec fn truth_f(b: Option<bool>, v: Seq<Spanned<Follow>>, n: int) -> Option<bool>
    decreases n,
{
    if n <= 0 || n > v.len() { b } else { match truth_f(b, v, n - 1) {
        Some(x) => if v[n - 1].elem == Follow::Unary(UnaryOp::Not) { Some(!x) } else { None },
        None => None,
    } }
}
pub open spec fn truth(e: Expression) -> Option<bool>
    decreases e, 0int,
{
    match e {
        Expression::Base { term, follow } => truth_f(truth_t(term.elem), follow@, follow@.len() as int),
        Expression::BinaryOp { op, lhs, rhs } => match (op, truth(*lhs), truth(*rhs)) {
            (BinaryOp::And, Some(a), Some(b)) => Some(a && b),
            (BinaryOp::Or, Some(a), Some(b)) => Some(a || b),
            _ => None,
        },
        Expression::AssignOp { op, lhs, rhs } => match (op, *rhs) {
            (AssignOp::Assign, Expression::Base { term, follow }) => if follow@.len() == 0 { truth_t(term.elem) } else { None },
            _ => None,
        },
        Expression::TernaryOp { cond, if_, else_ } => match truth(*cond) { Some(true) => truth(*if_), Some(false) => truth(*else_), None => None },
    }
}
pub open spec fn term_of(e: Expression) -> Option<Term> { match e { Expression::Base { term, follow } => if follow@.len() == 0 { Some(term.elem) } else { None }, _ => None } }
/// the body of for(x in start to end) is known to run at least once
pub open spec fn runs(start: Expression, end: Expression, step: Option<Expression>) -> bool {
    match (term_of(start), term_of(end)) {
        (Some(Term::Int(a)), Some(Term::Int(b))) => !(a == 0 && b == 0) && (a <= b || (match step { Some(s) => (match term_of(s) { Some(Term::Int(_)) | None => true, _ => false }), None => false })),
        _ => false,
    }
}
/// how a statement may be left: by its end, by break, by continue. What is not constant can go either way; a label can be gone to.
pub ghost struct Out { pub ends: bool, pub brk: bool, pub cont: bool }
pub open spec fn nothing() -> Out { Out { ends: false, brk: false, cont: false } }
pub open spec fn falls() -> Out { Out { ends: true, brk: false, cont: false } }
pub open spec fn either(a: Out, b: Out) -> Out { Out { ends: a.ends || b.ends, brk: a.brk || b.brk, cont: a.cont || b.cont } }
pub open spec fn is_label(s: Statement) -> bool { s is Label }
/// after the first n statements of b
pub open spec fn out_to(b: Block, n: int) -> Out
    decreases b, n, 0int,
{
    if n <= 0 || n > b@.len() { falls() } else {
        let p = out_to(b, n - 1);
        let o = if p.ends || is_label(b@[n - 1].elem) { out(b@[n - 1].elem) } else { nothing() };
        Out { ends: o.ends, brk: p.brk || o.brk, cont: p.cont || o.cont }
    }
}
pub open spec fn out_b(b: Block) -> Out
    decreases b, b@.len() + 1, 0int,
{ out_to(b, b@.len() as int) }
pub open spec fn out_arms(v: Vec<(Spanned<Expression>, Block)>, n: int) -> Out
    decreases v, n, 0int,
{
    if n <= 0 || n > v@.len() { nothing() }
    else if truth(v@[n - 1].0.elem) == Some(false) { out_arms(v, n - 1) }
    else { either(out_arms(v, n - 1), out_to(v@[n - 1].1, v@[n - 1].1@.len() as int)) }
}
pub open spec fn out_cases(v: Vec<(Spanned<Vec<Case>>, Block)>, n: int) -> Out
    decreases v, n, 0int,
{
    if n <= 0 || n > v@.len() { nothing() }
    else { either(out_cases(v, n - 1), out_to(v@[n - 1].1, v@[n - 1].1@.len() as int)) }
}
pub open spec fn out_else(o: Option<Block>) -> Out
    decreases o, 0int,
{ match o { Some(b) => out_to(b, b@.len() as int), None => falls() } }
pub open spec fn out(s: Statement) -> Out
    decreases s, 0int,
{
    match s {
        Statement::Return(_) | Statement::Crash(_) | Statement::Throw(_) | Statement::Goto(_) => nothing(),
        Statement::Break(_) => Out { ends: false, brk: true, cont: false },
        Statement::Continue(_) => Out { ends: false, brk: false, cont: true },
        Statement::If { arms, else_arm } => either(out_arms(arms, arms@.len() as int), out_else(else_arm)),
        Statement::Switch { input, cases, default } => either(out_cases(cases, cases@.len() as int), out_else(default)),
        Statement::TryCatch { try_block, catch_params, catch_block } => either(out_to(try_block, try_block@.len() as int), out_to(catch_block, catch_block@.len() as int)),
        Statement::Label { name, block } => Out { ends: true, ..out_to(block, block@.len() as int) },
        Statement::DoWhile { block, condition } => { let o = out_to(block, block@.len() as int); Out { ends: o.ends || o.brk || o.cont, brk: false, cont: false } },
        Statement::ForInfinite { block } => { let o = out_to(block, block@.len() as int); Out { ends: o.brk, brk: false, cont: false } },
        Statement::ForRange(f) => {
            let o = out_to(f.block, f.block@.len() as int);
            Out { ends: !(runs(f.start, f.end, f.step) && f.step is None) || o.ends || o.brk || o.cont, brk: false, cont: false }
        },
        _ => falls(),
    }
}

// ---------------------------------------------------------------- what must be noticed
/// has a break or continue of an outer loop, or a label
pub open spec fn loose_to(b: Block, n: int) -> bool
    decreases b, n, 0int,
{ n > 0 && n <= b@.len() && (loose_to(b, n - 1) || loose(b@[n - 1].elem)) }
pub open spec fn loose_arms(v: Vec<(Spanned<Expression>, Block)>, n: int) -> bool
    decreases v, n, 0int,
{ n > 0 && n <= v@.len() && (loose_arms(v, n - 1) || loose_to(v@[n - 1].1, v@[n - 1].1@.len() as int)) }
pub open spec fn loose_cases(v: Vec<(Spanned<Vec<Case>>, Block)>, n: int) -> bool
    decreases v, n, 0int,
{ n > 0 && n <= v@.len() && (loose_cases(v, n - 1) || loose_to(v@[n - 1].1, v@[n - 1].1@.len() as int)) }
pub open spec fn loose_else(o: Option<Block>) -> bool
    decreases o, 0int,
{ match o { Some(b) => loose_to(b, b@.len() as int), None => false } }
pub open spec fn loose(s: Statement) -> bool
    decreases s, 0int,
{
    match s {
        Statement::Break(_) | Statement::Continue(_) | Statement::Label { .. } => true,
        Statement::If { arms, else_arm } => loose_arms(arms, arms@.len() as int) || loose_else(else_arm),
        Statement::Switch { input, cases, default } => loose_cases(cases, cases@.len() as int) || loose_else(default),
        Statement::TryCatch { try_block, catch_params, catch_block } => loose_to(try_block, try_block@.len() as int) || loose_to(catch_block, catch_block@.len() as int),
        _ => false,
    }
}
/// every way through ends in return or CRASH()
pub open spec fn quits_to(b: Block, n: int) -> bool
    decreases b, n, 0int,
{ n > 0 && n <= b@.len() && !loose_to(b, n) && (quits_to(b, n - 1) || quits(b@[n - 1].elem)) }
pub open spec fn quits_arms(v: Vec<(Spanned<Expression>, Block)>, n: int) -> bool
    decreases v, n, 0int,
{ n <= 0 || n > v@.len() || (quits_arms(v, n - 1) && (truth(v@[n - 1].0.elem) == Some(false) || quits_to(v@[n - 1].1, v@[n - 1].1@.len() as int))) }
pub open spec fn quits_cases(v: Vec<(Spanned<Vec<Case>>, Block)>, n: int) -> bool
    decreases v, n, 0int,
{ n <= 0 || n > v@.len() || (quits_cases(v, n - 1) && quits_to(v@[n - 1].1, v@[n - 1].1@.len() as int)) }
pub open spec fn quits_else(o: Option<Block>) -> bool
    decreases o, 0int,
{ match o { Some(b) => quits_to(b, b@.len() as int), None => false } }
pub open spec fn quits(s: Statement) -> bool
    decreases s, 0int,
{
    match s {
        Statement::Return(_) | Statement::Crash(_) => true,
        Statement::If { arms, else_arm } => quits_arms(arms, arms@.len() as int) && quits_else(else_arm),
        Statement::Switch { input, cases, default } => quits_cases(cases, cases@.len() as int) && quits_else(default),
        Statement::DoWhile { block, condition } => quits_to(block, block@.len() as int),
        Statement::ForRange(f) => runs(f.start, f.end, f.step) && f.step is None && quits_to(f.block, f.block@.len() as int),
        _ => false,
    }
}

// ---------------------------------------------------------------- the places that may be, and those that must be, reported
pub open spec fn one(b: bool, l: Location) -> Set<Location> { if b { Set::empty().insert(l) } else { Set::empty() } }
pub open spec fn always(v: Vec<(Spanned<Expression>, Block)>, n: int) -> bool
    decreases n,
{ n > 0 && n <= v@.len() && (always(v, n - 1) || truth(v@[n - 1].0.elem) == Some(true)) }
pub open spec fn head(o: Option<Block>) -> Set<Location> { match o { Some(b) => one(b@.len() > 0, b@[0].location), None => Set::empty() } }
/// `all`: all that may be reported; otherwise those that must be
pub open spec fn dead_to(b: Block, n: int, all: bool) -> Set<Location>
    decreases b, n, 0int,
{
    if n <= 0 || n > b@.len() { Set::empty() } else {
        let here = out_to(b, n - 1).ends || is_label(b@[n - 1].elem);
        dead_to(b, n - 1, all)
            .union(if all || here { dead(b@[n - 1].elem, all) } else { Set::empty() })
            .union(one(if all { !here } else { !is_label(b@[n - 1].elem) && quits_to(b, n - 1) && (out_to(b, n - 2).ends || is_label(b@[n - 2].elem)) }, b@[n - 1].location))
    }
}
pub open spec fn dead_arms(v: Vec<(Spanned<Expression>, Block)>, n: int, all: bool) -> Set<Location>
    decreases v, n, 0int,
{
    if n <= 0 || n > v@.len() { Set::empty() }
    else { dead_arms(v, n - 1, all).union(one(always(v, n - 1), v@[n - 1].0.location)).union(dead_to(v@[n - 1].1, v@[n - 1].1@.len() as int, all)) }
}
pub open spec fn dead_cases(v: Vec<(Spanned<Vec<Case>>, Block)>, n: int, all: bool) -> Set<Location>
    decreases v, n, 0int,
{
    if n <= 0 || n > v@.len() { Set::empty() }
    else { dead_cases(v, n - 1, all).union(dead_to(v@[n - 1].1, v@[n - 1].1@.len() as int, all)) }
}
pub open spec fn dead_else(o: Option<Block>, all: bool) -> Set<Location>
    decreases o, 0int,
{ match o { Some(b) => dead_to(b, b@.len() as int, all), None => Set::empty() } }
pub open spec fn dead_stmt(o: Option<Box<Statement>>, all: bool) -> Set<Location>
    decreases o, 0int,
{ match o { Some(s) => dead(*s, all), None => Set::empty() } }
pub open spec fn dead(s: Statement, all: bool) -> Set<Location>
    decreases s, 0int,
{
    match s {
        Statement::If { arms, else_arm } => dead_arms(arms, arms@.len() as int, all).union(if always(arms, arms@.len() as int) { head(else_arm) } else { Set::empty() }).union(dead_else(else_arm, all)),
        Statement::Switch { input, cases, default } => dead_cases(cases, cases@.len() as int, all).union(dead_else(default, all)),
        Statement::TryCatch { try_block, catch_params, catch_block } => dead_to(try_block, try_block@.len() as int, all).union(dead_to(catch_block, catch_block@.len() as int, all)),
        Statement::Label { name, block } => dead_to(block, block@.len() as int, all),
        Statement::While { condition, block } => dead_to(block, block@.len() as int, all),
        Statement::DoWhile { block, condition } => dead_to(block, block@.len() as int, all),
        Statement::ForInfinite { block } => dead_to(block, block@.len() as int, all),
        Statement::ForLoop { init, test, inc, block } => dead_stmt(init, all).union(dead_stmt(inc, all)).union(dead_to(block, block@.len() as int, all)),
        Statement::ForList(f) => dead_to(f.block, f.block@.len() as int, all),
        Statement::ForKeyValue(f) => dead_to(f.block, f.block@.len() as int, all),
        Statement::ForRange(f) => dead_to(f.block, f.block@.len() as int, all),
        Statement::Spawn { delay, block } => dead_to(block, block@.len() as int, all),
        _ => Set::empty(),
    }
}

// ---------------------------------------------------------------- the ..() that count
/// `all`: wherever it is written; otherwise only where control can get to
pub open spec fn pcs_to(b: Block, n: int, all: bool) -> bool
    decreases b, n, 0int,
{ n > 0 && n <= b@.len() && (pcs_to(b, n - 1, all) || ((all || out_to(b, n - 1).ends || is_label(b@[n - 1].elem)) && pcs(b@[n - 1].elem, all))) }
pub open spec fn pcs_arms(v: Vec<(Spanned<Expression>, Block)>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && n <= v@.len() && (pcs_arms(v, n - 1, all) || pc_e(v@[n - 1].0.elem, all) || pcs_to(v@[n - 1].1, v@[n - 1].1@.len() as int, all)) }
pub open spec fn pc_case(c: Case, all: bool) -> bool { match c { Case::Exact(e) => pc_e(e, all), Case::Range(a, b) => pc_e(a, all) || pc_e(b, all) } }
pub open spec fn pc_case_to(v: Vec<Case>, n: int, all: bool) -> bool
    decreases n,
{ n > 0 && n <= v@.len() && (pc_case_to(v, n - 1, all) || pc_case(v@[n - 1], all)) }
pub open spec fn pcs_cases(v: Vec<(Spanned<Vec<Case>>, Block)>, n: int, all: bool) -> bool
    decreases v, n, 0int,
{ n > 0 && n <= v@.len() && (pcs_cases(v, n - 1, all) || pc_case_to(v@[n - 1].0.elem, v@[n - 1].0.elem@.len() as int, all) || pcs_to(v@[n - 1].1, v@[n - 1].1@.len() as int, all)) }
pub open spec fn pcs_else(o: Option<Block>, all: bool) -> bool
    decreases o, 0int,
{ match o { Some(b) => pcs_to(b, b@.len() as int, all), None => false } }
pub open spec fn pcs_stmt(o: Option<Box<Statement>>, all: bool) -> bool
    decreases o, 0int,
{ match o { Some(s) => pcs(*s, all), None => false } }
pub open spec fn pc_vars(v: Vec<VarStatement>, n: int, all: bool) -> bool
    decreases n,
{ n > 0 && n <= v@.len() && (pc_vars(v, n - 1, all) || pc_oe(v@[n - 1].value, all)) }
pub open spec fn pcs(s: Statement, all: bool) -> bool
    decreases s, 0int,
{
    match s {
        Statement::Expr(e) => pc_e(e, all),
        Statement::Return(o) => pc_oe(o, all),
        Statement::Crash(o) => pc_oe(o, all),
        Statement::Throw(e) => pc_e(e, all),
        Statement::Del(e) => pc_e(e, all),
        Statement::Var(v) => pc_oe(v.value, all),
        Statement::Vars(v) => pc_vars(v, v@.len() as int, all),
        Statement::If { arms, else_arm } => pcs_arms(arms, arms@.len() as int, all) || pcs_else(else_arm, all),
        Statement::Switch { input, cases, default } => pc_e(*input, all) || pcs_cases(cases, cases@.len() as int, all) || pcs_else(default, all),
        Statement::TryCatch { try_block, catch_params, catch_block } => pcs_to(try_block, try_block@.len() as int, all) || pcs_to(catch_block, catch_block@.len() as int, all),
        Statement::Label { name, block } => pcs_to(block, block@.len() as int, all),
        Statement::While { condition, block } => pc_e(condition, all) || pcs_to(block, block@.len() as int, all),
        Statement::DoWhile { block, condition } => pc_e(condition.elem, all) || pcs_to(block, block@.len() as int, all),
        Statement::ForInfinite { block } => pcs_to(block, block@.len() as int, all),
        Statement::ForLoop { init, test, inc, block } => pcs_stmt(init, all) || pc_o(test, all) || pcs_stmt(inc, all) || pcs_to(block, block@.len() as int, all),
        Statement::ForList(f) => pc_oe(f.in_list, all) || pcs_to(f.block, f.block@.len() as int, all),
        Statement::ForKeyValue(f) => pc_oe(f.in_list, all) || pcs_to(f.block, f.block@.len() as int, all),
        Statement::ForRange(f) => pc_e(f.start, all) || pc_e(f.end, all) || pc_oe(f.step, all) || pcs_to(f.block, f.block@.len() as int, all),
        Statement::Spawn { delay, block } => pc_oe(delay, all) || pcs_to(block, block@.len() as int, all),
        _ => false,
    }
}

// ---------------------------------------------------------------- outcomes
impl ControlFlow {
    pub open spec fn flag(self) -> bool { self.returns || self.breaks || self.continues }
    /// self is a fair account of a statement or block that can be left as o says
    pub open spec fn fair(self, o: Out) -> bool {
        (self.returns ==> !o.brk && !o.cont && !self.fuzzy && !self.breaks && !self.continues)
            && (self.flag() ==> !o.ends)
            && (o.brk || o.cont ==> self.fuzzy || self.flag())
    }
    /// nothing but, perhaps, a return; and that one if q
    pub open spec fn steady(self, q: bool) -> bool { !self.breaks && !self.continues && !self.fuzzy && (q ==> self.returns) }
    /// all that is done is to return, or not
    pub open spec fn plainly(self, returns: bool) -> bool { self.returns == returns && !self.breaks && !self.continues && !self.fuzzy }
}
@@fn chk::ControlFlow::alltrue
@impl <<<impl ControlFlow>>>
@ret r
@spec
    ensures r.returns, r.continues, r.breaks, !r.fuzzy,
@@fn chk::ControlFlow::allfalse
@impl <<<impl ControlFlow>>>
@ret r
@spec
    ensures r.plainly(false),
@@fn chk::ControlFlow::terminates
@impl <<<impl ControlFlow>>>
@ret r
@spec
    ensures r == (!self.fuzzy && self.flag()),
@@fn chk::ControlFlow::terminates_loop
@impl <<<impl ControlFlow>>>
@ret r
@spec
    ensures r == (!self.fuzzy && (self.returns || self.breaks)),
@@fn chk::ControlFlow::no_else
@impl <<<impl ControlFlow>>>
@spec
    ensures !final(self).flag(), final(self).fuzzy == old(self).fuzzy,
@@fn chk::ControlFlow::end_loop
@impl <<<impl ControlFlow>>>
@spec
    ensures final(self).plainly(false),
@@fn chk::ControlFlow::label
@impl <<<impl ControlFlow>>>
@spec
    ensures !final(self).flag(), old(self).flag() ==> final(self).fuzzy, !old(self).flag() ==> *final(self) == *old(self),
@@fn chk::ControlFlow::uncertain
@impl <<<impl ControlFlow>>>
@ret r
@spec
    ensures !r.flag(), r.fuzzy == (self.fuzzy || self.breaks || self.continues),
@@fn chk::ControlFlow::finalize
@impl <<<impl ControlFlow>>>
@spec
    ensures final(self).returns == old(self).returns, final(self).breaks == old(self).breaks, final(self).continues == old(self).continues,
        final(self).fuzzy == (old(self).fuzzy && !old(self).flag()),
@@fn chk::ControlFlow::merge
@impl <<<impl ControlFlow>>>
@spec
    ensures
        // one after the other
        forall|a: Out, b: Out| #![trigger old(self).fair(a), other.fair(b)] old(self).fair(a) && other.fair(b) && (!a.ends || !old(self).flag()) && (old(self).flag() ==> old(self).fuzzy)
            ==> final(self).fair(Out { ends: a.ends && b.ends, brk: a.brk || b.brk, cont: a.cont || b.cont }),
        // or one of two things nothing was concluded from
        !old(self).flag() && !other.flag() ==> !final(self).flag() && final(self).fuzzy == (old(self).fuzzy || other.fuzzy),
        forall|p: bool, q: bool| #![trigger old(self).steady(p), other.steady(q)] old(self).steady(p) && other.steady(q) ==> final(self).steady(p || q),
@@fn chk::ControlFlow::merge_false
@impl <<<impl ControlFlow>>>
@spec
    ensures
        final(self).returns == (old(self).returns && other.returns),
        final(self).breaks == (old(self).breaks && other.breaks),
        final(self).continues == (old(self).continues && other.continues),
        final(self).fuzzy ==> old(self).fuzzy || other.fuzzy || other.breaks || other.continues,
        old(self).fuzzy || other.fuzzy ==> final(self).fuzzy,
        other.breaks || other.continues ==> final(self).fuzzy,

@@verbatim
// ---------------------------------------------------------------- the visitor
/// one diagnostic: its place and type
pub ghost struct Report { pub at: Location, pub kind: Option<Seq<char>> }
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    pub uninterp spec fn view(&self) -> Report;
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn with_errortype(self, s: &'static str) -> (r: DMError) ensures r@ == (Report { kind: Some(s@), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &mut Context) ensures final(c)@ == (if self@.kind == Some("unreachable_code"@) { old(c)@.insert(self@.at) } else { old(c)@ }) { unimplemented!() }
}
#[verifier::external_body]
pub fn error<S>(l: Location, s: S) -> (r: DMError) ensures r@ == (Report { at: l, kind: None }) { unimplemented!() }
/// the places reported as unreachable so far
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context { pub uninterp spec fn view(&self) -> Set<Location>; }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeRef { pub i: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProcRef { pub i: u32 }
#[verifier::external_body]
pub struct VxSet { _x: u8 }
impl VxSet { #[verifier::external_body] pub fn vx_any() -> VxSet { unimplemented!() } }
#[verifier::external_body]
pub struct Text { _x: u8 }
#[verifier::external_body]
pub struct Pop { _x: u8 }
impl Pop {
    #[verifier::external_body]
    pub fn vx_of(s: &str) -> Pop { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_no_vars(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_path(&self) -> String { unimplemented!() }
}
pub enum Constant { Prefab(Box<Pop>), Other }
impl Constant {
    #[verifier::external_body]
    pub fn vx_of<T>(t: T) -> Constant { unimplemented!() }
}
pub struct VxDecl { pub location: Location, pub var_type: VarType }
pub struct VxNav { pub t: TypeRef }
impl VxNav { pub fn ty(&self) -> TypeRef { self.t } }
impl TypeRef {
    #[verifier::external_body]
    pub fn get_var_declaration(&self, n: &Ident) -> (r: Option<&'static VxDecl>) { unimplemented!() }
    #[verifier::external_body]
    pub fn navigate_path(&self, n: &Prefab) -> (r: Option<VxNav>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_overload(&self, n: &str) -> (r: Option<ProcRef>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pretty(&self) -> (r: &'static str) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_path_is(&self, n: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_proc(&self, n: &Ident) -> (r: Option<ProcRef>) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subtype_of(&self, t: &TypeRef) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_path(&self) -> (r: &'static str) { unimplemented!() }
}
#[verifier::external_body]
pub struct ObjectTree { _x: u8 }
impl ObjectTree {
    #[verifier::external_body]
    pub fn expect(&self, s: &str) -> (r: TypeRef) { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&self) -> (r: TypeRef) { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, s: &String) -> (r: Option<TypeRef>) { unimplemented!() }
}
impl ProcRef {
    #[verifier::external_body]
    pub fn parent_proc(&self) -> (r: Option<ProcRef>) { unimplemented!() }
    #[verifier::external_body]
    pub fn ty(&self) -> (r: TypeRef) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_has_param(&self, n: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_animate(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) { unimplemented!() }
}
pub enum StaticType { None, Type(TypeRef), List { list: TypeRef, keys: Box<StaticType> }, Proc }
impl StaticType {
    #[verifier::external_body]
    pub fn basic_type(&self) -> (r: Option<TypeRef>) { unimplemented!() }
}
pub struct Analysis { pub static_ty: StaticType, pub aset: VxSet, pub value: Option<Constant>, pub fix_hint: Option<(Location, String)>, pub is_impure: Option<bool> }
impl Clone for Analysis { #[verifier::external_body] fn clone(&self) -> Analysis { unimplemented!() } }
impl Analysis {
    #[verifier::external_body]
    pub fn null() -> Analysis { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> Analysis { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static_type(t: TypeRef) -> Analysis { unimplemented!() }
    /// built from anything
    #[verifier::external_body]
    pub fn vx_of<T>(t: T) -> Analysis { unimplemented!() }
    #[verifier::external_body]
    pub fn from_value(o: &ObjectTree, c: Constant, h: Option<TypeRef>) -> Analysis { unimplemented!() }
    #[verifier::external_body]
    pub fn with_fix_hint<S>(self, l: Location, s: S) -> Analysis { unimplemented!() }
}
/// the local vars
#[verifier::external_body]
pub struct VxLocals { _x: u8 }
impl Clone for VxLocals { #[verifier::external_body] fn clone(&self) -> VxLocals { unimplemented!() } }
impl VxLocals {
    #[verifier::external_body]
    pub fn vx_result(&mut self, a: Analysis) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add(&mut self, n: &Ident, l: Location, a: Analysis) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, n: &Ident) -> (r: Option<Analysis>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxMarks { _x: u8 }
impl VxMarks {
    #[verifier::external_body]
    pub fn get_self_or_parent(&self, p: ProcRef) -> (r: Option<(ProcRef, bool, Location)>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxProcs { _x: u8 }
impl VxProcs {
    #[verifier::external_body]
    pub fn insert(&mut self, p: ProcRef) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_violator(&mut self, p: ProcRef, s: &str, l: Location) { unimplemented!() }
}
pub struct AnalyzeObjectTree { pub must_be_pure: VxMarks, pub private: VxMarks, pub protected: VxMarks, pub impure_procs: VxProcs, pub sleeping_procs: VxProcs, pub waitfor_procs: VxProcs }
impl AnalyzeObjectTree {
    #[verifier::external_body]
    pub fn static_type(&mut self, l: Location, p: &VxPath) -> (r: StaticType) { unimplemented!() }
}
pub struct AnalyzeProc { pub env: AnalyzeObjectTree, pub context: Context, pub objtree: &'static ObjectTree, pub ty: TypeRef, pub proc_ref: ProcRef, pub calls_parent: bool, pub inside_newcontext: u32 }
impl Expression {
    #[verifier::external_body]
    pub fn is_const_eval(&self) -> (r: bool) { unimplemented!() }
}
impl Term {
    #[verifier::external_body]
    pub fn is_static(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_nonzero(n: &Num) -> (r: bool) ensures r == !num_is_0(*n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
impl Ident {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_any_text(parts: &Vec<(Option<Expression>, String)>) -> (r: bool) ensures r == exists|i: int| 0 <= i < parts@.len() && (#[trigger] parts@[i]).1@.len() > 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_off(value: &Expression) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_lone_or(v: &Vec<Case>) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_call(v: &Vec<Spanned<Follow>>) -> (r: bool) { unimplemented!() }
/// (says nothing about reachability: under contract in unit switch)
#[verifier::external_body]
pub fn check_switch_rand_range(input: &Expression, cases: &Vec<(Spanned<Vec<Case>>, Block)>, default: &Option<Block>, l: Location, c: &mut Context) ensures final(c)@ == old(c)@ { unimplemented!() }
pub proof fn kinds()
    ensures
        "unreachable_code"@ != "set_has_no_effect"@,
        "unreachable_code"@ != "if_condition_determinate"@,
        "unreachable_code"@ != "loop_condition_determinate"@,
        "unreachable_code"@ != "control_condition_static"@,
        "unreachable_code"@ != "ambiguous_in_lhs"@,
        "unreachable_code"@ != "proc_has_no_parent"@,
        "unreachable_code"@ != "no_typehint_implicit_new"@,
        "unreachable_code"@ != "improper_index"@,
        "unreachable_code"@ != "private_var"@,
        "unreachable_code"@ != "protected_var"@,
        "unreachable_code"@ != "field_access_static_type"@,
        "unreachable_code"@ != "private_proc"@,
        "unreachable_code"@ != "protected_proc"@,
        "unreachable_code"@ != "proc_call_static_type"@,
        "unreachable_code"@ != "ambiguous_not_bitwise"@,
{
    reveal_strlit("unreachable_code");
    reveal_strlit("set_has_no_effect"); assert("unreachable_code"@[0] != "set_has_no_effect"@[0]);
    reveal_strlit("if_condition_determinate"); assert("unreachable_code"@[0] != "if_condition_determinate"@[0]);
    reveal_strlit("loop_condition_determinate"); assert("unreachable_code"@[0] != "loop_condition_determinate"@[0]);
    reveal_strlit("control_condition_static"); assert("unreachable_code"@[0] != "control_condition_static"@[0]);
    reveal_strlit("ambiguous_in_lhs"); assert("unreachable_code"@[0] != "ambiguous_in_lhs"@[0]);
    reveal_strlit("proc_has_no_parent"); assert("unreachable_code"@[0] != "proc_has_no_parent"@[0]);
    reveal_strlit("no_typehint_implicit_new"); assert("unreachable_code"@[0] != "no_typehint_implicit_new"@[0]);
    reveal_strlit("improper_index"); assert("unreachable_code"@[0] != "improper_index"@[0]);
    reveal_strlit("private_var"); assert("unreachable_code"@[0] != "private_var"@[0]);
    reveal_strlit("protected_var"); assert("unreachable_code"@[0] != "protected_var"@[0]);
    reveal_strlit("field_access_static_type"); assert("unreachable_code"@[0] != "field_access_static_type"@[0]);
    reveal_strlit("private_proc"); assert("unreachable_code"@[0] != "private_proc"@[0]);
    reveal_strlit("protected_proc"); assert("unreachable_code"@[0] != "protected_proc"@[0]);
    reveal_strlit("proc_call_static_type"); assert("unreachable_code"@[0] != "proc_call_static_type"@[0]);
    reveal_strlit("ambiguous_not_bitwise"); assert("unreachable_code"@[0] != "ambiguous_not_bitwise"@[0]);
}
impl AnalyzeProc {
    /// from o, only `say` may have been newly reported, and `must` has been
    pub open spec fn said(self, o: AnalyzeProc, must: Set<Location>, may: Set<Location>) -> bool {
        must.subset_of(self.context@) && o.context@.subset_of(self.context@) && self.context@.subset_of(o.context@.union(may))
    }
    pub open spec fn called(self, o: AnalyzeProc, must: bool, may: bool) -> bool {
        (o.calls_parent || must ==> self.calls_parent) && (self.calls_parent ==> o.calls_parent || may)
    }
    pub open spec fn quiet(self, o: AnalyzeProc) -> bool { self.context@ == o.context@ }
}
pub open spec fn pc_r(o: Option<&Expression>, all: bool) -> bool { match o { Some(e) => pc_e(*e, all), None => false } }

@@fn ast::Expression::as_term
@impl <<<impl Expression>>>
@ret r
@spec
    ensures match r { Some(t) => term_of(*self) == Some(*t), None => term_of(*self) is None },
@@fn ast::Term::valid_for_range
@impl <<<impl Term>>>
@ret r
@spec
    ensures forall|a: Expression, b: Expression, c: Option<Expression>| term_of(a) == Some(*self) && term_of(b) == Some(*other)
        && (match step { Some(x) => c == Some(*x), None => c is None }) ==> ((r == Some(true)) == #[trigger] runs(a, b, c)),
@@fn ast::Term::is_truthy
@impl <<<impl Term>>>
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<Term::Float(i) => Some(*i != 0f32)>>> => <<<Term::Float(i) => Some(vx_nonzero(i))>>>
@rewrite <<<Some(!s.is_empty())>>> => <<<Some(!vx_no_text(s))>>>
@rewrite <<<parts.iter().any(|(_, p)| !p.is_empty())>>> => <<<vx_any_text(parts)>>>
@spec
    ensures r == truth_t(*self),
@@verbatim
pub proof fn truth_lost(b: Option<bool>, v: Seq<Spanned<Follow>>, n: int, m: int)
    requires truth_f(b, v, n) is None, n <= m <= v.len(),
    ensures truth_f(b, v, m) is None,
    decreases m - n,
{ if n < m { truth_lost(b, v, n, m - 1); } }
@@fn ast::Expression::is_truthy
@impl <<<impl Expression>>>
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@opt forslice
@spec
    ensures r == truth(*self),
@loop 0
    invariant
        vx_s0@ == follow@, 0 <= vx_i0 <= vx_s0@.len(), truth_f(truth_t(term.elem), follow@, vx_i0 as int) == Some(truthy),
        *self == (Expression::Base { term: *term, follow: **vx_s0 }),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 start
    proof { if truth_f(truth_t(term.elem), follow@, vx_i0 + 1) is None { truth_lost(truth_t(term.elem), follow@, vx_i0 + 1, follow@.len() as int); } }
@ghost start
    proof { if let Expression::Base { term, follow } = self { if truth_t(term.elem) is None { truth_lost(None, follow@, 0, follow@.len() as int); } } }

@@fn ast::Term::as_kwarg_key
@impl <<<impl Term>>>
@ret r
@spec
    ensures r is Some ==> *self is Ident || *self is String,

@@fn chk::AnalyzeProc::visit_expression
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@sig <<<fn visit_expression(&mut self, location: Location, expression: &Expression, type_hint: Option<TypeRef>, local_vars: &mut VxLocals) -> Analysis>>>
@opt forslice
@rewrite <<<lty.static_ty == StaticType::Type(self.objtree.expect("/mob"))>>> => <<<lty.static_ty.vx_is(self.objtree.expect("/mob"))>>>
@rewrite <<<lty.static_ty == StaticType::Type(self.objtree.expect("/savefile"))>>> => <<<lty.static_ty.vx_is(self.objtree.expect("/savefile"))>>>
@rewrite <<<lty.static_ty == StaticType::Type(self.objtree.expect("/list"))>>> => <<<lty.static_ty.vx_is(self.objtree.expect("/list"))>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_e(*expression, false), pc_e(*expression, true)),
@loop 0
    invariant
        vx_s0@ == follow@, 0 <= vx_i0 <= vx_s0@.len(), *expression == (Expression::Base { term: *term, follow: **vx_s0 }),
        self.quiet(*old(self)),
        self.called(*old(self), pc_t(term.elem, false) || pc_follows(*follow, vx_i0 as int, false), pc_t(term.elem, true) || pc_follows(*follow, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@loop 1
    invariant 0 <= vx_i1 <= vx_s1@.len(), self.quiet(*old(self)), self.calls_parent == old(self).calls_parent,
    decreases vx_s1@.len() - vx_i1,
@ghost loop 1 start
    proof { kinds(); }
@ghost start
    proof { kinds(); }

@@verbatim
pub proof fn key_only(e: Expression)
    requires term_of(e) is Some, term_of(e)->0 is Ident || term_of(e)->0 is String,
    ensures !pc_e(e, true), !pc_e(e, false),
{
    if let Expression::Base { term, follow } = e { assert(!pc_follows(follow, 0, true) && !pc_follows(follow, 0, false)); assert(!pc_t(term.elem, true) && !pc_t(term.elem, false)); }
}
@@fn chk::AnalyzeProc::visit_arguments
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@sig <<<fn visit_arguments(&mut self, location: Location, args: &Vec<Expression>, local_vars: &mut VxLocals)>>>
@rewrite <<<in args>>> => <<<in args.iter()>>>
@opt forslice
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_es(*args, args@.len() as int, false), pc_es(*args, args@.len() as int, true)),
@loop 0
    invariant
        vx_s0@ == args@, 0 <= vx_i0 <= vx_s0@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_es(*args, vx_i0 as int, false), pc_es(*args, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof {
        if let Expression::AssignOp { op, lhs, rhs } = arg {
            if *argument_value != *arg { key_only(**lhs); }
            assert(pc_e(*arg, true) == (pc_e(**lhs, true) || pc_e(**rhs, true)));
            assert(pc_e(*arg, false) == (pc_e(**lhs, false) || pc_e(**rhs, false)));
        }
    }

@@fn chk::AnalyzeProc::check_negated_bitwise
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@sig <<<fn check_negated_bitwise(&mut self, lhs: &Expression, location: Location, bit_op: BinaryOp, bool_op: BinaryOp)>>>
@rewrite <<<follow.iter().any(|f| matches!(f.elem, Follow::Unary(UnaryOp::Not)))>>> => <<<vx_any_not(follow)>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
@ghost start
    proof { kinds(); }

@@verbatim
impl StaticType {
    #[verifier::external_body]
    pub fn vx_is(&self, t: TypeRef) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_any_not(v: &Vec<Spanned<Follow>>) -> (r: bool) { unimplemented!() }
impl UnaryOp {
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) { unimplemented!() }
    #[verifier::external_body]
    pub fn around(&self, s: &str) -> (r: String) { unimplemented!() }
}
impl AnalyzeProc {
    /// only builds a result
    #[verifier::external_body]
    pub fn visit_binary(&mut self, lhs: Analysis, rhs: Analysis, op: BinaryOp) -> (r: Analysis)
        ensures *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn static_type(&mut self, l: Location, p: &VxPath) -> (r: Analysis)
        ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
    { unimplemented!() }
    /// only notes procs that sleep
    #[verifier::external_body]
    pub fn check_type_sleepers(&mut self, ty: TypeRef, location: Location, n: &Ident)
        ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
    { unimplemented!() }
}
/// the list, or an empty one
#[verifier::external_body]
pub fn vx_given(o: &Option<Vec<Expression>>) -> (r: &Vec<Expression>) ensures match o { Some(v) => r@ == v@ && *r == *v, None => r@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn vx_none() -> (r: &'static Vec<Expression>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_pop(t: &TypeRef) -> Pop { unimplemented!() }
#[verifier::external_body]
pub fn vx_input(t: &Option<InputType>, o: &ObjectTree) -> Analysis { unimplemented!() }
#[verifier::external_body]
pub fn vx_may_sleep(n: &Ident) -> bool { unimplemented!() }

@@fn chk::AnalyzeProc::visit_new
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<Analysis::from>>> => <<<Analysis::vx_of>>>
@rewrite optional <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite optional <<<typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite optional <<<&decl.var_type.type_path>>> => <<<decl.var_type.vx_path()>>>
@rewrite optional <<<args.as_deref().unwrap_or_default()>>> => <<<vx_given(args)>>>
@sig <<<fn visit_new(&mut self, location: Location, typepath: TypeRef, args: &Option<Vec<Expression>>, local_vars: &mut VxLocals) -> Analysis>>>
@rewrite <<<typepath.get_proc("New")>>> => <<<typepath.vx_overload("New")>>>
@rewrite <<<args.as_ref().map_or(&[], |v| &v[..])>>> => <<<vx_given(args)>>>
@rewrite <<<typepath.path != "/list">>> => <<<!typepath.vx_path_is("/list")>>>
@rewrite <<<typepath.path != "/alist">>> => <<<!typepath.vx_path_is("/alist")>>>
@rewrite <<<typepath.path != "/vector">>> => <<<!typepath.vx_path_is("/vector")>>>
@rewrite <<<typepath.path != "/pixloc">>> => <<<!typepath.vx_path_is("/pixloc")>>>
@rewrite <<<typepath.path>>> => <<<typepath.vx_path()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, typepath)].into()>>> => <<<Analysis::empty()>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_args(*args, false), pc_args(*args, true)),

@@fn chk::AnalyzeProc::visit_term
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<Analysis::from>>> => <<<Analysis::vx_of>>>
@rewrite optional <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite optional <<<typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite optional <<<&decl.var_type.type_path>>> => <<<decl.var_type.vx_path()>>>
@rewrite optional <<<args.as_deref().unwrap_or_default()>>> => <<<vx_given(args)>>>
@sig <<<fn visit_term(&mut self, location: Location, term: &Term, type_hint: Option<TypeRef>, local_vars: &mut VxLocals) -> Analysis>>>
@opt forslice
@rewrite <<<Constant::from(*number)>>> => <<<Constant::vx_of(number)>>>
@rewrite <<<Constant::String(text.clone().into())>>> => <<<Constant::vx_of(text)>>>
@rewrite <<<Constant::Resource(text.clone().into())>>> => <<<Constant::vx_of(text)>>>
@rewrite <<<assumption_set![Assumption::IsNum(true)].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<assumption_set![Assumption::IsText(true)].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<if let Some(var) = local_vars.get(unscoped_name)>>> => <<<if let Some(var) = local_vars.vx_get(unscoped_name)>>>
@rewrite <<<var.analysis.clone().with_fix_hint(var.location, "add additional type info here")>>> => <<<var>>>
@rewrite <<<unscoped_name == "type">>> => <<<unscoped_name.vx_is("type")>>>
@rewrite <<<dm::constants::Pop::from_path_str(&ty.vx_path())>>> => <<<vx_pop(&ty)>>>
@rewrite <<<dm::constants::Pop::from_path_str(&self.ty.vx_path())>>> => <<<vx_pop(&self.ty)>>>
@rewrite <<<assumption_set![Assumption::IsPath(true, ty)]>>> => <<<VxSet::vx_any()>>>
@rewrite <<<assumption_set![Assumption::IsPath(true, nav.ty())]>>> => <<<VxSet::vx_any()>>>
@rewrite <<<assumption_set![Assumption::IsPath(true, self.ty)]>>> => <<<VxSet::vx_any()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/turf"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<input_type.unwrap_or_else(InputType::empty)>>> => <<<InputType::vx_or_none(input_type)>>>
@rewrite <<<input_type - InputType::NULL>>> => <<<input_type.vx_less(InputType::NULL)>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/mob"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/obj"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/area"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/icon"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<assumption_set![Assumption::IsType(true, self.objtree.expect("/sound"))].into()>>> => <<<Analysis::empty()>>>
@rewrite <<<FormatTypePath(&prefab.path)>>> => <<<0>>>
@rewrite <<<&prefab.path>>> => <<<prefab>>>
@rewrite <<<matches!(unscoped_name.as_str(), "sleep" | "alert" | "shell" | "winexists" | "winget")>>> => <<<vx_may_sleep(unscoped_name)>>>
@rewrite <<<insert_violator(self.proc_ref, unscoped_name, location)>>> => <<<insert_violator(self.proc_ref, "", location)>>>
@rewrite <<<unscoped_name == "__PROC__">>> => <<<unscoped_name.vx_is("__PROC__")>>>
@rewrite <<<unscoped_name == "SpacemanDMM_unlint">>> => <<<unscoped_name.vx_is("SpacemanDMM_unlint")>>>
@rewrite <<<unscoped_name == "SpacemanDMM_debug">>> => <<<unscoped_name.vx_is("SpacemanDMM_debug")>>>
@rewrite <<<eprintln!("SpacemanDMM_debug:");>>> => <<<>>>
@rewrite <<<eprintln!("    {:?}", self.visit_expression(location, arg, None, local_vars));>>> => <<<self.visit_expression(location, arg, None, local_vars);>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_t(*term, false), pc_t(*term, true)),
@loop 0
    invariant
        vx_s0@ == parts@, 0 <= vx_i0 <= vx_s0@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_parts(*parts, vx_i0 as int, false), pc_parts(*parts, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@loop 1
    invariant
        vx_s1@ == args@, 0 <= vx_i1 <= vx_s1@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_es(*args, vx_i1 as int, false), pc_es(*args, vx_i1 as int, true)),
    decreases vx_s1@.len() - vx_i1,
@loop 2
    invariant
        vx_s2@ == choices@, 0 <= vx_i2 <= vx_s2@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_choices(*choices, vx_i2 as int, false), pc_choices(*choices, vx_i2 as int, true)),
    decreases vx_s2@.len() - vx_i2,
@ghost loop 0 end
    proof {
        assert(pc_oe(parts@[vx_i0 - 1].0, true) == (match parts@[vx_i0 - 1].0 { Some(e) => pc_e(e, true), None => false }));
        assert(pc_oe(parts@[vx_i0 - 1].0, false) == (match parts@[vx_i0 - 1].0 { Some(e) => pc_e(e, false), None => false }));
    }
@ghost loop 2 end
    proof {
        assert(pc_oe(choices@[vx_i2 - 1].0, true) == (match choices@[vx_i2 - 1].0 { Some(e) => pc_e(e, true), None => false }));
        assert(pc_oe(choices@[vx_i2 - 1].0, false) == (match choices@[vx_i2 - 1].0 { Some(e) => pc_e(e, false), None => false }));
    }
@ghost start
    proof { kinds(); }

@@verbatim
impl TypeRef {
    pub fn get(&self) -> (r: &TypeRef) { self }
    #[verifier::external_body]
    pub fn pretty_path(&self) -> (r: &'static str) { unimplemented!() }
}
impl VarType {
    #[verifier::external_body]
    pub fn is_private(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_protected(&self) -> (r: bool) { unimplemented!() }
}
impl DMError {
    #[verifier::external_body]
    pub fn with_fix_hint(self, a: &Analysis) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
}
/// the type, name, ... of a procpath
#[verifier::external_body]
pub fn vx_procpath_field(n: &Ident) -> bool { unimplemented!() }
/// the path of a proc
#[verifier::external_body]
pub fn vx_proc_path(t: TypeRef, p: ProcRef) -> Pop { unimplemented!() }
#[verifier::external_body]
pub fn vx_uses_arglist(e: &Expression) -> bool { unimplemented!() }
/// what is said and kept about the name of an argument
impl AnalyzeProc {
    #[verifier::external_body]
    pub fn vx_keyword(&mut self, l: Location, src: TypeRef, proc: ProcRef, is_exact: bool, name: &str)
        ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
    { unimplemented!() }
    /// the call is noted; a private proc is reported
    #[verifier::external_body]
    pub fn vx_note_call(&mut self)
        ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
    { unimplemented!() }
}

@@verbatim
/// HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxHash<K, V> { _x: Vec<(K, V)> }
impl<K, V> VxHash<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) { unimplemented!() }
}
impl AnalyzeProc {
    /// vx_call_args below, and what is made of the results (check_filter_flag, the return type: no expression is visited)
    #[verifier::external_body]
    pub fn visit_call(&mut self, location: Location, src: TypeRef, proc: ProcRef, args: &Vec<Expression>, is_exact: bool, inherit_receiver: bool, local_vars: &mut VxLocals) -> (r: Analysis)
        ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_es(*args, args@.len() as int, false), pc_es(*args, args@.len() as int, true)),
    { unimplemented!() }
}
@@fn chk::AnalyzeProc::visit_call
@name vx_call_args
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@until <<<if proc.ty().is_root() && proc.name() == "astype">>>
@sig <<<fn vx_call_args(&mut self, location: Location, src: TypeRef, proc: ProcRef, args: &Vec<Expression>, is_exact: bool, inherit_receiver: bool, local_vars: &mut VxLocals)>>>
@opt forslice
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<HashMap::new()>>> => <<<VxHash::new()>>>
@rewrite <<<in args>>> => <<<in args.iter()>>>
@rewrite <<<proc.recurse_children(&mut |child_proc| { if child_proc.ty() == proc.ty() { return; } if child_proc.parameters.iter().any(|p| p.name == *name) { error.add_note(child_proc.location, format!("an override has this parameter: {child_proc}"),); } });>>> => <<<>>>
@rewrite <<<!proc.parameters.iter().any(|p| p.name == *name)>>> => <<<!proc.vx_has_param(name)>>>
@rewrite <<<self.env.used_kwargs.entry(format!("{}/proc/{}", src, proc.name())).or_insert_with(|| KwargInfo { location: proc.location, ..Default::default() }).called_at.entry(Ident::from_nonstatic(name)).and_modify(|ca| ca.others += 1).or_insert(CalledAt { location, others: 0, });>>> => <<<self.vx_keyword(location, src, proc, is_exact, name);>>>
@rewrite <<<callname.as_str() == "arglist">>> => <<<callname.vx_is("arglist")>>>
@rewrite <<<(proc.ty().is_root() && proc.name() == "animate")>>> => <<<proc.vx_animate()>>>
@rewrite <<<param_idx += 1;>>> => <<<>>>
@rewrite <<<self.env.call_tree.entry(self.proc_ref).or_default().push(CallEdge { proc, location, new_context: self.inside_newcontext != 0, src, is_exact, inherit_receiver, });>>> => <<<self.vx_note_call();>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_es(*args, args@.len() as int, false), pc_es(*args, args@.len() as int, true)),
@ghost start
    proof { kinds(); }
@loop 0
    invariant
        vx_s0@ == args@, 0 <= vx_i0 <= vx_s0@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_es(*args, vx_i0 as int, false), pc_es(*args, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof {
        if let Expression::AssignOp { op, lhs, rhs } = arg {
            if *argument_value != *arg { key_only(**lhs); }
            assert(pc_e(*arg, true) == (pc_e(**lhs, true) || pc_e(**rhs, true)));
            assert(pc_e(*arg, false) == (pc_e(**lhs, false) || pc_e(**rhs, false)));
        }
    }

@@fn chk::AnalyzeProc::check_operator_overload
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<Analysis::from>>> => <<<Analysis::vx_of>>>
@rewrite optional <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite optional <<<typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite optional <<<&decl.var_type.type_path>>> => <<<decl.var_type.vx_path()>>>
@sig <<<fn check_operator_overload(&mut self, rhs: Analysis, location: Location, operator: &str, local_vars: &mut VxLocals) -> Analysis>>>
@ret r
@rewrite <<<typeref.get_proc(operator)>>> => <<<typeref.vx_overload(operator)>>>
@rewrite <<<typeref, proc, &[], true>>> => <<<typeref, proc, vx_none(), true>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
@ghost start
    proof { kinds(); }

@@fn chk::AnalyzeProc::visit_unary
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<Analysis::from>>> => <<<Analysis::vx_of>>>
@rewrite optional <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite optional <<<typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite optional <<<&decl.var_type.type_path>>> => <<<decl.var_type.vx_path()>>>
@sig <<<fn visit_unary(&mut self, rhs: Analysis, op: &UnaryOp, location: Location, local_vars: &mut VxLocals) -> Analysis>>>
@ret r
@rewrite <<<assumption_set![Assumption::IsNum(true)]>>> => <<<0>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,

@@fn chk::AnalyzeProc::visit_follow
@impl <<<impl AnalyzeProc>>>
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite optional <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite optional <<<Analysis::from>>> => <<<Analysis::vx_of>>>
@rewrite optional <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite optional <<<typeref.path>>> => <<<typeref.vx_path()>>>
@rewrite optional <<<&decl.var_type.type_path>>> => <<<decl.var_type.vx_path()>>>
@sig <<<fn visit_follow(&mut self, location: Location, lhs: Analysis, rhs: &Follow, local_vars: &mut VxLocals) -> Analysis>>>
@ret r
@opt forslice
@rewrite <<<assumption_set![Assumption::IsPath(true, real_type)]>>> => <<<VxSet::vx_any()>>>
@rewrite <<<dm::ast::FormatTreePath(&typepop.path).to_string()>>> => <<<typepop.vx_path()>>>
@rewrite <<<typepop.vars.is_empty()>>> => <<<typepop.vx_no_vars()>>>
@rewrite <<<let mut path_elements: Vec<Ident> = real_type.get().path.split('/').filter(|elem| !elem.is_empty()).map(Ident::from_nonstatic).collect();>>> => <<<>>>
@rewrite <<<if let Some(declaration) = decl.get_declaration() { path_elements.push(declaration.kind.into()); }>>> => <<<>>>
@rewrite <<<path_elements.push(Ident::from_nonstatic(decl.name()));>>> => <<<>>>
@rewrite <<<dm::constants::Pop::from(path_elements.into_boxed_slice())>>> => <<<vx_proc_path(real_type, decl)>>>
@rewrite <<<typepath.as_str()>>> => <<<&typepath>>>
@rewrite <<<typeref.get_proc("operator[]")>>> => <<<typeref.vx_overload("operator[]")>>>
@rewrite <<<ty.vx_path() == "/callee">>> => <<<ty.vx_path_is("/callee")>>>
@rewrite <<<name == "proc">>> => <<<name.vx_is("proc")>>>
@rewrite <<<flags.is_private()>>> => <<<is_private()>>>
@rewrite <<<flags.is_protected()>>> => <<<is_protected()>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_f(*rhs, false), pc_f(*rhs, true)),
@loop 0
    invariant
        vx_s0@ == args@, 0 <= vx_i0 <= vx_s0@.len(), self.quiet(*old(self)),
        self.called(*old(self), pc_es(*args, vx_i0 as int, false), pc_es(*args, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 end
    proof {
        if let Expression::AssignOp { op, lhs, rhs } = arg {
            if *argument_value != *arg { key_only(**lhs); }
            assert(pc_e(*arg, true) == (pc_e(**lhs, true) || pc_e(**rhs, true)));
            assert(pc_e(*arg, false) == (pc_e(**lhs, false) || pc_e(**rhs, false)));
        }
    }
@ghost start
    proof { kinds(); }


@@fn chk::AnalyzeProc::loop_condition_check
@impl <<<impl AnalyzeProc>>>
@sig <<<fn loop_condition_check(&mut self, location: Location, expression: &Expression)>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
@ghost start
    proof { kinds(); }

@@fn chk::AnalyzeProc::visit_control_condition
@impl <<<impl AnalyzeProc>>>
@sig <<<fn visit_control_condition(&mut self, location: Location, expression: &Expression)>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).calls_parent == old(self).calls_parent,
@ghost start
    proof { kinds(); }

@@fn chk::AnalyzeProc::visit_var
@impl <<<impl AnalyzeProc>>>
@sig <<<fn visit_var(&mut self, location: Location, var_type: &VarType, name: &Ident, value: Option<&Expression>, local_vars: &mut VxLocals)>>>
@rewrite <<<&var_type.type_path>>> => <<<var_type.vx_path()>>>
@rewrite <<<local_vars.insert(name.clone(), LocalVar { location, analysis })>>> => <<<local_vars.vx_add(name, location, analysis)>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_r(value, false), pc_r(value, true)),

@@fn chk::AnalyzeProc::visit_var_stmt
@impl <<<impl AnalyzeProc>>>
@sig <<<fn visit_var_stmt(&mut self, location: Location, var: &VarStatement, local_vars: &mut VxLocals)>>>
@spec
    ensures final(self).quiet(*old(self)), final(self).called(*old(self), pc_oe(var.value, false), pc_oe(var.value, true)),

@@fn chk::AnalyzeProc::visit_block
@impl <<<impl AnalyzeProc>>>
@sig <<<fn visit_block(&mut self, block: &Vec<Spanned<Statement>>, local_vars: &mut VxLocals, mut setting_allowed: bool) -> ControlFlow>>>
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@opt forslice
@rewrite <<<name.starts_with("SpacemanDMM_")>>> => <<<name.vx_directive()>>>
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@spec
    ensures
        r.fair(out_to(*block, block@.len() as int)),
        !loose_to(*block, block@.len() as int) ==> r.steady(quits_to(*block, block@.len() as int)),
        final(self).said(*old(self), dead_to(*block, block@.len() as int, false), dead_to(*block, block@.len() as int, true)),
        final(self).called(*old(self), pcs_to(*block, block@.len() as int, false), pcs_to(*block, block@.len() as int, true)),
@loop 0
    invariant
        vx_s0@ == block@, 0 <= vx_i0 <= vx_s0@.len(),
        term.fair(out_to(*block, vx_i0 as int)),
        !loose_to(*block, vx_i0 as int) ==> term.steady(quits_to(*block, vx_i0 as int)),
        reported ==> !term.fuzzy && term.flag() && vx_i0 > 0 && !out_to(*block, vx_i0 - 1).ends && !is_label(block@[vx_i0 - 1].elem),
        self.said(*old(self), dead_to(*block, vx_i0 as int, false), dead_to(*block, vx_i0 as int, true)),
        self.called(*old(self), pcs_to(*block, vx_i0 as int, false), pcs_to(*block, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 start
    proof { kinds(); }
    let ghost t0 = term;
@ghost before <<<continue;>>>
    proof { assert(!loose_to(*block, vx_i0 as int) ==> !loose_to(*block, vx_i0 - 1) && term == t0); }
@ghost before <<<term.merge(state);>>>
    let ghost t1 = term;
@ghost loop 0 end
    proof {
        if !loose_to(*block, vx_i0 as int) {
            assert(!loose_to(*block, vx_i0 - 1));
            assert(!loose(stmt.elem)); assert(!(stmt.elem is Label)); assert(t1 == t0); assert(t0.steady(quits_to(*block, vx_i0 - 1))); assert(state.steady(quits(stmt.elem)));
        }
    }
@ghost start
    proof { kinds(); }

@@fn chk::AnalyzeProc::visit_statement
@impl <<<impl AnalyzeProc>>>
@sig <<<fn visit_statement(&mut self, location: Location, statement: &Statement, local_vars: &mut VxLocals) -> ControlFlow>>>
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@opt forslice
@rewrite <<<.register(self.context)>>> => <<<.register(&mut self.context)>>>
@rewrite <<<!follow.iter().any(|f| matches!(f.elem, Follow::Call(..)))>>> => <<<!vx_any_call(follow)>>>
@rewrite <<<local_vars.get_mut(".").unwrap().analysis = return_type;>>> => <<<local_vars.vx_result(return_type);>>>
@rewrite <<<ty.path>>> => <<<ty.vx_path()>>>
@rewrite <<<name != "waitfor">>> => <<<!name.vx_is("waitfor")>>>
@rewrite <<<match value.as_term() { Some(Term::Int(0)) => true, Some(Term::Ident(i)) if i == "FALSE" => true, _ => false, }>>> => <<<vx_off(value)>>>
@rewrite <<<check_switch_rand_range(input, cases, default, location, self.context)>>> => <<<check_switch_rand_range(input, cases, default, location, &mut self.context)>>>
@rewrite <<<if let [dm::ast::Case::Exact(Expression::BinaryOp { op: BinaryOp::Or, .. }),] = case.elem[..]>>> => <<<if vx_lone_or(&case.elem)>>>
@rewrite <<<dm::ast::Case::Exact(expr)>>> => <<<Case::Exact(expr)>>>
@rewrite <<<dm::ast::Case::Range(start, end)>>> => <<<Case::Range(start, end)>>>
@rewrite <<<caught.split_last()>>> => <<<caught.vx_split_last()>>>
@rewrite <<<type_path.split_first()>>> => <<<type_path.vx_split_first()>>>
@rewrite <<<if first == "var">>> => <<<if first.vx_is("var")>>>
@rewrite <<<type_path.iter().map(ToOwned::to_owned).collect()>>> => <<<VarType::vx_of(type_path)>>>
@rewrite <<<VarType { flags: VarTypeFlags::default(), type_path: Box::new([]), input_type: InputType::default(), }>>> => <<<VarType::vx_untyped()>>>
@spec
    ensures
        r.fair(out(*statement)),
        !loose(*statement) ==> r.steady(quits(*statement)),
        final(self).said(*old(self), dead(*statement, false), dead(*statement, true)),
        final(self).called(*old(self), pcs(*statement, false), pcs(*statement, true)),
@ghost start
    proof { kinds(); }
@loop 0
    invariant
        vx_s0@ == arms@, 0 <= vx_i0 <= vx_s0@.len(), **vx_s0 == *arms,
        alwaystrue == always(*arms, vx_i0 as int),
        out_arms(*arms, vx_i0 as int) == nothing() || some,
        some ==> ({
            let o = out_arms(*arms, vx_i0 as int);
            &&& allterm.returns ==> !o.brk && !o.cont && !allterm.fuzzy && !allterm.breaks && !allterm.continues
            &&& allterm.flag() ==> !o.ends
            &&& o.brk || o.cont ==> allterm.fuzzy
        }),
        !some ==> allterm.returns && allterm.breaks && allterm.continues && !allterm.fuzzy,
        !loose_arms(*arms, vx_i0 as int) ==> !allterm.fuzzy && (some ==> allterm.steady(quits_arms(*arms, vx_i0 as int))),
        self.said(*old(self), dead_arms(*arms, vx_i0 as int, false), dead_arms(*arms, vx_i0 as int, true)),
        self.called(*old(self), pcs_arms(*arms, vx_i0 as int, false), pcs_arms(*arms, vx_i0 as int, true)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 0 start
    proof { kinds(); }
@ghost loop 0 before
    let ghost mut some = false;
@ghost loop 0 end
    proof { if truth(arms@[vx_i0 - 1].0.elem) != Some(false) { some = true; } }
@loop 1
    invariant
        vx_s1@ == vars@, 0 <= vx_i1 <= vx_s1@.len(),
        self.quiet(*old(self)),
        self.called(*old(self), pc_vars(*vars, vx_i1 as int, false), pc_vars(*vars, vx_i1 as int, true)),
    decreases vx_s1@.len() - vx_i1,
@loop 2
    invariant
        vx_s3@ == cases@, 0 <= vx_i3 <= vx_s3@.len(),
        vx_i3 > 0 ==> ({
            let o = out_cases(*cases, vx_i3 as int);
            &&& allterm.returns ==> !o.brk && !o.cont && !allterm.fuzzy && !allterm.breaks && !allterm.continues
            &&& allterm.flag() ==> !o.ends
            &&& o.brk || o.cont ==> allterm.fuzzy
        }),
        vx_i3 == 0 ==> out_cases(*cases, vx_i3 as int) == nothing() && quits_cases(*cases, vx_i3 as int) && allterm.returns && allterm.breaks && allterm.continues && !allterm.fuzzy,
        !loose_cases(*cases, vx_i3 as int) ==> !allterm.fuzzy && (vx_i3 > 0 ==> allterm.steady(quits_cases(*cases, vx_i3 as int))),
        self.said(*old(self), dead_cases(*cases, vx_i3 as int, false), dead_cases(*cases, vx_i3 as int, true)),
        self.called(*old(self), pc_e(**input, false) || pcs_cases(*cases, vx_i3 as int, false), pc_e(**input, true) || pcs_cases(*cases, vx_i3 as int, true)),
    decreases vx_s3@.len() - vx_i3,
@loop 3
    invariant
        vx_s2@ == case.elem@, 0 <= vx_i2 <= vx_s2@.len(), 0 < vx_i3 <= vx_s3@.len(), vx_s3@ == cases@, *case == vx_s3@[vx_i3 - 1].0, *block == vx_s3@[vx_i3 - 1].1,
        self.said(*old(self), dead_cases(*cases, vx_i3 - 1, false), dead_cases(*cases, vx_i3 - 1, true)),
        self.called(*old(self), pc_e(**input, false) || pcs_cases(*cases, vx_i3 - 1, false) || pc_case_to(case.elem, vx_i2 as int, false), pc_e(**input, true) || pcs_cases(*cases, vx_i3 - 1, true) || pc_case_to(case.elem, vx_i2 as int, true)),
    decreases vx_s2@.len() - vx_i2,
@loop 4
    invariant
        0 <= vx_i4 <= vx_s4@.len(),
        self.said(*old(self), dead_to(*try_block, try_block@.len() as int, false), dead_to(*try_block, try_block@.len() as int, true)),
        self.called(*old(self), pcs_to(*try_block, try_block@.len() as int, false), pcs_to(*try_block, try_block@.len() as int, true)),
    decreases vx_s4@.len() - vx_i4,
