@@header
use vstd::prelude::*;
use vstd::multiset::Multiset;

@@source sw crates/dreamchecker/src/switch_rand_range.rs

@@include prelude.inc

@@verbatim
// ---- trusted stand-ins: expressions with their constant values, and what is reported
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Location { pub l: u64 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Severity { Error = 1, Warning = 2, Info = 3, Hint = 4 }
pub enum Component { Unspecified, DreamChecker }
pub fn vx_max(a: i32, b: i32) -> (r: i32) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
/// f32
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Num { _x: f32 }
/// ceil() as i32, floor() as i32
pub uninterp spec fn up(n: Num) -> i32;
pub uninterp spec fn down(n: Num) -> i32;
pub uninterp spec fn zero() -> Num;
#[verifier::external_body]
pub fn vx_up(n: Num) -> (r: i32) ensures r == up(n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_down(n: Num) -> (r: i32) ensures r == down(n) { unimplemented!() }
/// 0.
#[verifier::external_body]
pub fn vx_zero() -> (r: Num) ensures r == zero() { unimplemented!() }
#[verifier::external_body]
pub struct Expression { _x: u8 }
/// what it evaluates to, if it is a constant number
pub uninterp spec fn number(e: Expression) -> Option<Num>;
impl Expression {
    /// .to_owned().simple_evaluate(location).ok()?.to_float()
    #[verifier::external_body]
    pub fn vx_number(&self, l: Location) -> (r: Option<Num>) ensures r == number(*self) { unimplemented!() }
    /// the arguments, if it is rand(...)
    pub uninterp spec fn rand(self) -> Option<Seq<Expression>>;
    #[verifier::external_body]
    pub fn vx_rand(&self) -> (r: Option<(&Vec<Expression>, Location)>) ensures r is Some == self.rand() is Some, r is Some ==> (r->0).0@ == self.rand()->0 { unimplemented!() }
}
/// slice patterns
pub enum VxArgs<'a> { Two(&'a Expression, &'a Expression), One(&'a Expression), Other }
pub fn vx_args(v: &Vec<Expression>) -> (r: VxArgs<'_>)
    ensures match r { VxArgs::Two(a, b) => v@ == seq![*a, *b], VxArgs::One(a) => v@ == seq![*a], VxArgs::Other => v@.len() != 1 && v@.len() != 2 },
{
    if v.len() == 2 { proof { assert(v@ =~= seq![v@[0], v@[1]]); } VxArgs::Two(&v[0], &v[1]) }
    else if v.len() == 1 { proof { assert(v@ =~= seq![v@[0]]); } VxArgs::One(&v[0]) }
    else { VxArgs::Other }
}
pub struct Spanned<T> { pub location: Location, pub elem: T }
pub enum Case { Exact(Expression), Range(Expression, Expression) }
#[verifier::external_body]
pub struct Block { _x: u8 }
pub ghost struct Report { pub at: Location, pub what: Seq<int> }
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    pub uninterp spec fn view(&self) -> Report;
    /// the numbers in the message are part of the report
    #[verifier::external_body]
    pub fn vx_outside(l: Location, s: i32, e: i32, lo: i32, hi: i32) -> (r: DMError) ensures r@ == (Report { at: l, what: seq![s as int, e as int, lo as int, hi as int] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_gap(l: Location, lo: i32, hi: i32, x: i32) -> (r: DMError) ensures r@ == (Report { at: l, what: seq![lo as int, hi as int, x as int] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_component(self, c: Component) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_severity(self, s: Severity) -> (r: DMError) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn register(self, c: &mut Context) ensures final(c)@ == old(c)@.insert(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { _x: u8 }
impl Context { pub uninterp spec fn view(&self) -> Multiset<Report>; }
pub type SwitchCases = Vec<(Spanned<Vec<Case>>, Block)>;
/// [T]::sort_by_key(|a| a.0)
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<(i32, i32)>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0,
{ unimplemented!() }

// ---------------------------------------------------------------- what is said
/// the numbers a case is for, if they are constant
pub open spec fn span(c: Case) -> Option<(int, int)> {
    match c {
        Case::Exact(e) => match number(e) { Some(n) => Some((up(n) as int, down(n) as int)), None => None },
        Case::Range(a, b) => match (number(a), number(b)) { (Some(m), Some(n)) => Some((up(m) as int, down(n) as int)), _ => None },
    }
}
/// rand(H) and rand(L, H) of constants
pub open spec fn bounds(e: Expression) -> Option<(int, int)> {
    match e.rand() {
        Some(a) => if a.len() == 1 { match number(a[0]) { Some(n) => Some((up(zero()) as int, down(n) as int)), None => None } }
            else if a.len() == 2 { match (number(a[0]), number(a[1])) { (Some(m), Some(n)) => Some((up(m) as int, down(n) as int)), _ => None } }
            else { None },
        None => None,
    }
}
pub open spec fn outside(c: Case, lo: int, hi: int) -> bool { span(c) is Some && ((span(c)->0).0 > hi || (span(c)->0).1 < lo) }
/// the cases of one branch that never trigger, then those of all
pub open spec fn never(v: Seq<Case>, n: int, at: Location, lo: int, hi: int) -> Multiset<Report>
    decreases n,
{
    if n <= 0 || n > v.len() { Multiset::empty() } else {
        let m = never(v, n - 1, at, lo, hi);
        if outside(v[n - 1], lo, hi) { m.insert(Report { at, what: seq![(span(v[n - 1])->0).0, (span(v[n - 1])->0).1, lo, hi] }) } else { m }
    }
}
pub open spec fn nevers(v: SwitchCases, n: int, lo: int, hi: int) -> Multiset<Report>
    decreases n,
{ if n <= 0 || n > v@.len() { Multiset::empty() } else { nevers(v, n - 1, lo, hi).add(never(v@[n - 1].0.elem@, v@[n - 1].0.elem@.len() as int, v@[n - 1].0.location, lo, hi)) } }
/// a case, or one of several, that is not constant
pub open spec fn vague_case(v: Seq<Case>, n: int) -> bool
    decreases n,
{ n > 0 && n <= v.len() && (vague_case(v, n - 1) || span(v[n - 1]) is None) }
pub open spec fn vague(v: SwitchCases, n: int) -> bool
    decreases n,
{ n > 0 && n <= v@.len() && (vague(v, n - 1) || vague_case(v@[n - 1].0.elem@, v@[n - 1].0.elem@.len() as int)) }
/// x triggers one of them
pub open spec fn hit_case(v: Seq<Case>, n: int, x: int) -> bool
    decreases n,
{ n > 0 && n <= v.len() && (hit_case(v, n - 1, x) || (span(v[n - 1]) is Some && (span(v[n - 1])->0).0 <= x <= (span(v[n - 1])->0).1)) }
pub open spec fn hit(v: SwitchCases, n: int, x: int) -> bool
    decreases n,
{ n > 0 && n <= v@.len() && (hit(v, n - 1, x) || hit_case(v@[n - 1].0.elem@, v@[n - 1].0.elem@.len() as int, x)) }
/// x is the first number of lo..hi that no case is for
pub open spec fn gap(v: SwitchCases, lo: int, hi: int, x: int) -> bool {
    lo <= x <= hi && !hit(v, v@.len() as int, x) && forall|y: int| lo <= y < x ==> hit(v, v@.len() as int, y)
}
pub open spec fn within(r: Seq<(i32, i32)>, x: int) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 <= x <= r[i].1 }
pub proof fn same(a: Seq<(i32, i32)>, b: Seq<(i32, i32)>, x: int)
    requires a.to_multiset() == b.to_multiset(),
    ensures within(a, x) ==> within(b, x),
{
    if within(a, x) {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= x <= a[i].1;
        a.to_multiset_ensures();
        b.to_multiset_ensures();
        assert(a.contains(a[i]));
        assert(b.to_multiset().count(a[i]) > 0);
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(b[j].0 <= x <= b[j].1);
    }
}

@@fn sw::get_case_range
@ret r
@sig <<<fn get_case_range(case: &Case, location: Location) -> Option<(Num, Num)>>>>
@rewrite <<<value.to_owned().simple_evaluate(location).ok()?.to_float()?>>> => <<<value.vx_number(location)?>>>
@rewrite <<<min.to_owned().simple_evaluate(location).ok()?.to_float()?>>> => <<<min.vx_number(location)?>>>
@rewrite <<<max.to_owned().simple_evaluate(location).ok()?.to_float()?>>> => <<<max.vx_number(location)?>>>
@spec
    ensures match r { Some((a, b)) => span(*case) == Some((up(a) as int, down(b) as int)), None => span(*case) is None },

@@fn sw::get_rand_range
@ret r
@rewrite <<<let (term, location) = match maybe_rand { Expression::Base { term, follow } if follow.is_empty() => (&term.elem, term.location), _ => return None, };>>> => <<<>>>
@rewrite <<<let rand_args: &[Expression] = match term { Term::Call(proc_name, args) if proc_name.as_str() == "rand" => args.borrow(), _ => return None, };>>> => <<<let (rand_args, location) = match maybe_rand.vx_rand() { Some(x) => x, None => return None };>>>
@rewrite <<<match rand_args>>> => <<<match vx_args(rand_args)>>>
@rewrite <<<[min, max] =>>>> => <<<VxArgs::Two(min, max) =>>>>
@rewrite <<<[max] =>>>> => <<<VxArgs::One(max) =>>>>
@rewrite <<<min.to_owned().simple_evaluate(location).ok()?.to_float()?>>> => <<<min.vx_number(location)?>>>
@rewrite <<<max.to_owned().simple_evaluate(location).ok()?.to_float()?>>> => <<<max.vx_number(location)?>>>
@rewrite <<<0.>>> => <<<vx_zero()>>>
@rewrite <<<min.ceil() as i32>>> => <<<vx_up(min)>>>
@rewrite <<<max.floor() as i32>>> => <<<vx_down(max)>>>
@spec
    ensures match r { Some((a, b)) => bounds(*maybe_rand) == Some((a as int, b as int)), None => bounds(*maybe_rand) is None },

@@fn sw::check_switch_rand_range
@sig <<<fn check_switch_rand_range(input: &Expression, cases: &SwitchCases, default: &Option<Block>, location: Location, context: &mut Context)>>>
@opt forslice
@rewrite <<<start.ceil() as i32>>> => <<<vx_up(start)>>>
@rewrite <<<end.floor() as i32>>> => <<<vx_down(end)>>>
@rewrite <<<case_ranges.sort_by_key(|a| a.0);>>> => <<<vx_sort(&mut case_ranges);>>>
@rewrite <<<DMError::new(location, format!("Case range '{start} to {end}' will never trigger as it is outside the rand() range {rand_start} to {rand_end}"))>>> => <<<DMError::vx_outside(location, start, end, rand_start, rand_end)>>>
@rewrite <<<DMError::new(location, format!("Switch branches on rand() with range {rand_start} to {rand_end} but no case branch triggers for {first_uncovered}"),)>>> => <<<DMError::vx_gap(location, rand_start, rand_end, first_uncovered)>>>
@rewrite <<<dm::Component>>> => <<<Component>>>
@rewrite <<<std::cmp::max(first_uncovered, end + 1)>>> => <<<vx_max(first_uncovered, end + 1)>>>
@spec
    ensures ({
        let n = cases@.len() as int;
        match bounds(*input) {
            None => final(context)@ == old(context)@,
            Some((lo, hi)) => {
                let said = old(context)@.add(nevers(*cases, n, lo, hi));
                if default is Some || vague(*cases, n) || forall|x: int| lo <= x <= hi ==> hit(*cases, n, x) { final(context)@ == said }
                else { exists|x: int| gap(*cases, lo, hi, x) && final(context)@ == said.insert(Report { at: location, what: seq![lo, hi, x] }) }
            },
        }
    }),
@loop 0
    invariant
        vx_s1@ == cases@, 0 <= vx_i1 <= vx_s1@.len(), bounds(*input) == Some((rand_start as int, rand_end as int)),
        any_unknown == vague(*cases, vx_i1 as int),
        context@ == old(context)@.add(nevers(*cases, vx_i1 as int, rand_start as int, rand_end as int)),
        forall|x: int| rand_start <= x <= rand_end ==> (#[trigger] hit(*cases, vx_i1 as int, x)) == within(case_ranges@, x),
    decreases vx_s1@.len() - vx_i1,
@loop 1
    invariant
        0 < vx_i1 <= vx_s1@.len(), vx_s1@ == cases@, *case_block == cases@[vx_i1 - 1],
        vx_s0@ == case_block.0.elem@, 0 <= vx_i0 <= vx_s0@.len(), location == case_block.0.location,
        any_unknown == (vague(*cases, vx_i1 - 1) || vague_case(vx_s0@, vx_i0 as int)),
        context@ == old(context)@.add(nevers(*cases, vx_i1 - 1, rand_start as int, rand_end as int)).add(never(vx_s0@, vx_i0 as int, location, rand_start as int, rand_end as int)),
        forall|x: int| rand_start <= x <= rand_end ==> #[trigger] within(case_ranges@, x) == (hit(*cases, vx_i1 - 1, x) || hit_case(vx_s0@, vx_i0 as int, x)),
    decreases vx_s0@.len() - vx_i0,
@ghost loop 1 start
    let ghost r0 = case_ranges@;
@ghost loop 1 end
    proof {
        if case_ranges@ != r0 {
            let k = r0.len() as int;
            assert forall|x: int| #[trigger] within(case_ranges@, x) == (within(r0, x) || (case_ranges@[k].0 <= x <= case_ranges@[k].1)) by {
                if within(r0, x) { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).0 <= x <= r0[i].1; assert(case_ranges@[i] == r0[i]); }
                if within(case_ranges@, x) { let i = choose|i: int| 0 <= i < case_ranges@.len() && (#[trigger] case_ranges@[i]).0 <= x <= case_ranges@[i].1; if i < k { assert(r0[i] == case_ranges@[i]); } }
            }
        }
        assert forall|x: int| rand_start <= x <= rand_end implies #[trigger] within(case_ranges@, x) == (hit(*cases, vx_i1 - 1, x) || hit_case(vx_s0@, vx_i0 as int, x)) by {
            assert(within(r0, x) == (hit(*cases, vx_i1 - 1, x) || hit_case(vx_s0@, vx_i0 - 1, x)));
        }
    }
@ghost before <<<vx_sort(&mut case_ranges);>>>
    let ghost r1 = case_ranges@;
@ghost after <<<vx_sort(&mut case_ranges);>>>
    proof {
        assert forall|x: int| #[trigger] within(r1, x) == within(case_ranges@, x) by { same(r1, case_ranges@, x); same(case_ranges@, r1, x); }
    }
@loop 2
    invariant_except_break
        forall|x: int| rand_start <= x < first_uncovered ==> #[trigger] within(case_ranges@, x),
        forall|i: int| 0 <= i < vx_i2 ==> (#[trigger] case_ranges@[i]).1 < first_uncovered,
    invariant
        vx_s2@ == case_ranges@, 0 <= vx_i2 <= vx_s2@.len(), rand_start <= first_uncovered,
        bounds(*input) == Some((rand_start as int, rand_end as int)), default is None, !vague(*cases, cases@.len() as int),
        context@ == old(context)@.add(nevers(*cases, cases@.len() as int, rand_start as int, rand_end as int)),
        forall|x: int| rand_start <= x <= rand_end ==> (#[trigger] hit(*cases, cases@.len() as int, x)) == within(case_ranges@, x),
        forall|i: int, j: int| 0 <= i <= j < case_ranges@.len() ==> (#[trigger] case_ranges@[i]).0 <= (#[trigger] case_ranges@[j]).0,
    ensures
        forall|x: int| rand_start <= x < first_uncovered ==> #[trigger] within(case_ranges@, x),
        !within(case_ranges@, first_uncovered as int),
    decreases vx_s2@.len() - vx_i2,
@ghost loop 2 start
    let ghost f0 = first_uncovered;
@ghost before <<<break;>>>
    proof {
        if within(case_ranges@, first_uncovered as int) {
            let i = choose|i: int| 0 <= i < case_ranges@.len() && (#[trigger] case_ranges@[i]).0 <= first_uncovered <= case_ranges@[i].1;
            assert(i >= vx_i2 - 1);
            assert(case_ranges@[vx_i2 - 1].0 <= case_ranges@[i].0);
        }
    }
@ghost before <<<return;>>> #2
    proof {
        assert forall|x: int| rand_start <= x <= rand_end implies #[trigger] hit(*cases, cases@.len() as int, x) by {
            if x >= f0 { assert(case_ranges@[vx_i2 - 1].0 <= x <= case_ranges@[vx_i2 - 1].1); }
        }
    }
@ghost loop 2 end
    proof {
        assert forall|x: int| rand_start <= x < first_uncovered implies #[trigger] within(case_ranges@, x) by {
            if x >= f0 { assert(case_ranges@[vx_i2 - 1].0 <= x <= case_ranges@[vx_i2 - 1].1); }
        }
    }
@ghost end
    proof {
        if first_uncovered <= rand_end {
            assert(gap(*cases, rand_start as int, rand_end as int, first_uncovered as int)) by {
                assert(hit(*cases, cases@.len() as int, first_uncovered as int) == within(case_ranges@, first_uncovered as int));
            }
        }
    }
