// ---- trusted stand-ins for panicking macros: reaching them is an obligation failure
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false,
{ panic!() }
pub fn vx_assert(b: bool)
    requires b,
{ }
/// vacuity probe (only used with vx --probe)
pub uninterp spec fn vx_probe(k: int) -> bool;
/// format! produces some string; its arguments are evaluated
#[verifier::external_body]
pub fn vx_format<T>(t: T) -> (r: String)
    no_unwind
{ String::new() }
// with @opt partial: a deliberate panic ends the run (partial correctness; the unit says where)
#[verifier::external_body]
pub fn vx_halt<T>() -> (r: T)
    ensures false,
{ panic!() }
#[verifier::external_body]
pub fn vx_check(b: bool)
    ensures b,
{ assert!(b) }
