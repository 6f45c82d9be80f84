// ---- f32: arithmetic is whatever the machine's is, through names; nothing about rounding is assumed
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Num { _x: f32 }
pub uninterp spec fn num_bits(b: u32) -> Num;
pub uninterp spec fn num_neg(a: Num) -> Num;
pub uninterp spec fn num_eq(a: Num, b: Num) -> bool;
/// total equality (OrderedFloat)
pub uninterp spec fn num_same(a: Num, b: Num) -> bool;
pub uninterp spec fn num_cmp(a: Num, b: Num) -> Option<Ordering>;
pub uninterp spec fn num_floor(a: Num) -> Num;
pub uninterp spec fn num_pow(a: Num, b: Num) -> Num;
pub uninterp spec fn num_sin(a: Num) -> Num;
pub uninterp spec fn num_cos(a: Num) -> Num;
pub uninterp spec fn num_asin(a: Num) -> Num;
pub uninterp spec fn num_acos(a: Num) -> Num;
pub uninterp spec fn num_radians(a: Num) -> Num;
pub uninterp spec fn num_degrees(a: Num) -> Num;
pub uninterp spec fn num_u32(a: Num) -> u32;
pub uninterp spec fn num_i32(a: Num) -> i32;
pub uninterp spec fn num_of_u32(a: u32) -> Num;
pub uninterp spec fn num_of_i32(a: i32) -> Num;
pub uninterp spec fn num_add(a: Num, b: Num) -> Num;
impl AddSpecImpl for Num {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Num) -> bool { true }
    open spec fn add_spec(self, o: Num) -> Num { num_add(self, o) }
}
impl core::ops::Add for Num { type Output = Num; #[verifier::external_body] fn add(self, o: Num) -> Num { unimplemented!() } }
pub uninterp spec fn num_sub(a: Num, b: Num) -> Num;
impl SubSpecImpl for Num {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Num) -> bool { true }
    open spec fn sub_spec(self, o: Num) -> Num { num_sub(self, o) }
}
impl core::ops::Sub for Num { type Output = Num; #[verifier::external_body] fn sub(self, o: Num) -> Num { unimplemented!() } }
pub uninterp spec fn num_mul(a: Num, b: Num) -> Num;
impl MulSpecImpl for Num {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Num) -> bool { true }
    open spec fn mul_spec(self, o: Num) -> Num { num_mul(self, o) }
}
impl core::ops::Mul for Num { type Output = Num; #[verifier::external_body] fn mul(self, o: Num) -> Num { unimplemented!() } }
pub uninterp spec fn num_div(a: Num, b: Num) -> Num;
impl DivSpecImpl for Num {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Num) -> bool { true }
    open spec fn div_spec(self, o: Num) -> Num { num_div(self, o) }
}
impl core::ops::Div for Num { type Output = Num; #[verifier::external_body] fn div(self, o: Num) -> Num { unimplemented!() } }
pub uninterp spec fn num_rem(a: Num, b: Num) -> Num;
impl RemSpecImpl for Num {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: Num) -> bool { true }
    open spec fn rem_spec(self, o: Num) -> Num { num_rem(self, o) }
}
impl core::ops::Rem for Num { type Output = Num; #[verifier::external_body] fn rem(self, o: Num) -> Num { unimplemented!() } }
impl NegSpecImpl for Num {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Num { num_neg(self) }
}
impl core::ops::Neg for Num { type Output = Num; #[verifier::external_body] fn neg(self) -> Num { unimplemented!() } }
impl PartialEqSpecImpl for Num {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Num) -> bool { num_eq(*self, *o) }
}
impl PartialEq for Num { #[verifier::external_body] fn eq(&self, o: &Num) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Num {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Num) -> Option<Ordering> { num_cmp(*self, *o) }
}
impl PartialOrd for Num { #[verifier::external_body] fn partial_cmp(&self, o: &Num) -> Option<Ordering> { unimplemented!() } }
impl Num {
    #[verifier::external_body] pub fn vx_bits(b: u32) -> (r: Num) ensures r == num_bits(b) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: Num) ensures r == num_floor(self) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: Num) -> (r: Num) ensures r == num_pow(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn to_radians(self) -> (r: Num) ensures r == num_radians(self) { unimplemented!() }
    #[verifier::external_body] pub fn to_degrees(self) -> (r: Num) ensures r == num_degrees(self) { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: Num) ensures r == num_sin(self) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: Num) ensures r == num_cos(self) { unimplemented!() }
    #[verifier::external_body] pub fn asin(self) -> (r: Num) ensures r == num_asin(self) { unimplemented!() }
    #[verifier::external_body] pub fn acos(self) -> (r: Num) ensures r == num_acos(self) { unimplemented!() }
}
pub trait VxTo_u32: Sized { spec fn as_u32(self) -> u32; fn vx_to_u32(self) -> (r: u32) ensures r == self.as_u32(); }
impl VxTo_u32 for Num { open spec fn as_u32(self) -> u32 { num_u32(self) } #[verifier::external_body] fn vx_to_u32(self) -> (r: u32) { unimplemented!() } }
impl VxTo_u32 for i32 { open spec fn as_u32(self) -> u32 { self as u32 } #[verifier::external_body] fn vx_to_u32(self) -> (r: u32) { unimplemented!() } }
impl VxTo_u32 for u32 { open spec fn as_u32(self) -> u32 { self } #[verifier::external_body] fn vx_to_u32(self) -> (r: u32) { unimplemented!() } }
pub trait VxTo_i32: Sized { spec fn as_i32(self) -> i32; fn vx_to_i32(self) -> (r: i32) ensures r == self.as_i32(); }
impl VxTo_i32 for Num { open spec fn as_i32(self) -> i32 { num_i32(self) } #[verifier::external_body] fn vx_to_i32(self) -> (r: i32) { unimplemented!() } }
impl VxTo_i32 for u32 { open spec fn as_i32(self) -> i32 { self as i32 } #[verifier::external_body] fn vx_to_i32(self) -> (r: i32) { unimplemented!() } }
impl VxTo_i32 for i32 { open spec fn as_i32(self) -> i32 { self } #[verifier::external_body] fn vx_to_i32(self) -> (r: i32) { unimplemented!() } }
pub trait VxTo_f32: Sized { spec fn as_f32(self) -> Num; fn vx_to_f32(self) -> (r: Num) ensures r == self.as_f32(); }
impl VxTo_f32 for Num { open spec fn as_f32(self) -> Num { self } #[verifier::external_body] fn vx_to_f32(self) -> (r: Num) { unimplemented!() } }
impl VxTo_f32 for u32 { open spec fn as_f32(self) -> Num { num_of_u32(self) } #[verifier::external_body] fn vx_to_f32(self) -> (r: Num) { unimplemented!() } }
impl VxTo_f32 for i32 { open spec fn as_f32(self) -> Num { num_of_i32(self) } #[verifier::external_body] fn vx_to_f32(self) -> (r: Num) { unimplemented!() } }
pub assume_specification [u32::checked_shl] (a: u32, b: u32) -> (r: Option<u32>)
    ensures r == (if b < 32 { Some(a << b) } else { None });
pub assume_specification [u32::checked_shr] (a: u32, b: u32) -> (r: Option<u32>)
    ensures r == (if b < 32 { Some(a >> b) } else { None });
