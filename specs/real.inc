@@verus
// ---------------- Real (f32 in the crate) taken as an exact real number ----------------
#[derive(Clone, Copy)]
pub struct Real { pub v: Ghost<real> }
pub type Time = Real;
pub open spec fn rdiv(x: real, d: real) -> real { x / d }
pub open spec fn rl(x: real) -> Real { Real { v: Ghost(x) } }
impl Real {
  pub open spec fn r(self) -> real { self.v@ }
  #[verifier::external_body] pub fn lit(n: i64, d: i64) -> (r: Real) requires d > 0 ensures r.r() == (n as real) / (d as real), d == 1 ==> r.r() == n as real { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: Real) ensures r.r() == (if self.r() < 0real { -self.r() } else { self.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: Real) requires self.r() >= 0real ensures r.r() >= 0real, r.r() * r.r() == self.r(), self.r() > 0real ==> r.r() > 0real { unimplemented!() }
  #[verifier::external_body] pub fn max(self, o: Real) -> (r: Real) ensures r.r() == (if self.r() < o.r() { o.r() } else { self.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: Real) -> (r: Real) ensures r.r() == (if self.r() < o.r() { self.r() } else { o.r() }) { unimplemented!() }
}
pub trait ToReal { spec fn rv(&self) -> real; fn to_real(&self) -> (r: Real) ensures r.r() == self.rv(); }
impl ToReal for Real { open spec fn rv(&self) -> real { self.r() } fn to_real(&self) -> (r: Real) { *self } }
impl ToReal for i32 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for i64 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for u8 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for u16 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for u32 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for u64 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl ToReal for usize { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_real(&self) -> (r: Real) { unimplemented!() } }
impl AddSpecImpl<Real> for Real { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Real) -> bool { true } open spec fn add_spec(self, o: Real) -> Real { rl(self.r() + o.r()) } }
impl core::ops::Add for Real { type Output = Real; #[verifier::external_body] fn add(self, o: Real) -> (r: Real) { unimplemented!() } }
impl AddAssignSpecImpl<Real> for Real { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: Real) -> bool { true } open spec fn add_assign_spec(&self, o: Real) -> &Self { &rl(self.r() + o.r()) } }
impl core::ops::AddAssign for Real { #[verifier::external_body] fn add_assign(&mut self, o: Real) { unimplemented!() } }
impl SubSpecImpl<Real> for Real { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Real) -> bool { true } open spec fn sub_spec(self, o: Real) -> Real { rl(self.r() - o.r()) } }
impl core::ops::Sub for Real { type Output = Real; #[verifier::external_body] fn sub(self, o: Real) -> (r: Real) { unimplemented!() } }
impl SubAssignSpecImpl<Real> for Real { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, o: Real) -> bool { true } open spec fn sub_assign_spec(&self, o: Real) -> &Self { &rl(self.r() - o.r()) } }
impl core::ops::SubAssign for Real { #[verifier::external_body] fn sub_assign(&mut self, o: Real) { unimplemented!() } }
impl MulSpecImpl<Real> for Real { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Real) -> bool { true } open spec fn mul_spec(self, o: Real) -> Real { rl(self.r() * o.r()) } }
impl core::ops::Mul for Real { type Output = Real; #[verifier::external_body] fn mul(self, o: Real) -> (r: Real) ensures r.r() == o.r() * self.r() { unimplemented!() } }
impl MulAssignSpecImpl<Real> for Real { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, o: Real) -> bool { true } open spec fn mul_assign_spec(&self, o: Real) -> &Self { &rl(self.r() * o.r()) } }
impl core::ops::MulAssign for Real { #[verifier::external_body] fn mul_assign(&mut self, o: Real) { unimplemented!() } }
impl DivSpecImpl<Real> for Real { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Real) -> bool { o.r() != 0real } open spec fn div_spec(self, o: Real) -> Real { rl(rdiv(self.r(), o.r())) } }
impl core::ops::Div for Real { type Output = Real; #[verifier::external_body] fn div(self, o: Real) -> (r: Real) { unimplemented!() } }
impl DivAssignSpecImpl<Real> for Real { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, o: Real) -> bool { o.r() != 0real } open spec fn div_assign_spec(&self, o: Real) -> &Self { &rl(rdiv(self.r(), o.r())) } }
impl core::ops::DivAssign for Real { #[verifier::external_body] fn div_assign(&mut self, o: Real) { unimplemented!() } }
impl NegSpecImpl for Real { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Real { rl(-self.r()) } }
impl core::ops::Neg for Real { type Output = Real; #[verifier::external_body] fn neg(self) -> (r: Real) { unimplemented!() } }
impl PartialEqSpecImpl for Real { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Real) -> bool { self.r() == o.r() } }
impl PartialEq for Real { #[verifier::external_body] fn eq(&self, o: &Real) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Real { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Real) -> Option<core::cmp::Ordering> { Some(if self.r() < o.r() { core::cmp::Ordering::Less } else if self.r() == o.r() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for Real { #[verifier::external_body] fn partial_cmp(&self, o: &Real) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
