@@verus
// the operators on references
impl<'a> AddSpecImpl<&'a Real> for Real { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'a Real) -> bool { true } open spec fn add_spec(self, o: &'a Real) -> Real { rl(self.r() + o.r()) } }
impl<'a> core::ops::Add<&'a Real> for Real { type Output = Real; #[verifier::external_body] fn add(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
impl<'b> AddSpecImpl<Real> for &'b Real { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Real) -> bool { true } open spec fn add_spec(self, o: Real) -> Real { rl(self.r() + o.r()) } }
impl<'b> core::ops::Add<Real> for &'b Real { type Output = Real; #[verifier::external_body] fn add(self, o: Real) -> (r: Real) { unimplemented!() } }
impl<'a, 'b> AddSpecImpl<&'a Real> for &'b Real { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'a Real) -> bool { true } open spec fn add_spec(self, o: &'a Real) -> Real { rl(self.r() + o.r()) } }
impl<'a, 'b> core::ops::Add<&'a Real> for &'b Real { type Output = Real; #[verifier::external_body] fn add(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
impl<'a> SubSpecImpl<&'a Real> for Real { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'a Real) -> bool { true } open spec fn sub_spec(self, o: &'a Real) -> Real { rl(self.r() - o.r()) } }
impl<'a> core::ops::Sub<&'a Real> for Real { type Output = Real; #[verifier::external_body] fn sub(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
impl<'b> SubSpecImpl<Real> for &'b Real { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Real) -> bool { true } open spec fn sub_spec(self, o: Real) -> Real { rl(self.r() - o.r()) } }
impl<'b> core::ops::Sub<Real> for &'b Real { type Output = Real; #[verifier::external_body] fn sub(self, o: Real) -> (r: Real) { unimplemented!() } }
impl<'a, 'b> SubSpecImpl<&'a Real> for &'b Real { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'a Real) -> bool { true } open spec fn sub_spec(self, o: &'a Real) -> Real { rl(self.r() - o.r()) } }
impl<'a, 'b> core::ops::Sub<&'a Real> for &'b Real { type Output = Real; #[verifier::external_body] fn sub(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
impl<'a> MulSpecImpl<&'a Real> for Real { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'a Real) -> bool { true } open spec fn mul_spec(self, o: &'a Real) -> Real { rl(self.r() * o.r()) } }
impl<'a> core::ops::Mul<&'a Real> for Real { type Output = Real; #[verifier::external_body] fn mul(self, o: &'a Real) -> (r: Real) ensures r.r() == o.r() * self.r() { unimplemented!() } }
impl<'b> MulSpecImpl<Real> for &'b Real { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Real) -> bool { true } open spec fn mul_spec(self, o: Real) -> Real { rl(self.r() * o.r()) } }
impl<'b> core::ops::Mul<Real> for &'b Real { type Output = Real; #[verifier::external_body] fn mul(self, o: Real) -> (r: Real) ensures r.r() == o.r() * self.r() { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'a Real> for &'b Real { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'a Real) -> bool { true } open spec fn mul_spec(self, o: &'a Real) -> Real { rl(self.r() * o.r()) } }
impl<'a, 'b> core::ops::Mul<&'a Real> for &'b Real { type Output = Real; #[verifier::external_body] fn mul(self, o: &'a Real) -> (r: Real) ensures r.r() == o.r() * self.r() { unimplemented!() } }
impl<'a> DivSpecImpl<&'a Real> for Real { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'a Real) -> bool { o.r() != 0real } open spec fn div_spec(self, o: &'a Real) -> Real { rl(rdiv(self.r(), o.r())) } }
impl<'a> core::ops::Div<&'a Real> for Real { type Output = Real; #[verifier::external_body] fn div(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
impl<'b> DivSpecImpl<Real> for &'b Real { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Real) -> bool { o.r() != 0real } open spec fn div_spec(self, o: Real) -> Real { rl(rdiv(self.r(), o.r())) } }
impl<'b> core::ops::Div<Real> for &'b Real { type Output = Real; #[verifier::external_body] fn div(self, o: Real) -> (r: Real) { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'a Real> for &'b Real { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'a Real) -> bool { o.r() != 0real } open spec fn div_spec(self, o: &'a Real) -> Real { rl(rdiv(self.r(), o.r())) } }
impl<'a, 'b> core::ops::Div<&'a Real> for &'b Real { type Output = Real; #[verifier::external_body] fn div(self, o: &'a Real) -> (r: Real) { unimplemented!() } }
